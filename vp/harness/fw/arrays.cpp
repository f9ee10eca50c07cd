// The arrays that the harnesses use
#define FW_INSTANTIATE
#include "fw.hpp"

#define FW_CLASSES(T)                                                                                        \
    template class lue::ArrayPartition<T, 2>;                                                                \
    template class lue::server::ArrayPartition<T, 2>;                                                        \
    template class lue::PartitionedArray<T, 2>;

#if FW_GROUP == 0
FW_CLASSES(fw::U8)
FW_CLASSES(fw::U64)
#elif FW_GROUP == 1
FW_CLASSES(fw::I32)
FW_CLASSES(fw::U32)
#elif FW_GROUP == 2
FW_CLASSES(float)
FW_CLASSES(fw::I64)
#else
FW_CLASSES(double)
#endif
