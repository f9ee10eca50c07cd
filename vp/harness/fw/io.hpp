// Checks of I/O by the framework, and of the order of tasks
#pragma once
#include "fw.hpp"

namespace fw {

    Operations io_lue_i32_operations();
    Operations io_lue_double_operations();
    Operations io_gdal_operations_0();
    Operations io_gdal_operations_1();
    Operations io_gdal_operations_2();
    Operations io_gdal_operations_3();
    Operations io_gdal_operations_4();


    //! Array whose partitions become ready later, in some order
    template<typename T>
    Array<T> pending(Case& c, Array<T> array)
    {
        using Partition = lue::ArrayPartition<T, 2>;
        for (Partition& partition : array.partitions())
        {
            unsigned const delay = unsigned(c.draw(6));
            if (delay)
            {
                partition = hpx::async(
                    [delay, partition]()
                    {
                        for (unsigned i = 0; i < delay; ++i) hpx::sim::scheduler().yield();
                        return partition;
                    });
            }
        }
        return array;
    }


    //! Let some of the tasks run, for a while
    inline void progress(Case& c)
    {
        auto const n = c.chance(60) ? c.draw(12) : 0;
        for (std::uint64_t i = 0; i < n; ++i) hpx::sim::scheduler().yield();
    }

}  // namespace fw
