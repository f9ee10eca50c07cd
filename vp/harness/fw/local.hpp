#pragma once
#include "fw.hpp"

namespace fw {

    // Each of these is defined in a translation unit of its own
    Operations unary_float_operations();
    Operations unary_double_operations();
    Operations unary_other_operations();
    Operations integer_operations();
    Operations unsigned_operations();
    Operations float_operations();
    Operations double_operations();
    Operations comparison_operations();
    Operations comparison_double_operations();
    Operations logical_operations();
    Operations where_operations();
    Operations cast_operations();
    Operations cast_float_operations();
    Operations default_operations();

}  // namespace fw
