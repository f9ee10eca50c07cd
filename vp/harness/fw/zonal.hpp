#pragma once
#include "fw.hpp"

namespace fw {

    Operations aggregate_operations();
    Operations aggregate_float_operations();
    Operations zonal_integer_operations();
    Operations zonal_float_operations();
    Operations identity_operations();
    Operations creation_operations();

}  // namespace fw
