#include "route.hpp"

namespace {

    using Function = fw::Operations (*)();

    fw::Operations collect(std::vector<Function> const& functions)
    {
        fw::Operations o;
        for (auto const& f : functions) fw::append(o, f());
        return o;
    }

    void route(pt::Case& c)
    {
        static fw::Operations const operations = collect(
            {fw::route_accu_operations, fw::route_threshold_operations, fw::route_fraction_operations,
             fw::route_capacity_operations, fw::route_trigger_operations, fw::route_local_operations});
        auto const& operation = operations[c.draw(operations.size() - 1)];
        c.notes("operation: ", operation.name);
        c.label("operation: " + operation.name);
        operation.check(c);
    }

}  // Anonymous namespace

int main(int argc, char** argv)
{
    return pt::main(
        argc, argv,
        std::vector<pt::Property>{{"F08", "cells drain into cells that are located in another partition", route, 25000, 500000}});
}


namespace fw {

    Layout route_layout(Case& c)
    {
        Layout result;
        for (int d = 0; d < 2; ++d)
        {
            Count const extent = 1 + Count(c.pick<int>({1, 2, 3, 4, 0}));
            Count const count = 1 + Count(c.chance(80) ? c.draw(2) : c.draw(3));
            // The last partition can be a smaller one
            Count const rest = extent > 1 && c.chance(50) ? 1 + Count(c.draw(std::uint64_t(extent - 2))) : 0;
            result.partition[d] = extent;
            result.array[d] = count * extent + rest;
        }
        return result;
    }

}  // namespace fw
