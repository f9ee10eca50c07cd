#include "zonal.hpp"

namespace {

    using Function = fw::Operations (*)();

    fw::Operations collect(std::vector<Function> const& functions)
    {
        fw::Operations o;
        for (auto const& f : functions) fw::append(o, f());
        return o;
    }

    void pick(pt::Case& c, fw::Operations const& operations)
    {
        auto const& operation = operations[c.draw(operations.size() - 1)];
        c.notes("operation: ", operation.name);
        c.label("operation: " + operation.name);
        operation.check(c);
    }

    void aggregation(pt::Case& c)
    {
        static fw::Operations const operations = collect(
            {fw::aggregate_operations, fw::aggregate_float_operations, fw::zonal_integer_operations,
             fw::zonal_float_operations});
        pick(c, operations);
    }

    void creation(pt::Case& c)
    {
        static fw::Operations const operations = collect({fw::identity_operations, fw::creation_operations});
        pick(c, operations);
    }

}  // Anonymous namespace

int main(int argc, char** argv)
{
    return pt::main(
        argc, argv,
        std::vector<pt::Property>{
            {"F05", "the array has several partitions, the results of which must be merged", aggregation, 120000, 2500000},
            {"F06", "the array has several partitions", creation, 80000, 1500000}});
}
