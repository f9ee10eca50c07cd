#include "focal.hpp"

namespace {

    using Function = fw::Operations (*)();

    fw::Operations collect(std::vector<Function> const& functions)
    {
        fw::Operations o;
        for (auto const& f : functions) fw::append(o, f());
        return o;
    }

    void focal(pt::Case& c)
    {
        static fw::Operations const operations = collect(
            {fw::focal_generic_operations, fw::focal_terrain_operations, fw::focal_integer_operations,
             fw::focal_float_operations});
        auto const& operation = operations[c.draw(operations.size() - 1)];
        c.notes("operation: ", operation.name);
        c.label("operation: " + operation.name);
        operation.check(c);
    }

}  // Anonymous namespace

int main(int argc, char** argv)
{
    return pt::main(
        argc, argv,
        std::vector<pt::Property>{
            {"F07", "the array has several partitions, and cells depend on values in other partitions", focal, 20000, 400000}});
}
