// Checks of routes along cells in decreasing order of their value
#include "fw.hpp"
#include "../source/routing_operation/walk/cell_counter.cpp"

namespace fw {

    Operations order_float_operations();
    Operations order_double_operations();
    Operations order_int32_operations();
    Operations order_int64_operations();

}  // namespace fw

namespace {

    void order(pt::Case& c)
    {
        static fw::Operations const operations = []()
        {
            fw::Operations o;
            fw::append(o, fw::order_float_operations());
            fw::append(o, fw::order_double_operations());
            fw::append(o, fw::order_int32_operations());
            fw::append(o, fw::order_int64_operations());
            return o;
        }();
        auto const& operation = operations[c.draw(operations.size() - 1)];
        c.notes("operation: ", operation.name);
        c.label("operation: " + operation.name);
        operation.check(c);
    }

}  // Anonymous namespace

int main(int argc, char** argv)
{
    return pt::main(argc, argv, std::vector<pt::Property>{{"F10", "a route visits several partitions", order, 80000, 1500000}});
}
