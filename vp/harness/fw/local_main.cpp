// Operations that treat each cell on its own
#include "local.hpp"

namespace {

    void local(pt::Case& c)
    {
        static fw::Operations const operations = []()
        {
            fw::Operations o;
            using namespace fw;
            for (auto const& f :
                 {unary_float_operations, unary_double_operations, unary_other_operations, integer_operations,
                  unsigned_operations, float_operations, double_operations, comparison_operations,
                  comparison_double_operations, logical_operations, where_operations, cast_operations,
                  cast_float_operations, default_operations})
            {
                append(o, f());
            }
            return o;
        }();
        auto const& operation = operations[c.draw(operations.size() - 1)];
        c.notes("operation: ", operation.name);
        c.label("operation: " + operation.name);
        operation.check(c);
    }

}  // Anonymous namespace

int main(int argc, char** argv)
{
    return pt::main(
        argc, argv,
        std::vector<pt::Property>{
            {"F04", "the array has several partitions, so the result is assembled from several tasks", local, 100000, 2000000}});
}
