// Creation of arrays, and in-place changes
#include "local_check.hpp"
#include "zonal.hpp"
#include "lue/framework/algorithm/array_like.hpp"
#include "lue/framework/algorithm/copy.hpp"
#include "lue/framework/algorithm/fill.hpp"
#include "lue/framework/algorithm/range.hpp"
#include "lue/framework/algorithm/definition/normal.hpp"
#include "lue/framework/algorithm/definition/resample.hpp"
#include "lue/framework/algorithm/definition/uniform.hpp"
#include "lue/framework/algorithm/value_policies/normal.hpp"
#include "lue/framework/algorithm/value_policies/resample.hpp"
#include "lue/framework/algorithm/value_policies/uniform.hpp"


namespace fw {
    namespace {

        template<typename T>
        void add_creation(Operations& o, std::string const& t)
        {
            o.push_back(Operation{"create_partitioned_array" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    T const v = any_element<T>(c);
                    c.notes(l.text(), ", fill value ", show(v));
                    if (l.nr_partitions() > 1) c.nontrivial();
                    Grid<T> const expected{l.array[0], l.array[1], v};
                    run(c, [&]()
                    {
                        Array<T> const array = lue::create_partitioned_array<T>(l.array, l.partition, v);
                        expect(c, array, expected, "array");
                        c.check(
                            lue::nr_partitions(array) ==
                                (l.array[0] / l.partition[0]) * (l.array[1] / l.partition[1]) ||
                                lue::nr_partitions(array) > 0,
                            "number of partitions");
                    });
                    report(c);
                }});
            o.push_back(Operation{"array_like" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    T const v = any_element<T>(c);
                    c.notes(l.text(), ", fill value ", show(v));
                    if (l.nr_partitions() > 1) c.nontrivial();
                    Grid<T> const expected{l.array[0], l.array[1], v};
                    Grid<I32> const a{grid<I32>(c, l, [&]() { return number<I32>(c); }, nd_percentage(c))};
                    run(c, [&]()
                    {
                        Array<I32> const like = to_array(l, a);
                        expect(c, lue::array_like<T>(like, v), expected, "array");
                        expect(c, like, a, "argument, afterwards");
                    });
                    report(c);
                }});
            o.push_back(Operation{"copy and fill" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    T const v = any_element<T>(c);
                    auto const a = input<T>(c, l, any_element<T>, l.text() + ", fill value " + show(v));
                    if (l.nr_partitions() > 1) c.nontrivial();
                    run(c, [&]()
                    {
                        Array<T> original = to_array(l, a);
                        Array<T> duplicate = lue::copy(lue::policy::copy::DefaultValuePolicies<T>{}, original);
                        expect(c, duplicate, a, "copy");
                        bool const first = c.chance(50);
                        c.notes(first ? "fill original" : "fill copy");
                        lue::fill(first ? original : duplicate, v).get();
                        Grid<T> const filled{l.array[0], l.array[1], v};
                        expect(c, original, first ? filled : a, "original, afterwards");
                        expect(c, duplicate, first ? a : filled, "copy, afterwards");
                    });
                    report(c);
                }});
            o.push_back(Operation{"range" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    T const v = number<T>(c, 20);
                    c.notes(l.text(), ", start ", show(v));
                    if (l.nr_partitions() > 1) c.nontrivial();
                    Grid<T> expected{l.array[0], l.array[1]};
                    for (std::size_t i = 0; i < expected.size(); ++i) expected.cells[i] = T(v + T(i));
                    run(c, [&]()
                    {
                        Array<T> array = lue::create_partitioned_array<T>(l.array, l.partition, T{});
                        lue::range(array, v).get();
                        expect(c, array, expected, "array");
                    });
                    report(c);
                }});
            o.push_back(Operation{"downscale" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    Count const n = 1 + Count(c.draw(3));
                    auto const a = input<T>(c, l, any_element<T>, l.text() + ", times " + str(n));
                    if (l.nr_partitions() > 1 && n > 1) c.nontrivial();
                    Grid<T> expected{n * l.array[0], n * l.array[1]};
                    for (Index r = 0; r < expected.rows; ++r)
                        for (Index col = 0; col < expected.cols; ++col) expected(r, col) = a(r / n, col / n);
                    run(c, [&]()
                    {
                        expect(
                            c, lue::value_policies::downscale(to_array(l, a), n, lue::DownscaleStrategy::assign), expected,
                            "result");
                    });
                    report(c);
                }});
        }

        template<typename T>
        void add_random(Operations& o, std::string const& t)
        {
            o.push_back(Operation{"uniform" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    T const low = number<T>(c, 50);
                    T const high = low + T(1 + c.draw(20));
                    c.notes(l.text(), ", ", low, " - ", high);
                    if (l.nr_partitions() > 1) c.nontrivial();
                    run(c, [&]()
                    {
                        Array<T> const array = lue::value_policies::uniform<T>(l.array, l.partition, low, high);
                        auto const actual = from_array(c, array, l.array, "array");
                        for (T const v : actual.cells)
                            c.check(v >= low && v <= high, "value " + show(v) + " is not between " + show(low) + " and " + show(high));
                    });
                    report(c);
                }});
        }

    }  // Anonymous namespace


    Operations creation_operations()
    {
        Operations o;
        add_creation<I32>(o, " int32");
        add_creation<U64>(o, " uint64");
        add_creation<double>(o, " double");
        add_random<I32>(o, " int32");
        add_random<double>(o, " double");
        o.push_back(Operation{"normal double", [](Case& c)
            {
                Layout const l = layout(c);
                start(c);
                double const mean = number<double>(c, 50);
                double const stddev = 1 + double(c.draw(10));
                c.notes(l.text(), ", ", mean, ", ", stddev);
                if (l.nr_partitions() > 1) c.nontrivial();
                run(c, [&]()
                {
                    Array<double> const array = lue::value_policies::normal(l.array, l.partition, mean, stddev);
                    auto const actual = from_array(c, array, l.array, "array");
                    for (double const v : actual.cells)
                        c.check(std::abs(v - mean) <= 20 * stddev, "value " + show(v) + " is far from the mean");
                });
                report(c);
            }});
        return o;
    }

}  // namespace fw
