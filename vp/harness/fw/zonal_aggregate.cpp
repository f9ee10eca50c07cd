// Aggregation of all values in an array
#include "local_check.hpp"
#include "zonal.hpp"
#include "lue/framework/algorithm/definition/maximum.hpp"
#include "lue/framework/algorithm/definition/minimum.hpp"
#include "lue/framework/algorithm/definition/sum.hpp"
#include "lue/framework/algorithm/definition/unique.hpp"
#include "lue/framework/algorithm/value_policies/all.hpp"
#include "lue/framework/algorithm/any.hpp"
#include "lue/framework/algorithm/value_policies/maximum.hpp"
#include "lue/framework/algorithm/value_policies/minimum.hpp"
#include "lue/framework/algorithm/value_policies/none.hpp"
#include "lue/framework/algorithm/value_policies/sum.hpp"
#include "lue/framework/algorithm/value_policies/unique.hpp"
#include "lue/framework/algorithm/default_policies/maximum.hpp"
#include "lue/framework/algorithm/default_policies/sum.hpp"


namespace fw {
    namespace {

        using namespace lue::value_policies;

        //! op: array -> scalar, oracle: vector of valid values (at least one) -> value
        template<typename T, typename Op, typename Oracle>
        void aggregate(
            Operations& operations, std::string const& name, Op op, Oracle oracle, Generator<T> generate = any_element<T>,
            bool const handles_no_data = true)
        {
            operations.push_back(Operation{name, [=](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    Grid<T> const a{grid<T>(c, l, [&]() { return generate(c); }, handles_no_data ? nd_percentage(c) : 0)};
                    c.notes(l.text(), ": ", a.text());
                    if (l.nr_partitions() > 1) c.nontrivial();
                    std::vector<T> valid;
                    for (T const v : a.cells)
                        if (!is_no_data(v)) valid.push_back(v);
                    T const expected = valid.empty() ? no_data<T>() : oracle(valid);
                    run(c, [&]()
                    {
                        Array<T> const array{to_array(l, a)};
                        auto const result = op(array);
                        T const actual = result.future().get();
                        c.check(
                            same_value(actual, expected), "result is " + show(actual) + ", expected " + show(expected));
                        expect(c, array, a, "argument, afterwards");
                    });
                    report(c);
                }});
        }

        template<typename T>
        T addable(Case& c)
        {
            return number<T>(c, 100);
        }

        template<typename T>
        T total(std::vector<T> const& values)
        {
            T result{};
            for (T const v : values) result += v;
            return result;
        }

        template<typename T>
        void add_statistics(Operations& o, std::string const& t)
        {
            aggregate<T>(o, "sum" + t, [](auto const& a) { return sum(a); }, total<T>, addable<T>);
            aggregate<T>(
                o, "minimum" + t, [](auto const& a) { return minimum(a); },
                [](auto const& v) { return *std::min_element(v.begin(), v.end()); });
            aggregate<T>(
                o, "maximum" + t, [](auto const& a) { return maximum(a); },
                [](auto const& v) { return *std::max_element(v.begin(), v.end()); });
            aggregate<T>(
                o, "maximum, without no-data" + t, [](auto const& a) { return lue::default_policies::maximum(a); },
                [](auto const& v) { return *std::max_element(v.begin(), v.end()); }, any_element<T>, false);
            aggregate<T>(
                o, "sum, without no-data" + t, [](auto const& a) { return lue::default_policies::sum(a); }, total<T>,
                addable<T>, false);
            if constexpr (std::is_integral_v<T>) o.push_back(Operation{"unique" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    Grid<T> const a{input<T>(c, l, few<T>, l.text())};
                    std::set<T> expected;
                    for (T const v : a.cells)
                        if (!is_no_data(v)) expected.insert(v);
                    if (l.nr_partitions() > 1) c.nontrivial();
                    run(c, [&]()
                    {
                        std::set<T> const actual = unique(to_array(l, a)).get();
                        std::string text;
                        for (T const v : actual) text += " " + show(v);
                        c.check(actual == expected, "the unique values are" + text);
                    });
                    report(c);
                }});
        }

        template<typename T>
        void add_logical(Operations& o, std::string const& t)
        {
            auto const truth = [](T const v) { return v != 0; };
            aggregate<T>(
                o, "all" + t, [](auto const& a) { return all(a); },
                [=](auto const& v) { return T(std::all_of(v.begin(), v.end(), truth)); },
                [](Case& c) { return T(c.chance(95)); });
            aggregate<T>(
                o, "any" + t, [](auto const& a) { return lue::any(a); },
                [=](auto const& v) { return T(std::any_of(v.begin(), v.end(), truth)); },
                [](Case& c) { return T(c.chance(5)); }, false);
            aggregate<T>(
                o, "none" + t, [](auto const& a) { return none(a); },
                [=](auto const& v) { return T(std::none_of(v.begin(), v.end(), truth)); },
                [](Case& c) { return T(c.chance(5)); });
        }

    }  // Anonymous namespace

#if FW_GROUP == 0
    Operations aggregate_operations()
    {
        Operations o;
        add_statistics<I32>(o, " int32");
        add_statistics<U64>(o, " uint64");
        add_logical<U8>(o, " uint8");
        add_logical<I32>(o, " int32");
        return o;
    }
#else
    Operations aggregate_float_operations()
    {
        Operations o;
        add_statistics<float>(o, " float");
        add_statistics<double>(o, " double");
        return o;
    }
#endif

}  // namespace fw
