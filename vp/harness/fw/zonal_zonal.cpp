// Statistics per zone
#include "local_check.hpp"
#include "zonal.hpp"
#include "lue/framework/algorithm/definition/unique.hpp"
#include "lue/framework/algorithm/definition/zonal_area.hpp"
#include "lue/framework/algorithm/definition/zonal_diversity.hpp"
#include "lue/framework/algorithm/definition/zonal_majority.hpp"
#include "lue/framework/algorithm/definition/zonal_maximum.hpp"
#include "lue/framework/algorithm/definition/zonal_mean.hpp"
#include "lue/framework/algorithm/definition/zonal_minimum.hpp"
#include "lue/framework/algorithm/definition/zonal_normal.hpp"
#include "lue/framework/algorithm/definition/zonal_sum.hpp"
#include "lue/framework/algorithm/definition/zonal_uniform.hpp"
#include "lue/framework/algorithm/value_policies/zonal_area.hpp"
#include "lue/framework/algorithm/value_policies/zonal_diversity.hpp"
#include "lue/framework/algorithm/value_policies/zonal_majority.hpp"
#include "lue/framework/algorithm/value_policies/zonal_maximum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_mean.hpp"
#include "lue/framework/algorithm/value_policies/zonal_minimum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_normal.hpp"
#include "lue/framework/algorithm/value_policies/zonal_sum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_uniform.hpp"
#include <map>


namespace fw {
    namespace {

        using namespace lue::value_policies;

        template<typename Zone>
        Zone zone(Case& c)
        {
            return c.chance(95) ? number<Zone>(c, 3) : any_number<Zone>(c);
        }

        //! op: (array, zones) -> array, oracle: values in zone -> value
        template<typename T, typename Zone, typename Out, typename Op, typename Oracle>
        void zonal(Operations& operations, std::string const& name, Op op, Oracle oracle, Generator<T> generate, bool const all_valid = false)
        {
            operations.push_back(Operation{name, [=](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    auto const a = all_valid ? grid<T>(c, l, [&]() { return generate(c); }, 0) : input<T>(c, l, generate, l.text() + ", values");
                    auto const z = input<Zone>(c, l, zone<Zone>, "zones");
                    std::map<Zone, std::vector<T>> values;
                    for (std::size_t i = 0; i < a.size(); ++i)
                    {
                        if (!is_no_data(a.cells[i]) && !is_no_data(z.cells[i])) values[z.cells[i]].push_back(a.cells[i]);
                    }
                    if (l.nr_partitions() > 1 && values.size() > 1) c.nontrivial();
                    auto const expected = model<Out>(
                        l, [&](std::size_t i)
                        {
                            auto const it = values.find(z.cells[i]);
                            return it == values.end() ? std::optional<Out>{} : std::optional<Out>{oracle(it->second)};
                        });
                    run(c, [&]()
                    {
                        Array<T> const array{to_array(l, a)};
                        Array<Zone> const zones{to_array(l, z)};
                        Array<Out> const result = op(array, zones);
                        expect(c, result, expected, "result");
                        expect(c, array, a, "array, afterwards");
                        expect(c, zones, z, "zones, afterwards");
                    });
                    report(c);
                }});
        }

        template<typename T>
        T addable(Case& c)
        {
            return number<T>(c, 30);
        }

        template<typename T, typename Zone>
        void add_general(Operations& o, std::string const& t)
        {
            zonal<T, Zone, T>(
                o, "zonal_sum" + t, [](auto const& a, auto const& z) { return zonal_sum(a, z); },
                [](auto const& v)
                {
                    T r{};
                    for (T const x : v) r += x;
                    return r;
                },
                addable<T>);
            zonal<T, Zone, T>(
                o, "zonal_minimum" + t, [](auto const& a, auto const& z) { return zonal_minimum(a, z); },
                [](auto const& v) { return *std::min_element(v.begin(), v.end()); }, any_element<T>);
            zonal<T, Zone, T>(
                o, "zonal_maximum" + t, [](auto const& a, auto const& z) { return zonal_maximum(a, z); },
                [](auto const& v) { return *std::max_element(v.begin(), v.end()); }, any_element<T>);
        }

        template<typename T, typename Zone>
        void add_nominal(Operations& o, std::string const& t)
        {
            zonal<T, Zone, T>(
                o, "zonal_majority" + t, [](auto const& a, auto const& z) { return zonal_majority(a, z); },
                [](auto const& v)
                {
                    std::map<T, int> counts;
                    for (T const x : v) ++counts[x];
                    T best = v[0];
                    // The largest of the values that occur most
                    for (auto const& [value, count] : counts)
                        if (count >= counts[best]) best = count > counts[best] ? value : std::max(best, value);
                    return best;
                },
                few<T>);
            zonal<T, Zone, U64>(
                o, "zonal_diversity" + t, [](auto const& a, auto const& z) { return zonal_diversity<U64>(a, z); },
                [](auto const& v) { return U64(std::set<T>(v.begin(), v.end()).size()); }, few<T>);
            zonal<T, Zone, U64>(
                o, "zonal_area" + t, [](auto const&, auto const& z) { return zonal_area<U64>(z); },
                [](auto const& v) { return U64(v.size()); }, [](Case&) { return T(1); }, true);
        }

        // Values per zone are the same in the whole zone, and random otherwise
        template<typename T, typename Zone, typename Op, typename Valid>
        void random_per_zone(Operations& operations, std::string const& name, Op op, Valid valid)
        {
            operations.push_back(Operation{name, [=](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    auto const z = input<Zone>(c, l, zone<Zone>, l.text() + ", zones");
                    if (l.nr_partitions() > 1) c.nontrivial();
                    run(c, [&]()
                    {
                        Array<T> const result = op(to_array(l, z));
                        auto const actual = from_array(c, result, l.array, "result");
                        std::map<Zone, T> values;
                        for (std::size_t i = 0; i < z.size(); ++i)
                        {
                            c.check(
                                is_no_data(z.cells[i]) == is_no_data(actual.cells[i]),
                                "cell " + str(i) + " has zone " + show(z.cells[i]) + " and value " + show(actual.cells[i]));
                            if (is_no_data(z.cells[i])) continue;
                            c.check(valid(actual.cells[i]), "value " + show(actual.cells[i]) + " is out of range");
                            auto const [it, inserted] = values.try_emplace(z.cells[i], actual.cells[i]);
                            c.check(it->second == actual.cells[i], "values within a zone differ: " + actual.text());
                        }
                    });
                    report(c);
                }});
        }

    }  // Anonymous namespace

#if FW_GROUP == 0
    Operations zonal_integer_operations()
    {
        Operations o;
        add_general<I32, I32>(o, " int32, int32");
        add_nominal<I32, I32>(o, " int32, int32");
        add_nominal<U8, I64>(o, " uint8, int64");
        return o;
    }
#else
    Operations zonal_float_operations()
    {
        Operations o;
        add_general<double, I64>(o, " double, int64");
        zonal<double, I32, double>(
            o, "zonal_mean double, int32", [](auto const& a, auto const& z) { return zonal_mean(a, z); },
            [](auto const& v)
            {
                double r{};
                for (double const x : v) r += x;
                return r / double(v.size());
            },
            addable<double>);
        random_per_zone<double, I32>(
            o, "zonal_uniform double, int32", [](auto const& z) { return zonal_uniform<double>(z); },
            [](double v) { return v >= 0 && v <= 1; });
        random_per_zone<double, I64>(
            o, "zonal_normal double, int64", [](auto const& z) { return zonal_normal<double>(z); },
            [](double v) { return std::isfinite(v); });
        return o;
    }
#endif

}  // namespace fw
