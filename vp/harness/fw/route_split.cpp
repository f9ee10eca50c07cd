// Accumulation of material, part of which remains in the cells
#include "route.hpp"
#include "focal.hpp"
#if FW_GROUP == 0
#include "lue/framework/algorithm/definition/accu_threshold.hpp"
#include "lue/framework/algorithm/value_policies/accu_threshold.hpp"
#endif
#if FW_GROUP == 1
#include "lue/framework/algorithm/definition/accu_fraction.hpp"
#include "lue/framework/algorithm/value_policies/accu_fraction.hpp"
#endif
#if FW_GROUP == 2
#include "lue/framework/algorithm/definition/accu_capacity.hpp"
#include "lue/framework/algorithm/value_policies/accu_capacity.hpp"
#endif
#if FW_GROUP == 3
#include "lue/framework/algorithm/definition/accu_trigger.hpp"
#include "lue/framework/algorithm/value_policies/accu_trigger.hpp"
#endif


namespace fw {
    namespace {

        //! split: from the amount in a cell and the parameter to what flows on; op: overload of the operation
        template<typename T, typename Parameter, typename Domain, typename Split, typename Op>
        void add(
            Operations& operations, std::string const& name, Parameter parameter, Domain domain, Split split, Op op)
        {
            operations.push_back({name, [=](Case& c)
                {
                    Layout const l = route_layout(c);
                    start(c);
                    Network const n{network(c, l)};
                    int const overload = int(c.draw(3));
                    bool const same_inflow = overload & 1;
                    bool const same_parameter = overload & 2;
                    int const nd = c.pick<int>({0, 0, 3, 20});
                    int const negative = c.pick<int>({0, 0, 3});
                    auto amount = [&]() { return negative && c.chance(negative) ? T(-1) : T(c.draw(9)); };
                    auto limit = [&]() { return negative && c.chance(negative) ? T(-1) : T(parameter(c)); };
                    T const inflow_everywhere = amount();
                    T const parameter_everywhere = limit();
                    auto const inflow = same_inflow ? Grid<T>{l.array[0], l.array[1], inflow_everywhere}
                                                    : grid<T>(c, l, amount, nd);
                    auto const limits = same_parameter ? Grid<T>{l.array[0], l.array[1], parameter_everywhere}
                                                       : grid<T>(c, l, limit, nd);
                    c.notes(
                        l.text(), ", ", same_inflow ? "scalar" : "", " inflow: ", inflow.text(), ", ",
                        same_parameter ? "scalar" : "", " parameter: ", limits.text());
                    label_crossings(c, n, l);

                    Grid<T> outflow{inflow.rows, inflow.cols, T(0)};
                    Grid<T> remainder{inflow.rows, inflow.cols, T(0)};
                    for (auto const [r, col] : n.order())
                    {
                        T& out = outflow(r, col);
                        T const in = inflow(r, col);
                        T const p = limits(r, col);
                        if (is_no_data(out) || is_no_data(n.direction(r, col)) || is_no_data(in) || is_no_data(p) ||
                            in < 0 || !domain(p))
                        {
                            out = remainder(r, col) = no_data<T>();
                        }
                        else
                        {
                            T const total = out + in;
                            out = split(total, p);
                            remainder(r, col) = total - out;
                        }
                        if (auto const d = n.downstream(r, col)) outflow(d->row, d->col) += out;
                    }
                    run(c, [&]()
                    {
                        auto const direction = to_array(l, n.direction);
                        auto const a = to_array(l, inflow);
                        auto const b = to_array(l, limits);
                        lue::Scalar<T> const x{inflow_everywhere};
                        lue::Scalar<T> const y{parameter_everywhere};
                        auto const result = op(overload, direction, a, b, x, y);
                        expect_near(c, from_array(c, std::get<0>(result), l.array, "result"), outflow, "outflow");
                        expect_near(c, from_array(c, std::get<1>(result), l.array, "result"), remainder, "remainder");
                        expect(c, direction, n.direction, "argument, afterwards");
                        expect(c, a, inflow, "argument, afterwards");
                        expect(c, b, limits, "argument, afterwards");
                    });
                    report(c);
                }});
        }

#define SPLIT(name)                                                                                          \
    [](int const overload, auto const& direction, auto const& a, auto const& b, auto const& x, auto const& y) \
    {                                                                                                        \
        namespace vp = lue::value_policies;                                                                  \
        return overload == 0 ? vp::name(direction, a, b)                                                     \
            : overload == 1  ? vp::name(direction, x, b)                                                     \
            : overload == 2  ? vp::name(direction, a, y)                                                     \
                             : vp::name(direction, x, y);                                                    \
    }

        template<typename T>
        void add_all(Operations& o, std::string const& t)
        {
            [[maybe_unused]] auto const amount = [](Case& c) { return double(c.draw(20)); };
            [[maybe_unused]] auto const not_negative = [](T const p) { return p >= 0; };
#if FW_GROUP == 0
            add<T>(
                o, "accu_threshold" + t, amount, not_negative,
                [](T const v, T const p) { return v > p ? v - p : T(0); }, SPLIT(accu_threshold));
#endif
#if FW_GROUP == 1
            add<T>(
                o, "accu_fraction" + t,
                [](Case& c) { return c.chance(5) ? 1.5 : c.pick<double>({0.5, 0, 1, 0.25, 0.75}); },
                [](T const p) { return p >= 0 && p <= 1; }, [](T const v, T const p) { return v * p; },
                SPLIT(accu_fraction));
#endif
#if FW_GROUP == 2
            add<T>(
                o, "accu_capacity" + t, amount, not_negative,
                [](T const v, T const p) { return std::min(v, p); }, SPLIT(accu_capacity));
#endif
#if FW_GROUP == 3
            add<T>(
                o, "accu_trigger" + t, amount, not_negative, [](T const v, T const p) { return v < p ? T(0) : v; },
                SPLIT(accu_trigger));
#endif
        }

    }  // Anonymous namespace


#if FW_GROUP == 0
    Operations route_threshold_operations()
#elif FW_GROUP == 1
    Operations route_fraction_operations()
#elif FW_GROUP == 2
    Operations route_capacity_operations()
#elif FW_GROUP == 3
    Operations route_trigger_operations()
#endif
    {
        Operations o;
        add_all<float>(o, "<float32>");
        add_all<double>(o, "<float64>");
        return o;
    }

}  // namespace fw
