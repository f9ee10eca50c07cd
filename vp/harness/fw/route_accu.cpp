// Accumulation of material
#include "route.hpp"
#include "focal.hpp"
#include "lue/framework/algorithm/definition/accu.hpp"
#include "lue/framework/algorithm/definition/accu_info.hpp"
#include "lue/framework/algorithm/value_policies/accu.hpp"
#include "lue/framework/algorithm/value_policies/accu_info.hpp"


namespace fw {
    namespace {

        template<typename Count_>
        void inflow_count(Case& c)
        {
            Layout const l = route_layout(c);
            start(c);
            Network n{network(c, l)};
            c.notes(l.text());
            label_crossings(c, n, l);
            bool const by_value = c.chance(70);
            if (!by_value)
                for (auto& code : n.direction.cells)
                    if (is_no_data(code)) code = 5;

            Grid<Count_> expected{n.direction.rows, n.direction.cols, Count_(0)};
            for (Index r = 0; r < expected.rows; ++r)
                for (Index col = 0; col < expected.cols; ++col)
                {
                    if (is_no_data(n.direction(r, col))) expected(r, col) = no_data<Count_>();
                    else if (auto const d = n.downstream(r, col)) ++expected(d->row, d->col);
                }
            run(c, [&]()
            {
                auto const direction = to_array(l, n.direction);
                using Policies = lue::policy::inflow_count::DefaultValuePolicies<Count_, Direction>;
                Array<Count_> const result = by_value
                    ? lue::inflow_count<Count_>(Policies{}, direction)
                    : lue::inflow_count<Count_>(direction);
                expect(c, result, expected, "inflow count");
                expect(c, direction, n.direction, "argument, afterwards");
            });
            report(c);
        }


        template<typename T>
        void accu(Case& c)
        {
            Layout const l = route_layout(c);
            start(c);
            Network const n{network(c, l)};
            bool const same = c.chance(25);
            int const negative = c.pick<int>({0, 0, 3});
            int const nd = c.pick<int>({0, 0, 3, 20});
            auto amount = [&]() { return negative && c.chance(negative) ? T(-1) : T(c.draw(9)); };
            T const everywhere = amount();
            auto const inflow = same ? Grid<T>{l.array[0], l.array[1], everywhere} : grid<T>(c, l, amount, nd);
            c.notes(l.text(), same ? ", scalar" : "", ", inflow: ", inflow.text());
            label_crossings(c, n, l);

            Grid<T> expected{inflow.rows, inflow.cols, T(0)};
            for (auto const [r, col] : n.order())
            {
                T& v = expected(r, col);
                if (is_no_data(n.direction(r, col)) || is_no_data(inflow(r, col)) || inflow(r, col) < 0)
                    v = no_data<T>();
                v += inflow(r, col);
                if (is_no_data(v)) v = no_data<T>();
                if (auto const d = n.downstream(r, col)) expected(d->row, d->col) += v;
            }
            run(c, [&]()
            {
                auto const direction = to_array(l, n.direction);
                auto const array = to_array(l, inflow);
                Array<T> const result = same ? lue::value_policies::accu(direction, lue::Scalar<T>{everywhere})
                                             : lue::value_policies::accu(direction, array);
                expect(c, result, expected, "accu");
                expect(c, direction, n.direction, "argument, afterwards");
                expect(c, array, inflow, "argument, afterwards");
            });
            report(c);
        }


        void info(Case& c)
        {
            Layout const l = route_layout(c);
            start(c);
            Network const n{network(c, l)};
            c.notes(l.text());
            label_crossings(c, n, l);
            run(c, [&]()
            {
                auto const direction = to_array(l, n.direction);
                auto const result = from_array(c, lue::value_policies::accu_info(direction), l.array, "result");
                for (Index r = 0; r < result.rows; ++r)
                    for (Index col = 0; col < result.cols; ++col)
                    {
                        auto const v = result(r, col);
                        bool const nd = is_no_data(n.direction(r, col));
                        c.check(
                            nd == is_no_data(v) && (nd || (v >= lue::ridge_cell && v <= lue::confluence_cell)),
                            "class of cell [" + str(r) + ", " + str(col) + "] is " + str(int(v)) + " of " + result.text());
                    }
            });
            report(c);
        }

    }  // Anonymous namespace


    Operations route_accu_operations()
    {
        Operations o;
        o.push_back({"inflow_count<uint8>", inflow_count<U8>});
        o.push_back({"inflow_count<int32>", inflow_count<I32>});
        for (int i = 0; i < 3; ++i)
        {
            o.push_back({"accu<float32>", accu<float>});
            o.push_back({"accu<float64>", accu<double>});
        }
        o.push_back({"accu_info", info});
        return o;
    }

}  // namespace fw
