// Flow directions, and material in neighbouring cells
#include "route.hpp"
#include "focal.hpp"
#include "lue/framework/algorithm/definition/d8_flow_direction.hpp"
#include "lue/framework/algorithm/definition/downstream.hpp"
#include "lue/framework/algorithm/definition/downstream_distance.hpp"
#include "lue/framework/algorithm/definition/upstream.hpp"
#include "lue/framework/algorithm/value_policies/d8_flow_direction.hpp"
#include "lue/framework/algorithm/value_policies/downstream.hpp"
#include "lue/framework/algorithm/value_policies/upstream.hpp"


namespace fw {
    namespace {

        template<typename T>
        void d8(Case& c)
        {
            Layout const l = focal_layout(c, 3);
            start(c);
            int const range = c.pick<int>({1, 3, 20});
            int const base = c.pick<int>({0, 0, 100, -100});
            auto const elevation = grid<T>(
                c, l, [&]() { return T(base) + number<T>(c, range) / T(2); }, nd_percentage(c));
            c.notes(l.text(), ": ", elevation.text());

            Grid<Direction> expected{elevation.rows, elevation.cols};
            for (Index r = 0; r < elevation.rows; ++r)
                for (Index col = 0; col < elevation.cols; ++col)
                {
                    T const here = elevation(r, col);
                    Direction& best = expected(r, col);
                    if (is_no_data(here))
                    {
                        best = no_data<Direction>();
                        continue;
                    }
                    best = 5;
                    double drop = 0;
                    // The nearest neighbours first, then the other ones
                    for (Direction const code : {8, 4, 6, 2, 7, 9, 1, 3})
                    {
                        auto const [dr, dc] = offset(code);
                        // Outside of the array everything is lower
                        double d = std::numeric_limits<double>::infinity();
                        if (elevation.inside(r + dr, col + dc))
                        {
                            if (is_no_data(elevation(r + dr, col + dc))) continue;
                            d = double(here) - double(elevation(r + dr, col + dc));
                            if (r / l.partition[0] != (r + dr) / l.partition[0] && d > drop) c.nontrivial();
                        }
                        if (d > drop)
                        {
                            drop = d;
                            best = code;
                        }
                    }
                }
            run(c, [&]()
            {
                Array<T> const array{to_array(l, elevation)};
                expect_or_refused(
                    c, array, 3,
                    [&]() { return lue::value_policies::d8_flow_direction<Direction>(array); }, expected);
                expect(c, array, elevation, "argument, afterwards");
            });
            report(c);
        }


        template<typename T>
        void neighbours(Case& c, bool const up)
        {
            Layout const l = focal_layout(c, 3);
            start(c);
            Network const n{network(c, l)};
            auto const material = grid<T>(c, l, [&]() { return number<T>(c); }, nd_percentage(c));
            c.notes(l.text(), ": ", material.text());
            label_crossings(c, n, l);

            Grid<T> expected{material.rows, material.cols, T(0)};
            for (Index r = 0; r < material.rows; ++r)
                for (Index col = 0; col < material.cols; ++col)
                {
                    Direction const code = n.direction(r, col);
                    if (is_no_data(code)) continue;
                    if (auto const d = n.downstream(r, col))
                    {
                        if (up)
                        {
                            T& sum = expected(d->row, d->col);
                            if (!is_no_data(sum))
                                sum = is_no_data(material(r, col)) ? no_data<T>() : T(sum + material(r, col));
                        }
                        else expected(r, col) = material(d->row, d->col);
                    }
                    else if (!up && is_sink(code)) expected(r, col) = material(r, col);
                }
            for (Index r = 0; r < material.rows; ++r)
                for (Index col = 0; col < material.cols; ++col)
                    if (is_no_data(n.direction(r, col)) || is_no_data(material(r, col)))
                        expected(r, col) = no_data<T>();
            run(c, [&]()
            {
                auto const direction = to_array(l, n.direction);
                Array<T> const array{to_array(l, material)};
                expect_or_refused(
                    c, array, 3,
                    [&]()
                    {
                        return up ? lue::value_policies::upstream(direction, array)
                                  : lue::value_policies::downstream(direction, array);
                    },
                    expected);
                expect(c, array, material, "argument, afterwards");
            });
            report(c);
        }


        template<typename T>
        void distance(Case& c)
        {
            Layout const l = route_layout(c);
            start(c);
            Network const n{network(c, l)};
            T const size = c.pick<T>({1, 2, 10, T(0.25)});
            c.notes(l.text(), ": cell size ", size);
            label_crossings(c, n, l);
            Grid<T> expected{n.direction.rows, n.direction.cols, T(0)};
            for (std::size_t i = 0; i < expected.size(); ++i)
            {
                Direction const code = n.direction.cells[i];
                expected.cells[i] = is_no_data(code) ? no_data<T>()
                    : is_sink(code)                  ? T(0)
                    : code % 2 == 0                  ? size
                                                     : T(std::sqrt(2.0) * size);
            }
            run(c, [&]()
            {
                auto const direction = to_array(l, n.direction);
                using Policies = lue::policy::downstream_distance::DefaultValuePolicies<Direction, T>;
                Array<T> const result = lue::downstream_distance(Policies{}, direction, size);
                expect_near(c, from_array(c, result, l.array, "result"), expected, "distance");
            });
            report(c);
        }


        template<typename T>
        void add(Operations& o, std::string const& t)
        {
            o.push_back({"d8_flow_direction" + t, [](Case& c) { d8<T>(c); }});
            o.push_back({"upstream" + t, [](Case& c) { neighbours<T>(c, true); }});
            o.push_back({"downstream" + t, [](Case& c) { neighbours<T>(c, false); }});
            o.push_back({"downstream_distance" + t, [](Case& c) { distance<T>(c); }});
        }

    }  // Anonymous namespace


    Operations route_local_operations()
    {
        Operations o;
        add<float>(o, "<float32>");
        add<double>(o, "<float64>");
        return o;
    }

}  // namespace fw
