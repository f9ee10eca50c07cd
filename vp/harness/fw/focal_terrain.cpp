// Terrain
#include "focal.hpp"
#include "lue/framework/algorithm/definition/aspect.hpp"
#include "lue/framework/algorithm/definition/convolve.hpp"
#include "lue/framework/algorithm/definition/gradients.hpp"
#include "lue/framework/algorithm/definition/slope.hpp"
#include "lue/framework/algorithm/value_policies/aspect.hpp"
#include "lue/framework/algorithm/value_policies/slope.hpp"
#include <numbers>


namespace fw {
    namespace {

        //! Differences in the direction of the columns (to the east) and of the rows (to the south)
        template<typename T>
        std::optional<std::pair<double, double>> differences(Grid<T> const& a, Index const r, Index const col)
        {
            for (Index dr = -1; dr <= 1; ++dr)
                for (Index dc = -1; dc <= 1; ++dc)
                    if (!a.inside(r + dr, col + dc) || is_no_data(a(r + dr, col + dc))) return {};
            double east = 0;
            double south = 0;
            for (Index i = -1; i <= 1; ++i)
            {
                double const w = i ? 1 : 2;
                east += w * (double(a(r + i, col + 1)) - double(a(r + i, col - 1)));
                south += w * (double(a(r + 1, col + i)) - double(a(r - 1, col + i)));
            }
            return std::pair{east, south};
        }

        // Results for cells at the border of the array and near no-data cells are known to be incorrect
        template<typename T, typename Op, typename Check>
        void terrain(Operations& operations, std::string const& name, Op op, Check check)
        {
            operations.push_back(Operation{name, [=](Case& c)
                {
                    Layout const l = focal_layout(c, 3);
                    start(c);
                    T const cell_size = c.pick<T>({1, 2, 10, T(0.5)});
                    int const nd = c.pick<int>({0, 0, 3, 10});
                    Grid<T> const a{grid<T>(c, l, [&]() { return number<T>(c, 20); }, nd)};
                    c.notes(l.text(), ", cell size ", cell_size, ": ", a.text());
                    run(c, [&]()
                    {
                        Array<T> const array{to_array(l, a)};
                        if (!large_enough(array, 3)) return c.label("partitions are too small");
                        Array<T> const result = op(array, cell_size);
                        auto const cells = from_array(c, result, l.array, "result");
                        for (Index r = 0; r < a.rows; ++r)
                            for (Index col = 0; col < a.cols; ++col)
                                if (auto const d = differences(a, r, col))
                                {
                                    if (l.nr_partitions() > 1) c.nontrivial();
                                    check(
                                        c, cells(r, col), d->first / (8.0 * cell_size), d->second / (8.0 * cell_size),
                                        "[" + str(r) + ", " + str(col) + "] of " + cells.text());
                                }
                        expect(c, array, a, "argument, afterwards");
                    });
                    report(c);
                }});
        }

        template<typename T>
        void add_terrain(Operations& o, std::string const& t)
        {
            terrain<T>(
                o, "slope" + t, [](Array<T> const& a, T const s) { return lue::value_policies::slope(a, s); },
                [](Case& c, T const v, double const east, double const south, std::string const& where)
                {
                    double const e = std::hypot(east, south);
                    c.check(
                        std::abs(double(v) - e) <= 1e-4 * std::max(1.0, e),
                        "slope is " + show(v) + ", expected " + str(e) + ", at " + where);
                });
            terrain<T>(
                o, "aspect" + t, [](Array<T> const& a, T) { return lue::value_policies::aspect(a); },
                [](Case& c, T const v, double const east, double const south, std::string const& where)
                {
                    if (east == 0 && south == 0) return;
                    // Direction of descent, clockwise from the north
                    double e = std::atan2(-east, south);
                    double d = std::fmod(std::abs(double(v) - e), 2 * std::numbers::pi);
                    d = std::min(d, 2 * std::numbers::pi - d);
                    c.check(
                        d <= 1e-3 && v >= 0 && double(v) <= 2 * std::numbers::pi + 1e-3,
                        "aspect is " + show(v) + ", expected " + str(e < 0 ? e + 2 * std::numbers::pi : e) + ", at " + where);
                });
        }

    }  // Anonymous namespace


    Operations focal_terrain_operations()
    {
        Operations o;
        add_terrain<float>(o, "<float32>");
        add_terrain<double>(o, "<float64>");
        return o;
    }

}  // namespace fw
