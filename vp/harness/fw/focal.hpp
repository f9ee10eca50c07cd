// Checks of operations on neighbourhoods of cells
#pragma once
#include "fw.hpp"
#include "lue/framework/algorithm/kernel.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"
#include <cmath>


namespace fw {

    Operations focal_integer_operations();
    Operations focal_float_operations();
    Operations focal_terrain_operations();
    Operations focal_generic_operations();


    template<typename Weight>
    struct KernelModel
    {
            Count radius{};
            std::vector<Weight> weights;

            auto size() const -> Count { return 2 * radius + 1; }
            auto weight(Index const dr, Index const dc) const -> Weight
            {
                return weights[std::size_t((dr + radius) * size() + dc + radius)];
            }
    };


    //! A kernel, by its model. Boxes and circles are created by the library, the model tells what they must contain
    template<typename Weight, typename F>
    std::pair<KernelModel<Weight>, lue::Kernel<Weight, 2>> kernel(Case& c, F&& weight, Count const max_radius = 3)
    {
        using Kernel = lue::Kernel<Weight, 2>;

        KernelModel<Weight> m;
        m.radius = c.chance(55) ? 1 : Count(c.draw(std::uint64_t(max_radius)));
        m.weights.resize(std::size_t(m.size() * m.size()));
        int const kind = int(c.draw(2));
        Weight const w = kind ? Weight(1) : Weight{};
        std::string text;
        if (kind == 0)
        {
            for (auto& x : m.weights) x = weight();
        }
        else
        {
            for (Index r = -m.radius; r <= m.radius; ++r)
                for (Index col = -m.radius; col <= m.radius; ++col)
                    m.weights[std::size_t((r + m.radius) * m.size() + col + m.radius)] =
                        kind == 1 || r * r + col * col <= m.radius * m.radius ? w : Weight{};
        }
        for (auto const& x : m.weights) text += (text.empty() ? "" : " ") + str(x);
        c.notes("kernel: radius ", m.radius, kind == 0 ? ": " : kind == 1 ? ", box: " : ", circle: ", text);
        c.label("radius: " + str(m.radius));
        if (kind == 1) return {m, lue::box_kernel<Weight, 2>(m.radius, w)};
        if (kind == 2) return {m, lue::circle_kernel<Weight, 2>(m.radius, w)};
        Kernel k{typename Kernel::Shape{{m.size(), m.size()}}};
        for (Index r = 0; r < m.size(); ++r)
            for (Index col = 0; col < m.size(); ++col) k(r, col) = m.weights[std::size_t(r * m.size() + col)];
        return {m, k};
    }


    //! Shapes for which partitions are large enough, mostly
    inline Layout focal_layout(Case& c, Count const kernel_size)
    {
        if (c.chance(5)) return layout(c);
        Layout result;
        for (int d = 0; d < 2; ++d)
        {
            Count const extent = kernel_size + Count(c.draw(3));
            Count const count = 1 + Count(c.chance(80) ? c.draw(2) : c.draw(3));
            // The last partition can be a smaller one
            Count const rest = extent > kernel_size && c.chance(50)
                ? kernel_size + Count(c.draw(std::uint64_t(extent - kernel_size - 1)))
                : 0;
            result.partition[d] = extent;
            result.array[d] = count * extent + rest;
        }
        return result;
    }


    template<typename T>
    bool near(T const a, T const b)
    {
        if (same_value(a, b)) return true;
        if constexpr (std::is_floating_point_v<T>)
        {
            return std::abs(a - b) <= T(1e-4) * std::max({T(1), std::abs(a), std::abs(b)});
        }
        return false;
    }


    template<typename T>
    void expect_near(Case& c, Grid<T> const& actual, Grid<T> const& expected, std::string const& what)
    {
        for (Index r = 0; r < expected.rows; ++r)
        {
            for (Index col = 0; col < expected.cols; ++col)
            {
                if (!near(actual(r, col), expected(r, col)))
                {
                    c.fail(
                        what + ": cell [" + str(r) + ", " + str(col) + "] is " + show(actual(r, col)) + ", expected " +
                        show(expected(r, col)) + "; result " + actual.text() + "; expected " + expected.text());
                }
            }
        }
    }


    //! Whether all partitions contain at least a number of rows and columns
    template<typename T>
    bool large_enough(Array<T> const& array, Count const extent)
    {
        for (auto const& partition : array.partitions())
        {
            partition.get();
            auto const shape = partition.shape(hpx::launch::sync);
            if (shape[0] < extent || shape[1] < extent) return false;
        }
        return true;
    }


    //! The result must be as expected, or the operation must be refused, but only when partitions are too small
    template<typename T, typename In, typename F>
    void expect_or_refused(
        Case& c, Array<In> const& input, Count const kernel_size, F&& create, Grid<T> const& expected)
    {
        bool const possible = large_enough(input, kernel_size);
        std::optional<Grid<T>> result;
        std::string message;
        try
        {
            Array<T> const array = create();
            result = from_array(c, array, Shape{{expected.rows, expected.cols}}, "result");
        }
        catch (std::runtime_error const& exception)
        {
            message = exception.what();
        }
        if (!result)
        {
            c.check(!possible, "operation is refused while partitions are large enough: " + message);
            c.label("partitions are too small");
            return;
        }
        expect_near(c, *result, expected, "result");
    }


    //! Window of values around a cell. Outside of the array, the values are those of the halo
    template<typename T>
    struct Window
    {
            Grid<T> const& grid;
            Index row;
            Index col;
            T halo;

            auto operator()(Index const dr, Index const dc) const -> T
            {
                return grid.inside(row + dr, col + dc) ? grid(row + dr, col + dc) : halo;
            }
    };


    //! op: (array, kernel) -> array, oracle: (window, kernel model) -> optional value
    template<typename T, typename Out, typename Weight, typename Op, typename Oracle, typename G, typename W>
    void focal(
        Operations& operations, std::string const& name, Op op, Oracle oracle, G generate, W weight,
        std::optional<T> const halo = {}, bool const handles_no_data = true)
    {
        operations.push_back(Operation{name, [=](Case& c)
            {
                auto const [m, k] = kernel<Weight>(c, [&]() { return weight(c); });
                Layout const l = focal_layout(c, m.size());
                start(c);
                Grid<T> const a{grid<T>(c, l, [&]() { return generate(c); }, handles_no_data ? nd_percentage(c) : 0)};
                c.notes(l.text(), ": ", a.text());
                if (l.nr_partitions() > 1 && m.radius > 0) c.nontrivial();
                Grid<Out> expected{a.rows, a.cols};
                for (Index r = 0; r < a.rows; ++r)
                    for (Index col = 0; col < a.cols; ++col)
                    {
                        std::optional<Out> const v = oracle(Window<T>{a, r, col, halo ? *halo : no_data<T>()}, m);
                        expected(r, col) = v ? *v : no_data<Out>();
                    }
                run(c, [&]()
                {
                    Array<T> const array{to_array(l, a)};
                    expect_or_refused<Out>(c, array, m.size(), [&]() -> Array<Out> { return op(array, k); }, expected);
                    expect(c, array, a, "argument, afterwards");
                });
                report(c);
            }});
    }


    //! Values in a window that count
    template<typename T, typename Weight>
    std::vector<T> values(Window<T> const& window, KernelModel<Weight> const& m, bool const skip_no_data = true, bool const skip_focus = false)
    {
        std::vector<T> result;
        for (Index r = -m.radius; r <= m.radius; ++r)
            for (Index col = -m.radius; col <= m.radius; ++col)
            {
                T const v = window(r, col);
                if (!(skip_focus && !r && !col) && m.weight(r, col) && !(skip_no_data && is_no_data(v))) result.push_back(v);
            }
        return result;
    }


    template<typename Weight>
    Weight boolean_weight(Case& c)
    {
        return Weight(c.chance(60) ? 1 : 0);
    }

}  // namespace fw
