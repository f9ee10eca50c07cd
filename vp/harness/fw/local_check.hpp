// Checks of operations that treat each cell on its own
#pragma once
#include "local.hpp"
#include "lue/framework/algorithm/scalar.hpp"
#include <cmath>


namespace fw {

    template<typename T>
    bool close_enough(T const a, T const b)
    {
        return same_value(a, b);
    }

    template<typename T>
    using Generator = T (*)(Case&);

    template<typename T>
    T any_element(Case& c)
    {
        return any_number<T>(c);
    }

    //! Values of a few kinds, so they are often equal
    template<typename T>
    T few(Case& c)
    {
        return number<T>(c, 2);
    }

    template<typename T>
    T truth(Case& c)
    {
        return T(c.draw(1));
    }

    template<typename T>
    lue::Scalar<T> scalar(T const v)
    {
        return lue::Scalar<T>{v};
    }


    template<typename T>
    Grid<T> input(Case& c, Layout const& l, Generator<T> generate, std::string const& what)
    {
        Grid<T> result{grid<T>(c, l, [&]() { return generate(c); }, nd_percentage(c))};
        c.notes(what, ": ", result.text());
        return result;
    }


    template<typename Out, typename F>
    Grid<Out> model(Layout const& l, F&& cell)
    {
        Grid<Out> result{l.array[0], l.array[1]};
        for (std::size_t i = 0; i < result.size(); ++i)
        {
            std::optional<Out> const v = cell(i);
            result.cells[i] = v ? *v : no_data<Out>();
        }
        return result;
    }


    template<typename T>
    bool any_no_data(Grid<T> const& g)
    {
        return std::any_of(g.cells.begin(), g.cells.end(), [](T v) { return is_no_data(v); });
    }


    //! op: array -> array, oracle: value -> optional value
    template<typename In, typename Out, typename Op, typename Oracle>
    void unary(
        Operations& operations, std::string const& name, Op op, Oracle oracle, Generator<In> generate = any_element<In>,
        bool const handles_no_data = true)
    {
        operations.push_back(Operation{name, [=](Case& c)
            {
                Layout const l = layout(c);
                start(c);
                Grid<In> a{grid<In>(c, l, [&]() { return generate(c); }, handles_no_data ? nd_percentage(c) : 0)};
                c.notes(l.text(), ": ", a.text());
                if (l.nr_partitions() > 1) c.nontrivial();
                auto const expected = model<Out>(
                    l, [&](std::size_t i)
                    { return is_no_data(a.cells[i]) ? std::optional<Out>{} : std::optional<Out>{oracle(a.cells[i])}; });
                run(c, [&]()
                {
                    Array<In> const array{to_array(l, a)};
                    Array<Out> const result = op(array);
                    expect(c, result, expected, "result");
                    expect(c, array, a, "argument, afterwards");
                });
                report(c);
            }});
    }


    //! op: (array or scalar or value, idem) -> array. Tried with arrays and everything else
    template<typename In1, typename In2, typename Out, typename Op, typename Oracle>
    void binary(
        Operations& operations, std::string const& name, Op op, Oracle oracle,
        Generator<In1> generate1 = any_element<In1>, Generator<In2> generate2 = any_element<In2>,
        bool const handles_no_data = true)
    {
        operations.push_back(Operation{name, [=](Case& c)
            {
                Layout const l = layout(c);
                start(c);
                int const form = c.chance(60) ? 0 : 1 + int(c.draw(3));
                static char const* const forms[] = {"array, array", "array, scalar", "scalar, array", "array, value", "value, array"};
                c.label(std::string("arguments: ") + forms[form]);
                c.notes(l.text(), ", ", forms[form]);
                Grid<In1> a{grid<In1>(c, l, [&]() { return generate1(c); }, handles_no_data ? nd_percentage(c) : 0)};
                Grid<In2> b{grid<In2>(c, l, [&]() { return generate2(c); }, handles_no_data ? nd_percentage(c) : 0)};
                if (form == 1 || form == 3) std::fill(b.cells.begin(), b.cells.end(), b.cells[0]);
                if (form == 2 || form == 4) std::fill(a.cells.begin(), a.cells.end(), a.cells[0]);
                c.notes("a: ", a.text());
                c.notes("b: ", b.text());
                if (l.nr_partitions() > 1) c.nontrivial();
                auto const expected = model<Out>(
                    l, [&](std::size_t i)
                    {
                        return is_no_data(a.cells[i]) || is_no_data(b.cells[i])
                            ? std::optional<Out>{}
                            : std::optional<Out>{oracle(a.cells[i], b.cells[i])};
                    });
                run(c, [&]()
                {
                    Array<In1> const first{to_array(l, a)};
                    Array<In2> const second{to_array(l, b)};
                    auto const result = [&]() -> Array<Out>
                    {
                        switch (form)
                        {
                            case 1: return op(first, scalar<In2>(b.cells[0]));
                            case 2: return op(scalar<In1>(a.cells[0]), second);
                            case 3: return op(first, b.cells[0]);
                            case 4: return op(a.cells[0], second);
                            default: return op(first, second);
                        }
                    }();
                    expect(c, result, expected, "result");
                    expect(c, first, a, "first argument, afterwards");
                    expect(c, second, b, "second argument, afterwards");
                });
                report(c);
            }});
    }

}  // namespace fw
