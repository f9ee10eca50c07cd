// Focal operation by someone else: functor, policies, number of arrays
#include "focal.hpp"
#include "lue/framework/algorithm/definition/focal_operation.hpp"


namespace fw {
    namespace {

        //! Different values at the sides and in the corners
        template<typename T>
        class Sides
        {

            public:

                Sides() = default;

                explicit Sides(T const first): _first{first} {}

                T north_west_corner() const { return T(_first + 0); }
                T north_side() const { return T(_first + 1); }
                T north_east_corner() const { return T(_first + 2); }
                T west_side() const { return T(_first + 3); }
                T east_side() const { return T(_first + 5); }
                T south_west_corner() const { return T(_first + 6); }
                T south_side() const { return T(_first + 7); }
                T south_east_corner() const { return T(_first + 8); }

                template<typename Archive>
                void serialize(Archive& archive, unsigned int const)
                {
                    archive & _first;
                }

            private:

                T _first{};
        };

        //! Depends on the positions of all values in the windows
        class Digest
        {

            public:

                using OutputElement = U64;

                static constexpr char const* name{"digest"};

                template<typename Kernel, typename OP, typename... IP_and_windows>
                auto operator()(Kernel const& kernel, OP const&, IP_and_windows const&... rest) const -> OutputElement
                {
                    U64 result = 17;
                    (add(kernel, rest, result), ...);
                    return result;
                }

            private:

                template<typename Kernel, typename Window>
                static void add(Kernel const& kernel, Window const& window, U64& result)
                {
                    if constexpr (requires { window.extent(0); })
                    {
                        for (Index r = 0; r < kernel.size(); ++r)
                            for (Index c = 0; c < kernel.size(); ++c)
                                result = result * 31 + U64(kernel(r, c)) * 7 + U64(I64(window[r, c]));
                    }
                }
        };

        template<typename T>
        T outside(Grid<T> const& g, Index const r, Index const col, T const first)
        {
            int const row = r < 0 ? 0 : r < g.rows ? 1 : 2;
            int const column = col < 0 ? 0 : col < g.cols ? 1 : 2;
            return T(first + row * 3 + column);
        }

        template<typename... T>
        using Policies = lue::policy::Policies<
            lue::policy::AllValuesWithinDomain<T...>,
            lue::policy::OutputsPolicies<
                lue::policy::OutputPolicies<lue::policy::DontMarkNoData<U64>, lue::policy::AllValuesWithinRange<U64, T...>>>,
            lue::policy::InputsPolicies<lue::policy::SpatialOperationInputPolicies<lue::policy::SkipNoData<T>, Sides<T>>...>>;

        template<typename T>
        using InputPolicies = lue::policy::SpatialOperationInputPolicies<lue::policy::SkipNoData<T>, Sides<T>>;

        template<typename... T>
        void generic(Operations& operations, std::string const& name)
        {
            operations.push_back(Operation{name, [](Case& c)
                {
                    auto const [m, k] = kernel<U8>(c, [&]() { return U8(c.draw(3)); });
                    Layout const l = focal_layout(c, m.size());
                    start(c);
                    auto const grids = std::tuple<Grid<T>...>{grid<T>(c, l, [&]() { return number<T>(c, 9); }, 0)...};
                    auto const first = std::tuple<T...>{T(20 + number<T>(c, 5))...};
                    c.notes(l.text());
                    std::apply([&](auto const&... g) { (c.notes(g.text()), ...); }, grids);
                    if (l.nr_partitions() > 1 && m.radius > 0) c.nontrivial();
                    auto const& front = std::get<0>(grids);
                    Grid<U64> expected{front.rows, front.cols};
                    for (Index r = 0; r < front.rows; ++r)
                        for (Index col = 0; col < front.cols; ++col)
                        {
                            U64 v = 17;
                            auto const add = [&](auto const& g, auto const f)
                            {
                                for (Index dr = -m.radius; dr <= m.radius; ++dr)
                                    for (Index dc = -m.radius; dc <= m.radius; ++dc)
                                    {
                                        auto const x = g.inside(r + dr, col + dc) ? g(r + dr, col + dc)
                                                                                  : outside(g, r + dr, col + dc, f);
                                        v = v * 31 + U64(m.weight(dr, dc)) * 7 + U64(I64(x));
                                    }
                            };
                            [&]<std::size_t... i>(std::index_sequence<i...>)
                            { (add(std::get<i>(grids), std::get<i>(first)), ...); }(std::index_sequence_for<T...>{});
                            expected(r, col) = v;
                        }
                    run(c, [&]()
                    {
                        auto const arrays = std::apply([&](auto const&... g) { return std::tuple<Array<T>...>{to_array(l, g)...}; }, grids);
                        Policies<T...> const policies = std::apply(
                            [&](auto const... f)
                            {
                                return Policies<T...>{
                                    lue::policy::AllValuesWithinDomain<T...>{},
                                    lue::policy::OutputPolicies<
                                        lue::policy::DontMarkNoData<U64>, lue::policy::AllValuesWithinRange<U64, T...>>{},
                                    InputPolicies<T>{Sides<T>{f}}...};
                            },
                            first);
                        auto const create = [&]() -> Array<U64>
                        {
                            return std::apply(
                                [&](auto const&... a) { return lue::focal_operation(policies, a..., k, Digest{}); }, arrays);
                        };
                        expect_or_refused<U64>(c, std::get<0>(arrays), m.size(), create, expected);
                        [&]<std::size_t... i>(std::index_sequence<i...>)
                        { (expect(c, std::get<i>(arrays), std::get<i>(grids), "argument, afterwards"), ...); }(
                            std::index_sequence_for<T...>{});
                    });
                    report(c);
                }});
        }

    }  // Anonymous namespace


    Operations focal_generic_operations()
    {
        Operations o;
        generic<I32>(o, "focal operation, one array");
        generic<I64, I32>(o, "focal operation, two arrays");
        return o;
    }

}  // namespace fw
