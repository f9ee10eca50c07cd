#include "local.hpp"
#include "local_check.hpp"
#include "lue/framework/algorithm/definition/cast.hpp"
#include "lue/framework/algorithm/definition/where.hpp"
#include "lue/framework/algorithm/value_policies/cast.hpp"
#include "lue/framework/algorithm/value_policies/where.hpp"


namespace fw {
    namespace {

        using namespace lue::value_policies;

        template<typename C, typename T>
        void add_where(Operations& o, std::string const& t)
        {
            o.push_back(Operation{"where(a, b, c)" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    unsigned const form = unsigned(c.draw(6));
                    char const* const forms[] = {"array, array", "array, scalar", "scalar, array", "scalar, scalar", "array, value", "value, array", "value, value"};
                    c.label(std::string("where: ") + forms[form]);
                    auto const condition = input<C>(c, l, few<C>, l.text() + ", " + forms[form] + ", condition");
                    auto a = input<T>(c, l, any_element<T>, "if true");
                    auto b = input<T>(c, l, any_element<T>, "if false");
                    if (form == 2 || form == 3 || form >= 5) std::fill(a.cells.begin(), a.cells.end(), a.cells[0]);
                    if (form == 1 || form == 3 || form == 4 || form == 6) std::fill(b.cells.begin(), b.cells.end(), b.cells[0]);
                    if (l.nr_partitions() > 1) c.nontrivial();
                    auto const expected = model<T>(
                        l, [&](std::size_t i)
                        {
                            if (is_no_data(condition.cells[i])) return std::optional<T>{};
                            T const v = condition.cells[i] ? a.cells[i] : b.cells[i];
                            return is_no_data(v) ? std::optional<T>{} : std::optional<T>{v};
                        });
                    run(c, [&]()
                    {
                        auto const x = to_array(l, condition);
                        auto const y = to_array(l, a);
                        auto const z = to_array(l, b);
                        T const p = a.cells[0];
                        T const q = b.cells[0];
                        Array<T> const result = form == 0 ? where(x, y, z)
                            : form == 1 ? where(x, y, scalar<T>(q))
                            : form == 2 ? where(x, scalar<T>(p), z)
                            : form == 3 ? where(x, scalar<T>(p), scalar<T>(q))
                            : form == 4 ? where(x, y, q)
                            : form == 5 ? where(x, p, z)
                                        : where(x, p, q);
                        expect(c, result, expected, "result");
                        expect(c, y, a, "second argument, afterwards");
                    });
                    report(c);
                }});
            o.push_back(Operation{"where(a, b)" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    unsigned const form = unsigned(c.draw(1));
                    auto const condition = input<C>(c, l, few<C>, l.text() + ", form " + str(form) + ", condition");
                    auto a = input<T>(c, l, any_element<T>, "if true");
                    if (form) std::fill(a.cells.begin(), a.cells.end(), a.cells[0]);
                    if (l.nr_partitions() > 1) c.nontrivial();
                    auto const expected = model<T>(
                        l, [&](std::size_t i)
                        {
                            return is_no_data(condition.cells[i]) || !condition.cells[i] || is_no_data(a.cells[i])
                                ? std::optional<T>{}
                                : std::optional<T>{a.cells[i]};
                        });
                    run(c, [&]()
                    {
                        auto const x = to_array(l, condition);
                        auto const y = to_array(l, a);
                        T const p = a.cells[0];
                        Array<T> const result = form == 0 ? where(x, y) : where(x, p);
                        expect(c, result, expected, "result");
                    });
                    report(c);
                }});
        }

        // Is the value, without its fraction, within the range of the type?
        template<typename To, typename From>
        bool within(From const v)
        {
            using L = std::numeric_limits<To>;
            if constexpr (std::is_floating_point_v<To>)
            {
                return std::abs(static_cast<long double>(v)) <= static_cast<long double>(L::max());
            }
            else
            {
                return static_cast<long double>(v) >= static_cast<long double>(L::min()) &&
                       static_cast<long double>(v) <= static_cast<long double>(L::max());
            }
        }

        // Values, often near the limits of types
        template<typename T, typename To>
        T castable(Case& c)
        {
            if (c.chance(30))
            {
                int const bits = c.pick<int>({8, 31, 32, 63, 64});
                long double const around = c.chance(50) ? ldexpl(1, bits) : -ldexpl(1, bits);
                long double const v = around + (long double)(std::int64_t(c.draw(4)) - 2);
                if (within<T>(v))
                {
                    T const r = static_cast<T>(v);
                    if (!is_no_data(r)) return r;
                }
            }
            T const v = any_number<T>(c);
            // Not specified: the fractions between -1 and 0 as unsigned integer
            return std::is_unsigned_v<To> && v > -1 && v < 0 ? T(1) : v;
        }

        template<typename From, typename To>
        void add_cast(Operations& o, std::string const& t)
        {
            unary<From, To>(
                o, "cast " + t, [](auto const& a) { return cast<To>(a); },
                [](From v) { return within<To>(v) ? std::optional<To>{static_cast<To>(v)} : std::optional<To>{}; },
                castable<From, To>);
        }

    }  // Anonymous namespace

#if FW_GROUP == 0
    Operations where_operations()
    {
        Operations o;
        add_where<U8, I32>(o, " uint8, int32");
        add_where<I32, double>(o, " int32, double");
        return o;
    }
#elif FW_GROUP == 1
    Operations cast_operations()
    {
        Operations o;
        add_cast<U8, I32>(o, "uint8 to int32");
        add_cast<I32, U8>(o, "int32 to uint8");
        add_cast<I32, U64>(o, "int32 to uint64");
        add_cast<I64, I32>(o, "int64 to int32");
        add_cast<I64, U32>(o, "int64 to uint32");
        add_cast<U64, I64>(o, "uint64 to int64");
        add_cast<U64, U8>(o, "uint64 to uint8");
        add_cast<U32, I32>(o, "uint32 to int32");
        return o;
    }
#else
    Operations cast_float_operations()
    {
        Operations o;
        add_cast<double, float>(o, "double to float");
        add_cast<float, double>(o, "float to double");
        add_cast<float, U32>(o, "float to uint32");
        add_cast<float, I32>(o, "float to int32");
        add_cast<double, U64>(o, "double to uint64");
        add_cast<double, I64>(o, "double to int64");
        add_cast<double, U8>(o, "double to uint8");
        add_cast<I64, float>(o, "int64 to float");
        return o;
    }
#endif

}  // namespace fw
