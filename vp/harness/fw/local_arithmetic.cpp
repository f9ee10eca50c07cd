#include "local.hpp"
#include "local_check.hpp"
#include "lue/framework/algorithm/definition/add.hpp"
#include "lue/framework/algorithm/definition/atan2.hpp"
#include "lue/framework/algorithm/definition/divide.hpp"
#include "lue/framework/algorithm/definition/modulus.hpp"
#include "lue/framework/algorithm/definition/multiply.hpp"
#include "lue/framework/algorithm/definition/pow.hpp"
#include "lue/framework/algorithm/definition/subtract.hpp"
#include "lue/framework/algorithm/value_policies/arithmetic.hpp"
#include "lue/framework/algorithm/value_policies/atan2.hpp"
#include "lue/framework/algorithm/value_policies/modulus.hpp"
#include "lue/framework/algorithm/value_policies/pow.hpp"


namespace fw {
    namespace {

        using namespace lue::value_policies;

        // The result, or nothing if it does not fit
        template<typename T, typename F>
        std::optional<T> fits(T const a, T const b, F&& f)
        {
            if constexpr (std::is_floating_point_v<T>)
            {
                T const r = f(a, b);
                return std::isinf(r) ? std::optional<T>{} : std::optional<T>{r};
            }
            else
            {
                __int128 const r = f(static_cast<__int128>(a), static_cast<__int128>(b));
                return r < std::numeric_limits<T>::min() || r > std::numeric_limits<T>::max()
                    ? std::optional<T>{}
                    : std::optional<T>{static_cast<T>(r)};
            }
        }

        template<typename T>
        std::optional<T> multiplied(T const a, T const b)
        {
            if constexpr (std::is_floating_point_v<T>)
            {
                return fits(a, b, [](auto x, auto y) { return x * y; });
            }
            else
            {
                T r;
                return __builtin_mul_overflow(a, b, &r) ? std::optional<T>{} : std::optional<T>{r};
            }
        }

        template<typename T>
        std::optional<T> divided(T const a, T const b)
        {
            if (b == 0) return {};
            T const r = a / b;
            if constexpr (std::is_floating_point_v<T>)
            {
                if (std::isinf(r)) return {};
            }
            return r;
        }

        template<typename T>
        std::optional<T> rest(T const a, T const b)
        {
            if (b == 0) return {};
            if constexpr (std::is_floating_point_v<T>) return std::fmod(a, b);
            else return a % b;
        }

        template<typename T>
        void add_arithmetic(Operations& o, std::string const& t)
        {
            binary<T, T, T>(
                o, "add" + t, [](auto const& a, auto const& b) { return add(a, b); },
                [](T a, T b) { return fits(a, b, [](auto x, auto y) { return x + y; }); });
            binary<T, T, T>(
                o, "subtract" + t, [](auto const& a, auto const& b) { return subtract(a, b); },
                [](T a, T b) { return fits(a, b, [](auto x, auto y) { return x - y; }); });
            binary<T, T, T>(
                o, "multiply" + t, [](auto const& a, auto const& b) { return multiply(a, b); }, multiplied<T>);
            binary<T, T, T>(o, "divide" + t, [](auto const& a, auto const& b) { return divide(a, b); }, divided<T>);
            binary<T, T, T>(o, "modulus" + t, [](auto const& a, auto const& b) { return modulus(a, b); }, rest<T>);
            // Operators
            binary<T, T, T>(
                o, "(a + b) - (b * a)" + t, [](auto const& a, auto const& b) { return (a + b) - (b * a); },
                [](T a, T b)
                {
                    auto const sum = fits(a, b, [](auto x, auto y) { return x + y; });
                    auto const product = multiplied(b, a);
                    return !sum || !product || is_no_data(*sum) || is_no_data(*product)
                        ? std::optional<T>{}
                        : fits(*sum, *product, [](auto x, auto y) { return x - y; });
                });
            binary<T, T, T>(
                o, "/" + t, [](auto const& a, auto const& b) { return a / b; }, divided<T>);
            binary<T, T, T>(
                o, "%" + t, [](auto const& a, auto const& b) { return a % b; }, rest<T>);
        }

        template<typename T>
        T exponent(Case& c)
        {
            return T(std::int64_t(c.draw(12)) - 4) / T(2);
        }

        template<typename T>
        T base(Case& c)
        {
            T const v = number<T>(c, 8);
            return v == 0 ? T(0.25) : v;
        }

        template<typename T>
        void add_real(Operations& o, std::string const& t)
        {
            binary<T, T, T>(
                o, "pow" + t, [](auto const& a, auto const& b) { return pow(a, b); },
                [](T a, T b) { return std::optional<T>{std::pow(a, b)}; }, base<T>, exponent<T>);
            o.push_back(Operation{"atan2" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    auto const a = input<T>(c, l, any_element<T>, l.text());
                    auto const b = input<T>(c, l, any_element<T>, "second argument");
                    if (l.nr_partitions() > 1) c.nontrivial();
                    auto const expected = model<T>(
                        l, [&](std::size_t i)
                        {
                            return is_no_data(a.cells[i]) || is_no_data(b.cells[i])
                                ? std::optional<T>{}
                                : std::optional<T>{std::atan2(a.cells[i], b.cells[i])};
                        });
                    run(c, [&]() { expect(c, atan2(to_array(l, a), to_array(l, b)), expected, "result"); });
                    report(c);
                }});
        }

    }  // Anonymous namespace

#define FW_ARITHMETIC(name, T, text, real)                                                                   \
    Operations name()                                                                                        \
    {                                                                                                        \
        Operations o;                                                                                        \
        add_arithmetic<T>(o, text);                                                                          \
        if constexpr (real) add_real<std::conditional_t<real, T, double>>(o, text);                          \
        return o;                                                                                            \
    }

#if FW_GROUP == 0
    FW_ARITHMETIC(integer_operations, I32, " int32", false)
#elif FW_GROUP == 1
    FW_ARITHMETIC(unsigned_operations, U64, " uint64", false)
#elif FW_GROUP == 2
    FW_ARITHMETIC(float_operations, float, " float", false)
#else
    FW_ARITHMETIC(double_operations, double, " double", true)
#endif

}  // namespace fw
