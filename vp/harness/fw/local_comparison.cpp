#include "local.hpp"
#include "local_check.hpp"
#include "lue/framework/algorithm/definition/close_to.hpp"
#include "lue/framework/algorithm/definition/comparison.hpp"
#include "lue/framework/algorithm/definition/logical.hpp"
#include "lue/framework/algorithm/value_policies/close_to.hpp"
#include "lue/framework/algorithm/value_policies/comparison.hpp"
#include "lue/framework/algorithm/value_policies/logical.hpp"


namespace fw {
    namespace {

        using namespace lue::value_policies;

        using B = std::optional<U8>;

        template<typename T>
        void add_comparison(Operations& o, std::string const& t)
        {
            binary<T, T, U8>(o, "equal_to" + t, [](auto const& a, auto const& b) { return equal_to<U8>(a, b); }, [](T a, T b) { return B{a == b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, "not_equal_to" + t, [](auto const& a, auto const& b) { return not_equal_to<U8>(a, b); }, [](T a, T b) { return B{a != b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, "less_than" + t, [](auto const& a, auto const& b) { return less_than<U8>(a, b); }, [](T a, T b) { return B{a < b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, "less_than_equal_to" + t, [](auto const& a, auto const& b) { return less_than_equal_to<U8>(a, b); }, [](T a, T b) { return B{a <= b}; }, few<T>);
            binary<T, T, U8>(o, "greater_than" + t, [](auto const& a, auto const& b) { return greater_than<U8>(a, b); }, [](T a, T b) { return B{a > b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, "greater_than_equal_to" + t, [](auto const& a, auto const& b) { return greater_than_equal_to<U8>(a, b); }, [](T a, T b) { return B{a >= b}; });
            binary<T, T, U8>(o, "==" + t, [](auto const& a, auto const& b) { return a == b; }, [](T a, T b) { return B{a == b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, "!=" + t, [](auto const& a, auto const& b) { return a != b; }, [](T a, T b) { return B{a != b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, "<" + t, [](auto const& a, auto const& b) { return a < b; }, [](T a, T b) { return B{a < b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, "<=" + t, [](auto const& a, auto const& b) { return a <= b; }, [](T a, T b) { return B{a <= b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, ">" + t, [](auto const& a, auto const& b) { return a > b; }, [](T a, T b) { return B{a > b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, ">=" + t, [](auto const& a, auto const& b) { return a >= b; }, [](T a, T b) { return B{a >= b}; }, few<T>, few<T>);
        }

        // Differences around the tolerances of close_to
        double near(Case& c)
        {
            return 1000 + double(c.draw(40)) / 1000;
        }

        template<typename T>
        void add_logical(Operations& o, std::string const& t)
        {
            binary<T, T, U8>(o, "logical_and" + t, [](auto const& a, auto const& b) { return logical_and<U8>(a, b); }, [](T a, T b) { return B{a && b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, "logical_inclusive_or" + t, [](auto const& a, auto const& b) { return logical_inclusive_or<U8>(a, b); }, [](T a, T b) { return B{a || b}; }, few<T>, few<T>);
            binary<T, T, U8>(o, "logical_exclusive_or" + t, [](auto const& a, auto const& b) { return logical_exclusive_or<U8>(a, b); }, [](T a, T b) { return B{!a != !b}; }, few<T>, few<T>);
        }

    }  // Anonymous namespace

#if FW_GROUP == 0
    Operations comparison_operations()
    {
        Operations o;
        add_comparison<I32>(o, " int32");
        return o;
    }
#elif FW_GROUP == 1
    Operations comparison_double_operations()
    {
        Operations o;
        add_comparison<double>(o, " double");
        return o;
    }
#else
    Operations logical_operations()
    {
        Operations o;
        add_logical<U8>(o, " uint8");
        add_logical<I32>(o, " int32");
        binary<double, double, U8>(
            o, "close_to double", [](auto const& a, auto const& b) { return close_to<U8>(a, b); },
            [](double a, double b) { return B{std::abs(a - b) <= 1e-8 + 1e-5 * std::abs(b)}; }, near, near);
        return o;
    }
#endif

}  // namespace fw
