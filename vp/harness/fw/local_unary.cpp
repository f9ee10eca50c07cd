#include "local.hpp"
#include "local_check.hpp"
#include "lue/framework/algorithm/definition/abs.hpp"
#include "lue/framework/algorithm/definition/acos.hpp"
#include "lue/framework/algorithm/definition/asin.hpp"
#include "lue/framework/algorithm/definition/atan.hpp"
#include "lue/framework/algorithm/definition/ceil.hpp"
#include "lue/framework/algorithm/definition/cos.hpp"
#include "lue/framework/algorithm/definition/exp.hpp"
#include "lue/framework/algorithm/definition/floor.hpp"
#include "lue/framework/algorithm/definition/log.hpp"
#include "lue/framework/algorithm/definition/log10.hpp"
#include "lue/framework/algorithm/definition/logical_not.hpp"
#include "lue/framework/algorithm/definition/negate.hpp"
#include "lue/framework/algorithm/definition/round.hpp"
#include "lue/framework/algorithm/definition/sin.hpp"
#include "lue/framework/algorithm/definition/sqrt.hpp"
#include "lue/framework/algorithm/definition/tan.hpp"
#include "lue/framework/algorithm/definition/trunc.hpp"
#include "lue/framework/algorithm/definition/valid.hpp"
#include "lue/framework/algorithm/default_policies/sqrt.hpp"
#include "lue/framework/algorithm/default_policies/negate.hpp"
#include "lue/framework/algorithm/value_policies/abs.hpp"
#include "lue/framework/algorithm/value_policies/acos.hpp"
#include "lue/framework/algorithm/value_policies/asin.hpp"
#include "lue/framework/algorithm/value_policies/atan.hpp"
#include "lue/framework/algorithm/value_policies/ceil.hpp"
#include "lue/framework/algorithm/value_policies/cos.hpp"
#include "lue/framework/algorithm/value_policies/exp.hpp"
#include "lue/framework/algorithm/value_policies/floor.hpp"
#include "lue/framework/algorithm/value_policies/log.hpp"
#include "lue/framework/algorithm/value_policies/log10.hpp"
#include "lue/framework/algorithm/value_policies/logical_not.hpp"
#include "lue/framework/algorithm/value_policies/negate.hpp"
#include "lue/framework/algorithm/value_policies/round.hpp"
#include "lue/framework/algorithm/value_policies/sin.hpp"
#include "lue/framework/algorithm/value_policies/sqrt.hpp"
#include "lue/framework/algorithm/value_policies/tan.hpp"
#include "lue/framework/algorithm/value_policies/trunc.hpp"
#include "lue/framework/algorithm/value_policies/valid.hpp"


namespace fw {
    namespace {

        using namespace lue::value_policies;

        template<typename T>
        std::optional<T> finite(T const v)
        {
            return std::isinf(v) || std::isnan(v) ? std::optional<T>{} : std::optional<T>{v};
        }

        // Inverse trigonometric functions are defined for [-1, 1]
        template<typename T>
        T unit(Case& c)
        {
            return c.chance(70) ? T(std::int64_t(c.draw(10)) - 5) / T(5) : any_number<T>(c);
        }

        template<typename T>
        T positive(Case& c)
        {
            T const v = any_number<T>(c);
            return v == 0 ? T(0.5) : v;
        }

        template<typename T>
        void add(Operations& o)
        {
            std::string const t = std::is_same_v<T, float> ? " float" : " double";
            unary<T, T>(o, "abs" + t, [](auto const& a) { return abs(a); }, [](T v) { return std::optional<T>{std::fabs(v)}; });
            unary<T, T>(o, "negate" + t, [](auto const& a) { return negate(a); }, [](T v) { return std::optional<T>{-v}; });
            unary<T, T>(o, "ceil" + t, [](auto const& a) { return ceil(a); }, [](T v) { return std::optional<T>{std::ceil(v)}; });
            unary<T, T>(o, "floor" + t, [](auto const& a) { return floor(a); }, [](T v) { return std::optional<T>{std::floor(v)}; });
            unary<T, T>(o, "round" + t, [](auto const& a) { return round(a); }, [](T v) { return std::optional<T>{std::round(v)}; });
            unary<T, T>(o, "trunc" + t, [](auto const& a) { return trunc(a); }, [](T v) { return std::optional<T>{std::trunc(v)}; });
            unary<T, T>(
                o, "sqrt" + t, [](auto const& a) { return sqrt(a); },
                [](T v) { return v < 0 ? std::optional<T>{} : std::optional<T>{std::sqrt(v)}; });
            unary<T, T>(o, "exp" + t, [](auto const& a) { return exp(a); }, [](T v) { return finite(std::exp(v)); });
            unary<T, T>(
                o, "log" + t, [](auto const& a) { return log(a); },
                [](T v) { return v < 0 ? std::optional<T>{} : std::optional<T>{std::log(v)}; }, positive<T>);
            unary<T, T>(
                o, "log10" + t, [](auto const& a) { return log10(a); },
                [](T v) { return v < 0 ? std::optional<T>{} : std::optional<T>{std::log10(v)}; }, positive<T>);
            unary<T, T>(
                o, "acos" + t, [](auto const& a) { return acos(a); },
                [](T v) { return v < -1 || v > 1 ? std::optional<T>{} : std::optional<T>{std::acos(v)}; }, unit<T>);
            unary<T, T>(
                o, "asin" + t, [](auto const& a) { return asin(a); },
                [](T v) { return v < -1 || v > 1 ? std::optional<T>{} : std::optional<T>{std::asin(v)}; }, unit<T>);
            unary<T, T>(o, "atan" + t, [](auto const& a) { return atan(a); }, [](T v) { return std::optional<T>{std::atan(v)}; });
            unary<T, T>(o, "cos" + t, [](auto const& a) { return cos(a); }, [](T v) { return std::optional<T>{std::cos(v)}; });
            unary<T, T>(o, "sin" + t, [](auto const& a) { return sin(a); }, [](T v) { return std::optional<T>{std::sin(v)}; });
            unary<T, T>(o, "tan" + t, [](auto const& a) { return tan(a); }, [](T v) { return std::optional<T>{std::tan(v)}; });
        }

    }  // Anonymous namespace


#if FW_GROUP == 0
    Operations unary_float_operations()
    {
        Operations o;
        add<float>(o);
        return o;
    }
#elif FW_GROUP == 1
    Operations unary_double_operations()
    {
        Operations o;
        add<double>(o);
        return o;
    }
#else
    namespace {

        template<typename T>
        void add_negate(Operations& o, std::string const& t)
        {
            unary<T, T>(o, "abs" + t, [](auto const& a) { return abs(a); }, [](T v) { return std::optional<T>{v < 0 ? -v : v}; });
            unary<T, T>(o, "negate" + t, [](auto const& a) { return negate(a); }, [](T v) { return std::optional<T>{-v}; });
        }

        template<typename T>
        void add_valid(Operations& o, std::string const& t)
        {
            o.push_back(Operation{"valid" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    Grid<T> const a{input<T>(c, l, any_element<T>, l.text())};
                    if (l.nr_partitions() > 1 && any_no_data(a)) c.nontrivial();
                    auto const expected =
                        model<U8>(l, [&](std::size_t i) { return std::optional<U8>{!is_no_data(a.cells[i])}; });
                    run(c, [&]()
                    {
                        expect(c, valid<U8>(to_array(l, a)), expected, "result");
                        Array<T> const same = to_array(l, a);
                        expect(c, same, a, "array");
                    });
                    report(c);
                }});
        }

        template<typename T>
        void add_not(Operations& o, std::string const& t)
        {
            unary<T, U8>(o, "logical_not" + t, [](auto const& a) { return logical_not<U8>(a); }, [](T v) { return std::optional<U8>{!v}; }, few<T>);
            unary<T, U8>(o, "!" + t, [](auto const& a) { return !a; }, [](T v) { return std::optional<U8>{!v}; }, few<T>);
        }

    }  // Anonymous namespace


    Operations unary_other_operations()
    {
        Operations o;
        add_negate<I32>(o, " int32");
        add_negate<I64>(o, " int64");
        add_valid<U8>(o, " uint8");
        add_valid<I32>(o, " int32");
        add_valid<U64>(o, " uint64");
        add_valid<double>(o, " double");
        add_not<U8>(o, " uint8");
        add_not<I32>(o, " int32");
        return o;
    }
#endif

}  // namespace fw
