// Policies that do not support no-data, for a few operations
#include "local.hpp"
#include "local_check.hpp"
#include "lue/framework/algorithm/definition/add.hpp"
#include "lue/framework/algorithm/definition/cast.hpp"
#include "lue/framework/algorithm/definition/comparison.hpp"
#include "lue/framework/algorithm/definition/logical.hpp"
#include "lue/framework/algorithm/definition/multiply.hpp"
#include "lue/framework/algorithm/definition/negate.hpp"
#include "lue/framework/algorithm/definition/sqrt.hpp"
#include "lue/framework/algorithm/definition/subtract.hpp"
#include "lue/framework/algorithm/definition/valid.hpp"
#include "lue/framework/algorithm/default_policies/add.hpp"
#include "lue/framework/algorithm/default_policies/cast.hpp"
#include "lue/framework/algorithm/default_policies/comparison.hpp"
#include "lue/framework/algorithm/default_policies/logical_and.hpp"
#include "lue/framework/algorithm/default_policies/multiply.hpp"
#include "lue/framework/algorithm/default_policies/negate.hpp"
#include "lue/framework/algorithm/default_policies/sqrt.hpp"
#include "lue/framework/algorithm/default_policies/subtract.hpp"


namespace fw {
    namespace {

        using namespace lue::default_policies;

        double square(Case& c)
        {
            return double(c.draw(20));
        }

        template<typename T>
        T small(Case& c)
        {
            return number<T>(c, 9);
        }

    }  // Anonymous namespace


    Operations default_operations()
    {
        Operations o;
        using I = std::optional<I32>;
        using D = std::optional<double>;
        using B = std::optional<U8>;
        std::string const p = ", without no-data";
        binary<I32, I32, I32>(o, "+ int32" + p, [](auto const& a, auto const& b) { return a + b; }, [](I32 a, I32 b) { return I{a + b}; }, small<I32>, small<I32>, false);
        binary<I32, I32, I32>(o, "- int32" + p, [](auto const& a, auto const& b) { return a - b; }, [](I32 a, I32 b) { return I{a - b}; }, small<I32>, small<I32>, false);
        binary<double, double, double>(o, "* double" + p, [](auto const& a, auto const& b) { return a * b; }, [](double a, double b) { return D{a * b}; }, small<double>, small<double>, false);
        binary<I32, I32, U8>(o, "< int32" + p, [](auto const& a, auto const& b) { return a < b; }, [](I32 a, I32 b) { return B{a < b}; }, few<I32>, few<I32>, false);
        binary<I32, I32, U8>(o, "== int32" + p, [](auto const& a, auto const& b) { return a == b; }, [](I32 a, I32 b) { return B{a == b}; }, few<I32>, few<I32>, false);
        binary<U8, U8, U8>(o, "logical_and uint8" + p, [](auto const& a, auto const& b) { return logical_and<U8>(a, b); }, [](U8 a, U8 b) { return B{a && b}; }, few<U8>, few<U8>, false);
        unary<double, double>(o, "sqrt double" + p, [](auto const& a) { return sqrt(a); }, [](double v) { return D{std::sqrt(v)}; }, square, false);
        unary<I32, I32>(o, "negate int32" + p, [](auto const& a) { return negate(a); }, [](I32 v) { return I{-v}; }, small<I32>, false);
        unary<I32, double>(o, "cast int32 to double" + p, [](auto const& a) { return cast<double>(a); }, [](I32 v) { return D{double(v)}; }, small<I32>, false);
        return o;
    }

}  // namespace fw
