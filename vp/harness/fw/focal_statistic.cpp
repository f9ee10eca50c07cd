// Statistics of neighbourhoods
#include "focal.hpp"
#include "lue/framework/algorithm/definition/convolve.hpp"
#include "lue/framework/algorithm/definition/focal_diversity.hpp"
#include "lue/framework/algorithm/definition/focal_high_pass.hpp"
#include "lue/framework/algorithm/definition/focal_majority.hpp"
#include "lue/framework/algorithm/definition/focal_maximum.hpp"
#include "lue/framework/algorithm/definition/focal_mean.hpp"
#include "lue/framework/algorithm/definition/focal_minimum.hpp"
#include "lue/framework/algorithm/definition/focal_sum.hpp"
#include "lue/framework/algorithm/default_policies/convolve.hpp"
#include "lue/framework/algorithm/default_policies/focal_high_pass.hpp"
#include "lue/framework/algorithm/default_policies/focal_maximum.hpp"
#include "lue/framework/algorithm/default_policies/focal_mean.hpp"
#include "lue/framework/algorithm/default_policies/focal_minimum.hpp"
#include "lue/framework/algorithm/default_policies/focal_sum.hpp"
#include "lue/framework/algorithm/value_policies/convolve.hpp"
#include "lue/framework/algorithm/value_policies/focal_diversity.hpp"
#include "lue/framework/algorithm/value_policies/focal_high_pass.hpp"
#include "lue/framework/algorithm/value_policies/focal_majority.hpp"
#include "lue/framework/algorithm/value_policies/focal_maximum.hpp"
#include "lue/framework/algorithm/value_policies/focal_mean.hpp"
#include "lue/framework/algorithm/value_policies/focal_minimum.hpp"
#include "lue/framework/algorithm/value_policies/focal_sum.hpp"
#include <map>
#include <set>


namespace fw {
    namespace {

        namespace vp = lue::value_policies;
        namespace dp = lue::default_policies;

        template<typename T>
        T addable(Case& c)
        {
            return number<T>(c, 30);
        }

        template<typename T>
        T few(Case& c)
        {
            return c.chance(90) ? number<T>(c, 2) : any_number<T>(c);
        }

        template<typename T>
        std::optional<T> total(std::vector<T> const& v)
        {
            if (v.empty()) return {};
            T result{};
            for (T const x : v) result += x;
            return result;
        }

        template<typename T, typename Weight>
        void add_general(Operations& o, std::string const& t)
        {
            focal<T, T, Weight>(
                o, "focal_sum" + t, [](auto const& a, auto const& k) { return vp::focal_sum(a, k); },
                [](auto const& w, auto const& m) { return total(values(w, m)); }, addable<T>, boolean_weight<Weight>);
            focal<T, T, Weight>(
                o, "focal_minimum" + t, [](auto const& a, auto const& k) { return vp::focal_minimum(a, k); },
                [](auto const& w, auto const& m)
                {
                    auto const v = values(w, m);
                    return v.empty() ? std::optional<T>{} : *std::min_element(v.begin(), v.end());
                },
                any_number<T>, boolean_weight<Weight>);
            focal<T, T, Weight>(
                o, "focal_maximum" + t, [](auto const& a, auto const& k) { return vp::focal_maximum(a, k); },
                [](auto const& w, auto const& m)
                {
                    auto const v = values(w, m);
                    return v.empty() ? std::optional<T>{} : *std::max_element(v.begin(), v.end());
                },
                any_number<T>, boolean_weight<Weight>);
        }

        template<typename T, typename Weight>
        void add_nominal(Operations& o, std::string const& t)
        {
            focal<T, U64, Weight>(
                o, "focal_diversity" + t, [](auto const& a, auto const& k) { return vp::focal_diversity<U64>(a, k); },
                [](auto const& w, auto const& m)
                {
                    auto const v = values(w, m);
                    return v.empty() ? std::optional<U64>{} : U64(std::set<T>(v.begin(), v.end()).size());
                },
                few<T>, boolean_weight<Weight>);
            focal<T, T, Weight>(
                o, "focal_majority" + t, [](auto const& a, auto const& k) { return vp::focal_majority(a, k); },
                [](auto const& w, auto const& m)
                {
                    auto const v = values(w, m);
                    std::map<T, int> counts;
                    for (T const x : v) ++counts[x];
                    std::optional<T> best;
                    // The smallest of the values that occur most
                    for (auto const& [value, count] : counts)
                        if (!best || count > counts[*best]) best = value;
                    return best;
                },
                few<T>, boolean_weight<Weight>);
        }

        template<typename T, typename Weight>
        void add_floating(Operations& o, std::string const& t)
        {
            auto const mean = [](std::vector<T> const& v)
            { return v.empty() ? std::optional<T>{} : std::optional<T>{*total(v) / T(v.size())}; };
            auto const high_pass = [](auto const& w, std::vector<T> const& v)
            {
                return v.empty() || is_no_data(w(0, 0)) ? std::optional<T>{}
                                                        : std::optional<T>{2 * w(0, 0) * T(v.size()) - *total(v)};
            };
            focal<T, T, Weight>(
                o, "focal_mean" + t, [](auto const& a, auto const& k) { return vp::focal_mean(a, k); },
                [=](auto const& w, auto const& m) { return mean(values(w, m)); }, addable<T>, boolean_weight<Weight>);
            focal<T, T, Weight>(
                o, "focal_high_pass" + t, [](auto const& a, auto const& k) { return vp::focal_high_pass(a, k); },
                [=](auto const& w, auto const& m) { return high_pass(w, values(w, m, true, true)); }, addable<T>,
                boolean_weight<Weight>);
        }

        // Without handling of no-data: cells outside of the array do not affect the result
        template<typename T>
        void add_default_extremes(Operations& o, std::string const& t)
        {
            auto const all = [](Case&) { return U8(1); };
            focal<T, T, U8>(
                o, "focal_minimum, default policies" + t, [](auto const& a, auto const& k) { return dp::focal_minimum(a, k); },
                [](auto const& w, auto const& m)
                {
                    auto const v = values(w, m);
                    return v.empty() ? std::optional<T>{} : *std::min_element(v.begin(), v.end());
                },
                addable<T>, all, {}, false);
            focal<T, T, U8>(
                o, "focal_maximum, default policies" + t, [](auto const& a, auto const& k) { return dp::focal_maximum(a, k); },
                [](auto const& w, auto const& m)
                {
                    auto const v = values(w, m);
                    return v.empty() ? std::optional<T>{} : *std::max_element(v.begin(), v.end());
                },
                addable<T>, all, {}, false);
        }

        template<typename T>
        void add_convolve(Operations& o, std::string const& t)
        {
            auto const oracle = [](bool const skip_no_data)
            {
                return [=](auto const& w, auto const& m)
                {
                    std::optional<T> result;
                    for (Index r = -m.radius; r <= m.radius; ++r)
                        for (Index col = -m.radius; col <= m.radius; ++col)
                        {
                            T const v = w(r, col);
                            if (!skip_no_data || !is_no_data(v)) result = (result ? *result : T{}) + T(m.weight(r, col)) * v;
                        }
                    return result;
                };
            };
            auto const weight = [](Case& c) { return T(number<T>(c, 4) / T(2)); };
            focal<T, T, T>(
                o, "convolve" + t, [](auto const& a, auto const& k) { return vp::convolve(a, k); }, oracle(true),
                addable<T>, weight);
            focal<T, T, T>(
                o, "convolve, default policies" + t, [](auto const& a, auto const& k) { return dp::convolve(a, k); },
                oracle(false), addable<T>, weight, T{0}, false);
        }

    }  // Anonymous namespace


#if FW_GROUP == 0
    Operations focal_integer_operations()
    {
        Operations o;
        add_general<I32, U8>(o, "<int32>");
        add_nominal<I32, U8>(o, "<int32>");
        add_nominal<U8, U8>(o, "<uint8>");
        add_default_extremes<I32>(o, "<int32>");
        add_general<U64, I32>(o, "<uint64>, int32 weights");
        return o;
    }
#else
    Operations focal_float_operations()
    {
        Operations o;
        add_general<double, U8>(o, "<float64>");
        add_floating<float, U8>(o, "<float32>");
        add_default_extremes<float>(o, "<float32>");
        add_convolve<float>(o, "<float32>");
        focal<float, float, U8>(
            o, "focal_mean, default policies", [](auto const& a, auto const& k) { return dp::focal_mean(a, k); },
            [](auto const& w, auto const& m) -> std::optional<float>
            {
                auto const v = values(w, m, false);
                if (v.empty()) return {};
                return *total(v) / float(v.size());
            },
            addable<float>,
            // The policies do not mark no-data: there must be something to take the mean of
            [](Case&) { return U8(1); }, 0.0f, false);
        return o;
    }
#endif

}  // namespace fw
