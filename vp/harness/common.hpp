// Shared parts of the harnesses
#pragma once
#include "pt.hpp"
#include "lue/hdf5.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>


namespace vp {

    namespace lh5 = lue::hdf5;
    using pt::Case;
    using pt::str;


    inline void quiet()
    {
        if (!getenv("VP_HDF5_ERRORS")) H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    }


    template<typename T>
    char const* type_name();

#define VP_TYPE_NAME(T)                                                                                      \
    template<>                                                                                               \
    inline char const* type_name<T>()                                                                        \
    {                                                                                                        \
        return #T;                                                                                           \
    }
    VP_TYPE_NAME(std::int8_t)
    VP_TYPE_NAME(std::int16_t)
    VP_TYPE_NAME(std::int32_t)
    VP_TYPE_NAME(std::int64_t)
    VP_TYPE_NAME(std::uint8_t)
    VP_TYPE_NAME(std::uint16_t)
    VP_TYPE_NAME(std::uint32_t)
    VP_TYPE_NAME(std::uint64_t)
    VP_TYPE_NAME(float)
    VP_TYPE_NAME(double)
#undef VP_TYPE_NAME


    //! Call f.template operator()<T>() for one of the numeric types
    template<typename F>
    void with_type(std::size_t idx, F&& f)
    {
        switch (idx)
        {
            case 0: return f.template operator()<std::int32_t>();
            case 1: return f.template operator()<double>();
            case 2: return f.template operator()<std::uint8_t>();
            case 3: return f.template operator()<std::uint64_t>();
            case 4: return f.template operator()<float>();
            case 5: return f.template operator()<std::int64_t>();
            case 6: return f.template operator()<std::uint32_t>();
            case 7: return f.template operator()<std::int8_t>();
            case 8: return f.template operator()<std::int16_t>();
            default: return f.template operator()<std::uint16_t>();
        }
    }

    constexpr std::size_t nr_types = 10;


    //! Native type, obtained without the code under test
    template<typename T>
    hid_t native_type()
    {
        if constexpr (std::is_same_v<T, std::int8_t>) return H5T_NATIVE_INT8;
        if constexpr (std::is_same_v<T, std::int16_t>) return H5T_NATIVE_INT16;
        if constexpr (std::is_same_v<T, std::int32_t>) return H5T_NATIVE_INT32;
        if constexpr (std::is_same_v<T, std::int64_t>) return H5T_NATIVE_INT64;
        if constexpr (std::is_same_v<T, std::uint8_t>) return H5T_NATIVE_UINT8;
        if constexpr (std::is_same_v<T, std::uint16_t>) return H5T_NATIVE_UINT16;
        if constexpr (std::is_same_v<T, std::uint32_t>) return H5T_NATIVE_UINT32;
        if constexpr (std::is_same_v<T, std::uint64_t>) return H5T_NATIVE_UINT64;
        if constexpr (std::is_same_v<T, float>) return H5T_NATIVE_FLOAT;
        if constexpr (std::is_same_v<T, double>) return H5T_NATIVE_DOUBLE;
    }


    template<typename T>
    lh5::Datatype datatype()
    {
        return lh5::Datatype{lh5::NativeDatatypeTraits<T>::type_id()};
    }


    inline std::size_t nr_elements(lh5::Shape const& shape)
    {
        std::size_t n = 1;
        for (auto e: shape)
        {
            n *= e;
        }
        return n;
    }


    //! Values of which most are drawn and, when there are many, the rest follow from these
    template<typename T>
    std::vector<T> values(Case& c, std::size_t n)
    {
        std::vector<T> result(n);
        std::size_t const nr_drawn = std::min<std::size_t>(n, 24);
        for (std::size_t i = 0; i < nr_drawn; ++i)
        {
            result[i] = c.value<T>();
        }
        for (std::size_t i = nr_drawn; i < n; ++i)
        {
            // Distinguish positions
            result[i] = static_cast<T>(static_cast<std::int32_t>((i * 31 + 7 + (i / 97)) % 113));
        }
        return result;
    }


    template<typename T>
    bool same(std::vector<T> const& a, std::vector<T> const& b)
    {
        if (a.size() != b.size())
        {
            return false;
        }
        return a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0;
    }


    template<typename T>
    void expect_same(Case& c, std::vector<T> const& actual, std::vector<T> const& expected, std::string const& what)
    {
        if (!same(actual, expected))
        {
            std::size_t i = 0;
            while (i < std::min(actual.size(), expected.size()) && pt::same_bits(actual[i], expected[i]))
            {
                ++i;
            }
            c.fail(
                what + ": got " + str(actual) + ", expected " + str(expected) + ", first difference at " +
                std::to_string(i) +
                (i < std::min(actual.size(), expected.size())
                     ? ": " + str(actual[i]) + " instead of " + str(expected[i])
                     : ""));
        }
    }


    //! Read into a buffer with guards behind it
    template<typename T, typename F>
    std::vector<T> guarded_read(Case& c, std::size_t n, std::string const& what, F&& read)
    {
        std::size_t const guard = 8;
        std::vector<T> buffer(n + guard);
        std::memset(static_cast<void*>(buffer.data()), 0x5a, buffer.size() * sizeof(T));
        read(static_cast<void*>(buffer.data()));
        unsigned char const* p = reinterpret_cast<unsigned char const*>(buffer.data() + n);
        for (std::size_t i = 0; i < guard * sizeof(T); ++i)
        {
            if (p[i] != 0x5a)
            {
                c.fail(what + ": more elements were written to the buffer than were asked for");
            }
        }
        buffer.resize(n);
        return buffer;
    }


    //! Elements of which some were never written. The values of these are not specified, unless there is a no-data
    //! value. Reading an array to which nothing was written at all may be refused.
    template<typename T>
    struct Elements
    {
            std::vector<T> values;
            std::vector<char> defined;
            bool touched{false};

            std::size_t size() const
            {
                return values.size();
            }

            void resize(std::size_t n, std::optional<T> const& no_data)
            {
                values.resize(n, no_data ? *no_data : T(0));
                defined.resize(n, no_data ? 1 : 0);
            }

            void assign(std::size_t n, std::optional<T> const& no_data = {})
            {
                values.clear();
                defined.clear();
                resize(n, no_data);
            }

            void write(std::size_t begin, std::vector<T> const& v)
            {
                std::copy(v.begin(), v.end(), values.begin() + begin);
                std::fill(defined.begin() + begin, defined.begin() + begin + v.size(), 1);
                touched = touched || !v.empty();
            }

            template<typename F>
            void verify(Case& c, std::size_t begin, std::size_t n, std::string const& what, F&& read) const
            {
                bool const has_defined = std::any_of(
                    defined.begin() + begin, defined.begin() + begin + n, [](char d) { return d; });
                std::vector<T> actual;
                if (!touched && !has_defined)
                {
                    try
                    {
                        actual = guarded_read<T>(c, n, what, read);
                    }
                    catch (pt::Failure const&)
                    {
                        throw;
                    }
                    catch (std::exception const&)
                    {
                    }
                    return;
                }
                actual = guarded_read<T>(c, n, what, read);
                for (std::size_t i = 0; i < n; ++i)
                {
                    if (defined[begin + i] && !pt::same_bits(actual[i], values[begin + i]))
                    {
                        std::vector<T> const expected(values.begin() + begin, values.begin() + begin + n);
                        c.fail(
                            what + ": got " + str(actual) + ", expected " + str(expected) +
                            ", first difference at " + std::to_string(i) + ": " + str(actual[i]) +
                            " instead of " + str(expected[i]));
                    }
                }
            }
    };


    inline std::string file_bytes(std::string const& path)
    {
        std::ifstream stream(path, std::ios::binary);
        stream.seekg(0, std::ios::end);
        std::string result(std::size_t(stream.tellg()), '\0');
        stream.seekg(0);
        stream.read(result.data(), std::streamsize(result.size()));
        return result;
    }


    //! A shape with a number of elements that is not more than max_nr_elements
    inline lh5::Shape shape(Case& c, std::size_t min_rank, std::size_t max_rank, std::size_t max_extent,
        std::size_t max_nr_elements)
    {
        std::size_t const rank = min_rank + c.draw(max_rank - min_rank);
        lh5::Shape result;
        std::size_t n = 1;
        for (std::size_t d = 0; d < rank; ++d)
        {
            std::size_t const limit = std::max<std::size_t>(1, std::min(max_extent, max_nr_elements / n));
            std::size_t e = 1 + c.draw(limit - 1 < 6 || c.chance(15) ? limit - 1 : 5);
            result.push_back(e);
            n *= e;
        }
        return result;
    }


    inline std::string str_shape(lh5::Shape const& shape)
    {
        std::vector<std::uint64_t> values(shape.begin(), shape.end());
        return str(values);
    }

    //! Distinct object IDs
    inline std::vector<hsize_t> object_ids(Case& c, std::size_t n, std::set<hsize_t>& used)
    {
        std::vector<hsize_t> result;
        while (result.size() < n)
        {
            hsize_t id = c.chance(70) ? c.draw(200) : c.any64();
            while (used.count(id))
            {
                ++id;
            }
            used.insert(id);
            result.push_back(id);
        }
        return result;
    }

}  // namespace vp
