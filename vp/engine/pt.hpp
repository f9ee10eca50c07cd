// Property testing engine. A test case is a pure function of a sequence of bounded choices. The sequence is
// drawn from a generator seeded by (seed, case index), recorded in memory shared with the parent process (so it
// survives crashes of the code under test), and shrunk by deleting, zeroing and minimising choices.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>


namespace pt {

    struct Failure: public std::runtime_error
    {
            using std::runtime_error::runtime_error;
    };

    struct Discard
    {
    };

    struct Shared;

    class Case
    {

        public:

            Case(Shared& shared, std::uint64_t seed, std::vector<std::uint64_t> const* replay,
                std::string const& scratch, bool thorough);

            //! Draw from [0, bound]. Everything random passes here.
            std::uint64_t draw(std::uint64_t bound);

            //! Uniform integer in [lo, hi]
            template<typename T>
            T integer(T lo, T hi)
            {
                using U = std::make_unsigned_t<T>;
                return static_cast<T>(
                    static_cast<U>(lo) +
                    static_cast<U>(draw(static_cast<std::uint64_t>(
                        static_cast<U>(static_cast<U>(hi) - static_cast<U>(lo))))));
            }

            //! True in percent of the cases, shrinks to false
            bool chance(int percent)
            {
                return draw(99) >= static_cast<std::uint64_t>(100 - percent);
            }

            bool boolean()
            {
                return draw(1) == 1;
            }

            template<typename Container>
            auto const& pick(Container const& values)
            {
                return values[draw(values.size() - 1)];
            }

            template<typename T>
            T pick(std::initializer_list<T> values)
            {
                return *(values.begin() + draw(values.size() - 1));
            }

            //! Small sizes often, larger sometimes. Within [lo, hi]
            std::size_t size(std::size_t lo, std::size_t hi);

            //! Any 64-bit value: small, near powers of two, random
            std::uint64_t any64();

            //! Any value of an arithmetic type, boundary values included
            template<typename T>
            T value();

            //! Identifier-like or arbitrary text
            std::string name(std::size_t max_length = 10);
            std::string text(std::size_t max_length = 20, bool allow_empty = true);

            //! Readable log of the case
            void note(std::string const& text);

            template<typename... Ts>
            void notes(Ts const&... parts)
            {
                std::ostringstream stream;
                (stream << ... << parts);
                note(stream.str());
            }

            //! Count the class of cases this one belongs to
            void label(std::string const& name);

            //! Mark this case as non-trivial by the property's rule
            void nontrivial();

            void fail(std::string const& message)
            {
                throw Failure(message);
            }

            void check(bool condition, std::string const& message)
            {
                if (!condition)
                {
                    throw Failure(message);
                }
            }

            template<typename T1, typename T2>
            void equal(T1 const& actual, T2 const& expected, std::string const& what)
            {
                if (!(actual == expected))
                {
                    std::ostringstream stream;
                    stream << what << ": got " << actual << ", expected " << expected;
                    throw Failure(stream.str());
                }
            }

            [[noreturn]] void discard()
            {
                throw Discard{};
            }

            //! Run something that must throw an exception derived from std::exception
            template<typename F>
            std::string refused(F&& f, std::string const& what)
            {
                try
                {
                    f();
                }
                catch (std::exception const& exception)
                {
                    return exception.what();
                }
                throw Failure(what + ": expected an error, but the operation succeeded");
            }

            //! Directory this process may do anything in, emptied per case
            std::string const& scratch() const
            {
                return _scratch;
            }

            std::string path(std::string const& name) const
            {
                return _scratch + "/" + name;
            }

            bool thorough() const
            {
                return _thorough;
            }

        private:

            std::uint64_t next();

            Shared& _shared;
            std::uint64_t _state;
            std::vector<std::uint64_t> const* _replay;
            std::size_t _pos;
            std::string _scratch;
            bool _thorough;
    };


    template<typename T>
    std::string str(T const& value)
    {
        std::ostringstream stream;
        if constexpr (std::is_same_v<T, std::int8_t> || std::is_same_v<T, std::uint8_t>)
        {
            stream << int(value);
        }
        else
        {
            stream << value;
        }
        return stream.str();
    }

    template<typename T>
    std::string str(std::vector<T> const& values)
    {
        std::ostringstream stream;
        stream << "[";
        for (std::size_t i = 0; i < values.size(); ++i)
        {
            stream << (i ? ", " : "");
            if (i == 24)
            {
                stream << "... (" << values.size() << ")";
                break;
            }
            stream << str(values[i]);
        }
        stream << "]";
        return stream.str();
    }


    template<typename T>
    T Case::value()
    {
        if constexpr (std::is_same_v<T, bool>)
        {
            return boolean();
        }
        else if constexpr (std::is_floating_point_v<T>)
        {
            switch (draw(9))
            {
                case 0:
                case 1:
                case 2:
                case 3:
                {
                    // Small whole numbers
                    return static_cast<T>(static_cast<std::int64_t>(draw(40)) - 20);
                }
                case 4:
                case 5:
                {
                    return static_cast<T>(static_cast<double>(draw(1000000)) / 997.0 - 300.0);
                }
                case 6:
                {
                    return pick({T(0), T(-0.0), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(),
                        std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(),
                        std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()});
                }
                default:
                {
                    // Random bits, but no NaN
                    using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
                    U bits = static_cast<U>(draw(std::numeric_limits<std::uint64_t>::max()));
                    T result;
                    std::memcpy(&result, &bits, sizeof(T));
                    return std::isnan(result) ? T(1) : result;
                }
            }
        }
        else
        {
            return static_cast<T>(any64());
        }
    }


    //! Bitwise equality: distinguishes -0.0 from 0.0, and holds for equal NaN payloads
    template<typename T>
    bool same_bits(T const& a, T const& b)
    {
        return std::memcmp(&a, &b, sizeof(T)) == 0;
    }


    struct Property
    {
            std::string id;
            //! How cases are made and what makes one non-trivial
            std::string rule;
            std::function<void(Case&)> run;
            std::size_t nr_cases_quick;
            std::size_t nr_cases_thorough;
            //! Called once at the start of a worker process
            std::function<void()> setup{};
            //! Reproductions of known findings: throw Failure while the defect is there
            std::vector<std::pair<std::string, std::function<void(Case&)>>> probes{};
    };

    int main(int argc, char** argv, std::vector<Property> const& properties);

}  // namespace pt
