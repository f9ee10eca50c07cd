// Shared parts of the harnesses of LUE's framework
//
// The framework is compiled against a stand-in of HPX (see standin/hpx_standin.hpp) in which everything that HPX
// would run concurrently is a task. The order in which the tasks run is part of the case.
#pragma once
#include "pt.hpp"
#include "lue/framework/algorithm/create_partitioned_array.hpp"
#include "lue/framework/algorithm/policy.hpp"
#include "lue/framework/algorithm/policy/default_policies.hpp"
#include "lue/framework/algorithm/policy/default_value_policies.hpp"
#include "lue/framework/partitioned_array/array_partition_impl.hpp"
#include "lue/framework/partitioned_array/server/array_partition_impl.hpp"
#include "lue/framework/partitioned_array_impl.hpp"
#include <functional>
#include <limits>
#include <optional>
#include <type_traits>
#include <vector>


namespace fw {

    using pt::Case;
    using pt::str;
    using lue::Count;
    using lue::Index;
    using lue::Rank;

    template<typename T>
    using Array = lue::PartitionedArray<T, 2>;

    using Shape = lue::Shape<Count, 2>;
    using U8 = std::uint8_t;
    using U32 = std::uint32_t;
    using U64 = std::uint64_t;
    using I32 = std::int32_t;
    using I64 = std::int64_t;


    // Instantiated elsewhere
#define FW_EXTERN(T)                                                                                         \
    extern template class lue::ArrayPartition<T, 2>;                                                         \
    extern template class lue::server::ArrayPartition<T, 2>;                                                 \
    extern template class lue::PartitionedArray<T, 2>;

}  // namespace fw

#ifndef FW_INSTANTIATE
FW_EXTERN(fw::U8)
FW_EXTERN(fw::U32)
FW_EXTERN(fw::U64)
FW_EXTERN(fw::I32)
FW_EXTERN(fw::I64)
FW_EXTERN(float)
FW_EXTERN(double)
#endif


namespace fw {

    //! The value that stands for no-data
    template<typename T>
    T no_data()
    {
        if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::quiet_NaN();
        else if constexpr (std::is_signed_v<T>) return std::numeric_limits<T>::min();
        else return std::numeric_limits<T>::max();
    }

    template<typename T>
    bool is_no_data(T const value)
    {
        if constexpr (std::is_floating_point_v<T>) return value != value;
        else return value == no_data<T>();
    }

    template<typename T>
    bool same_value(T const a, T const b)
    {
        return (is_no_data(a) && is_no_data(b)) || a == b;
    }

    template<typename T>
    std::string show(T const value)
    {
        return is_no_data(value) ? std::string{"nd"} : str(value);
    }


    //! Plain array, for the model
    template<typename T>
    struct Grid
    {
            Count rows{};
            Count cols{};
            std::vector<T> cells;

            Grid() = default;

            Grid(Count const r, Count const c, T const value = {}): rows{r}, cols{c}, cells(std::size_t(r * c), value) {}

            auto size() const -> std::size_t { return cells.size(); }
            auto operator()(Index const r, Index const c) -> T& { return cells[std::size_t(r * cols + c)]; }
            auto operator()(Index const r, Index const c) const -> T const& { return cells[std::size_t(r * cols + c)]; }
            auto inside(Index const r, Index const c) const -> bool { return r >= 0 && r < rows && c >= 0 && c < cols; }

            auto text() const -> std::string
            {
                std::string result;
                for (Index r = 0; r < rows; ++r)
                {
                    result += r ? " / " : "";
                    for (Index c = 0; c < cols; ++c) result += (c ? " " : "") + show((*this)(r, c));
                }
                return result;
            }
    };


    //! Shapes of an array and of its partitions
    struct Layout
    {
            Shape array;
            Shape partition;

            auto text() const -> std::string
            {
                return str(array[0]) + "x" + str(array[1]) + " in " + str(partition[0]) + "x" + str(partition[1]);
            }

            auto nr_partitions() const -> Count
            {
                return (array[0] / partition[0]) * (array[1] / partition[1]);
            }
    };


    inline Layout layout(Case& c, Count const max_extent = 12, Count const min_partition_extent = 1)
    {
        Layout result;
        for (int d = 0; d < 2; ++d)
        {
            Count const limit = std::max<Count>(min_partition_extent, c.chance(20) ? max_extent : max_extent / 2);
            result.array[d] = min_partition_extent + Count(c.draw(std::uint64_t(limit - min_partition_extent)));
            result.partition[d] =
                min_partition_extent + Count(c.draw(std::uint64_t(
                    (c.chance(30) ? result.array[d]
                                  : std::min<Count>(result.array[d], std::max<Count>(3, min_partition_extent))) -
                    min_partition_extent)));
        }
        return result;
    }


    //! Start with a new world, in which tasks run in an order that depends on the case
    inline void start(Case& c, bool const several_localities = true)
    {
        auto const mode = static_cast<hpx::sim::Scheduler::Mode>(c.draw(2));
        auto const nr_localities = several_localities ? static_cast<std::uint32_t>(1 + c.draw(2)) : 1;
        unsigned const yields = c.chance(60) ? static_cast<unsigned>(c.draw(60)) : 0;
        auto const seed = c.draw(1u << 30);
        hpx::sim::scheduler().reset(seed, mode, nr_localities, yields);
        char const* const modes[] = {"first in first out", "last in first out", "random"};
        c.notes("tasks: ", modes[int(mode)], ", ", nr_localities, " localities, ", yields, "% yields, seed ", seed);
        c.label(std::string("order: ") + modes[int(mode)]);
        c.label("localities: " + str(nr_localities));
    }


    //! Do something, and then all tasks that are left
    template<typename F>
    void run(Case& c, F&& f)
    {
        try
        {
            f();
            hpx::sim::scheduler().drain();
        }
        catch (hpx::sim::Deadlock const& deadlock)
        {
            hpx::sim::scheduler().abandon();
            c.fail(std::string("the operation does not finish: ") + deadlock.what());
        }
        catch (...)
        {
            hpx::sim::scheduler().abandon();
            throw;
        }
    }


    template<typename T>
    T number(Case& c, int const range = 9)
    {
        std::int64_t const v = std::int64_t(c.draw(std::uint64_t(std::is_signed_v<T> ? 2 * range : range)));
        // 0, 1, -1, 2, -2, ...
        std::int64_t const n = std::is_signed_v<T> ? ((v % 2) ? (v + 1) / 2 : -(v / 2)) : v;
        return static_cast<T>(n);
    }


    //! Any value that is not no-data
    template<typename T>
    T any_number(Case& c)
    {
        if (c.chance(60))
        {
            T const v = number<T>(c);
            if constexpr (std::is_floating_point_v<T>)
            {
                return c.chance(50) ? T(v / T(4)) : v;
            }
            return v;
        }
        T v = c.value<T>();
        if constexpr (std::is_floating_point_v<T>)
        {
            if (std::isinf(v)) v = T(3);
        }
        return is_no_data(v) ? T(5) : v;
    }


    //! Grid of values, a part of which are no-data
    template<typename T, typename F>
    Grid<T> grid(Case& c, Layout const& layout, F&& value, int const nd_percentage)
    {
        Grid<T> result{layout.array[0], layout.array[1]};
        for (auto& cell : result.cells)
        {
            cell = nd_percentage && c.chance(nd_percentage) ? no_data<T>() : static_cast<T>(value());
        }
        return result;
    }


    inline int nd_percentage(Case& c)
    {
        return c.pick<int>({0, 5, 20, 60, 100});
    }


    //! Put the values in a partitioned array
    template<typename T>
    Array<T> to_array(Layout const& layout, Grid<T> const& grid)
    {
        using Partition = lue::ArrayPartition<T, 2>;
        using Data = typename Partition::Data;

        Array<T> array{lue::create_partitioned_array<T>(layout.array, layout.partition)};

        for (Partition& partition : array.partitions())
        {
            partition.get();
            auto const offset = partition.offset(hpx::launch::sync);
            auto const shape = partition.shape(hpx::launch::sync);
            Data data{shape};
            for (Index r = 0; r < shape[0]; ++r)
            {
                for (Index col = 0; col < shape[1]; ++col) data(r, col) = grid(offset[0] + r, offset[1] + col);
            }
            partition.set_data(hpx::launch::sync, data);
        }

        return array;
    }


    //! Get the values out of a partitioned array, of which the partitions must tile the array
    template<typename T>
    Grid<T> from_array(Case& c, Array<T> const& array, Shape const& shape, std::string const& what)
    {
        c.check(array.shape() == shape, what + ": the shape of the array differs from the one of the input");
        Grid<T> result{shape[0], shape[1]};
        std::vector<char> seen(result.size(), 0);

        for (auto const& partition : array.partitions())
        {
            c.check(partition.valid(), what + ": the array has a partition that is not valid");
            partition.get();
            auto const offset = partition.offset(hpx::launch::sync);
            auto const data = partition.data(hpx::launch::sync);
            c.check(data.shape() == partition.shape(hpx::launch::sync), what + ": shape of partition and data differ");
            for (Index r = 0; r < data.shape()[0]; ++r)
            {
                for (Index col = 0; col < data.shape()[1]; ++col)
                {
                    Index const row = offset[0] + r;
                    Index const column = offset[1] + col;
                    c.check(result.inside(row, column), what + ": a partition is located outside of the array");
                    c.check(!seen[std::size_t(row * result.cols + column)], what + ": partitions overlap");
                    seen[std::size_t(row * result.cols + column)] = 1;
                    result(row, column) = data(r, col);
                }
            }
        }

        c.check(
            std::all_of(seen.begin(), seen.end(), [](char s) { return s; }),
            what + ": the partitions do not cover the array");
        return result;
    }


    template<typename T>
    void expect(Case& c, Grid<T> const& actual, Grid<T> const& expected, std::string const& what)
    {
        for (Index r = 0; r < expected.rows; ++r)
        {
            for (Index col = 0; col < expected.cols; ++col)
            {
                if (!same_value(actual(r, col), expected(r, col)))
                {
                    c.fail(
                        what + ": cell [" + str(r) + ", " + str(col) + "] is " + show(actual(r, col)) + ", expected " +
                        show(expected(r, col)) + "; result " + actual.text() + "; expected " + expected.text());
                }
            }
        }
    }


    template<typename T>
    void expect(Case& c, Array<T> const& array, Grid<T> const& expected, std::string const& what)
    {
        expect(c, from_array(c, array, Shape{{expected.rows, expected.cols}}, what), expected, what);
    }


    //! Things that were found out about the schedule, for the report
    inline void report(Case& c)
    {
        auto const& statistics = hpx::sim::scheduler().statistics();
        c.label(statistics.nr_remote ? "calls to other localities" : "no calls to other localities");
        if (statistics.nr_suspensions) c.label("tasks wait for other tasks");
    }


    //! Something to check, picked by the property
    struct Operation
    {
            std::string name;
            std::function<void(Case&)> check;
    };

    using Operations = std::vector<Operation>;

    inline void append(Operations& operations, Operations const& other)
    {
        operations.insert(operations.end(), other.begin(), other.end());
    }

}  // namespace fw
