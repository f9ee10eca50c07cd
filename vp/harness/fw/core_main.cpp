// Dividing arrays, walking through them, and the containers that hold elements
#include "pt.hpp"
#include "lue/framework/core/array.hpp"
#include "lue/framework/core/array_visitor.hpp"
#include "lue/framework/core/domain_decomposition.hpp"
#include "lue/framework/core/hilbert_curve.hpp"
#include "lue/framework/core/hyperslab.hpp"
#include "lue/framework/core/index_util.hpp"
#include "lue/framework/core/linear_curve.hpp"
#include "lue/framework/core/math.hpp"
#include "lue/framework/core/partition_allocator.hpp"
#include "lue/framework/core/serialize/array.hpp"
#include "lue/framework/partitioned_array/array_partition_data.hpp"
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>


namespace {

    using pt::Case;
    using pt::str;
    using lue::Count;
    using lue::Index;
    using lue::Rank;

    template<Rank rank>
    using Shape = lue::Shape<Count, rank>;

    template<std::size_t rank, typename T>
    std::string text(std::array<T, rank> const& shape)
    {
        return str(std::vector<T>(shape.begin(), shape.end()));
    }

    template<Rank rank>
    Count product(Shape<rank> const& shape)
    {
        Count result{1};
        for (auto extent : shape) result *= extent;
        return result;
    }

    Count extent(Case& c, Count const maximum)
    {
        switch (c.draw(3))
        {
            case 0: return c.integer<Count>(1, std::min<Count>(4, maximum));
            case 1: return Count{1} << c.draw(static_cast<int>(std::log2(maximum)));
            default: return c.integer<Count>(1, maximum);
        }
    }

    template<Rank rank>
    Shape<rank> shape(Case& c, Count const maximum)
    {
        Shape<rank> result{};
        for (auto& e : result) e = extent(c, maximum);
        return result;
    }

    //! Call functor with each location in the array, in row-major order
    template<Rank rank, typename Functor>
    void each(Shape<rank> const& shape, Functor const& functor)
    {
        if (product(shape) == 0) return;

        Shape<rank> idxs{};
        Count const nr{product(shape)};

        for (Index idx = 0; idx < nr; ++idx)
        {
            functor(idx, idxs);
            for (Rank d = rank; d-- > 0;)
            {
                if (++idxs[d] < shape[d]) break;
                idxs[d] = 0;
            }
        }
    }


    // Dividing an array in partitions ------------------------------------------------------------------
    template<Rank rank>
    void partitions(Case& c)
    {
        Shape<rank> partition{}, array{};

        for (Rank d = 0; d < rank; ++d)
        {
            partition[d] = c.chance(10) ? c.integer<Count>(1, rank == 3 ? 20000 : 1000000) : extent(c, 40);
            Count const nr{extent(c, rank == 1 ? 40 : rank == 2 ? 12 : 6)};
            array[d] = partition[d] * nr + (c.chance(70) ? static_cast<Count>(c.draw(partition[d] - 1)) : 0);
        }

        if (c.chance(10))
        {
            // Not possible
            Rank const d{c.draw(rank - 1)};
            if (c.boolean()) (c.boolean() ? array : partition)[d] = 0;
            else partition[d] = array[d] + 1 + static_cast<Count>(c.draw(5));
            c.notes("array ", text(array), " in partitions of ", text(partition));
            c.label("refused");
            c.nontrivial();
            c.refused([&]() { lue::partition_shapes<Count, rank>(array, partition); }, "dividing an array");
            return;
        }

        c.notes("array ", text(array), " in partitions of ", text(partition));
        c.label("rank " + str(rank));

        auto const shapes = lue::partition_shapes<Count, rank>(array, partition);
        auto const& grid = shapes.shape();

        bool ragged{false};
        for (Rank d = 0; d < rank; ++d)
        {
            c.equal(grid[d], array[d] / partition[d], "number of partitions along dimension " + str(d));
            ragged = ragged || array[d] % partition[d] != 0;
        }
        if (ragged && product(grid) > 1) c.nontrivial();
        c.equal(shapes.nr_elements(), product(grid), "number of partitions");

        // Along each dimension, the extents only depend on the location along that dimension, and add up to
        // the extent of the array. With that, the partitions are disjoint and cover the array.
        each<rank>(
            grid,
            [&](Index const idx, Shape<rank> const& idxs)
            {
                for (Rank d = 0; d < rank; ++d)
                {
                    Count expected{partition[d]};
                    if (idxs[d] == grid[d] - 1) expected = array[d] - (grid[d] - 1) * partition[d];
                    c.equal(
                        shapes[idx][d], expected,
                        "extent " + str(d) + " of partition " + text(idxs) + " of " + text(grid));
                }
            });

        // Areas that are not filled by whole partitions
        using Unsigned = lue::Shape<std::uint64_t, rank>;
        Unsigned area{}, tile{};
        for (Rank d = 0; d < rank; ++d)
        {
            tile[d] = static_cast<std::uint64_t>(partition[d]);
            area[d] = c.chance(30) ? extent(c, 50) : static_cast<std::uint64_t>(array[d]);
        }
        auto const tiles = lue::shape_in_partitions(area, tile);
        auto const clamped = lue::clamp_area_shape(area, tile);
        std::uint64_t nr{1};
        for (Rank d = 0; d < rank; ++d)
        {
            std::uint64_t const expected{(area[d] + tile[d] - 1) / tile[d]};
            c.equal(tiles[d], expected, "number of tiles along dimension " + str(d) + " of area " + text(area));
            c.equal(clamped[d], expected * tile[d], "extent " + str(d) + " of area " + text(area) + " in whole tiles");
            nr *= expected;
        }
        c.equal(lue::nr_partitions(area, tile), nr, "number of tiles of area " + text(area));

        // Shapes that are chosen
        Count const nr_workers{c.chance(20) ? 1 : c.integer<Count>(1, 64)};
        auto const chosen = lue::default_partition_shape<Count, rank>(array, nr_workers);
        for (Rank d = 0; d < rank; ++d)
        {
            c.check(
                chosen[d] >= 1 && chosen[d] <= array[d],
                "default partition shape " + text(chosen) + " of array " + text(array) + " for " +
                    str(nr_workers) + " workers");
            c.check(
                nr_workers == 1 ? chosen[d] == array[d] : chosen[d] == chosen[0],
                "default partition shape " + text(chosen) + " of array " + text(array) + " for " +
                    str(nr_workers) + " workers");
        }

        Count const minimum{c.integer<Count>(1, std::min<Count>(product(array), 200))};
        auto const largest = lue::max_partition_shape<Count, rank>(array, minimum);
        Count achieved{1};
        for (Rank d = 0; d < rank; ++d)
        {
            c.check(largest[d] >= 1 && largest[d] <= array[d], "partition shape " + text(largest) + " for at least " + str(minimum) + " partitions");
            achieved *= (array[d] + largest[d] - 1) / largest[d];
        }
        c.check(
            achieved >= minimum,
            "partition shape " + text(largest) + " gives " + str(achieved) + " partitions, at least " +
                str(minimum) + " asked for");
    }

    void decomposition(Case& c)
    {
        switch (c.draw(2))
        {
            case 0: return partitions<1>(c);
            case 1: return partitions<2>(c);
            default: return partitions<3>(c);
        }
    }


    // Walking through a grid ---------------------------------------------------------------------------
    template<Rank rank>
    std::vector<Shape<rank>> walk(Case& c, Shape<rank> const& grid, bool const hilbert)
    {
        std::vector<Shape<rank>> result;
        auto const functor = [&](Index const idx, auto const... idxs)
        {
            static_assert(sizeof...(idxs) == rank);
            c.equal(idx, static_cast<Index>(result.size()), "number of the cell that is visited");
            result.push_back(Shape<rank>{idxs...});
        };

        if constexpr (rank == 2)
        {
            if (hilbert) lue::hilbert_curve<rank>(grid, functor);
            else lue::linear_curve<rank>(grid, functor);
        }
        else
        {
            lue::linear_curve<rank>(grid, functor);
        }

        Count const nr{product(grid)};
        c.equal(static_cast<Count>(result.size()), nr, "number of cells visited");
        std::vector<bool> visited(nr, false);
        for (auto const& idxs : result)
        {
            Index idx{0};
            for (Rank d = 0; d < rank; ++d)
            {
                c.check(idxs[d] >= 0 && idxs[d] < grid[d], "cell " + text(idxs) + " is outside of the grid");
                idx = idx * grid[d] + idxs[d];
            }
            c.check(!visited[idx], "cell " + text(idxs) + " is visited again");
            visited[idx] = true;
        }
        return result;
    }

    template<Rank rank>
    void linear(Case& c)
    {
        Shape<rank> grid{shape<rank>(c, rank == 1 ? 300 : rank == 2 ? 40 : 12)};
        if (c.chance(5)) grid[c.draw(rank - 1)] = 0;
        c.notes("linear, grid ", text(grid));
        c.label("linear, rank " + str(rank));
        if (product(grid) > 1) c.nontrivial();

        auto const cells = walk<rank>(c, grid, false);
        each<rank>(grid, [&](Index const idx, Shape<rank> const& idxs)
                   { c.check(cells[idx] == idxs, "cell " + str(idx) + " is " + text(cells[idx]) + ", not " + text(idxs)); });
    }

    void hilbert(Case& c)
    {
        Shape<2> grid{};
        bool const square{c.chance(30)};
        if (square) grid.fill(Count{1} << c.draw(c.thorough() ? 8 : 6));
        else grid = shape<2>(c, c.thorough() ? 150 : 60);
        if (c.chance(5)) grid[c.draw(1)] = 0;
        c.notes("hilbert, grid ", text(grid));
        c.label(square ? "hilbert, square" : "hilbert, other");
        if (product(grid) > 1) c.nontrivial();

        auto const cells = walk<2>(c, grid, true);
        for (std::size_t i = 1; i < cells.size(); ++i)
        {
            Count const d0{std::abs(cells[i][0] - cells[i - 1][0])}, d1{std::abs(cells[i][1] - cells[i - 1][1])};
            c.check(
                square ? d0 + d1 == 1 : (d0 <= 1 && d1 <= 1),
                "after cell " + text(cells[i - 1]) + " comes " + text(cells[i]) + ", which is not its neighbour");
        }
    }

    void curves(Case& c)
    {
        switch (c.draw(5))
        {
            case 0: return linear<1>(c);
            case 1: return linear<2>(c);
            case 2: return linear<3>(c);
            default: return hilbert(c);
        }
    }


    // Indices ------------------------------------------------------------------------------------------
    template<Rank rank>
    class Visitor: public lue::ArrayVisitor<Shape<rank>>
    {

        public:

            using Base = lue::ArrayVisitor<Shape<rank>>;

            explicit Visitor(Shape<rank> const& shape): Base{shape} {}

            void operator()()
            {
                cells.push_back(this->cursor().current_cell());
                idxs.push_back(this->cursor().linear_idx());
            }

            std::vector<Shape<rank>> cells;

            std::vector<Index> idxs;
    };

    template<Rank rank, typename I, typename C>
    void conversions(Case& c, Shape<rank> const& array, Shape<rank> const& cell, Index const expected)
    {
        lue::Shape<C, rank> s{};
        lue::Indices<I, rank> idxs{};
        for (Rank d = 0; d < rank; ++d)
        {
            s[d] = static_cast<C>(array[d]);
            idxs[d] = static_cast<I>(cell[d]);
        }
        c.equal(
            lue::idxs_to_linear_idx<I, C, rank>(idxs, s), static_cast<I>(expected),
            "linear index of cell " + text(cell));
        c.check(
            lue::linear_idx_to_idxs<I, C, rank>(static_cast<I>(expected), s) == idxs,
            "cell of linear index " + str(expected) + " is " +
                text(lue::linear_idx_to_idxs<I, C, rank>(static_cast<I>(expected), s)) + ", not " + text(cell));
    }

    template<Rank rank>
    void indices(Case& c)
    {
        // Large, only some cells are used
        Shape<rank> array{};
        for (auto& e : array) e = c.chance(40) ? c.integer<Count>(1, rank == 3 ? 1000000 : 1000000000) : extent(c, 30);
        Shape<rank> cell{};
        Index idx{0};
        for (Rank d = 0; d < rank; ++d)
        {
            switch (c.draw(4))
            {
                case 0: cell[d] = 0; break;
                case 1: cell[d] = array[d] - 1; break;
                default: cell[d] = static_cast<Index>(c.draw(array[d] - 1));
            }
            idx = idx * array[d] + cell[d];
        }
        c.notes("array ", text(array), " cell ", text(cell));
        if (rank > 1 && idx > 0) c.nontrivial();
        c.label("rank " + str(rank));

        conversions<rank, Index, Count>(c, array, cell, idx);
        conversions<rank, std::uint64_t, std::uint64_t>(c, array, cell, idx);
        auto const found = lue::linear_to_shape_index<Index, rank>(array, idx);
        c.check(found == cell, "cell of linear index " + str(idx) + " is " + text(found) + ", not " + text(cell));
        c.equal(lue::linear_idx(cell, array), idx, "linear index of cell " + text(cell));
        c.equal(lue::nr_elements<Count, rank>(array), product(array), "number of elements");
        c.equal(
            lue::is_hypercube<Count, rank>(array),
            std::all_of(array.begin(), array.end(), [&](auto const e) { return e == array[0]; }),
            "whether " + text(array) + " is a hypercube");

        // Checks of indices
        std::apply(
            [&](auto const... idxs) { lue::validate_idxs(array, idxs...); }, cell);
        {
            auto outside = cell;
            Rank const d{c.draw(rank - 1)};
            outside[d] = array[d] + static_cast<Index>(c.draw(3));
            std::apply(
                [&](auto const... idxs)
                { c.refused([&]() { lue::validate_idxs(array, idxs...); }, "index outside of the array"); },
                outside);
        }

        // A part of the array is visited in order
        Shape<rank> small{shape<rank>(c, rank == 1 ? 30 : rank == 2 ? 10 : 6)}, begin{}, end{}, count{};
        for (Rank d = 0; d < rank; ++d)
        {
            begin[d] = static_cast<Index>(c.draw(small[d] - 1));
            end[d] = c.integer<Index>(begin[d] + 1, small[d]);
            count[d] = end[d] - begin[d];
        }
        c.notes("visit ", text(begin), " - ", text(end), " of ", text(small));
        Visitor<rank> visitor{small};
        // The same visitor can be used again
        for (int i = 0; i < 2; ++i)
        {
            visitor.cells.clear();
            visitor.idxs.clear();
            lue::visit_array(begin, end, visitor);
            c.equal(static_cast<Count>(visitor.cells.size()), product(count), "number of cells visited");
            each<rank>(
                count,
                [&](Index const i, Shape<rank> const& idxs)
                {
                    auto location = idxs;
                    Index linear{0};
                    for (Rank d = 0; d < rank; ++d)
                    {
                        location[d] += begin[d];
                        linear = linear * small[d] + location[d];
                    }
                    c.check(
                        visitor.cells[i] == location,
                        "cell " + str(i) + " visited is " + text(visitor.cells[i]) + ", not " + text(location));
                    c.equal(visitor.idxs[i], linear, "linear index of cell " + text(location));
                });
        }

        // A block of cells around a center
        {
            Shape<rank> center{}, block{}, bounds{};
            bool possible{true};
            for (Rank d = 0; d < rank; ++d)
            {
                center[d] = static_cast<Index>(c.draw(12));
                block[d] = c.integer<Count>(1, 14);
                possible = possible && center[d] >= block[d] / 2;
                bounds[d] = c.integer<Count>(1, 30);
            }
            c.notes("block ", text(block), " around ", text(center));
            using Hyperslab = lue::Hyperslab<rank>;
            if (!possible)
            {
                c.refused([&]() { Hyperslab{center, block}; }, "block that starts before the array");
            }
            else
            {
                Hyperslab const hyperslab{center, block};
                bool contained{true};
                for (Rank d = 0; d < rank; ++d)
                {
                    c.equal(hyperslab.counts()[d], block[d], "extent of block");
                    c.equal(hyperslab.offsets()[d], center[d] - block[d] / 2, "offset of block");
                    c.equal(hyperslab.strides()[d], Index{1}, "stride of block");
                    contained = contained && center[d] - block[d] / 2 + block[d] <= bounds[d];
                }
                c.equal(hyperslab.is_strided(), false, "whether the block is strided");
                c.equal(hyperslab.is_contained_by(bounds), contained, "whether the block is within " + text(bounds));
            }
        }
    }

    //! Divide things evenly
    void mapping(Case& c)
    {
        Index const nr{extent(c, 400)}, nr_targets{extent(c, c.boolean() ? nr : 400)}, first{c.integer<Index>(-5, 5)},
            target{c.integer<Index>(-5, 5)};
        c.notes("map ", nr, " things to ", nr_targets, " targets");
        c.label("mapping");
        if (nr > 1 && nr_targets > 1) c.nontrivial();

        std::vector<Index> count(nr_targets, 0);
        Index previous{0};
        for (Index i = 0; i < nr; ++i)
        {
            Index const result{
                lue::map_to_range<Index, Index>(first, first + nr - 1, target, target + nr_targets - 1, first + i) - target};
            c.check(result >= 0 && result < nr_targets, "target " + str(result) + " of " + str(i) + " is out of range");
            c.check(i == 0 ? result == 0 : result >= previous, "target " + str(result) + " of " + str(i) + " comes before the previous one");
            ++count[result];
            previous = result;
        }
        auto const [least, most] = std::minmax_element(count.begin(), count.end());
        if (nr > 1 || nr_targets == 1) c.check(*most - *least <= 2, "targets get from " + str(*least) + " to " + str(*most) + " things");
        if (nr >= nr_targets) c.check(*least >= 1, "a target is not used");
    }

    void locations(Case& c)
    {
        switch (c.draw(3))
        {
            case 0: return indices<1>(c);
            case 1: return indices<2>(c);
            case 2: return indices<3>(c);
            default: return mapping(c);
        }
    }


    // Containers ---------------------------------------------------------------------------------------
    template<typename T>
    T element(Case& c)
    {
        if constexpr (std::is_same_v<T, std::string>) return "text " + str(c.draw(1000000));
        else return static_cast<T>(c.draw(250));
    }

    template<typename T>
    std::vector<T> elements(Case& c, Count const nr)
    {
        std::vector<T> result(nr);
        T first{element<T>(c)};
        for (auto& value : result)
        {
            value = first;
            if constexpr (std::is_same_v<T, std::string>) first += "x";
            else first = static_cast<T>((static_cast<int>(first) + 7) % 251);
        }
        return result;
    }

    //! Shape of an array in a container, possibly empty
    template<Rank rank>
    Shape<rank> small_shape(Case& c)
    {
        Shape<rank> result{};
        for (auto& e : result) e = static_cast<Count>(c.draw(rank == 1 ? 20 : rank == 2 ? 6 : 4));
        return result;
    }

    template<Rank rank, typename A>
    void same_elements(Case& c, A const& array, Shape<rank> const& shape, auto const& values, std::string const& what)
    {
        c.check(array.shape() == shape, what + ": shape is " + text(array.shape()) + ", not " + text(shape));
        c.equal(array.nr_elements(), static_cast<Count>(values.size()), what + ": number of elements");
        c.equal(array.empty(), values.empty(), what + ": whether it is empty");
        c.equal(static_cast<Count>(std::distance(array.begin(), array.end())), static_cast<Count>(values.size()), what + ": distance between iterators");
        c.check(std::equal(values.begin(), values.end(), array.begin()), what + ": elements differ");
        for (std::size_t i = 0; i < values.size(); ++i)
            c.check(array[i] == values[i], what + ": element " + str(i) + " differs");
        each<rank>(
            shape,
            [&](Index const idx, Shape<rank> const& idxs)
            {
                c.check(
                    std::apply([&](auto const... i) { return array(i...) == values[idx]; }, idxs),
                    what + ": element " + text(idxs) + " differs");
            });
        c.equal(static_cast<Count>(array.span().size()), static_cast<Count>(values.size()), what + ": size of span");
    }

    template<typename T, Rank rank>
    void array(Case& c)
    {
        using Array = lue::Array<T, rank>;
        using S = Shape<rank>;

        struct Model
        {
                S shape{};
                std::vector<T> values;
        };

        std::vector<Array> arrays(3);
        std::vector<Model> models(3);
        c.label("array, rank " + str(rank));

        auto const set = [&](std::size_t const i, S const& shape, std::vector<T> const& values)
        {
            models[i] = Model{shape, values};
        };

        std::size_t const nr_steps{1 + c.draw(19)};
        std::size_t nr_interesting{0};

        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            std::size_t const i{c.draw(2)}, j{c.draw(2)};
            S const s{small_shape<rank>(c)};
            auto const n = product(s);

            switch (c.draw(11))
            {
                case 0:
                {
                    c.notes(i, " = array ", text(s));
                    arrays[i] = Array{s};
                    set(i, s, std::vector<T>(n));
                    break;
                }
                case 1:
                {
                    auto const value = element<T>(c);
                    c.notes(i, " = array ", text(s), ", filled with ", str(value));
                    arrays[i] = Array(s, value);
                    set(i, s, std::vector<T>(n, value));
                    break;
                }
                case 2:
                {
                    c.notes(i, " = array ", text(s), ", with elements");
                    auto values = elements<T>(c, n);
                    set(i, s, values);
                    arrays[i] = Array(s, values.begin(), values.end());
                    break;
                }
                case 3:
                {
                    c.notes(i, " = copy of ", j);
                    Array copy{arrays[j]};
                    same_elements<rank>(c, copy, models[j].shape, models[j].values, "copy");
                    if (i != j) arrays[i] = copy;
                    else for (auto& value : copy) value = T{};
                    models[i] = models[j];
                    ++nr_interesting;
                    break;
                }
                case 4:
                {
                    c.notes(i, " = ", j);
                    arrays[i] = arrays[j];
                    models[i] = models[j];
                    ++nr_interesting;
                    break;
                }
                case 5:
                {
                    c.notes(i, " = move ", j);
                    if (i == j)
                    {
                        Array moved{std::move(arrays[i])};
                        c.check(arrays[i].empty(), "array that is moved from is not empty");
                        same_elements<rank>(c, moved, models[i].shape, models[i].values, "moved array");
                        arrays[i] = std::move(moved);
                    }
                    else
                    {
                        arrays[i] = std::move(arrays[j]);
                        models[i] = models[j];
                        models[j] = Model{};
                    }
                    ++nr_interesting;
                    break;
                }
                case 6:
                {
                    c.notes("move ", i, " to itself");
                    auto& other = arrays[i];
                    arrays[i] = std::move(other);
                    break;
                }
                case 7:
                {
                    c.notes("clear ", i);
                    arrays[i].clear();
                    models[i] = Model{};
                    break;
                }
                case 8:
                {
                    c.notes("reshape ", i, " to ", text(s));
                    arrays[i].reshape(s);
                    // What the elements are is not defined, if there are more of them
                    if (n == static_cast<Count>(models[i].values.size()))
                    {
                        models[i].shape = s;
                    }
                    else
                    {
                        auto const values = elements<T>(c, n);
                        c.equal(arrays[i].nr_elements(), n, "number of elements after reshaping");
                        std::copy(values.begin(), values.end(), arrays[i].begin());
                        set(i, s, values);
                    }
                    ++nr_interesting;
                    break;
                }
                case 9:
                {
                    c.notes("send ", i, " elsewhere");
                    if constexpr (!std::is_same_v<T, std::string>)
                    {
                        Array const received{hpx::sim::transfer(arrays[i])};
                        same_elements<rank>(c, received, models[i].shape, models[i].values, "received array");
                        arrays[j] = received;
                        models[j] = models[i];
                    }
                    break;
                }
                case 10:
                {
                    if constexpr (rank == 1)
                    {
                        auto& values = models[i].values;
                        std::size_t const begin{c.draw(values.size())}, end{begin + c.draw(values.size() - begin)};
                        c.notes("remove elements ", begin, " - ", end, " from ", i);
                        arrays[i].remove(arrays[i].begin() + begin, arrays[i].begin() + end);
                        values.erase(values.begin() + begin, values.begin() + end);
                        models[i].shape[0] = static_cast<Count>(values.size());
                        ++nr_interesting;
                    }
                    break;
                }
                default:
                {
                    auto& values = models[i].values;
                    if (values.empty()) break;
                    std::size_t const idx{c.draw(values.size() - 1)};
                    auto const value = element<T>(c);
                    c.notes("write element ", idx, " of ", i);
                    values[idx] = value;
                    each<rank>(
                        models[i].shape,
                        [&](Index const k, S const& idxs)
                        {
                            if (k == static_cast<Index>(idx))
                                std::apply([&](auto const... l) { arrays[i](l...) = value; }, idxs);
                        });
                    break;
                }
            }

            for (std::size_t k = 0; k < 3; ++k)
                same_elements<rank>(c, arrays[k], models[k].shape, models[k].values, "array " + str(k) + " after step " + str(step));
        }

        if (nr_interesting >= 2) c.nontrivial();
    }


    //! Elements that are shared between copies
    template<typename T>
    void buffer(Case& c)
    {
        using Buffer = lue::SharedBuffer<T>;
        using Model = std::shared_ptr<std::vector<T>>;

        std::vector<Buffer> buffers(4);
        std::vector<Model> models;
        for (int i = 0; i < 4; ++i) models.push_back(std::make_shared<std::vector<T>>());
        c.label("shared buffer");
        std::size_t const nr_steps{1 + c.draw(24)};
        std::size_t nr_interesting{0};

        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            std::size_t const i{c.draw(3)}, j{c.draw(3)};
            switch (c.draw(8))
            {
                case 0:
                {
                    auto const values = elements<T>(c, static_cast<Count>(c.draw(12)));
                    c.notes(i, " = buffer of ", values.size(), " elements");
                    Buffer b{static_cast<lue::Size>(values.size())};
                    std::copy(values.begin(), values.end(), b.begin());
                    buffers[i] = b;
                    models[i] = std::make_shared<std::vector<T>>(values);
                    break;
                }
                case 1:
                {
                    c.notes(i, " = ", j);
                    buffers[i] = buffers[j];
                    models[i] = models[j];
                    ++nr_interesting;
                    break;
                }
                case 2:
                {
                    c.notes(i, " = copy of ", j);
                    Buffer copy{buffers[j]};
                    buffers[i] = copy;
                    models[i] = models[j];
                    break;
                }
                case 3:
                {
                    c.notes(i, " = move ", j);
                    auto& other = buffers[j];
                    buffers[i] = std::move(other);
                    if (i != j)
                    {
                        models[i] = models[j];
                        models[j] = std::make_shared<std::vector<T>>();
                    }
                    ++nr_interesting;
                    break;
                }
                case 4:
                {
                    c.notes("move ", j, " to new buffer, and that one to ", i);
                    Buffer moved{std::move(buffers[j])};
                    c.check(buffers[j].empty(), "buffer that is moved from is not empty");
                    buffers[i] = std::move(moved);
                    auto const model = models[j];
                    models[j] = std::make_shared<std::vector<T>>();
                    models[i] = model;
                    ++nr_interesting;
                    break;
                }
                case 5:
                {
                    auto const values = elements<T>(c, static_cast<Count>(c.draw(12)));
                    c.notes("resize ", i, " to ", values.size());
                    buffers[i].resize(static_cast<lue::Size>(values.size()));
                    if (values.size() != models[i]->size())
                    {
                        c.equal(buffers[i].size(), static_cast<lue::Size>(values.size()), "size after resize");
                        std::copy(values.begin(), values.end(), buffers[i].begin());
                        *models[i] = values;
                    }
                    break;
                }
                case 6:
                {
                    auto& values = *models[i];
                    std::size_t const begin{c.draw(values.size())}, end{begin + c.draw(values.size() - begin)};
                    c.notes("remove ", begin, " - ", end, " from ", i);
                    buffers[i].remove(buffers[i].begin() + begin, buffers[i].begin() + end);
                    values.erase(values.begin() + begin, values.begin() + end);
                    ++nr_interesting;
                    break;
                }
                case 7:
                {
                    c.notes("send ", j, " elsewhere, to ", i);
                    buffers[i] = hpx::sim::transfer(buffers[j]);
                    models[i] = std::make_shared<std::vector<T>>(*models[j]);
                    break;
                }
                default:
                {
                    auto& values = *models[i];
                    if (values.empty()) break;
                    std::size_t const idx{c.draw(values.size() - 1)};
                    c.notes("write ", idx, " of ", i);
                    buffers[i][static_cast<Index>(idx)] = values[idx] = element<T>(c);
                    break;
                }
            }

            for (std::size_t k = 0; k < 4; ++k)
            {
                auto const& b = buffers[k];
                auto const& values = *models[k];
                std::string const what{"buffer " + str(k) + " after step " + str(step)};
                c.equal(b.size(), static_cast<lue::Size>(values.size()), what + ": size");
                c.equal(b.empty(), values.empty(), what + ": whether it is empty");
                c.check(std::equal(b.begin(), b.end(), values.begin(), values.end()), what + ": elements differ");
                for (std::size_t l = 0; l < 4; ++l)
                {
                    c.equal(b == buffers[l], values == *models[l], what + ": whether it equals buffer " + str(l));
                    if (l != k && !values.empty() && models[k] != models[l] && !models[l]->empty())
                        c.check(b.data() != std::as_const(buffers[l]).data(), what + ": shares its elements with buffer " + str(l));
                }
                c.equal(b.use_count(), static_cast<long>(std::count(models.begin(), models.end(), models[k])), what + ": number of copies");
            }
        }

        if (nr_interesting >= 2) c.nontrivial();
    }


    template<typename T, Rank rank>
    void data(Case& c)
    {
        using Data = lue::ArrayPartitionData<T, rank>;
        using S = Shape<rank>;

        struct Model
        {
                S shape{};
                std::shared_ptr<std::vector<T>> values{std::make_shared<std::vector<T>>()};
        };

        std::vector<Data> datas(4);
        std::vector<Model> models(4);
        c.label("partition data, rank " + str(rank));
        std::size_t const nr_steps{1 + c.draw(24)};
        std::size_t nr_interesting{0};

        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            std::size_t const i{c.draw(3)}, j{c.draw(3)};
            S const s{small_shape<rank>(c)};
            auto const n = product(s);

            switch (c.draw(11))
            {
                case 0:
                {
                    auto const values = elements<T>(c, n);
                    c.notes(i, " = data ", text(s));
                    Data d{s};
                    std::copy(values.begin(), values.end(), d.begin());
                    datas[i] = d;
                    models[i] = Model{s, std::make_shared<std::vector<T>>(values)};
                    break;
                }
                case 1:
                {
                    auto const value = element<T>(c);
                    c.notes(i, " = data ", text(s), " filled");
                    datas[i] = Data{s, value};
                    models[i] = Model{s, std::make_shared<std::vector<T>>(n, value)};
                    break;
                }
                case 2:
                {
                    auto values = elements<T>(c, n);
                    c.notes(i, " = data ", text(s), " from elements");
                    models[i] = Model{s, std::make_shared<std::vector<T>>(values)};
                    datas[i] = Data(s, values.begin(), values.end());
                    break;
                }
                case 3:
                {
                    c.notes(i, " = ", j);
                    datas[i] = datas[j];
                    models[i] = models[j];
                    ++nr_interesting;
                    break;
                }
                case 4:
                {
                    c.notes(i, " = move ", j);
                    auto& other = datas[j];
                    datas[i] = std::move(other);
                    if (i != j)
                    {
                        models[i] = models[j];
                        models[j] = Model{};
                    }
                    ++nr_interesting;
                    break;
                }
                case 5:
                {
                    c.notes("move ", j, " to new data, and that to ", i);
                    Data moved{std::move(datas[j])};
                    c.check(datas[j].empty(), "data that is moved from is not empty");
                    datas[i] = std::move(moved);
                    auto const model = models[j];
                    models[j] = Model{};
                    models[i] = model;
                    ++nr_interesting;
                    break;
                }
                case 6:
                {
                    // Only allowed when the elements are not shared
                    if (models[i].values.use_count() > 1) break;
                    c.notes("reshape ", i, " to ", text(s));
                    datas[i].reshape(s);
                    if (n != static_cast<Count>(models[i].values->size()))
                    {
                        auto const values = elements<T>(c, n);
                        c.equal(datas[i].nr_elements(), n, "number of elements after reshaping");
                        std::copy(values.begin(), values.end(), datas[i].begin());
                        *models[i].values = values;
                    }
                    models[i].shape = s;
                    ++nr_interesting;
                    break;
                }
                case 7:
                {
                    if (models[i].values.use_count() > 1) break;
                    Rank const dimension{c.draw(rank - 1)};
                    auto& model = models[i];
                    Index const begin{static_cast<Index>(c.draw(model.shape[dimension]))},
                        end{c.integer<Index>(begin, model.shape[dimension])};
                    c.notes("erase ", begin, " - ", end, " along dimension ", dimension, " from ", i);
                    if (model.values->empty() && end > begin) break;
                    datas[i].erase(dimension, begin, end);
                    std::vector<T> kept;
                    each<rank>(
                        model.shape,
                        [&](Index const idx, S const& idxs)
                        {
                            if (idxs[dimension] < begin || idxs[dimension] >= end) kept.push_back((*model.values)[idx]);
                        });
                    *model.values = kept;
                    model.shape[dimension] -= end - begin;
                    ++nr_interesting;
                    break;
                }
                case 8:
                {
                    auto const& model = models[j];
                    typename Data::Slices slices{};
                    S sliced{};
                    std::string where;
                    for (Rank d = 0; d < rank; ++d)
                    {
                        slices[d].first = static_cast<Index>(c.draw(model.shape[d]));
                        slices[d].second = c.integer<Index>(slices[d].first, model.shape[d]);
                        sliced[d] = slices[d].second - slices[d].first;
                        where += " " + str(slices[d].first) + "-" + str(slices[d].second);
                    }
                    c.notes(i, " = slice", where, " of ", j);
                    std::vector<T> kept;
                    each<rank>(
                        model.shape,
                        [&](Index const idx, S const& idxs)
                        {
                            bool inside{true};
                            for (Rank d = 0; d < rank; ++d) inside = inside && idxs[d] >= slices[d].first && idxs[d] < slices[d].second;
                            if (inside) kept.push_back((*model.values)[idx]);
                        });
                    auto slice = std::as_const(datas[j]).slice(slices);
                    datas[i] = slice;
                    models[i] = Model{sliced, std::make_shared<std::vector<T>>(kept)};
                    ++nr_interesting;
                    break;
                }
                case 9:
                {
                    c.notes(i, " = deep copy of ", j);
                    datas[i] = lue::deep_copy(datas[j]);
                    models[i] = Model{models[j].shape, std::make_shared<std::vector<T>>(*models[j].values)};
                    break;
                }
                case 10:
                {
                    c.notes(i, " = ", j, ", sent elsewhere");
                    datas[i] = hpx::sim::transfer(datas[j]);
                    models[i] = Model{models[j].shape, std::make_shared<std::vector<T>>(*models[j].values)};
                    break;
                }
                default:
                {
                    auto& values = *models[i].values;
                    if (values.empty()) break;
                    std::size_t const idx{c.draw(values.size() - 1)};
                    c.notes("write ", idx, " of ", i);
                    datas[i][static_cast<Index>(idx)] = values[idx] = element<T>(c);
                    break;
                }
            }

            for (std::size_t k = 0; k < 4; ++k)
            {
                std::string const what{"data " + str(k) + " after step " + str(step)};
                same_elements<rank>(c, datas[k], models[k].shape, *models[k].values, what);
                for (std::size_t l = 0; l < 4; ++l)
                    c.equal(
                        datas[k] == datas[l], models[k].shape == models[l].shape && *models[k].values == *models[l].values,
                        what + ": whether it equals data " + str(l));
            }
        }

        if (nr_interesting >= 2) c.nontrivial();
    }


    //! Buffers that are used again
    void allocator(Case& c)
    {
        using Allocator = lue::PartitionAllocator<double>;

        struct Block
        {
                double* pointer;
                std::size_t size;
                double first;
        };

        std::vector<Block> blocks;
        c.label("allocator");
        std::size_t const nr_steps{1 + c.draw(40)};
        bool released{false};

        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            if (blocks.empty() || c.draw(2) > 0)
            {
                std::size_t const size{1 + c.draw(12)};
                c.notes("allocate ", size);
                if (released) c.nontrivial();
                Block block{Allocator{}.allocate(size), size, static_cast<double>(step)};
                for (std::size_t i = 0; i < size; ++i) block.pointer[i] = block.first + i;
                blocks.push_back(block);
            }
            else
            {
                std::size_t const idx{c.draw(blocks.size() - 1)};
                c.notes("deallocate ", blocks[idx].size);
                Allocator{}.deallocate(blocks[idx].pointer, blocks[idx].size);
                blocks.erase(blocks.begin() + static_cast<std::ptrdiff_t>(idx));
                released = true;
            }

            for (auto const& block : blocks)
                for (std::size_t i = 0; i < block.size; ++i)
                    c.check(block.pointer[i] == block.first + i, "a buffer in use is overwritten");
        }

        for (auto const& block : blocks) Allocator{}.deallocate(block.pointer, block.size);
    }

    void containers(Case& c)
    {
        switch (c.draw(11))
        {
            case 0: return array<double, 1>(c);
            case 1: return array<std::int32_t, 2>(c);
            case 2: return array<std::uint8_t, 3>(c);
            case 3: return array<std::string, 1>(c);
            case 4: return array<std::string, 2>(c);
            case 5: return buffer<double>(c);
            case 6: return buffer<std::uint8_t>(c);
            case 7: return data<double, 1>(c);
            case 8: return data<double, 2>(c);
            case 9: return data<std::uint8_t, 2>(c);
            case 10: return data<std::int64_t, 1>(c);
            default: return allocator(c);
        }
    }

}  // Anonymous namespace


int main(int argc, char** argv)
{
    return pt::main(
        argc, argv,
        std::vector<pt::Property>{
            {"F01", "there are several partitions, some of which are larger than asked for, or the request is refused", decomposition, 400000, 6000000},
            {"F02", "the grid has several cells", curves, 45000, 700000},
            {"F03", "the location is not the first one of an array with several dimensions, or several things are mapped to several targets", locations, 500000, 8000000},
            {"F09", "the history has at least two steps that copy, move, reshape, or remove, or uses a buffer again", containers, 120000, 2000000}});
}
