// Checks of operations that route material through a network of flow directions
#pragma once
#include "fw.hpp"
#include "lue/framework/algorithm/flow_direction.hpp"
#include "lue/framework/algorithm/scalar.hpp"
#include <cmath>


namespace fw {

    Operations route_local_operations();
    Operations route_accu_operations();
    Operations route_threshold_operations();
    Operations route_fraction_operations();
    Operations route_capacity_operations();
    Operations route_trigger_operations();


    using Direction = U8;

    //! Offsets of the neighbours, by the code of the flow direction: the keys of a numeric keypad
    inline std::pair<Index, Index> offset(Direction const code)
    {
        int const k = code - 1;
        return {1 - k / 3, k % 3 - 1};
    }

    inline bool is_sink(Direction const code) { return code == 5; }


    struct Cell
    {
            Index row;
            Index col;
    };


    //! Flow directions without cycles, in which no cell drains into a cell without a direction
    struct Network
    {
            Grid<Direction> direction;

            auto downstream(Index const r, Index const col) const -> std::optional<Cell>
            {
                Direction const code = direction(r, col);
                if (is_no_data(code) || is_sink(code)) return {};
                auto const [dr, dc] = offset(code);
                if (!direction.inside(r + dr, col + dc)) return {};
                return Cell{r + dr, col + dc};
            }

            //! Cells, each one after all the ones that drain into it
            auto order() const -> std::vector<Cell>
            {
                Grid<int> in{direction.rows, direction.cols, 0};
                for (Index r = 0; r < in.rows; ++r)
                    for (Index col = 0; col < in.cols; ++col)
                        if (auto const d = downstream(r, col)) ++in(d->row, d->col);
                std::vector<Cell> cells;
                for (Index r = 0; r < in.rows; ++r)
                    for (Index col = 0; col < in.cols; ++col)
                        if (in(r, col) == 0) cells.push_back({r, col});
                for (std::size_t i = 0; i < cells.size(); ++i)
                    if (auto const d = downstream(cells[i].row, cells[i].col))
                        if (--in(d->row, d->col) == 0) cells.push_back(*d);
                return cells;
            }

            //! Number of cells that drain into a cell that is located in another partition
            auto nr_crossings(Layout const& l) const -> int
            {
                int result = 0;
                for (Index r = 0; r < direction.rows; ++r)
                    for (Index col = 0; col < direction.cols; ++col)
                        if (auto const d = downstream(r, col))
                            result += d->row / l.partition[0] != r / l.partition[0] ||
                                      d->col / l.partition[1] != col / l.partition[1];
                return result;
            }
    };


    inline Network network(Case& c, Layout const& l)
    {
        Network n{{l.array[0], l.array[1]}};
        auto& g = n.direction;
        int const nd = c.pick<int>({0, 0, 5, 25});
        int const sinks = c.pick<int>({0, 2, 15});
        // Neighbours, clockwise
        Direction const around[] = {7, 8, 9, 6, 3, 2, 1, 4};
        int const kind = int(c.draw(2));

        if (kind == 2)
        {
            // To one of the neighbours that are lower
            Grid<int> height{g.rows, g.cols};
            int const base = int(c.draw(1));
            for (Index r = 0; r < g.rows; ++r)
                for (Index col = 0; col < g.cols; ++col)
                    height(r, col) = base * int(std::abs(2 * r - g.rows)) + int(c.draw(9));
            for (Index r = 0; r < g.rows; ++r)
                for (Index col = 0; col < g.cols; ++col)
                {
                    std::vector<Direction> candidates;
                    for (Direction const code : around)
                    {
                        auto const [dr, dc] = offset(code);
                        if (!g.inside(r + dr, col + dc) || height(r + dr, col + dc) < height(r, col))
                            candidates.push_back(code);
                    }
                    g(r, col) = candidates.empty() ? Direction(5) : candidates[c.draw(candidates.size() - 1)];
                }
        }
        else
        {
            // To any neighbour, or mostly to the ones in one direction
            int const towards = int(c.draw(7));
            for (auto& code : g.cells)
                code = around[kind == 0 ? c.draw(7) : (towards + c.pick<int>({0, 0, 1, 7})) % 8];
        }
        for (auto& code : g.cells)
        {
            if (sinks && c.chance(sinks)) code = 5;
            if (nd && c.chance(nd)) code = no_data<Direction>();
        }
        // No flow into cells without a direction, and no cycles
        Grid<char> done{g.rows, g.cols, 0};
        for (Index r = 0; r < g.rows; ++r)
            for (Index col = 0; col < g.cols; ++col)
            {
                std::vector<Cell> path;
                Cell cell{r, col};
                while (!done(cell.row, cell.col))
                {
                    done(cell.row, cell.col) = 1;
                    path.push_back(cell);
                    auto const next = n.downstream(cell.row, cell.col);
                    if (!next) break;
                    if (is_no_data(g(next->row, next->col)) || done(next->row, next->col) == 1)
                    {
                        g(cell.row, cell.col) = 5;
                        break;
                    }
                    cell = *next;
                }
                for (auto const& p : path) done(p.row, p.col) = 2;
            }
        char const* const kinds[] = {"any direction", "mostly one direction", "downhill"};
        c.label(std::string("network: ") + kinds[kind]);
        c.notes("flow directions: ", g.text());
        return n;
    }


    Layout route_layout(Case& c);

    inline void label_crossings(Case& c, Network const& n, Layout const& l)
    {
        int const crossings = n.nr_crossings(l);
        if (crossings) c.nontrivial();
        c.label(crossings == 0 ? "streams between partitions: none" : crossings < 5 ? "streams between partitions: some" : "streams between partitions: many");
    }

}  // namespace fw
