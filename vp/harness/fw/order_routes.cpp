#include "fw.hpp"
#include "lue/framework/algorithm/definition/decreasing_order.hpp"
#include "lue/framework/algorithm/definition/first_n.hpp"
#include "lue/framework/algorithm/value_policies/decreasing_order.hpp"
#include "lue/framework/algorithm/value_policies/first_n.hpp"
#include "lue/framework/partitioned_route/serial_route_partition_impl.hpp"
#include "lue/framework/partitioned_route/server/serial_route_partition_impl.hpp"


namespace fw {

    namespace {

        struct Cell
        {
                Index row;
                Index col;
        };

        //! Cells visited by a route, and how often it got into a partition
        struct Visit
        {
                std::vector<Cell> cells;
                int nr_partitions{0};
                int nr_fragments{0};
        };

        //! Partition of a route that is ready
        template<typename ID>
        struct RoutePartition
        {
                lue::Offset<Index, 2> offset;
                lue::Shape<Index, 2> shape;
                std::set<ID> ids;
                std::map<ID, std::vector<lue::SerialRouteFragment<2>>> fragments;
        };

        template<typename ID, typename T>
        std::map<ID, Visit> follow(Case& c, Array<T> const& array, lue::SerialRoute<ID, 2> const& route)
        {
            std::map<hpx::id_type, RoutePartition<ID>> partitions;
            c.check(route.shape() == array.shape(), "the shape of a route is the one of the array");
            c.check(route.partitions().shape() == array.partitions().shape(), "a route has the partitions of the array");
            auto const [rows, cols] = array.partitions().shape();
            for (Index r = 0; r < rows; ++r)
                for (Index col = 0; col < cols; ++col)
                {
                    auto partition = route.partitions()(r, col);
                    partition.get();
                    RoutePartition<ID> p{partition.offset().get(), partition.shape().get(), partition.route_ids().get(), {}};
                    auto const array_partition = array.partitions()(r, col);
                    c.check(
                        p.offset == array_partition.offset(hpx::launch::sync), "the offset of a partition of a route");
                    c.check(p.shape == array_partition.shape(hpx::launch::sync), "the shape of a partition of a route");
                    Count nr_fragments = 0;
                    for (ID const id : p.ids)
                    {
                        p.fragments[id] = partition.route_fragments(id).get();
                        nr_fragments += Count(p.fragments[id].size());
                    }
                    c.check(partition.nr_routes().get() == Count(p.ids.size()), "the number of routes in a partition");
                    c.check(partition.nr_route_fragments().get() == nr_fragments, "the number of fragments in a partition");
                    partitions.emplace(partition.get_id(), std::move(p));
                }
            c.check(partitions.size() == std::size_t(lue::nr_elements(array.partitions().shape())), "each partition of a route is another one");

            std::map<ID, Visit> result;
            std::size_t nr_fragments = 0;
            for (auto const& [id, start] : route.starts().get())
            {
                Visit visit;
                std::map<hpx::id_type, std::size_t> next;
                auto location = start.get();
                while (true)
                {
                    auto const found = partitions.find(location);
                    c.check(found != partitions.end(), "a fragment of a route is located in one of its partitions");
                    auto const& p = found->second;
                    auto const fragments = p.fragments.find(id);
                    c.check(
                        fragments != p.fragments.end() && next[location] < fragments->second.size(),
                        "a route continues with a fragment of it");
                    auto const& fragment = fragments->second[next[location]++];
                    ++visit.nr_fragments;
                    for (auto const idx : fragment.cell_idxs())
                    {
                        c.check(idx >= 0 && idx < p.shape[0] * p.shape[1], "a cell of a route is in its partition");
                        visit.cells.push_back({p.offset[0] + idx / p.shape[1], p.offset[1] + idx % p.shape[1]});
                    }
                    if (fragment.is_last()) break;
                    location = fragment.next_fragment_location().get();
                }
                visit.nr_partitions = int(next.size());
                nr_fragments += visit.nr_fragments;
                result.emplace(id, std::move(visit));
            }
            std::size_t nr_recorded = 0;
            for (auto const& [location, p] : partitions)
                for (auto const& [id, fragments] : p.fragments) nr_recorded += fragments.size();
            c.check(nr_recorded == nr_fragments, "each fragment is part of a route");
            return result;
        }

        template<typename ID, typename T>
        void order(Case& c)
        {
            Layout const l = layout(c, 5, 1);
            bool const zonal = c.chance(70);
            auto const zone = grid<ID>(
                c, l, [&c, values = c.pick<int>({1, 2, 5})]() { return ID(c.draw(values - 1)); },
                nd_percentage(c));
            int const range = c.pick<int>({3, 40, 1000});
            int const shift = c.pick<int>({0, 0, 1, -1});
            auto const value = grid<T>(
                c, l, [&c, range, shift]() { return T(T(int(c.draw(2 * range)) - range + 2 * shift * range) / (std::is_floating_point_v<T> ? 2 : 1)); },
                nd_percentage(c));
            Count const nr_cells = l.array[0] * l.array[1];
            Count const max_nr_cells = c.chance(40)   ? std::numeric_limits<Count>::max()
                                       : c.chance(50) ? Count(c.draw(6))
                                                      : Count(c.draw(std::uint64_t(nr_cells + 2)));
            Count const n = c.chance(30) ? nr_cells + 1 : Count(c.draw(std::uint64_t(nr_cells)));
            if (zonal) c.notes("zone: ", zone.text());
            c.notes("value: ", value.text());
            c.notes("at most ", max_nr_cells, " cells, first ", n);

            // What is expected
            std::map<ID, std::vector<T>> values;
            for (Index r = 0; r < value.rows; ++r)
                for (Index col = 0; col < value.cols; ++col)
                {
                    if (is_no_data(value(r, col)) || (zonal && is_no_data(zone(r, col)))) continue;
                    values[zonal ? zone(r, col) : ID(0)].push_back(value(r, col));
                }
            for (auto& [id, v] : values) std::sort(v.begin(), v.end(), std::greater<T>{});

            start(c);
            std::map<ID, Visit> visits;
            Grid<U8> first{value.rows, value.cols};
            run(c, [&]()
            {
                using namespace lue::value_policies;
                auto const value_array = to_array(l, value);
                auto const route = zonal ? decreasing_order<ID, T, 2>(to_array(l, zone), value_array, max_nr_cells)
                                         : decreasing_order<ID, T, 2>(value_array, max_nr_cells);
                auto const marked = first_n<U8, ID, 2>(route, n);
                first = from_array(c, marked, lue::Shape<Count, 2>{{value.rows, value.cols}}, "first cells of the routes");
                visits = follow(c, value_array, route);
            });

            int nr_partitions = 0;
            int nr_returns = 0;
            c.equal(visits.size(), values.size(), "the number of routes");
            Grid<U8> expected{value.rows, value.cols, no_data<U8>()};
            Grid<char> seen{value.rows, value.cols, 0};
            for (auto const& [id, visit] : visits)
            {
                auto const found = values.find(zonal ? id : ID(0));
                c.check(found != values.end(), "a route is the one of a zone that contains values");
                auto const& v = found->second;
                c.equal(Count(visit.cells.size()), std::min(Count(v.size()), max_nr_cells), "the number of cells of a route");
                for (std::size_t i = 0; i < visit.cells.size(); ++i)
                {
                    auto const [r, col] = visit.cells[i];
                    c.check(!seen(r, col), "a cell is part of a single route, once");
                    seen(r, col) = 1;
                    c.check(!zonal || zone(r, col) == id, "a route visits the cells of its zone");
                    c.check(value(r, col) == v[i], "a route visits the cells in decreasing order");
                    if (Count(i) < n) expected(r, col) = 1;
                }
                nr_partitions = std::max(nr_partitions, visit.nr_partitions);
                nr_returns = std::max(nr_returns, visit.nr_fragments - visit.nr_partitions);
            }
            c.label(nr_partitions > 1 ? "partitions in a route: several" : "partitions in a route: one");
            c.label(nr_returns > 0 ? "routes return to a partition" : "routes do not return to a partition");
            c.label(zonal ? "a route per zone" : "a single route");
            if (nr_partitions > 1) c.nontrivial();
            expect(c, first, expected, "first cells of the routes");
        }

    }  // Anonymous namespace

#if FW_GROUP == 0
    Operations order_float_operations() { return {{"decreasing_order<int32, float32>", order<I32, float>}}; }
#elif FW_GROUP == 1
    Operations order_double_operations() { return {{"decreasing_order<int64, float64>", order<I64, double>}}; }
#elif FW_GROUP == 2
    Operations order_int32_operations() { return {{"decreasing_order<int32, int32>", order<I32, I32>}}; }
#else
    Operations order_int64_operations() { return {{"decreasing_order<int64, int64>", order<I64, I64>}}; }
#endif

}  // namespace fw
