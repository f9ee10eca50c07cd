// Identification of cells
#include "local_check.hpp"
#include "zonal.hpp"
#include "lue/framework/algorithm/definition/cell_index.hpp"
#include "lue/framework/algorithm/definition/clump.hpp"
#include "lue/framework/algorithm/definition/reclassify.hpp"
#include "lue/framework/algorithm/definition/unique_id.hpp"
#include "lue/framework/algorithm/value_policies/cell_index.hpp"
#include "lue/framework/algorithm/value_policies/clump.hpp"
#include "lue/framework/algorithm/value_policies/reclassify.hpp"
#include "lue/framework/algorithm/value_policies/unique_id.hpp"
#include <map>


namespace fw {
    namespace {

        using namespace lue::value_policies;

        // Number the patches of connected cells with the same value
        template<typename T>
        std::vector<int> patches(Grid<T> const& zones, bool const diagonal)
        {
            std::vector<int> result(zones.size(), -1);
            int nr = 0;
            for (std::size_t i = 0; i < zones.size(); ++i)
            {
                if (result[i] >= 0 || is_no_data(zones.cells[i])) continue;
                std::vector<std::size_t> todo{i};
                result[i] = nr;
                while (!todo.empty())
                {
                    std::size_t const j = todo.back();
                    todo.pop_back();
                    Index const r = Index(j) / zones.cols;
                    Index const col = Index(j) % zones.cols;
                    for (int dr = -1; dr <= 1; ++dr)
                    {
                        for (int dc = -1; dc <= 1; ++dc)
                        {
                            if ((!dr && !dc) || (dr && dc && !diagonal) || !zones.inside(r + dr, col + dc)) continue;
                            std::size_t const k = std::size_t((r + dr) * zones.cols + col + dc);
                            if (result[k] < 0 && zones.cells[k] == zones.cells[j])
                            {
                                result[k] = nr;
                                todo.push_back(k);
                            }
                        }
                    }
                }
                ++nr;
            }
            return result;
        }

        template<typename Zone>
        void add_clump(Operations& o, std::string const& t)
        {
            o.push_back(Operation{"clump" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    bool const diagonal = c.chance(50);
                    // Sometimes long winding patches
                    int const classes = int(c.draw(2));
                    auto const zones = grid<Zone>(c, l, [&]() { return Zone(c.draw(std::uint64_t(classes))); }, c.pick<int>({0, 10, 40}));
                    c.notes(l.text(), diagonal ? ", diagonal: " : ", nondiagonal: ", zones.text());
                    if (l.nr_partitions() > 1) c.nontrivial();
                    auto const expected = patches(zones, diagonal);
                    run(c, [&]()
                    {
                        Array<Zone> const array{to_array(l, zones)};
                        auto const actual = from_array(
                            c, clump(array, diagonal ? lue::Connectivity::diagonal : lue::Connectivity::nondiagonal),
                            l.array, "result");
                        std::map<int, Zone> id_by_patch;
                        std::map<Zone, int> patch_by_id;
                        for (std::size_t i = 0; i < zones.size(); ++i)
                        {
                            c.check(
                                (expected[i] < 0) == is_no_data(actual.cells[i]),
                                "no-data in zones and clumps differ: " + actual.text());
                            if (expected[i] < 0) continue;
                            auto const [p, new_p] = id_by_patch.try_emplace(expected[i], actual.cells[i]);
                            auto const [q, new_q] = patch_by_id.try_emplace(actual.cells[i], expected[i]);
                            c.check(p->second == actual.cells[i], "connected cells have different IDs: " + actual.text());
                            c.check(q->second == expected[i], "cells that are not connected have the same ID: " + actual.text());
                        }
                        expect(c, array, zones, "zones, afterwards");
                    });
                    report(c);
                }});
        }

        template<typename From, typename To>
        void add_reclassify(Operations& o, std::string const& t)
        {
            o.push_back(Operation{"reclassify" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    auto const a = input<From>(c, l, few<From>, l.text());
                    lue::LookupTable<From, To> table;
                    for (int i = 0, n = int(c.draw(4)); i < n; ++i)
                    {
                        table[few<From>(c)] = any_element<To>(c);
                    }
                    for (auto const& [from, to] : table) c.notes(show(from), " -> ", show(to));
                    if (l.nr_partitions() > 1 && !table.empty()) c.nontrivial();
                    auto const expected = model<To>(
                        l, [&](std::size_t i)
                        {
                            auto const it = table.find(a.cells[i]);
                            return is_no_data(a.cells[i]) || it == table.end() ? std::optional<To>{} : std::optional<To>{it->second};
                        });
                    run(c, [&]() { expect(c, reclassify(to_array(l, a), table), expected, "result"); });
                    report(c);
                }});
        }

        template<typename Condition>
        void add_ids(Operations& o, std::string const& t)
        {
            o.push_back(Operation{"unique_id" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    auto const a = input<Condition>(c, l, few<Condition>, l.text());
                    if (l.nr_partitions() > 1) c.nontrivial();
                    run(c, [&]()
                    {
                        auto const actual = from_array(c, unique_id<U64>(to_array(l, a)), l.array, "result");
                        std::set<U64> ids;
                        for (std::size_t i = 0; i < a.size(); ++i)
                        {
                            if (is_no_data(a.cells[i]))
                            {
                                c.check(is_no_data(actual.cells[i]), "a cell without condition has an ID: " + actual.text());
                            }
                            else if (!a.cells[i])
                            {
                                c.check(actual.cells[i] == 0, "a cell that is not selected has an ID: " + actual.text());
                            }
                            else
                            {
                                c.check(
                                    !is_no_data(actual.cells[i]) && actual.cells[i] > 0 && ids.insert(actual.cells[i]).second,
                                    "IDs are not unique: " + actual.text());
                            }
                        }
                    });
                    report(c);
                }});
            o.push_back(Operation{"cell_index" + t, [](Case& c)
                {
                    Layout const l = layout(c);
                    start(c);
                    int const dimension = int(c.draw(1));
                    auto const a = input<Condition>(c, l, few<Condition>, l.text() + ", dimension " + str(dimension));
                    if (l.nr_partitions() > 1) c.nontrivial();
                    auto const expected = model<U64>(
                        l, [&](std::size_t i)
                        {
                            return is_no_data(a.cells[i]) || !a.cells[i]
                                ? std::optional<U64>{}
                                : std::optional<U64>{dimension ? i % U64(a.cols) : i / U64(a.cols)};
                        });
                    run(c, [&]() { expect(c, cell_index<U64>(to_array(l, a), dimension), expected, "result"); });
                    report(c);
                }});
        }

    }  // Anonymous namespace


    Operations identity_operations()
    {
        Operations o;
        add_clump<I32>(o, " int32");
        add_clump<I64>(o, " int64");
        add_clump<I32>(o, " int32");
        add_reclassify<I32, double>(o, " int32 to double");
        add_reclassify<U8, I64>(o, " uint8 to int64");
        add_ids<U8>(o, " uint8");
        add_ids<I32>(o, " int32");
        return o;
    }

}  // namespace fw
