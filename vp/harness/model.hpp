// A model of a whole dataset: generating one, building the dataset it describes, and comparing both
#pragma once
#include "common.hpp"
#include "lue/data_model.hpp"
#include "lue/validate.hpp"
#include <deque>


namespace vp {

    namespace ldm = lue::data_model;

    using Bytes = std::string;


    inline lh5::Datatype datatype_of(std::size_t type)
    {
        std::optional<lh5::Datatype> result;
        with_type(type, [&]<typename T>() { result = datatype<T>(); });
        return *result;
    }


    inline std::size_t size_of(std::size_t type)
    {
        std::size_t result{};
        with_type(type, [&]<typename T>() { result = sizeof(T); });
        return result;
    }


    inline bool is_unsigned(std::size_t type)
    {
        bool result{};
        with_type(type, [&]<typename T>() { result = std::is_unsigned_v<T>; });
        return result;
    }


    inline std::size_t unsigned_type(Case& c)
    {
        return c.pick({2, 3, 6, 9});
    }


    inline Bytes random_bytes(Case& c, std::size_t type, std::size_t n)
    {
        Bytes result;
        with_type(type,
            [&]<typename T>()
            {
                auto const v = values<T>(c, n);
                result.assign(reinterpret_cast<char const*>(v.data()), n * sizeof(T));
            });
        return result;
    }


    // ------------------------------------------------------------------------------------------ model
    struct Arrays
    {
            lh5::Shape shape;
            std::size_t n{0};
            Bytes bytes;
    };

    struct Where
    {
            int universe{-1};
            std::size_t phenomenon{0};
            bool collection{false};
            std::size_t property_set{0};
            std::size_t property{0};
    };

    enum Kind
    {
        k_same,
        k_different,
        k_same_constant,
        k_same_variable,
        k_different_constant,
        k_different_variable
    };

    constexpr std::array<char const*, 6> kind_names{
        "same_shape", "different_shape", "same_shape::constant_shape", "same_shape::variable_shape",
        "different_shape::constant_shape", "different_shape::variable_shape"};

    struct PropertyModel
    {
            std::string name;
            std::string description;
            Kind kind;
            std::size_t type;
            //! Of kinds with one shape
            lh5::Shape shape;
            int rank;

            //! same, same_constant
            Arrays arrays;
            //! different (n = 1), different_constant
            std::map<hsize_t, Arrays> by_id;
            //! same_variable
            std::map<hsize_t, Arrays> by_time;
            //! different_variable
            std::map<hsize_t, std::map<hsize_t, Arrays>> by_time_id;

            //! Values are strings, instead of bytes of elements of type. Only for same, different
            bool text{false};
            std::vector<std::string> strings;
            std::map<hsize_t, std::vector<std::string>> strings_by_id;

            std::optional<Where> time_discretization;
            std::optional<Where> space_discretization;
    };

    struct TrackerModel
    {
            std::vector<hsize_t> set_idx;
            std::vector<hsize_t> id;
            std::vector<hsize_t> object_idx;

            std::size_t nr_sets() const
            {
                return set_idx.size();
            }

            std::vector<hsize_t> set(std::size_t i) const
            {
                std::size_t const end = i + 1 < set_idx.size() ? set_idx[i + 1] : id.size();
                return {id.begin() + set_idx[i], id.begin() + end};
            }
    };

    struct EpochModel
    {
            int kind{0};
            std::optional<std::string> origin;
            bool calendar{false};

            ldm::time::Epoch make() const
            {
                auto const k = static_cast<ldm::time::Epoch::Kind>(kind);
                if (!origin)
                {
                    return ldm::time::Epoch{k};
                }
                return calendar ? ldm::time::Epoch{k, *origin, ldm::time::Calendar::gregorian}
                                : ldm::time::Epoch{k, *origin};
            }

            auto tie() const
            {
                return std::tie(kind, origin, calendar);
            }
    };

    struct ClockModel
    {
            EpochModel epoch;
            int unit{0};
            std::uint64_t nr_units{1};

            ldm::Clock make() const
            {
                return ldm::Clock{epoch.make(), static_cast<ldm::time::Unit>(unit), nr_units};
            }
    };

    struct TimeModel
    {
            ldm::TimeDomainItemType item;
            ClockModel clock;
            //! One per point, two per box or cell
            std::vector<std::uint64_t> items;
            std::vector<hsize_t> counts;

            std::size_t width() const
            {
                return item == ldm::TimeDomainItemType::point ? 1 : 2;
            }

            std::size_t nr_items() const
            {
                return items.size() / width();
            }

            std::size_t nr_locations() const
            {
                return item == ldm::TimeDomainItemType::cell
                           ? std::accumulate(counts.begin(), counts.end(), hsize_t(0))
                           : nr_items();
            }
    };

    struct SpaceModel
    {
            ldm::Mobility mobility;
            ldm::SpaceDomainItemType item;
            std::size_t type;
            std::size_t rank;
            std::size_t n{0};
            Bytes bytes;
            std::optional<Where> presence;

            std::size_t width() const
            {
                return item == ldm::SpaceDomainItemType::point ? rank : 2 * rank;
            }
    };

    struct PropertySetModel
    {
            //! Property sets something is shared with come first
            std::size_t order{0};
            std::string name;
            std::shared_ptr<TrackerModel> tracker;
            std::optional<Where> tracker_from;
            std::shared_ptr<TimeModel> time;
            std::optional<Where> time_from;
            std::optional<SpaceModel> space;
            std::deque<PropertyModel> properties;
    };

    struct PhenomenonModel
    {
            std::string name;
            std::string description;
            std::vector<hsize_t> ids;
            std::deque<PropertySetModel> collection_property_sets;
            std::deque<PropertySetModel> property_sets;
    };

    struct UniverseModel
    {
            std::string name;
            std::deque<PhenomenonModel> phenomena;
    };

    struct Model
    {
            std::string description;
            std::deque<UniverseModel> universes;
            std::deque<PhenomenonModel> phenomena;

            PhenomenonModel& phenomenon(Where const& w)
            {
                return w.universe < 0 ? phenomena[w.phenomenon] : universes[w.universe].phenomena[w.phenomenon];
            }

            PropertySetModel& property_set(Where const& w)
            {
                auto& p = phenomenon(w);
                return (w.collection ? p.collection_property_sets : p.property_sets)[w.property_set];
            }

            PropertyModel& property(Where const& w)
            {
                return property_set(w).properties[w.property];
            }

            template<typename F>
            void for_each_phenomenon(F&& f)
            {
                for (int u = -1; u < int(universes.size()); ++u)
                {
                    auto& ps = u < 0 ? phenomena : universes[u].phenomena;
                    for (std::size_t p = 0; p < ps.size(); ++p)
                    {
                        f(Where{u, p}, ps[p]);
                    }
                }
            }

            template<typename F>
            void for_each_property_set(F&& f)
            {
                for_each_phenomenon(
                    [&](Where w, PhenomenonModel& p)
                    {
                        for (std::size_t i = 0; i < p.collection_property_sets.size(); ++i)
                        {
                            w.collection = true;
                            w.property_set = i;
                            f(w, p.collection_property_sets[i]);
                        }
                        for (std::size_t i = 0; i < p.property_sets.size(); ++i)
                        {
                            w.collection = false;
                            w.property_set = i;
                            f(w, p.property_sets[i]);
                        }
                    });
            }

            template<typename F>
            void for_each_property(F&& f)
            {
                for_each_property_set(
                    [&](Where w, PropertySetModel& s)
                    {
                        for (std::size_t i = 0; i < s.properties.size(); ++i)
                        {
                            w.property = i;
                            f(w, s, s.properties[i]);
                        }
                    });
            }

            std::size_t nr_properties()
            {
                std::size_t n = 0;
                for_each_property([&](Where const&, PropertySetModel&, PropertyModel&) { ++n; });
                return n;
            }
    };


    inline std::string str_where(Model& m, Where const& w)
    {
        std::string result = w.universe < 0 ? "" : "/" + m.universes[w.universe].name;
        result += "/" + m.phenomenon(w).name + (w.collection ? "/collection" : "/objects");
        auto& sets = w.collection ? m.phenomenon(w).collection_property_sets : m.phenomenon(w).property_sets;
        return w.property_set < sets.size() ? result + "/" + sets[w.property_set].name : result;
    }


    // ------------------------------------------------------------------------------------ generation
    struct Options
    {
            //! Counts, indices and coordinates agree with each other
            bool consistent{false};
            bool discretize{true};
            std::size_t max_phenomena{2};
            std::size_t max_property_sets{3};
            std::size_t max_properties{3};
            std::size_t max_ids{5};
    };


    template<typename Names>
    inline std::string item_name(Case& c, Names const& used)
    {
        std::string result;
        switch (c.draw(3))
        {
            case 0:
            case 1:
            {
                result = std::string(1, char('a' + c.draw(25))) + (c.boolean() ? std::to_string(c.draw(9)) : "");
                break;
            }
            case 2:
            {
                result = c.pick(std::initializer_list<char const*>{"areas", "lue_phenomena", "value", "a b", "..",
                    "réseau", "Überflutung", "x.y", "lue_value", "#1", " ", "\t", "日本", "-", "0", "same_shape",
                    "lue_property_sets", "lue_properties", "%s{}"});
                break;
            }
            default:
            {
                std::size_t const n = c.chance(10) ? 200 + c.draw(400) : 1 + c.draw(30);
                std::size_t const nr_drawn = std::min<std::size_t>(n, 31);
                for (std::size_t i = 0; i < nr_drawn; ++i)
                {
                    char ch = char(33 + c.draw(93));
                    result += ch == '/' ? '_' : ch;
                }
                while (result.size() < n) result += char('a' + result.size() % 26);
                if (result == ".") result = "dot";
            }
        }
        while (used(result))
        {
            result += char('a' + c.draw(25));
        }
        return result;
    }

    template<typename Items>
    inline std::string new_name(Case& c, Items const& items)
    {
        return item_name(c,
            [&](std::string const& name)
            { return std::any_of(items.begin(), items.end(), [&](auto const& i) { return i.name == name; }); });
    }


    inline std::string any_description(Case& c)
    {
        return c.chance(60) ? std::string{} : c.text(c.chance(5) ? 3000 : 30);
    }


    inline EpochModel any_epoch(Case& c)
    {
        EpochModel e;
        e.kind = int(c.draw(1));
        if (c.boolean())
        {
            e.origin = c.boolean() ? std::string{"2000-01-01T00:00:00+00:00"} : c.text(20);
            e.calendar = c.boolean();
        }
        return e;
    }


    inline ClockModel any_clock(Case& c)
    {
        ClockModel m;
        m.epoch = any_epoch(c);
        m.unit = int(c.draw(9));
        m.nr_units = c.chance(70) ? 1 + c.draw(30) : c.any64();
        return m;
    }


    struct Generator
    {
            Case& c;
            Options options;
            Model m{};

            Model make()
            {
                m.description = any_description(c);
                std::size_t const nr_universes = c.chance(25) ? 1 + c.draw(1) : 0;
                for (std::size_t i = 0; i < nr_universes; ++i)
                {
                    UniverseModel u;
                    u.name = new_name(c, m.universes);
                    m.universes.push_back(u);
                    std::size_t const n = c.draw(1);
                    for (std::size_t p = 0; p < n; ++p)
                    {
                        phenomenon(Where{int(i), p});
                    }
                }
                std::size_t const n = (nr_universes == 0 ? 1 : 0) + c.draw(options.max_phenomena - 1);
                for (std::size_t p = 0; p < n; ++p)
                {
                    phenomenon(Where{-1, p});
                }
                if (options.discretize)
                {
                    discretize();
                }
                return m;
            }

            void phenomenon(Where w)
            {
                auto& ps = w.universe < 0 ? m.phenomena : m.universes[w.universe].phenomena;
                PhenomenonModel p;
                p.name = new_name(c, ps);
                p.description = any_description(c);
                std::set<hsize_t> used;
                p.ids = object_ids(c, c.draw(options.max_ids), used);
                if (!options.consistent && !p.ids.empty() && c.chance(10))
                {
                    p.ids.push_back(p.ids[0]);
                }
                ps.push_back(p);
                std::size_t const nr_collection = c.chance(50) ? c.draw(options.max_property_sets - 1) : 0;
                std::size_t const nr_regular = c.draw(options.max_property_sets);
                for (std::size_t i = 0; i < nr_collection + nr_regular; ++i)
                {
                    w.collection = i < nr_collection;
                    w.property_set = w.collection ? i : i - nr_collection;
                    property_set(w);
                }
            }

            std::vector<hsize_t> ids_of(Where const& w, TrackerModel const* tracker)
            {
                if (!w.collection)
                {
                    return m.phenomenon(w).ids;
                }
                if (tracker && !tracker->id.empty())
                {
                    return {tracker->id[0]};
                }
                return {999};
            }

            void fill_tracker(Where const& w, TrackerModel& t, std::size_t nr_sets)
            {
                if (!options.consistent)
                {
                    for (auto* v: {&t.set_idx, &t.id, &t.object_idx})
                    {
                        v->resize(c.draw(6));
                        for (auto& e: *v)
                        {
                            e = c.chance(70) ? c.draw(9) : c.any64();
                        }
                    }
                    return;
                }
                auto ids = ids_of(w, nullptr);
                if (w.collection)
                {
                    ids = {c.chance(50) ? 0 : c.any64()};
                }
                else if (ids.empty())
                {
                    // Not all objects need to be known beforehand
                    std::set<hsize_t> used;
                    ids = object_ids(c, 3, used);
                }
                std::map<hsize_t, hsize_t> count;
                for (std::size_t s = 0; s < nr_sets; ++s)
                {
                    t.set_idx.push_back(t.id.size());
                    auto members = ids;
                    // Random subset in random order
                    for (std::size_t i = members.size(); i > 1; --i)
                    {
                        std::swap(members[i - 1], members[c.draw(i - 1)]);
                    }
                    if (!w.collection)
                    {
                        members.resize(members.size() - c.draw(members.size()));
                    }
                    for (auto id: members)
                    {
                        t.id.push_back(id);
                        t.object_idx.push_back(count[id]++);
                    }
                }
            }

            void fill_time(TimeModel& t, std::optional<std::size_t> nr_locations)
            {
                t.item = c.pick({ldm::TimeDomainItemType::point, ldm::TimeDomainItemType::box,
                    ldm::TimeDomainItemType::cell});
                t.clock = any_clock(c);
                std::size_t n = nr_locations ? *nr_locations : c.draw(4);
                if (t.item == ldm::TimeDomainItemType::cell)
                {
                    std::size_t left = n;
                    n = 0;
                    while (left > 0 || (c.chance(10) && n < 5))
                    {
                        // Cells without steps are not excluded
                        std::size_t const count = c.chance(10) ? 0 : left == 0 ? 0 : 1 + c.draw(left - 1);
                        t.counts.push_back(count);
                        left -= count;
                        ++n;
                    }
                }
                std::uint64_t now = c.chance(80) ? c.draw(10) : c.any64() / 4;
                for (std::size_t i = 0; i < n * t.width(); ++i)
                {
                    t.items.push_back(now);
                    now += c.chance(80) ? c.draw(5) : c.any64() / 256;
                }
                if (!options.consistent)
                {
                    for (auto& e: t.items)
                    {
                        e = c.chance(50) ? e : c.any64();
                    }
                    if (t.item == ldm::TimeDomainItemType::cell && c.chance(30))
                    {
                        t.counts.resize(c.draw(5), 1);
                    }
                }
            }

            //! A property set of which something can be shared
            template<typename Condition>
            std::optional<Where> find(Condition&& condition)
            {
                std::vector<Where> candidates;
                m.for_each_property_set(
                    [&](Where const& w, PropertySetModel& s)
                    {
                        if (condition(w, s))
                        {
                            candidates.push_back(w);
                        }
                    });
                if (candidates.empty())
                {
                    return {};
                }
                return candidates[c.draw(candidates.size() - 1)];
            }

            std::size_t nr_sets{0};

            void property_set(Where const& w)
            {
                auto& sets = w.collection ? m.phenomenon(w).collection_property_sets : m.phenomenon(w).property_sets;
                PropertySetModel s;
                s.name = new_name(c, sets);
                bool with_time = c.chance(60);
                bool link_tracker = with_time && c.chance(35);
                bool link_time = with_time && c.chance(35);
                if (link_tracker)
                {
                    s.tracker_from = find(
                        [&](Where const& o, PropertySetModel&)
                        {
                            return !options.consistent ||
                                   (o.universe == w.universe && o.phenomenon == w.phenomenon &&
                                    o.collection == w.collection);
                        });
                }
                if (s.tracker_from)
                {
                    s.tracker = m.property_set(*s.tracker_from).tracker;
                }
                if (link_time)
                {
                    s.time_from = find(
                        [&](Where const&, PropertySetModel& o)
                        {
                            return o.time && (!options.consistent || !s.tracker ||
                                              s.tracker->nr_sets() == o.time->nr_locations());
                        });
                }
                if (s.time_from)
                {
                    s.time = m.property_set(*s.time_from).time;
                }
                if (!s.tracker)
                {
                    s.tracker = std::make_shared<TrackerModel>();
                    if (with_time && !s.time)
                    {
                        s.time = std::make_shared<TimeModel>();
                        fill_time(*s.time, {});
                    }
                    fill_tracker(
                        w, *s.tracker, s.time ? s.time->nr_locations() : c.chance(70) ? 0 : c.draw(3));
                }
                else if (!s.time)
                {
                    s.time = std::make_shared<TimeModel>();
                    fill_time(*s.time, s.tracker->nr_sets());
                }

                // These combinations exist: time and space with an own tracker, time, space and tracker with a
                // linked time domain
                bool const space_possible = !s.tracker_from || s.time_from;
                if (space_possible && c.chance(45))
                {
                    SpaceModel space;
                    space.mobility = s.time && c.boolean() ? ldm::Mobility::mobile : ldm::Mobility::stationary;
                    space.item = c.boolean() ? ldm::SpaceDomainItemType::box : ldm::SpaceDomainItemType::point;
                    space.type = c.draw(nr_types - 1);
                    space.rank = 1 + c.draw(3);
                    space.n = !options.consistent                              ? c.draw(5)
                              : space.mobility == ldm::Mobility::mobile ? s.tracker->id.size()
                                                                               : ids_of(w, s.tracker.get()).size();
                    space.bytes = random_bytes(c, space.type, space.n * space.width());
                    s.space = space;
                }
                std::size_t const n = c.draw(options.max_properties);
                for (std::size_t i = 0; i < n; ++i)
                {
                    add_property(w, s, static_cast<Kind>(c.draw(5)));
                }
                s.order = nr_sets++;
                sets.push_back(s);
            }

            Arrays arrays(std::size_t type, lh5::Shape const& shape, std::size_t n)
            {
                return Arrays{shape, n, random_bytes(c, type, n * nr_elements(shape))};
            }

            std::vector<hsize_t> some_ids()
            {
                std::set<hsize_t> used;
                return object_ids(c, c.draw(4), used);
            }

            void add_property(Where const& w, PropertySetModel& s, Kind kind)
            {
                PropertyModel p;
                p.name = new_name(c, s.properties);
                p.description = any_description(c);
                p.kind = kind;
                p.type = c.draw(nr_types - 1);
                p.rank = int((kind == k_same || kind == k_same_constant || kind == k_same_variable) ? c.draw(2)
                                                                                              : 1 + c.draw(2));
                auto const new_shape = [&]() { return vp::shape(c, p.rank, p.rank, 6, 40); };
                p.shape = new_shape();
                auto const& t = *s.tracker;
                auto const ids = options.consistent ? ids_of(w, &t) : some_ids();
                switch (kind)
                {
                    case k_same:
                    {
                        p.arrays = arrays(p.type, p.shape, ids.size());
                        break;
                    }
                    case k_different:
                    {
                        for (auto id: ids)
                        {
                            p.by_id[id] = arrays(p.type, new_shape(), 1);
                        }
                        break;
                    }
                    case k_same_constant:
                    {
                        p.arrays = arrays(p.type, p.shape, options.consistent ? t.id.size() : c.draw(5));
                        break;
                    }
                    case k_same_variable:
                    {
                        std::size_t const n = options.consistent ? t.nr_sets() : c.draw(4);
                        for (std::size_t i = 0; i < n; ++i)
                        {
                            p.by_time[i] =
                                arrays(p.type, new_shape(), options.consistent ? t.set(i).size() : c.draw(4));
                        }
                        break;
                    }
                    case k_different_constant:
                    {
                        std::map<hsize_t, std::size_t> count;
                        if (options.consistent)
                        {
                            for (auto id: t.id)
                            {
                                ++count[id];
                            }
                        }
                        else
                        {
                            for (auto id: ids)
                            {
                                count[id] = c.draw(3);
                            }
                        }
                        for (auto [id, n]: count)
                        {
                            p.by_id[id] = arrays(p.type, new_shape(), n);
                        }
                        break;
                    }
                    case k_different_variable:
                    {
                        std::size_t const n = options.consistent ? t.nr_sets() : c.draw(4);
                        for (std::size_t i = 0; i < n; ++i)
                        {
                            auto& at = p.by_time_id[i];
                            for (auto id: options.consistent ? t.set(i) : some_ids())
                            {
                                at[id] = arrays(p.type, new_shape(), 1);
                            }
                        }
                        break;
                    }
                }
                s.properties.push_back(p);
            }

            void discretize()
            {
                std::vector<Where> properties;
                m.for_each_property(
                    [&](Where const& w, PropertySetModel&, PropertyModel&) { properties.push_back(w); });
                for (auto const& w: properties)
                {
                    if (options.consistent)
                    {
                        auto& p = m.property(w);
                        if ((p.kind == k_different || p.kind == k_same_constant || p.kind == k_different_constant) &&
                            c.chance(25))
                        {
                            p.space_discretization = discretization_target(w, p);
                        }
                    }
                    else
                    {
                        if (c.chance(15))
                        {
                            m.property(w).space_discretization = c.pick(properties);
                        }
                        if (c.chance(15))
                        {
                            m.property(w).time_discretization = c.pick(properties);
                        }
                    }
                }
                if (!properties.empty())
                {
                    m.for_each_property_set(
                        [&](Where const& w, PropertySetModel& s)
                        {
                            if (s.space && !options.consistent && c.chance(20))
                            {
                                s.space->presence = c.pick(properties);
                            }
                            if (s.space && options.consistent && s.time &&
                                s.space->item == ldm::SpaceDomainItemType::box &&
                                s.space->mobility == ldm::Mobility::stationary && c.chance(30))
                            {
                                // A property of this property set that varies through time
                                for (std::size_t i = 0; i < s.properties.size(); ++i)
                                {
                                    if (s.properties[i].kind == k_same_constant)
                                    {
                                        Where target = w;
                                        target.property = i;
                                        s.space->presence = target;
                                    }
                                }
                            }
                        });
                }
            }

            //! Counts that agree with what is discretized
            std::optional<Where> discretization_target(Where const& w, PropertyModel const& p)
            {
                Where target = w;
                PhenomenonModel& phenomenon = m.phenomenon(w);
                std::size_t const nr_objects = ids_of(w, m.property_set(w).tracker.get()).size();
                bool const own_set_possible = p.kind == k_different || (p.kind == k_same_constant && nr_objects == 1) ||
                                              (p.kind == k_different_constant && p.by_id.size() == nr_objects);
                if (own_set_possible && !w.collection && c.boolean())
                {
                    // In the same property set
                }
                else if (!phenomenon.collection_property_sets.empty())
                {
                    target.collection = true;
                    target.property_set = c.draw(phenomenon.collection_property_sets.size() - 1);
                }
                else
                {
                    return {};
                }
                auto& s = m.property_set(target);
                std::size_t const rank = p.rank;
                add_property(target, s, k_same);
                auto& counts = s.properties.back();
                counts.type = unsigned_type(c);
                counts.rank = 1;
                counts.shape = {std::max<std::size_t>(rank, 1)};
                counts.arrays = arrays(counts.type, counts.shape, counts.arrays.n);
                target.property = s.properties.size() - 1;
                return target;
            }
    };


    inline Model generate(Case& c, Options const& options)
    {
        return Generator{c, options}.make();
    }


    // ------------------------------------------------------------------------------------- navigation
    inline ldm::Phenomenon& find(ldm::Dataset& d, Model& m, Where const& w)
    {
        return w.universe < 0 ? d.phenomena()[m.phenomenon(w).name]
                              : d.universes()[m.universes[w.universe].name].phenomena()[m.phenomenon(w).name];
    }

    inline ldm::PropertySets& find_sets(ldm::Dataset& d, Model& m, Where const& w)
    {
        auto& p = find(d, m, w);
        return w.collection ? p.collection_property_sets() : p.property_sets();
    }

    inline ldm::PropertySet& find_set(ldm::Dataset& d, Model& m, Where const& w)
    {
        return find_sets(d, m, w)[m.property_set(w).name];
    }

    //! Call f with the property, whatever its kind
    template<typename F>
    void with_property(ldm::PropertySet& s, Kind kind, std::string const& name, F&& f)
    {
        auto& p = s.properties();
        switch (kind)
        {
            case k_same: return f(p.collection<ldm::same_shape::Properties>()[name]);
            case k_different: return f(p.collection<ldm::different_shape::Properties>()[name]);
            case k_same_constant: return f(p.collection<ldm::same_shape::constant_shape::Properties>()[name]);
            case k_same_variable: return f(p.collection<ldm::same_shape::variable_shape::Properties>()[name]);
            case k_different_constant:
                return f(p.collection<ldm::different_shape::constant_shape::Properties>()[name]);
            case k_different_variable:
                return f(p.collection<ldm::different_shape::variable_shape::Properties>()[name]);
        }
    }


    inline ldm::PropertyGroup& find_property(ldm::Dataset& d, Model& m, Where const& w)
    {
        ldm::PropertyGroup* result = nullptr;
        auto& p = m.property(w);
        with_property(find_set(d, m, w), p.kind, p.name, [&](auto& property) { result = &property; });
        return *result;
    }


    // ------------------------------------------------------------------------------------ construction
    inline ldm::PropertySet& create_property_set(Case& c, ldm::Dataset& d, Model& m, Where const& w,
        std::optional<std::string> const& name = {})
    {
        auto& s = m.property_set(w);
        std::string const n = name ? *name : s.name;
        auto& sets = find_sets(d, m, w);
        (void)c;
        auto const time_configuration = [&]() { return ldm::TimeConfiguration{s.time->item}; };
        auto const space_configuration = [&]() { return ldm::SpaceConfiguration{s.space->mobility, s.space->item}; };
        auto const time_domain = [&]() -> ldm::TimeDomain& { return find_set(d, m, *s.time_from).time_domain(); };
        auto const tracker = [&]() -> ldm::ObjectTracker&
        { return find_set(d, m, *s.tracker_from).object_tracker(); };

        if (s.space)
        {
            auto const type = datatype_of(s.space->type);
            if (!s.time) return sets.add(n, space_configuration(), type, s.space->rank);
            if (s.tracker_from)
                return sets.add(n, time_domain(), tracker(), space_configuration(), type, s.space->rank);
            if (s.time_from) return sets.add(n, time_domain(), space_configuration(), type, s.space->rank);
            return sets.add(n, time_configuration(), s.time->clock.make(), space_configuration(), type, s.space->rank);
        }
        if (s.tracker_from)
        {
            if (s.time_from) return sets.add(n, time_domain(), tracker());
            return sets.add(n, time_configuration(), s.time->clock.make(), tracker());
        }
        if (s.time_from) return sets.add(n, time_domain());
        if (s.time) return sets.add(n, time_configuration(), s.time->clock.make());
        return sets.add(n);
    }


    inline void create_property(Case& c, ldm::PropertySet& s, PropertyModel const& p,
        std::optional<std::string> const& name_ = {})
    {
        std::string const& name = name_ ? *name_ : p.name;
        auto& ps = s.properties();
        auto const type = datatype_of(p.type);
        bool const other = c.boolean();
        switch (p.kind)
        {
            case k_same:
            {
                if (p.shape.empty() && other)
                    ps.add(name, type, p.description);
                else if (other)
                    ps.add<ldm::same_shape::Property>(name, type, p.shape, p.description);
                else
                    ps.add(name, type, p.shape, p.description);
                break;
            }
            case k_different: ps.add(name, type, ldm::Rank(p.rank), p.description); break;
            case k_same_constant:
            {
                using P = ldm::same_shape::constant_shape::Property;
                if (p.shape.empty() && other)
                    ps.add<P>(name, type, p.description);
                else
                    ps.add<P>(name, type, p.shape, p.description);
                break;
            }
            case k_same_variable:
                ps.add<ldm::same_shape::variable_shape::Property>(name, type, ldm::Rank(p.rank), p.description);
                break;
            case k_different_constant:
                ps.add<ldm::different_shape::constant_shape::Property>(
                    name, type, ldm::Rank(p.rank), p.description);
                break;
            case k_different_variable:
                ps.add<ldm::different_shape::variable_shape::Property>(
                    name, type, ldm::Rank(p.rank), p.description);
                break;
        }
    }


    //! Write records [begin, end) of something that can be expanded
    template<typename Value>
    void append(Case& c, Value&& value, char const* data, std::size_t begin, std::size_t end, std::size_t record_size)
    {
        value.expand(end - begin);
        if (end == begin)
        {
            return;
        }
        if (begin == 0 && c.boolean())
        {
            value.write(static_cast<void const*>(data));
        }
        else if (end - begin == 1 && c.boolean())
        {
            value.write(ldm::Index(begin), static_cast<void const*>(data + begin * record_size));
        }
        else
        {
            value.write(ldm::IndexRange{begin, end}, static_cast<void const*>(data + begin * record_size));
        }
    }


    template<typename F>
    void with_space(ldm::SpaceDomain& d, SpaceModel const& s, bool with_type, F&& f)
    {
        auto const type = datatype_of(s.type);
        auto const call = [&]<typename V>() { with_type ? f(d.value<V>(type)) : f(d.value<V>()); };
        bool const box = s.item == ldm::SpaceDomainItemType::box;
        if (s.mobility == ldm::Mobility::stationary)
        {
            box ? call.template operator()<ldm::StationarySpaceBox>()
                : call.template operator()<ldm::StationarySpacePoint>();
        }
        else
        {
            box ? call.template operator()<ldm::MobileSpaceBox>()
                : call.template operator()<ldm::MobileSpacePoint>();
        }
    }


    template<typename F>
    void with_time(ldm::TimeDomain& d, ldm::TimeDomainItemType item, F&& f)
    {
        switch (item)
        {
            case ldm::TimeDomainItemType::point: return f(d.value<ldm::TimePoint>());
            case ldm::TimeDomainItemType::box: return f(d.value<ldm::TimeBox>());
            case ldm::TimeDomainItemType::cell: return f(d.value<ldm::TimeCell>());
        }
    }


    //! Builds the dataset in random order, possibly closing and opening it half-way
    class Builder
    {

        public:

            Builder(Case& c, Model& m, std::string const& path, int reopen_percentage = 6):
                c{c},
                m{m},
                path{path},
                reopen_percentage{reopen_percentage}
            {
            }

            //! Structure and contents. Contents are written later than the structure they belong to.
            void build()
            {
                create();
                plan();
                while (!queues.empty())
                {
                    step();
                }
            }

            void create()
            {
                dataset = std::make_unique<ldm::Dataset>(ldm::create_dataset(path, m.description));
            }

            void plan()
            {
                // Structure
                std::deque<std::function<void()>> structure;
                for (auto& u: m.universes)
                {
                    structure.push_back([this, &u]() { dataset->add_universe(u.name); });
                }
                m.for_each_phenomenon(
                    [&](Where const& w, PhenomenonModel& p)
                    {
                        structure.push_back(
                            [this, w, &p]()
                            {
                                w.universe < 0 ? dataset->add_phenomenon(p.name, p.description)
                                               : dataset->universes()[m.universes[w.universe].name].add_phenomenon(
                                                     p.name, p.description);
                                records(
                                    p.ids.size(), bytes(p.ids), sizeof(hsize_t),
                                    [this, w]() -> decltype(auto) { return find(*dataset, m, w).object_id(); });
                            });
                    });
                std::map<std::size_t, Where> ordered;
                m.for_each_property_set(
                    [&](Where const& w, PropertySetModel& s) { ordered.insert({ordered.count(s.order) ? 1000000 + ordered.size() : s.order, w}); });
                for (auto const& item: ordered)
                {
                        Where const w = item.second;
                        auto& s = m.property_set(w);
                        structure.push_back(
                            [this, w, &s]()
                            {
                                create_property_set(c, *dataset, m, w);
                                fill(w, s);
                            });
                        for (std::size_t i = 0; i < s.properties.size(); ++i)
                        {
                            structure.push_back(
                                [this, w, i]()
                                {
                                    Where wp = w;
                                    wp.property = i;
                                    create_property(c, find_set(*dataset, m, w), m.property(wp));
                                    fill(wp, m.property(wp));
                                });
                        }
                }
                // Links, after all is there
                m.for_each_property(
                    [&](Where const& w, PropertySetModel&, PropertyModel& p)
                    {
                        if (p.time_discretization)
                        {
                            structure.push_back(
                                [this, w, &p]()
                                {
                                    find_property(*dataset, m, w)
                                        .set_time_discretization(ldm::TimeDiscretization::regular_grid,
                                            find_property(*dataset, m, *p.time_discretization));
                                });
                        }
                        if (p.space_discretization)
                        {
                            structure.push_back(
                                [this, w, &p]()
                                {
                                    find_property(*dataset, m, w)
                                        .set_space_discretization(ldm::SpaceDiscretization::regular_grid,
                                            find_property(*dataset, m, *p.space_discretization));
                                });
                        }
                    });
                m.for_each_property_set(
                    [&](Where const& w, PropertySetModel& s)
                    {
                        if (s.space && s.space->presence)
                        {
                            structure.push_back(
                                [this, w, &s]()
                                {
                                    find_set(*dataset, m, w)
                                        .space_domain()
                                        .set_presence_discretization(
                                            find_property(*dataset, m, *s.space->presence));
                                });
                        }
                    });
                if (!structure.empty()) queues.push_back(std::move(structure));
            }

            //! Do something, if there is something left to do
            bool step()
            {
                if (queues.empty())
                {
                    return false;
                }
                if (c.chance(reopen_percentage))
                {
                    reopen();
                }
                std::size_t const i = c.draw(queues.size() - 1);
                auto task = queues[i].front();
                queues[i].pop_front();
                task();
                queues.erase(std::remove_if(queues.begin(), queues.end(), [](auto const& q) { return q.empty(); }),
                    queues.end());
                return true;
            }

            void reopen()
            {
                dataset.reset();
                dataset = std::make_unique<ldm::Dataset>(ldm::open_dataset(path, H5F_ACC_RDWR));
                ++nr_reopened;
            }

            Case& c;
            Model& m;
            std::string path;
            int reopen_percentage;
            std::unique_ptr<ldm::Dataset> dataset;
            std::deque<std::deque<std::function<void()>>> queues;
            std::size_t nr_reopened{0};

        private:

            template<typename T>
            static Bytes bytes(std::vector<T> const& v)
            {
                return Bytes(reinterpret_cast<char const*>(v.data()), v.size() * sizeof(T));
            }

            template<typename Get>
            void records(std::size_t n, Bytes const& bytes, std::size_t record_size, Get&& get)
            {
                std::deque<std::function<void()>> queue;
                std::size_t begin = 0;
                while (begin < n)
                {
                    std::size_t const end = c.boolean() ? n : begin + 1 + c.draw(n - begin - 1);
                    queue.push_back([this, begin, end, bytes, record_size, get]()
                        { append(c, get(), bytes.data(), begin, end, record_size); });
                    begin = end;
                }
                if (!queue.empty())
                {
                    queues.push_back(queue);
                }
            }

            void fill(Where const& w, PropertySetModel& s)
            {
                if (!s.tracker_from)
                {
                    auto const tracker = [this, w]() -> ldm::ObjectTracker&
                    { return find_set(*dataset, m, w).object_tracker(); };
                    records(s.tracker->set_idx.size(), bytes(s.tracker->set_idx), sizeof(hsize_t),
                        [tracker]() -> ldm::ActiveSetIndex& { return tracker().active_set_index(); });
                    records(s.tracker->id.size(), bytes(s.tracker->id), sizeof(hsize_t),
                        [tracker]() -> ldm::ActiveObjectID& { return tracker().active_object_id(); });
                    records(s.tracker->object_idx.size(), bytes(s.tracker->object_idx), sizeof(hsize_t),
                        [tracker]() -> ldm::ActiveObjectIndex& { return tracker().active_object_index(); });
                }
                if (s.time && !s.time_from)
                {
                    auto const time = [this, w]() -> ldm::TimeDomain&
                    { return find_set(*dataset, m, w).time_domain(); };
                    std::size_t const size = s.time->width() * sizeof(std::uint64_t);
                    switch (s.time->item)
                    {
                        case ldm::TimeDomainItemType::point:
                            records(s.time->nr_items(), bytes(s.time->items), size,
                                [time]() { return time().value<ldm::TimePoint>(); });
                            break;
                        case ldm::TimeDomainItemType::box:
                            records(s.time->nr_items(), bytes(s.time->items), size,
                                [time]() { return time().value<ldm::TimeBox>(); });
                            break;
                        case ldm::TimeDomainItemType::cell:
                            records(s.time->nr_items(), bytes(s.time->items), size,
                                [time]() { return time().value<ldm::TimeCell>(); });
                            records(s.time->counts.size(), bytes(s.time->counts), sizeof(hsize_t),
                                [time]() { return time().value<ldm::TimeCell>().count(); });
                            break;
                    }
                }
                if (s.space)
                {
                    auto const& space = *s.space;
                    std::size_t begin = 0;
                    std::deque<std::function<void()>> queue;
                    while (begin < space.n)
                    {
                        std::size_t const end = c.boolean() ? space.n : begin + 1 + c.draw(space.n - begin - 1);
                        queue.push_back(
                            [this, w, begin, end]()
                            {
                                auto const& model = *m.property_set(w).space;
                                with_space(find_set(*dataset, m, w).space_domain(), model, c.boolean(),
                                    [&](auto&& value)
                                    {
                                        append(c, value, model.bytes.data(), begin, end,
                                            model.width() * size_of(model.type));
                                    });
                            });
                        begin = end;
                    }
                    if (!queue.empty())
                    {
                        queues.push_back(queue);
                    }
                }
            }

            void fill(Where const& w, PropertyModel& p)
            {
                std::size_t const size = size_of(p.type);
                std::deque<std::function<void()>> queue;
                auto const set = [this, w]() -> ldm::PropertySet& { return find_set(*dataset, m, w); };
                switch (p.kind)
                {
                    case k_same:
                    {
                        records(p.arrays.n, p.arrays.bytes, nr_elements(p.shape) * size,
                            [set, &p]() -> ldm::same_shape::Value&
                            { return set().properties().collection<ldm::same_shape::Properties>()[p.name].value(); });
                        break;
                    }
                    case k_same_constant:
                    {
                        records(p.arrays.n, p.arrays.bytes, nr_elements(p.shape) * size,
                            [set, &p]() -> ldm::same_shape::constant_shape::Value&
                            {
                                return set()
                                    .properties()
                                    .collection<ldm::same_shape::constant_shape::Properties>()[p.name]
                                    .value();
                            });
                        break;
                    }
                    case k_different:
                    {
                        bool const bulk = c.boolean();
                        auto const value = [set, &p]() -> ldm::different_shape::Value&
                        { return set().properties().collection<ldm::different_shape::Properties>()[p.name].value(); };
                        if (bulk && !p.by_id.empty())
                        {
                            queue.push_back(
                                [value, &p]()
                                {
                                    std::vector<hsize_t> ids;
                                    std::vector<lh5::Shape> shapes;
                                    for (auto& [id, a]: p.by_id)
                                    {
                                        ids.push_back(id);
                                        shapes.push_back(a.shape);
                                    }
                                    value().expand(ids.size(), ids.data(), shapes.data());
                                });
                        }
                        for (auto& [id, a]: p.by_id)
                        {
                            auto const i = id;
                            auto const* arrays = &a;
                            queue.push_back(
                                [value, i, arrays, bulk]()
                                {
                                    if (!bulk) value().expand(i, arrays->shape);
                                    value()[i].write(arrays->bytes.data());
                                });
                        }
                        break;
                    }
                    case k_different_constant:
                    {
                        for (auto& [id, a]: p.by_id)
                        {
                            auto const i = id;
                            auto const* arrays = &a;
                            queue.push_back(
                                [set, &p, i, arrays]()
                                {
                                    auto array =
                                        set()
                                            .properties()
                                            .collection<ldm::different_shape::constant_shape::Properties>()[p.name]
                                            .value()
                                            .expand(i, arrays->shape, arrays->n);
                                    if (arrays->n > 0) array.write(arrays->bytes.data());
                                });
                        }
                        break;
                    }
                    case k_same_variable:
                    {
                        for (auto& [idx, a]: p.by_time)
                        {
                            auto const i = idx;
                            auto const* arrays = &a;
                            queue.push_back(
                                [set, &p, i, arrays]()
                                {
                                    auto array =
                                        set()
                                            .properties()
                                            .collection<ldm::same_shape::variable_shape::Properties>()[p.name]
                                            .value()
                                            .expand(i, arrays->n, arrays->shape);
                                    if (arrays->n > 0) array.write(arrays->bytes.data());
                                });
                        }
                        break;
                    }
                    case k_different_variable:
                    {
                        for (auto& [idx, at_]: p.by_time_id)
                        {
                            auto const i = idx;
                            auto const* at = &at_;
                            queue.push_back(
                                [set, &p, i, at]()
                                {
                                    std::vector<hsize_t> ids;
                                    std::vector<lh5::Shape> shapes;
                                    for (auto& [id, a]: *at)
                                    {
                                        ids.push_back(id);
                                        shapes.push_back(a.shape);
                                    }
                                    auto value =
                                        set()
                                            .properties()
                                            .collection<ldm::different_shape::variable_shape::Properties>()[p.name]
                                            .value()
                                            .expand(i, ids.size(), ids.data(), shapes.data());
                                    for (auto& [id, a]: *at)
                                    {
                                        value[id].write(a.bytes.data());
                                    }
                                });
                        }
                        break;
                    }
                }
                if (!queue.empty())
                {
                    queues.push_back(queue);
                }
            }
    };


    // ------------------------------------------------------------------------------------- comparison
    template<typename Value>
    void compare_bytes(
        Case& c, Value&& value, std::size_t n, Bytes const& expected, std::string const& what)
    {
        if (n == 0)
        {
            return;
        }
        auto const actual = guarded_read<unsigned char>(
            c, expected.size(), what, [&](void* buffer) { value.read(buffer); });
        c.check(std::memcmp(actual.data(), expected.data(), expected.size()) == 0, what + ": other values are stored");
    }


    template<typename Value>
    void compare_records(
        Case& c, Value&& value, std::size_t n, Bytes const& expected, std::string const& what)
    {
        c.equal(value.nr_arrays(), n, what + ": number of items");
        compare_bytes(c, value, n, expected, what);
        if (n > 0)
        {
            std::size_t const i = (n * 7 + expected.size()) % n;
            std::size_t const size = expected.size() / n;
            compare_bytes(c,
                [&]()
                {
                    struct
                    {
                            std::remove_reference_t<Value>& value;
                            std::size_t i;
                            void read(void* buffer)
                            {
                                value.read(ldm::Index(i), buffer);
                            }
                    } one{value, i};
                    return one;
                }(),
                1, expected.substr(i * size, size), what + " (one item)");
        }
    }


    template<typename Collection>
    void compare_names(Case& c, Collection const& collection, std::vector<std::string> expected, std::string const& what)
    {
        auto names = collection.names();
        std::sort(names.begin(), names.end());
        std::sort(expected.begin(), expected.end());
        c.check(names == expected, what + ": names are " + str(names) + " instead of " + str(expected));
        c.equal(collection.size(), expected.size(), what + ": size");
        c.equal(collection.empty(), expected.empty(), what + ": emptiness");
        for (auto const& name: expected)
        {
            c.check(collection.contains(name), what + ": " + name + " is not found");
        }
        c.check(!collection.contains("no such item"), what + ": a missing item is said to be there");
        std::size_t n = 0;
        for (auto const& item: collection)
        {
            c.check(std::find(expected.begin(), expected.end(), item.first) != expected.end(),
                what + ": iteration finds " + item.first);
            ++n;
        }
        c.equal(n, expected.size(), what + ": number of items iterated over");
    }


    template<typename Items>
    std::vector<std::string> names_of(Items const& items)
    {
        std::vector<std::string> result;
        for (auto const& item: items)
        {
            result.push_back(item.name);
        }
        return result;
    }


    inline void compare_clock(Case& c, ldm::Clock const& actual, ClockModel const& expected, std::string const& what)
    {
        auto const& e = expected.epoch;
        c.equal(int(actual.epoch().kind()), e.kind, what + ": epoch kind");
        c.check(actual.epoch().origin() == e.origin, what + ": epoch origin");
        c.equal(actual.epoch().calendar().has_value(), e.calendar, what + ": epoch calendar");
        c.equal(int(actual.unit()), expected.unit, what + ": unit");
        c.equal(actual.nr_units(), expected.nr_units, what + ": number of units");
        c.check(actual == expected.make(), what + ": clocks compare unequal");
    }


    template<typename T>
    Bytes as_bytes(std::vector<T> const& v)
    {
        return Bytes(reinterpret_cast<char const*>(v.data()), v.size() * sizeof(T));
    }


    template<typename Value>
    void compare_strings(Case& c, Value&& value, std::vector<std::string> const& expected, std::string const& what)
    {
        if (expected.empty())
        {
            return;
        }
        std::vector<char*> actual(expected.size(), nullptr);
        value.read(actual.data());
        std::vector<std::string> strings;
        for (auto* string: actual)
        {
            strings.push_back(string == nullptr ? "" : string);
            H5free_memory(string);
        }
        c.check(strings == expected, what + ": strings are " + str(strings) + " instead of " + str(expected));
    }


    inline void compare_property(Case& c, ldm::PropertySet& s, PropertyModel& p, std::string const& where)
    {
        std::string const what = where + "/" + p.name + " (" + kind_names[p.kind] + ")";
        auto& properties = s.properties();
        c.check(properties.contains(p.name), what + ": property is not found");
        c.equal(properties.shape_per_object(p.name) == ldm::ShapePerObject::same,
            p.kind == k_same || p.kind == k_same_constant || p.kind == k_same_variable, what + ": shape per object");
        c.equal(properties.value_variability(p.name) == ldm::ValueVariability::constant,
            p.kind == k_same || p.kind == k_different, what + ": value variability");
        if (p.kind != k_same && p.kind != k_different)
        {
            c.equal(properties.shape_variability(p.name) == ldm::ShapeVariability::constant,
                p.kind == k_same_constant || p.kind == k_different_constant, what + ": shape variability");
        }
        auto const type = p.text ? lh5::native_datatype<std::string>() : datatype_of(p.type);
        with_property(s, p.kind, p.name,
            [&](auto& property)
            {
                c.equal(property.name(), p.name, what + ": name");
                c.equal(property.description(), p.description, what + ": description");
                c.check(property.value().memory_datatype() == type, what + ": datatype");
                c.equal(property.time_is_discretized(), p.time_discretization.has_value(), what + ": time discretized");
                c.equal(property.space_is_discretized(), p.space_discretization.has_value(),
                    what + ": space discretized");
            });
        std::size_t const size = size_of(p.type);
        switch (p.kind)
        {
            case k_same:
            {
                auto& value = properties.collection<ldm::same_shape::Properties>()[p.name].value();
                c.check(value.array_shape() == p.shape, what + ": shape");
                if (p.text)
                {
                    c.equal(value.nr_arrays(), p.arrays.n, what + ": number of items");
                    compare_strings(c, value, p.strings, what);
                    break;
                }
                compare_records(c, value, p.arrays.n, p.arrays.bytes, what);
                break;
            }
            case k_same_constant:
            {
                auto& value = properties.collection<ldm::same_shape::constant_shape::Properties>()[p.name].value();
                c.check(value.array_shape() == p.shape, what + ": shape");
                compare_records(c, value, p.arrays.n, p.arrays.bytes, what);
                break;
            }
            case k_different:
            {
                auto& value = properties.collection<ldm::different_shape::Properties>()[p.name].value();
                c.equal(value.nr_objects(), p.by_id.size(), what + ": number of objects");
                c.equal(value.rank(), p.rank, what + ": rank");
                for (auto& [id, a]: p.by_id)
                {
                    c.check(value.contains(id), what + ": object is not found");
                    auto array = value[id];
                    c.check(array.shape() == a.shape, what + ": shape of object");
                    if (p.text)
                    {
                        compare_strings(c, array, p.strings_by_id[id], what);
                        continue;
                    }
                    compare_bytes(c, array, 1, a.bytes, what);
                }
                break;
            }
            case k_different_constant:
            {
                auto& value =
                    properties.collection<ldm::different_shape::constant_shape::Properties>()[p.name].value();
                c.equal(value.nr_objects(), p.by_id.size(), what + ": number of objects");
                c.equal(value.rank(), p.rank, what + ": rank");
                for (auto& [id, a]: p.by_id)
                {
                    c.check(value.exists(id), what + ": object is not found");
                    auto array = value[id];
                    c.check(array.array_shape() == a.shape, what + ": shape of object");
                    compare_records(c, array, a.n, a.bytes, what);
                }
                break;
            }
            case k_same_variable:
            {
                auto& value = properties.collection<ldm::same_shape::variable_shape::Properties>()[p.name].value();
                c.equal(value.nr_locations_in_time(), p.by_time.size(), what + ": number of locations in time");
                c.equal(value.rank(), p.rank, what + ": rank");
                for (auto& [idx, a]: p.by_time)
                {
                    auto array = value[idx];
                    c.check(array.array_shape() == a.shape, what + ": shape at location");
                    compare_records(c, array, a.n, a.bytes, what);
                }
                break;
            }
            case k_different_variable:
            {
                auto& value =
                    properties.collection<ldm::different_shape::variable_shape::Properties>()[p.name].value();
                c.equal(value.nr_locations_in_time(), p.by_time_id.size(), what + ": number of locations in time");
                c.equal(value.rank(), p.rank, what + ": rank");
                for (auto& [idx, at]: p.by_time_id)
                {
                    auto arrays = value[idx];
                    c.equal(arrays.nr_objects(), at.size(), what + ": number of objects at location");
                    for (auto& [id, a]: at)
                    {
                        c.check(arrays.contains(id), what + ": object is not found");
                        auto array = arrays[id];
                        c.check(array.shape() == a.shape, what + ": shape of object at location");
                        compare_bytes(c, array, 1, a.bytes, what);
                    }
                }
                break;
            }
        }
        (void)size;
    }


    inline void compare_domains(Case& c, ldm::PropertySet& s, PropertySetModel& p, std::string const& what)
    {
        auto& t = s.object_tracker();
        compare_records(c, t.active_set_index(), p.tracker->set_idx.size(), as_bytes(p.tracker->set_idx),
            what + ": active set indices");
        compare_records(
            c, t.active_object_id(), p.tracker->id.size(), as_bytes(p.tracker->id), what + ": active object IDs");
        compare_records(c, t.active_object_index(), p.tracker->object_idx.size(), as_bytes(p.tracker->object_idx),
            what + ": active object indices");
        c.equal(t.active_set_index().nr_indices(), p.tracker->set_idx.size(), what + ": number of active sets");
        c.equal(t.active_object_id().nr_ids(), p.tracker->id.size(), what + ": number of active IDs");
        c.equal(
            t.active_object_index().nr_indices(), p.tracker->object_idx.size(), what + ": number of object indices");

        c.equal(s.has_time_domain(), bool(p.time), what + ": has time domain");
        if (p.time)
        {
            auto& domain = s.time_domain();
            c.check(domain.configuration() == ldm::TimeConfiguration{p.time->item}, what + ": time configuration");
            compare_clock(c, domain.clock(), p.time->clock, what + ": clock");
            with_time(domain, p.time->item,
                [&](auto&& value)
                {
                    compare_records(
                        c, value, p.time->nr_items(), as_bytes(p.time->items), what + ": locations in time");
                });
            if (p.time->item == ldm::TimeDomainItemType::cell)
            {
                auto cell = domain.value<ldm::TimeCell>();
                c.equal(cell.nr_counts(), p.time->counts.size(), what + ": number of counts");
                compare_records(c, cell.count(), p.time->counts.size(), as_bytes(p.time->counts), what + ": counts");
            }
        }
        c.equal(s.has_space_domain(), p.space.has_value(), what + ": has space domain");
        if (p.space)
        {
            auto& domain = s.space_domain();
            c.check(domain.configuration() == ldm::SpaceConfiguration(p.space->mobility, p.space->item),
                what + ": space configuration");
            c.equal(domain.presence_is_discretized(), p.space->presence.has_value(), what + ": presence discretized");
            for (bool with_type: {false, true})
            {
                with_space(domain, *p.space, with_type,
                    [&](auto&& value)
                    {
                        c.check(value.memory_datatype() == datatype_of(p.space->type), what + ": coordinate type");
                        c.check(value.array_shape() == lh5::Shape{p.space->width()}, what + ": coordinate shape");
                        compare_records(c, value, p.space->n, p.space->bytes, what + ": coordinates");
                    });
            }
        }
    }


    inline void compare_property_set(
        Case& c, ldm::PropertySet& s, PropertySetModel& p, std::string const& where)
    {
        std::string const what = where + "/" + p.name;
        c.equal(s.owns_object_tracker(), !p.tracker_from, what + ": owns object tracker");
        c.equal(s.owns_time_domain(), p.time && !p.time_from, what + ": owns time domain");
        compare_domains(c, s, p, what);
        std::array<std::vector<std::string>, 6> names;
        for (auto const& property: p.properties)
        {
            names[property.kind].push_back(property.name);
        }
        auto& properties = s.properties();
        compare_names(c, properties.collection<ldm::same_shape::Properties>(), names[k_same], what);
        compare_names(c, properties.collection<ldm::different_shape::Properties>(), names[k_different], what);
        compare_names(
            c, properties.collection<ldm::same_shape::constant_shape::Properties>(), names[k_same_constant], what);
        compare_names(
            c, properties.collection<ldm::same_shape::variable_shape::Properties>(), names[k_same_variable], what);
        compare_names(c, properties.collection<ldm::different_shape::constant_shape::Properties>(),
            names[k_different_constant], what);
        compare_names(c, properties.collection<ldm::different_shape::variable_shape::Properties>(),
            names[k_different_variable], what);
        c.equal(properties.size(), p.properties.size(), what + ": number of properties");
        c.equal(properties.empty(), p.properties.empty(), what + ": no properties");
        c.check(!properties.contains("no such property"), what + ": contains a missing property");
        for (auto& property: p.properties)
        {
            compare_property(c, s, property, what);
        }
    }


    inline void compare_phenomenon(Case& c, ldm::Phenomenon& p, PhenomenonModel& m, std::string const& where)
    {
        std::string const what = where + "/" + m.name;
        c.equal(p.description(), m.description, what + ": description");
        c.equal(p.object_id().nr_objects(), m.ids.size(), what + ": number of objects");
        compare_records(c, p.object_id(), m.ids.size(), as_bytes(m.ids), what + ": object IDs");
        compare_names(c, p.collection_property_sets(), names_of(m.collection_property_sets), what + ": collection property sets");
        compare_names(c, p.property_sets(), names_of(m.property_sets), what + ": property sets");
        for (auto& s: m.collection_property_sets)
        {
            compare_property_set(c, p.collection_property_sets()[s.name], s, what + "/collection");
        }
        for (auto& s: m.property_sets)
        {
            compare_property_set(c, p.property_sets()[s.name], s, what);
        }
    }


    //! All of the dataset against all of the model
    inline void compare(Case& c, ldm::Dataset& d, Model& m, std::string const& what)
    {
        c.equal(d.description(), m.description, what + ": description");
        compare_names(c, d.universes(), names_of(m.universes), what + ": universes");
        compare_names(c, d.phenomena(), names_of(m.phenomena), what + ": phenomena");
        for (auto& u: m.universes)
        {
            auto& universe = d.universes()[u.name];
            compare_names(c, universe.phenomena(), names_of(u.phenomena), what + ": phenomena of " + u.name);
            for (auto& p: u.phenomena)
            {
                compare_phenomenon(c, universe.phenomena()[p.name], p, what + ": " + u.name);
            }
        }
        for (auto& p: m.phenomena)
        {
            compare_phenomenon(c, d.phenomena()[p.name], p, what + ": ");
        }
        // Links
        m.for_each_property(
            [&](Where const& w, PropertySetModel&, PropertyModel& p)
            {
                auto& property = find_property(d, m, w);
                if (p.time_discretization)
                {
                    auto const target = property.time_discretization_property();
                    c.check(property.time_discretization_type() == ldm::TimeDiscretization::regular_grid,
                        what + ": time discretization type");
                    c.check(target.id() == find_property(d, m, *p.time_discretization).id(),
                        what + ": " + p.name + ": property with time discretization is " + target.id().pathname());
                    c.equal(target.name(), m.property(*p.time_discretization).name,
                        what + ": name of property with time discretization");
                }
                if (p.space_discretization)
                {
                    auto const target = property.space_discretization_property();
                    c.check(property.space_discretization_type() == ldm::SpaceDiscretization::regular_grid,
                        what + ": space discretization type");
                    c.check(target.id() == find_property(d, m, *p.space_discretization).id(),
                        what + ": " + p.name + ": property with space discretization is " + target.id().pathname());
                    c.equal(target.name(), m.property(*p.space_discretization).name,
                        what + ": name of property with space discretization");
                }
            });
        m.for_each_property_set(
            [&](Where const& w, PropertySetModel& s)
            {
                if (s.space && s.space->presence)
                {
                    auto const target = find_set(d, m, w).space_domain().discretized_presence_property();
                    c.check(target.id() == find_property(d, m, *s.space->presence).id(),
                        what + ": property with presence is " + target.id().pathname());
                }
            });
    }


    inline void describe(Case& c, Model& m)
    {
        std::ostringstream s;
        s << "dataset: " << m.universes.size() << " universes, " << m.phenomena.size() << " phenomena";
        m.for_each_phenomenon([&](Where const& w, PhenomenonModel& p)
            { s << "\n  phenomenon u" << w.universe << " '" << p.name << "' ids=" << str(p.ids); });
        m.for_each_property_set(
            [&](Where const& w, PropertySetModel& p)
            {
                s << "\n  property set " << str_where(m, w);
                s << " sets=" << str(p.tracker->set_idx) << " active=" << str(p.tracker->id)
                  << " idx=" << str(p.tracker->object_idx)
                  << (p.tracker_from ? " (tracker of " + str_where(m, *p.tracker_from) + ")" : "");
                if (p.time)
                {
                    s << " time=" << int(p.time->item) << str(p.time->items) << str(p.time->counts)
                      << (p.time_from ? " (time domain of " + str_where(m, *p.time_from) + ")" : "");
                }
                if (p.space)
                {
                    s << " space=" << (p.space->mobility == ldm::Mobility::mobile ? "mobile" : "stationary")
                      << (p.space->item == ldm::SpaceDomainItemType::box ? " box" : " point") << " rank="
                      << p.space->rank << " n=" << p.space->n << (p.space->presence ? " presence" : "");
                }
                for (auto& q: p.properties)
                {
                    s << "\n    " << kind_names[q.kind] << " '" << q.name << "' type=" << q.type
                      << " shape=" << str_shape(q.shape) << " rank=" << q.rank << " n=" << q.arrays.n << "/"
                      << q.by_id.size() << "/" << q.by_time.size() << "/" << q.by_time_id.size()
                      << (q.space_discretization
                                 ? " space discretized by " + str_where(m, *q.space_discretization) + "/" +
                                       m.property(*q.space_discretization).name
                                 : "")
                      << (q.time_discretization ? " time discretized by " +
                                                      str_where(m, *q.time_discretization) + "/" +
                                                      m.property(*q.time_discretization).name
                                                : "");
                }
            });
        c.note(s.str());
    }

}  // namespace vp
