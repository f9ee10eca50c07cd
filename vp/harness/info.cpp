// I01, I02, T01: records of objects, time and space, and what time is measured with
#include "model.hpp"

using namespace vp;


namespace {

    //! Records of the same size, and the operations on them
    struct Records
    {
            std::string what;
            std::size_t size;
            std::function<Bytes(std::size_t)> random;
            std::function<std::size_t()> count;
            std::function<void(std::size_t)> expand;
            std::function<void(void*)> read;
            std::function<void(std::size_t, void*)> read_one;
            std::function<void(std::size_t, std::size_t, void*)> read_range;
            std::function<void(void const*)> write;
            std::function<void(std::size_t, void const*)> write_one;
            std::function<void(std::size_t, std::size_t, void const*)> write_range;

            Elements<unsigned char> elements{};
            std::size_t n{0};
    };


    template<typename Get, typename CountOf>
    std::shared_ptr<Records> records(std::string const& what, std::size_t size,
        std::function<Bytes(std::size_t)> random, Get get, CountOf count)
    {
        auto r = std::make_shared<Records>();
        r->what = what;
        r->size = size;
        r->random = random;
        r->count = [get, count]() { return std::size_t(count(get())); };
        r->expand = [get](std::size_t n) { get().expand(n); };
        r->read = [get](void* b) { get().read(b); };
        r->read_one = [get](std::size_t i, void* b) { get().read(ldm::Index(i), b); };
        r->read_range = [get](std::size_t i, std::size_t j, void* b) { get().read(ldm::IndexRange{i, j}, b); };
        r->write = [get](void const* b) { get().write(b); };
        r->write_one = [get](std::size_t i, void const* b) { get().write(ldm::Index(i), b); };
        r->write_range = [get](std::size_t i, std::size_t j, void const* b)
        { get().write(ldm::IndexRange{i, j}, b); };
        return r;
    }


    void verify(Case& c, Records& r, std::string const& when)
    {
        std::string const what = r.what + ", " + when;
        c.equal(r.count(), r.n, what + ": number of records");
        if (r.n == 0)
        {
            return;
        }
        std::size_t const begin = c.draw(r.n - 1);
        std::size_t const end = begin + 1 + c.draw(r.n - begin - 1);
        r.elements.verify(c, 0, r.n * r.size, what + ", whole", [&](void* b) { r.read(b); });
        r.elements.verify(c, begin * r.size, (end - begin) * r.size, what + ", range " + str(begin) + "-" + str(end),
            [&](void* b) { r.read_range(begin, end, b); });
        r.elements.verify(c, begin * r.size, r.size, what + ", record " + str(begin),
            [&](void* b) { r.read_one(begin, b); });
    }


    void expand(Case& c, Records& r, std::size_t n)
    {
        c.notes("expand ", r.what, " by ", n);
        r.expand(n);
        r.n += n;
        r.elements.resize(r.n * r.size, {});
    }


    void write(Case& c, Records& r, std::size_t begin, std::size_t end)
    {
        auto const bytes = r.random(end - begin);
        std::vector<unsigned char> const v(bytes.begin(), bytes.end());
        bool const whole = begin == 0 && end == r.n && c.boolean();
        bool const one = !whole && end - begin == 1 && c.boolean();
        c.notes("write ", r.what, " ", begin, "-", end, whole ? " (whole)" : one ? " (one)" : "");
        if (whole)
            r.write(v.data());
        else if (one)
            r.write_one(begin, v.data());
        else
            r.write_range(begin, end, v.data());
        r.elements.write(begin * r.size, v);
    }


    void step(Case& c, Records& r)
    {
        switch (c.draw(5))
        {
            case 0:
            case 1:
            {
                // Append
                std::size_t const n = c.chance(5) ? 0 : c.size(1, c.thorough() ? 3000 : 300);
                std::size_t const begin = r.n;
                expand(c, r, n);
                if (n > 0) write(c, r, begin, r.n);
                break;
            }
            case 2:
            {
                expand(c, r, c.size(0, 300));
                break;
            }
            case 3:
            {
                if (r.n > 0)
                {
                    std::size_t const begin = c.draw(r.n - 1);
                    write(c, r, begin, begin + 1 + c.draw(r.n - begin - 1));
                }
                break;
            }
            case 4:
            {
                if (r.n > 0) write(c, r, 0, r.n);
                break;
            }
            default:
            {
                verify(c, r, "half-way");
            }
        }
    }


    struct World
    {
            std::string path;
            std::unique_ptr<ldm::Dataset> dataset;

            void reopen(unsigned int flags = H5F_ACC_RDWR)
            {
                dataset.reset();
                dataset = std::make_unique<ldm::Dataset>(ldm::open_dataset(path, flags));
            }

            ldm::Phenomenon& phenomenon()
            {
                return dataset->phenomena()["phenomenon"];
            }

            ldm::PropertySet& set(bool collection, std::string const& name)
            {
                return (collection ? phenomenon().collection_property_sets() : phenomenon().property_sets())[name];
            }
    };


    void history(Case& c, World& world, std::vector<std::shared_ptr<Records>>& all, std::function<void()> check)
    {
        std::size_t const nr_steps = 2 + c.size(1, c.thorough() ? 40 : 14);
        std::size_t nr_nonempty = 0;
        for (std::size_t i = 0; i < nr_steps; ++i)
        {
            if (c.chance(6))
            {
                c.note("reopen");
                world.reopen();
                check();
            }
            if (c.chance(4))
            {
                c.note("flush");
                world.dataset->flush();
            }
            step(c, *c.pick(all));
        }
        for (auto& r: all)
        {
            verify(c, *r, "as written");
            nr_nonempty += r->n > 0;
        }
        check();
        world.reopen(H5F_ACC_RDONLY);
        for (auto& r: all)
        {
            verify(c, *r, "opened again");
        }
        check();
        if (nr_nonempty >= 2)
        {
            c.nontrivial();
        }
    }


    // ------------------------------------------------------------------------------------------- I01
    void identity(Case& c)
    {
        World world{c.path("dataset.lue"), {}};
        world.dataset = std::make_unique<ldm::Dataset>(ldm::create_dataset(world.path));
        auto& phenomenon = world.dataset->add_phenomenon("phenomenon");
        std::vector<std::shared_ptr<Records>> all;

        auto const random_ids = [&c](std::size_t n)
        {
            std::vector<hsize_t> ids(n);
            for (std::size_t i = 0; i < n; ++i)
            {
                ids[i] = i < 24 ? c.any64() : ids[i - 24] * 6364136223846793005u + 1442695040888963407u;
            }
            return Bytes(reinterpret_cast<char const*>(ids.data()), n * sizeof(hsize_t));
        };

        all.push_back(records("object IDs", sizeof(hsize_t), random_ids,
            [&world]() -> ldm::ObjectID& { return world.phenomenon().object_id(); },
            [](ldm::ObjectID const& id) { return id.nr_objects(); }));

        std::size_t const nr_sets = 1 + c.draw(2);
        std::vector<bool> collections;
        for (std::size_t s = 0; s < nr_sets; ++s)
        {
            bool const collection = c.chance(30);
            std::string const name = "set" + str(s);
            auto& sets = collection ? phenomenon.collection_property_sets() : phenomenon.property_sets();
            // Reading and writing through a property set that shares the tracker is the same thing
            bool const linked = c.chance(30);
            auto& first = sets.add(name);
            std::string alias = name;
            if (linked)
            {
                alias = name + "_alias";
                sets.add(alias, ldm::TimeConfiguration{ldm::TimeDomainItemType::box},
                    ldm::Clock{ldm::time::Unit::day, 1}, first.object_tracker());
                c.label("shared tracker");
            }
            auto const tracker = [&world, &c, collection, name, alias]() -> ldm::ObjectTracker&
            { return world.set(collection, alias == name || c.boolean() ? name : alias).object_tracker(); };
            all.push_back(records("active set indices of " + name, sizeof(hsize_t), random_ids,
                [tracker]() -> ldm::ActiveSetIndex& { return tracker().active_set_index(); },
                [](ldm::ActiveSetIndex const& v) { return v.nr_indices(); }));
            all.push_back(records("active object IDs of " + name, sizeof(hsize_t), random_ids,
                [tracker]() -> ldm::ActiveObjectID& { return tracker().active_object_id(); },
                [](ldm::ActiveObjectID const& v) { return v.nr_ids(); }));
            all.push_back(records("active object indices of " + name, sizeof(hsize_t), random_ids,
                [tracker]() -> ldm::ActiveObjectIndex& { return tracker().active_object_index(); },
                [](ldm::ActiveObjectIndex const& v) { return v.nr_indices(); }));
        }
        history(c, world, all, []() {});
    }


    // ------------------------------------------------------------------------------------------- I02
    template<typename V>
    auto nr_items(V const& v)
    {
        if constexpr (requires { v.nr_boxes(); })
            return v.nr_boxes();
        else if constexpr (requires { v.nr_points(); })
            return v.nr_points();
        else
            return v.nr_locations();
    }


    template<typename V>
    std::shared_ptr<Records> space_records(
        Case& c, World& world, bool collection, std::string const& name, SpaceModel const& s)
    {
        std::size_t const size = s.width() * size_of(s.type);
        return records(
            "coordinates of " + name, size,
            [&c, s](std::size_t n) { return random_bytes(c, s.type, n * s.width()); },
            [&world, &c, collection, name, s]()
            {
                auto& d = world.set(collection, name).space_domain();
                return c.boolean() ? d.value<V>(datatype_of(s.type)) : d.value<V>();
            },
            [](V const& v) { return nr_items(v); });
    }


    void check_wider_type(Case& c, World& world, std::string const& name, SpaceModel const& s, Records& r)
    {
        // Reading as a wider type does not change the coordinates
        if (r.n == 0 || s.type == 1 || s.type == 3 || s.type == 5 || s.type == 4 ||
            std::find(r.elements.defined.begin(), r.elements.defined.end(), 0) != r.elements.defined.end())
        {
            return;
        }
        std::size_t const n = r.n * s.width();
        std::vector<double> expected(n);
        with_type(s.type,
            [&]<typename T>()
            {
                for (std::size_t i = 0; i < n; ++i)
                {
                    T v;
                    std::memcpy(&v, r.elements.values.data() + i * sizeof(T), sizeof(T));
                    expected[i] = static_cast<double>(v);
                }
            });
        auto& d = world.set(false, name).space_domain();
        std::vector<double> actual;
        auto const read = [&]<typename V>()
        {
            auto v = d.value<V>(datatype<double>());
            actual = guarded_read<double>(c, n, "coordinates as doubles", [&](void* b) { v.read(b); });
        };
        bool const box = s.item == ldm::SpaceDomainItemType::box;
        if (s.mobility == ldm::Mobility::stationary)
            box ? read.template operator()<ldm::StationarySpaceBox>()
                : read.template operator()<ldm::StationarySpacePoint>();
        else
            box ? read.template operator()<ldm::MobileSpaceBox>() : read.template operator()<ldm::MobileSpacePoint>();
        expect_same(c, actual, expected, "coordinates of " + name + " read as doubles");
        c.label("read as doubles");
    }


    ClockModel any_clock_(Case& c)
    {
        ClockModel clock;
        clock.epoch.kind = int(c.draw(1));
        if (c.boolean())
        {
            clock.epoch.origin = c.pick({0, 1, 2}) == 0 ? c.text(30, false) : c.pick(std::initializer_list<char const*>{
                "1970-01-01T00:00:00+00:00", "2024", "4.5e9 BP"});
            clock.epoch.calendar = c.boolean();
        }
        clock.unit = int(c.draw(9));
        clock.nr_units = c.boolean() ? 1 + c.draw(60) : c.any64();
        return clock;
    }


    void domains(Case& c)
    {
        World world{c.path("dataset.lue"), {}};
        world.dataset = std::make_unique<ldm::Dataset>(ldm::create_dataset(world.path));
        auto& phenomenon = world.dataset->add_phenomenon("phenomenon");
        auto& sets = phenomenon.property_sets();
        std::vector<std::shared_ptr<Records>> all;

        std::size_t const nr_sets = 1 + c.draw(2);
        std::vector<std::optional<TimeModel>> times(nr_sets);
        std::vector<std::optional<SpaceModel>> spaces(nr_sets);
        std::vector<std::shared_ptr<Records>> coordinates(nr_sets);
        for (std::size_t i = 0; i < nr_sets; ++i)
        {
            std::string const name = "set" + str(i);
            auto& time = times[i];
            auto& space = spaces[i];
            std::size_t const what = 1 + c.draw(2);
            if (what & 1)
            {
                time = TimeModel{};
                time->item = c.pick({ldm::TimeDomainItemType::point, ldm::TimeDomainItemType::box,
                    ldm::TimeDomainItemType::cell});
                time->clock = any_clock_(c);
            }
            if (what & 2)
            {
                space = SpaceModel{};
                space->mobility = c.boolean() ? ldm::Mobility::mobile : ldm::Mobility::stationary;
                space->item = c.boolean() ? ldm::SpaceDomainItemType::box : ldm::SpaceDomainItemType::point;
                space->type = c.draw(nr_types - 1);
                space->rank = 1 + c.draw(c.chance(10) ? 9 : 3);
            }
            c.notes(
                "set ", name, time ? " time item " + str(int(time->item)) : std::string{},
                space ? std::string{" space "} + (space->mobility == ldm::Mobility::mobile ? "mobile" : "stationary") +
                            (space->item == ldm::SpaceDomainItemType::box ? " box" : " point") + " type " +
                            str(space->type) + " rank " + str(space->rank)
                      : std::string{});
            bool const linked = time && i > 0 && times[i - 1] && c.boolean();
            if (linked)
            {
                time = times[i - 1];
                auto& domain = world.set(false, "set" + str(i - 1)).time_domain();
                c.note("shares time");
                space ? sets.add(name, domain, ldm::SpaceConfiguration{space->mobility, space->item},
                            datatype_of(space->type), space->rank)
                      : sets.add(name, domain);
            }
            else if (time && space)
                sets.add(name, ldm::TimeConfiguration{time->item}, time->clock.make(),
                    ldm::SpaceConfiguration{space->mobility, space->item}, datatype_of(space->type), space->rank);
            else if (time)
                sets.add(name, ldm::TimeConfiguration{time->item}, time->clock.make());
            else
                sets.add(name, ldm::SpaceConfiguration{space->mobility, space->item}, datatype_of(space->type),
                    space->rank);

            if (time && !linked)
            {
                std::size_t const width = time->width();
                auto const random = [&c, width](std::size_t n) { return random_bytes(c, 3, n * width); };
                auto const domain = [&world, name]() -> ldm::TimeDomain& { return world.set(false, name).time_domain(); };
                std::size_t const size = width * sizeof(std::uint64_t);
                switch (time->item)
                {
                    case ldm::TimeDomainItemType::point:
                        c.label("time points");
                        all.push_back(records("time points of " + name, size, random,
                            [domain]() { return domain().value<ldm::TimePoint>(); },
                            [](auto const& v) { return nr_items(v); }));
                        break;
                    case ldm::TimeDomainItemType::box:
                        c.label("time boxes");
                        all.push_back(records("time boxes of " + name, size, random,
                            [domain]() { return domain().value<ldm::TimeBox>(); },
                            [](auto const& v) { return nr_items(v); }));
                        break;
                    case ldm::TimeDomainItemType::cell:
                        c.label("time cells");
                        all.push_back(records("time cells of " + name, size, random,
                            [domain]() { return domain().value<ldm::TimeCell>(); },
                            [](auto const& v) { return nr_items(v); }));
                        all.push_back(records(
                            "cell counts of " + name, sizeof(hsize_t),
                            [&c](std::size_t n) { return random_bytes(c, 3, n); },
                            [domain]() { return domain().value<ldm::TimeCell>().count(); },
                            [domain](auto const&) { return domain().value<ldm::TimeCell>().nr_counts(); }));
                        break;
                }
            }
            if (space)
            {
                bool const box = space->item == ldm::SpaceDomainItemType::box;
                c.label(std::string{space->mobility == ldm::Mobility::mobile ? "mobile" : "stationary"} +
                        (box ? " boxes" : " points"));
                if (space->mobility == ldm::Mobility::stationary)
                    coordinates[i] = box ? space_records<ldm::StationarySpaceBox>(c, world, false, name, *space)
                                         : space_records<ldm::StationarySpacePoint>(c, world, false, name, *space);
                else
                    coordinates[i] = box ? space_records<ldm::MobileSpaceBox>(c, world, false, name, *space)
                                         : space_records<ldm::MobileSpacePoint>(c, world, false, name, *space);
                all.push_back(coordinates[i]);
            }
        }

        history(c, world, all,
            [&]()
            {
                for (std::size_t i = 0; i < nr_sets; ++i)
                {
                    std::string const name = "set" + str(i);
                    auto& s = world.set(false, name);
                    c.equal(s.has_time_domain(), times[i].has_value(), name + ": has a time domain");
                    c.equal(s.has_space_domain(), spaces[i].has_value(), name + ": has a space domain");
                    if (times[i])
                    {
                        c.check(s.time_domain().configuration().value<ldm::TimeDomainItemType>() == times[i]->item,
                            name + ": kind of time items");
                        compare_clock(c, s.time_domain().clock(), times[i]->clock, name);
                    }
                    if (spaces[i])
                    {
                        auto const configuration = s.space_domain().configuration();
                        c.check(configuration.value<ldm::Mobility>() == spaces[i]->mobility, name + ": mobility");
                        c.check(configuration.value<ldm::SpaceDomainItemType>() == spaces[i]->item,
                            name + ": kind of space items");
                        check_wider_type(c, world, name, *spaces[i], *coordinates[i]);
                    }
                }
            });
    }


    // ------------------------------------------------------------------------------------------- T01
    ClockModel similar_clock(Case& c)
    {
        // From a few values, so that parts of clocks are equal often
        ClockModel clock;
        clock.epoch.kind = int(c.draw(1));
        if (c.chance(60))
        {
            clock.epoch.origin = c.pick(std::initializer_list<char const*>{"", "a", "b", "ab"});
            clock.epoch.calendar = c.boolean();
        }
        clock.unit = int(c.draw(c.boolean() ? 2 : 9));
        clock.nr_units = c.boolean() ? c.draw(2) : c.any64();
        return clock;
    }


    bool same_clock(ClockModel const& a, ClockModel const& b)
    {
        return a.epoch.tie() == b.epoch.tie() && a.unit == b.unit && a.nr_units == b.nr_units;
    }


    template<typename Unit>
    void durations(Case& c)
    {
        namespace t = ldm::time;
        using TickPeriod = t::TickPeriod<Unit>;
        using Clock = t::Clock<TickPeriod>;
        using Duration = typename Clock::Duration;
        using TimePoint = t::TimePoint<Clock>;

        c.equal(TickPeriod{}.nr_units(), std::uint64_t(1), "default tick period");
        std::uint64_t const nr_units = c.any64();
        std::uint64_t const a = c.any64();
        std::uint64_t const b = c.boolean() ? a : c.any64();
        c.notes("tick period ", nr_units, ", durations ", a, " ", b);
        TickPeriod const period{nr_units};
        c.equal(period.nr_units(), nr_units, "tick period");
        Duration const da{a}, db{b};
        c.equal(da.nr_ticks(), a, "duration");
        c.equal(da == db, a == b, "equality of durations of " + str(a) + " and " + str(b));
        c.equal(da != db, a != b, "inequality of durations of " + str(a) + " and " + str(b));
        TimePoint const pa{da};
        TimePoint pb{db};
        c.equal(pa.nr_ticks(), a, "time point");
        c.check(pa.duration() == da, "duration of a time point");
        auto const epoch = similar_clock(c).epoch;
        Clock clock{epoch.make(), period};
        c.equal(clock.tick_period().nr_units(), nr_units, "tick period of a clock");
        c.check(clock.epoch().kind() == epoch.make().kind() && clock.epoch().origin() == epoch.make().origin(), "epoch of a clock");
        if (nr_units == 0 || a <= std::numeric_limits<std::uint64_t>::max() / nr_units)
        {
            c.equal(clock.nr_units(pa), a * nr_units, "units since the epoch");
        }
        else
        {
            c.label("out of range");
        }
        pb = pa;
        c.equal(pb.nr_ticks(), a, "assigned time point");
        Clock copy;
        copy = clock;
        c.equal(copy.tick_period().nr_units(), nr_units, "tick period of an assigned clock");
    }


    void clocks(Case& c)
    {
        std::size_t const n = 3 + c.draw(5);
        std::vector<ClockModel> models;
        std::vector<ldm::Clock> clocks;
        for (std::size_t i = 0; i < n; ++i)
        {
            if (i > 0 && c.chance(25))
            {
                models.push_back(models[c.draw(i - 1)]);
                if (c.boolean()) models.back().nr_units = c.draw(3);
            }
            else
            {
                models.push_back(similar_clock(c));
            }
            auto const& m = models.back();
            c.notes("clock ", i, ": epoch ", m.epoch.kind, " ", m.epoch.origin ? "'" + *m.epoch.origin + "'" : "-", " ",
                m.epoch.origin && m.epoch.calendar ? "gregorian" : "-", " unit ", m.unit, " x ", m.nr_units);
            clocks.push_back(m.make());
            compare_clock(c, clocks.back(), m, "clock");
        }
        std::size_t nr_equal = 0;
        std::vector<std::vector<char>> less(n, std::vector<char>(n));
        for (std::size_t i = 0; i < n; ++i)
        {
            for (std::size_t j = 0; j < n; ++j)
            {
                std::string const what = "clocks " + str(i) + " and " + str(j);
                bool const same = same_clock(models[i], models[j]);
                nr_equal += i != j && same;
                c.equal(clocks[i] == clocks[j], same, what + ": equality");
                c.equal(clocks[i] != clocks[j], !same, what + ": inequality");
                less[i][j] = clocks[i] < clocks[j];
                c.check(!(less[i][j] && clocks[j] < clocks[i]), what + ": each is less than the other");
                c.equal(!less[i][j] && !(clocks[j] < clocks[i]), same, what + ": neither is less");
            }
        }
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
                for (std::size_t k = 0; k < n; ++k)
                {
                    c.check(!(less[i][j] && less[j][k]) || less[i][k],
                        "clocks " + str(i) + ", " + str(j) + " and " + str(k) + ": not transitive");
                }
        // Whatever the order they are in, sorting results in the same clocks
        auto sorted = clocks;
        std::sort(sorted.begin(), sorted.end());
        auto shuffled = clocks;
        for (std::size_t i = n; i > 1; --i)
        {
            std::swap(shuffled[i - 1], shuffled[c.draw(i - 1)]);
        }
        std::sort(shuffled.begin(), shuffled.end());
        c.check(sorted == shuffled, "sorting clocks depends on the order they are in");

        switch (c.draw(5))
        {
            case 0: durations<ldm::time::Second>(c); break;
            case 1: durations<ldm::time::Minute>(c); break;
            case 2: durations<ldm::time::Day>(c); break;
            case 3: durations<ldm::time::Week>(c); break;
            case 4: durations<ldm::time::Month>(c); break;
            default: durations<ldm::time::Year>(c); break;
        }

        if (c.chance(30))
        {
            // Stored in a dataset
            c.label("stored");
            auto const path = c.path("dataset.lue");
            {
                auto d = ldm::create_dataset(path);
                auto& sets = d.add_phenomenon("p").property_sets();
                for (std::size_t i = 0; i < n; ++i)
                {
                    sets.add(str(i), ldm::TimeConfiguration{ldm::TimeDomainItemType::point}, clocks[i]);
                }
            }
            auto d = ldm::open_dataset(path);
            auto& sets = d.phenomena()["p"].property_sets();
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j)
                {
                    c.equal(sets[str(i)].time_domain().clock() == clocks[j], same_clock(models[i], models[j]),
                        "stored clock " + str(i) + " and clock " + str(j) + ": equality");
                }
        }
        if (nr_equal > 0)
        {
            c.label("equal clocks");
        }
        c.nontrivial();
    }

}  // namespace


int main(int argc, char** argv)
{
    std::vector<pt::Property> const properties{
        {"I01",
            "a case is a history of expansions, writes of whole collections, ranges and records, reads and reopens on "
            "object IDs and the trackers of 1-3 property sets, some shared; non-trivial: at least two collections have "
            "records",
            identity, 12000, 150000, quiet},
        {"I02",
            "a case is a history of expansions, writes and reads on the time and space domains of 1-3 property sets "
            "of any configuration; non-trivial: at least two collections have records",
            domains, 12000, 150000, quiet},
        {"T01",
            "a case is 3-8 clocks made of few different parts, compared pairwise and in threes, and durations, points "
            "and tick periods of any count; all are non-trivial",
            clocks, 20000, 400000, quiet},
    };
    return pt::main(argc, argv, properties);
}
