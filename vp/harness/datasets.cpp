// D01-D04, D06, V01, V02: whole datasets
#include "model.hpp"
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vp;


namespace {

    void label(Case& c, Model& m)
    {
        bool has_time{}, has_space{}, shares{}, links{};
        m.for_each_property_set(
            [&](Where const&, PropertySetModel& s)
            {
                has_time |= bool(s.time);
                has_space |= s.space.has_value();
                shares |= s.tracker_from || s.time_from;
            });
        m.for_each_property(
            [&](Where const&, PropertySetModel&, PropertyModel& p)
            {
                c.label(std::string{"property "} + kind_names[p.kind]);
                links |= p.space_discretization || p.time_discretization;
            });
        if (has_time) c.label("time domain");
        if (has_space) c.label("space domain");
        if (shares) c.label("sharing");
        if (links) c.label("discretization");
    }


    std::unique_ptr<ldm::Dataset> open(std::string const& path, unsigned int flags = H5F_ACC_RDONLY)
    {
        return std::make_unique<ldm::Dataset>(ldm::open_dataset(path, flags));
    }


    // ------------------------------------------------------------------------------------------- D01
    void round_trip(Case& c)
    {
        Options options;
        options.consistent = c.boolean();
        options.max_property_sets = 2;
        if (c.thorough())
        {
            options.max_phenomena = 3;
            options.max_property_sets = 4;
            options.max_properties = 5;
            options.max_ids = 12;
        }
        Model m = generate(c, options);
        describe(c, m);
        label(c, m);
        auto const path = c.path("dataset.lue");
        c.check(!ldm::dataset_exists(path), "a dataset that was not made yet is said to exist");
        Builder b{c, m, path};
        b.build();
        c.check(ldm::dataset_exists(path), "the dataset is said not to exist");
        compare(c, *b.dataset, m, "as built");
        b.dataset.reset();
        {
            auto d = open(path);
            compare(c, *d, m, "opened for reading");
            c.check(!d->lue_version().empty(), "version");
        }
        {
            auto d = open(path, H5F_ACC_RDWR);
            compare(c, *d, m, "opened for writing");
            // Another handle, and a handle based on an existing file
            ldm::Dataset other{lh5::File{path, H5F_ACC_RDWR}};
            compare(c, other, m, "opened again");
            ldm::Dataset copy{*d};
            d.reset();
            compare(c, copy, m, "copy of the handle");
        }
        if (m.nr_properties() >= 2)
        {
            c.nontrivial();
        }
    }


    // ------------------------------------------------------------------------------------------- D02
    PropertyModel empty_property(Case& c, std::string const& name, Kind kind)
    {
        PropertyModel p;
        p.name = name;
        p.description = any_description(c);
        p.kind = kind;
        p.type = c.draw(nr_types - 1);
        p.rank = 1 + int(c.draw(1));
        p.shape = vp::shape(c, p.rank, p.rank, 4, 20);
        p.arrays.shape = p.shape;
        return p;
    }


    void refused_operations(Case& c)
    {
        Options options;
        options.max_property_sets = 2;
        options.max_properties = 3;
        options.max_ids = 3;
        Model m = generate(c, options);
        describe(c, m);
        auto const path = c.path("dataset.lue");
        Builder b{c, m, path, 0};
        b.build();
        auto& d = b.dataset;

        std::size_t const nr_steps = 1 + c.draw(c.thorough() ? 12 : 5);
        std::size_t nr_refused = 0;
        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            std::vector<Where> phenomena, sets, properties;
            m.for_each_phenomenon([&](Where const& w, PhenomenonModel&) { phenomena.push_back(w); });
            m.for_each_property_set([&](Where const& w, PropertySetModel&) { sets.push_back(w); });
            m.for_each_property([&](Where const& w, PropertySetModel&, PropertyModel&) { properties.push_back(w); });

            switch (c.draw(9))
            {
                case 0:
                {
                    if (m.universes.empty()) break;
                    auto const& name = c.pick(m.universes).name;
                    c.notes("add universe ", name, " again");
                    c.refused([&]() { d->add_universe(name); }, "adding a universe twice");
                    ++nr_refused;
                    c.label("universe twice");
                    break;
                }
                case 1:
                {
                    if (phenomena.empty()) break;
                    auto const w = c.pick(phenomena);
                    auto const& name = m.phenomenon(w).name;
                    c.notes("add phenomenon ", name, " again");
                    c.refused(
                        [&]()
                        {
                            w.universe < 0 ? d->add_phenomenon(name)
                                           : d->universes()[m.universes[w.universe].name].add_phenomenon(name);
                        },
                        "adding a phenomenon twice");
                    ++nr_refused;
                    c.label("phenomenon twice");
                    break;
                }
                case 2:
                {
                    if (sets.empty()) break;
                    auto const w = c.pick(sets);
                    // Using any way to add one
                    Where other = w;
                    auto const& siblings = w.collection ? m.phenomenon(w).collection_property_sets
                                                        : m.phenomenon(w).property_sets;
                    other.property_set = c.draw(siblings.size() - 1);
                    auto const& name = m.property_set(w).name;
                    c.notes("add property set ", name, " again, like ", m.property_set(other).name);
                    c.refused([&]() { create_property_set(c, *d, m, other, name); }, "adding a property set twice");
                    ++nr_refused;
                    c.label("property set twice");
                    break;
                }
                case 3:
                case 4:
                {
                    if (properties.empty()) break;
                    auto const w = c.pick(properties);
                    auto const& p = m.property(w);
                    auto const kind = static_cast<Kind>(c.draw(5));
                    c.notes("add property ", p.name, " (", kind_names[p.kind], ") again as ", kind_names[kind]);
                    c.refused(
                        [&]() { create_property(c, find_set(*d, m, w), empty_property(c, p.name, kind)); },
                        std::string{"adding a "} + kind_names[kind] + " property with the name of a " +
                            kind_names[p.kind] + " property");
                    ++nr_refused;
                    c.label(kind == p.kind ? "property twice" : "property twice, other kind");
                    break;
                }
                case 5:
                {
                    std::string const name = "no such item";
                    c.notes("look up missing items");
                    c.refused([&]() { d->universes()[name]; }, "looking up a missing universe");
                    c.refused([&]() { d->phenomena()[name]; }, "looking up a missing phenomenon");
                    c.refused([&]() { std::as_const(*d).phenomena()[name]; }, "looking up a missing phenomenon");
                    if (!phenomena.empty())
                    {
                        auto& p = find(*d, m, c.pick(phenomena));
                        c.refused([&]() { p.property_sets()[name]; }, "looking up a missing property set");
                        c.refused([&]() { p.collection_property_sets()[name]; },
                            "looking up a missing collection property set");
                    }
                    if (!sets.empty())
                    {
                        auto& properties = find_set(*d, m, c.pick(sets)).properties();
                        c.refused([&]() { properties.collection<ldm::same_shape::Properties>()[name]; },
                            "looking up a missing property");
                        c.refused([&]()
                            { properties.collection<ldm::different_shape::constant_shape::Properties>()[name]; },
                            "looking up a missing property");
                        c.refused([&]() { properties.shape_per_object(name); }, "shape of a missing property");
                        c.refused([&]() { properties.value_variability(name); }, "variability of a missing property");
                        c.refused([&]() { properties.shape_variability(name); }, "variability of a missing property");
                        c.refused([&]() { properties.collection_group(name); }, "group of a missing property");
                    }
                    ++nr_refused;
                    c.label("missing items");
                    break;
                }
                case 6:
                {
                    c.notes("missing datasets");
                    c.refused([&]() { ldm::open_dataset(c.path("missing.lue")); }, "opening a missing dataset");
                    c.refused([&]() { ldm::create_dataset(c.path("missing/a.lue")); },
                        "creating a dataset in a missing directory");
                    c.check(!ldm::dataset_exists(c.path("missing.lue")), "a missing dataset is said to exist");
                    ++nr_refused;
                    break;
                }
                case 7:
                {
                    // Property set with unsupported arguments, then with valid ones
                    if (phenomena.empty()) break;
                    auto w = c.pick(phenomena);
                    w.collection = c.boolean();
                    auto& siblings =
                        w.collection ? m.phenomenon(w).collection_property_sets : m.phenomenon(w).property_sets;
                    PropertySetModel s;
                    s.name = new_name(c, siblings);
                    s.tracker = std::make_shared<TrackerModel>();
                    s.space = SpaceModel{};
                    s.space->mobility = ldm::Mobility::stationary;
                    s.space->item = c.boolean() ? ldm::SpaceDomainItemType::box : ldm::SpaceDomainItemType::point;
                    s.space->type = c.draw(nr_types - 1);
                    s.space->rank = 1 + c.draw(2);
                    if (c.boolean())
                    {
                        s.time = std::make_shared<TimeModel>();
                        s.time->item = ldm::TimeDomainItemType::box;
                    }
                    std::size_t const rank = 0;
                    c.notes("add property set ", s.name, " with coordinates of rank ", rank);
                    auto& collection = find_sets(*d, m, w);
                    c.refused(
                        [&]()
                        {
                            ldm::SpaceConfiguration const configuration{s.space->mobility, s.space->item};
                            lh5::Datatype const type = datatype_of(s.space->type);
                            if (s.time)
                                collection.add(s.name, ldm::TimeConfiguration{s.time->item}, s.time->clock.make(),
                                    configuration, type, rank);
                            else
                                collection.add(s.name, configuration, type, rank);
                        },
                        "adding a property set with unsupported arguments");
                    ++nr_refused;
                    c.label("unsupported property set");
                    compare(c, *d, m, "after a refused operation");
                    compare(c, *open(path, H5F_ACC_RDWR), m, "after a refused operation, opened again");
                    if (c.boolean())
                    {
                        c.note("then add it with supported ones");
                        siblings.push_back(s);
                        w.property_set = siblings.size() - 1;
                        create_property_set(c, *d, m, w);
                    }
                    break;
                }
                case 8:
                {
                    // Property with unsupported arguments, then with valid ones
                    if (sets.empty()) break;
                    auto w = c.pick(sets);
                    auto& siblings = m.property_set(w).properties;
                    auto p = empty_property(c, new_name(c, siblings), c.boolean() ? k_same_constant : k_same);
                    auto& properties = find_set(*d, m, w).properties();
                    auto const type = datatype_of(p.type);
                    lh5::Shape const shape(33 + c.draw(7), 1);
                    c.notes("add property ", p.name, " (", kind_names[p.kind], ") with arrays of rank ", shape.size());
                    c.refused(
                        [&]()
                        {
                            p.kind == k_same
                                ? static_cast<void>(properties.add(p.name, type, shape, p.description))
                                : static_cast<void>(properties.add<ldm::same_shape::constant_shape::Property>(
                                      p.name, type, shape, p.description));
                        },
                        "adding a property of unsupported rank");
                    ++nr_refused;
                    c.label("unsupported property");
                    compare(c, *d, m, "after a refused operation");
                    compare(c, *open(path, H5F_ACC_RDWR), m, "after a refused operation, opened again");
                    if (c.boolean())
                    {
                        c.note("then add it with a supported one");
                        siblings.push_back(p);
                        create_property(c, find_set(*d, m, w), p);
                    }
                    break;
                }
                default:
                {
                    // Names that cannot be used
                    std::string const name = c.pick(std::initializer_list<char const*>{"", "missing/a", "/missing/a"});
                    c.notes("add items named '", name, "'");
                    c.refused([&]() { d->add_universe(name); }, "adding a universe with an unsupported name");
                    c.refused([&]() { d->add_phenomenon(name); }, "adding a phenomenon with an unsupported name");
                    if (!phenomena.empty())
                    {
                        c.refused([&]() { find(*d, m, c.pick(phenomena)).property_sets().add(name); },
                            "adding a property set with an unsupported name");
                    }
                    if (!sets.empty())
                    {
                        auto const kind = static_cast<Kind>(c.draw(5));
                        c.refused(
                            [&]()
                            { create_property(c, find_set(*d, m, c.pick(sets)), empty_property(c, name, kind)); },
                            "adding a property with an unsupported name");
                    }
                    ++nr_refused;
                    c.label("unsupported names");
                }
            }

            compare(c, *d, m, "after a refused operation");

            // Later operations keep working
            if (c.chance(30))
            {
                auto w = Where{-1, m.phenomena.size()};
                PhenomenonModel p;
                p.name = new_name(c, m.phenomena);
                m.phenomena.push_back(p);
                c.notes("add phenomenon ", p.name);
                d->add_phenomenon(p.name);
                PropertySetModel s;
                s.name = "set";
                s.tracker = std::make_shared<TrackerModel>();
                s.properties.push_back(empty_property(c, "p", static_cast<Kind>(c.draw(5))));
                m.phenomena.back().property_sets.push_back(s);
                create_property_set(c, *d, m, w);
                create_property(c, find_set(*d, m, w), s.properties[0]);
                compare(c, *d, m, "after an addition that follows on a refused operation");
            }
            if (c.chance(15))
            {
                c.note("reopen");
                b.reopen();
                compare(c, *d, m, "opened again");
            }
        }
        d.reset();
        compare(c, *open(path), m, "opened again");
        if (nr_refused > 0)
        {
            c.nontrivial();
        }
        if (c.boolean())
        {
            ldm::remove_dataset(path);
            c.check(!ldm::dataset_exists(path), "a removed dataset still exists");
        }
    }


    // ------------------------------------------------------------------------------------------- D03
    void sharing(Case& c)
    {
        Options options;
        options.discretize = false;
        options.max_property_sets = 4;
        options.max_properties = 1;
        Model m = generate(c, options);
        std::vector<Where> sets;
        bool shares = false;
        m.for_each_property_set(
            [&](Where const& w, PropertySetModel& s)
            {
                sets.push_back(w);
                shares |= s.tracker_from || s.time_from;
            });
        if (!shares)
        {
            c.discard();
        }
        describe(c, m);
        auto const path = c.path("dataset.lue");
        Builder b{c, m, path, 3};
        b.build();
        auto const compare_all = [&](ldm::Dataset& d, std::string const& what)
        {
            for (auto const& w: sets)
            {
                compare_domains(c, find_set(d, m, w), m.property_set(w), what + str_where(m, w));
            }
        };
        compare_all(*b.dataset, "as built");
        std::size_t const n = 1 + c.draw(8);
        for (std::size_t i = 0; i < n; ++i)
        {
            auto const w = c.pick(sets);
            auto& model = m.property_set(w);
            auto& s = find_set(*b.dataset, m, w);
            auto const add = [&](auto&& value, auto& records, std::size_t width, char const* what)
            {
                using T = typename std::decay_t<decltype(records)>::value_type;
                std::size_t const n = 1 + c.draw(3);
                auto const v = vp::values<T>(c, n * width);
                std::size_t const begin = records.size() / width;
                records.insert(records.end(), v.begin(), v.end());
                c.notes("through ", str_where(m, w), " add ", n, " ", what);
                append(c, value, reinterpret_cast<char const*>(records.data()), begin, begin + n, width * sizeof(T));
            };
            switch (c.draw(4))
            {
                case 0: add(s.object_tracker().active_object_id(), model.tracker->id, 1, "active IDs"); break;
                case 1: add(s.object_tracker().active_set_index(), model.tracker->set_idx, 1, "set indices"); break;
                case 2:
                    add(s.object_tracker().active_object_index(), model.tracker->object_idx, 1, "object indices");
                    break;
                case 3:
                {
                    if (model.time)
                    {
                        with_time(s.time_domain(), model.time->item,
                            [&](auto&& value) { add(value, model.time->items, model.time->width(), "times"); });
                    }
                    break;
                }
                default:
                {
                    if (model.time && model.time->item == ldm::TimeDomainItemType::cell)
                    {
                        auto cell = s.time_domain().value<ldm::TimeCell>();
                        add(cell.count(), model.time->counts, 1, "counts");
                    }
                    else if (!model.tracker->id.empty())
                    {
                        // Overwrite
                        std::size_t const i = c.draw(model.tracker->id.size() - 1);
                        hsize_t const id = c.any64();
                        c.notes("through ", str_where(m, w), " overwrite active ID ", i, " by ", id);
                        model.tracker->id[i] = id;
                        s.object_tracker().active_object_id().write(ldm::Index(i), &id);
                    }
                }
            }
            compare_all(*b.dataset, "after an addition: ");
            if (c.chance(10))
            {
                b.reopen();
                compare_all(*b.dataset, "after an addition, opened again: ");
            }
        }
        b.dataset.reset();
        compare(c, *open(path), m, "opened again");
        label(c, m);
        c.nontrivial();
    }


    // ------------------------------------------------------------------------------------------- D04
    void read_only(Case& c)
    {
        Options options;
        options.consistent = c.boolean();
        options.max_property_sets = 2;
        Model m = generate(c, options);
        describe(c, m);
        label(c, m);
        auto const path = c.path("dataset.lue");
        {
            Builder b{c, m, path};
            b.build();
        }
        auto const bytes = file_bytes(path);
        std::size_t nr_refused = 0;
        {
            auto d = open(path);
            compare(c, *d, m, "opened for reading");
            {
                lh5::Issues issues;
                ldm::validate(*d, issues);
                ldm::message(issues);
            }
            {
                lh5::Issues issues;
                ldm::validate(path, issues);
            }
            try
            {
                ldm::assert_is_valid(*d);
            }
            catch (std::runtime_error const&)
            {
            }
            c.check(file_bytes(path) == bytes, "reading or validating changed the file");

            std::vector<Where> phenomena, sets, properties;
            m.for_each_phenomenon([&](Where const& w, PhenomenonModel&) { phenomena.push_back(w); });
            m.for_each_property_set([&](Where const& w, PropertySetModel&) { sets.push_back(w); });
            m.for_each_property([&](Where const& w, PropertySetModel&, PropertyModel&) { properties.push_back(w); });

            std::size_t const nr_steps = 1 + c.draw(5);
            for (std::size_t i = 0; i < nr_steps; ++i)
            {
                ++nr_refused;
                switch (c.draw(9))
                {
                    case 0:
                    {
                        c.note("add universe");
                        c.refused([&]() { d->add_universe("new universe"); }, "adding a universe");
                        break;
                    }
                    case 1:
                    {
                        c.note("add phenomenon");
                        c.refused([&]() { d->add_phenomenon("new phenomenon"); }, "adding a phenomenon");
                        break;
                    }
                    case 2:
                    {
                        if (sets.empty()) break;
                        auto const w = c.pick(sets);
                        c.notes("add property set like ", str_where(m, w));
                        c.refused([&]() { create_property_set(c, *d, m, w, "new set"); }, "adding a property set");
                        break;
                    }
                    case 3:
                    {
                        if (sets.empty()) break;
                        auto const w = c.pick(sets);
                        auto const kind = static_cast<Kind>(c.draw(5));
                        c.notes("add property to ", str_where(m, w));
                        c.refused([&]()
                            { create_property(c, find_set(*d, m, w), empty_property(c, "new property", kind)); },
                            "adding a property");
                        break;
                    }
                    case 4:
                    {
                        if (phenomena.empty()) break;
                        auto const w = c.pick(phenomena);
                        auto& ids = find(*d, m, w).object_id();
                        c.note("expand and overwrite object IDs");
                        c.refused([&]() { ids.expand(1 + c.draw(3)); }, "expanding object IDs");
                        if (!m.phenomenon(w).ids.empty())
                        {
                            hsize_t id = 5;
                            c.refused([&]() { ids.write(ldm::Index(0), &id); }, "writing object IDs");
                        }
                        break;
                    }
                    case 5:
                    {
                        if (sets.empty()) break;
                        auto& s = find_set(*d, m, c.pick(sets));
                        c.note("expand object tracker");
                        c.refused([&]() { s.object_tracker().active_set_index().expand(1); }, "expanding set indices");
                        c.refused([&]() { s.object_tracker().active_object_id().expand(1); }, "expanding IDs");
                        c.refused([&]() { s.object_tracker().active_object_index().expand(1); }, "expanding indices");
                        break;
                    }
                    case 6:
                    {
                        for (auto const& w: sets)
                        {
                            auto& s = m.property_set(w);
                            if (s.space)
                            {
                                c.note("expand space domain");
                                with_space(find_set(*d, m, w).space_domain(), *s.space, true, [&](auto&& value)
                                    { c.refused([&]() { value.expand(1); }, "expanding coordinates"); });
                            }
                            if (s.time)
                            {
                                c.note("expand time domain");
                                with_time(find_set(*d, m, w).time_domain(), s.time->item, [&](auto&& value)
                                    { c.refused([&]() { value.expand(1); }, "expanding times"); });
                            }
                        }
                        break;
                    }
                    case 7:
                    {
                        if (properties.empty()) break;
                        auto const w = c.pick(properties);
                        c.notes("expand property ", m.property(w).name);
                        auto const& name = m.property(w).name;
                        auto& ps = find_set(*d, m, w).properties();
                        lh5::Shape const shape(m.property(w).rank, 1);
                        hsize_t const id = 987654321;
                        c.refused(
                            [&]()
                            {
                                switch (m.property(w).kind)
                                {
                                    case k_same:
                                        ps.collection<ldm::same_shape::Properties>()[name].value().expand(1);
                                        break;
                                    case k_same_constant:
                                        ps.collection<ldm::same_shape::constant_shape::Properties>()[name]
                                            .value()
                                            .expand(1);
                                        break;
                                    case k_same_variable:
                                        ps.collection<ldm::same_shape::variable_shape::Properties>()[name]
                                            .value()
                                            .expand(id, 1, shape);
                                        break;
                                    case k_different:
                                        ps.collection<ldm::different_shape::Properties>()[name].value().expand(
                                            id, shape);
                                        break;
                                    case k_different_constant:
                                        ps.collection<ldm::different_shape::constant_shape::Properties>()[name]
                                            .value()
                                            .expand(id, shape, 2);
                                        break;
                                    case k_different_variable:
                                        ps.collection<ldm::different_shape::variable_shape::Properties>()[name]
                                            .value()
                                            .expand(id, 1, &id, &shape);
                                        break;
                                }
                            },
                            "expanding a property");
                        break;
                    }
                    case 8:
                    {
                        if (properties.empty()) break;
                        auto const w = c.pick(properties);
                        auto& property = find_property(*d, m, w);
                        auto& target = find_property(*d, m, c.pick(properties));
                        c.notes("discretize ", m.property(w).name);
                        c.refused([&]()
                            { property.set_space_discretization(ldm::SpaceDiscretization::regular_grid, target); },
                            "discretizing through space");
                        c.refused([&]()
                            { property.set_time_discretization(ldm::TimeDiscretization::regular_grid, target); },
                            "discretizing through time");
                        break;
                    }
                    default:
                    {
                        c.note("write attributes");
                        c.refused([&]() { d->attributes().write<std::string>("lue_version", "0.0.0"); },
                            "overwriting an attribute");
                        c.refused([&]() { d->attributes().write<int>("new attribute", 5); }, "adding an attribute");
                    }
                }
                c.check(file_bytes(path) == bytes, "a refused operation changed the file");
            }
            compare(c, *d, m, "after refused operations");
        }
        c.check(file_bytes(path) == bytes, "reading, validating or refused operations changed the file");
        {
            auto d = open(path, H5F_ACC_RDWR);
            if (c.boolean())
            {
                compare(c, *d, m, "opened for writing");
                lh5::Issues issues;
                ldm::validate(*d, issues);
            }
        }
        compare(c, *open(path), m, "after opening for writing");
        if (nr_refused > 0 && m.nr_properties() > 0)
        {
            c.nontrivial();
        }
    }


    // ------------------------------------------------------------------------------------------- D06
    //! The file says it is still being written to
    std::unique_ptr<ldm::Dataset> open_after_crash(std::string const& path, unsigned int flags)
    {
        // What h5clear -s does
        hid_t const fapl = H5Pcreate(H5P_FILE_ACCESS);
        unsigned char clear = 1;
        H5Pinsert2(fapl, "clear_status_flags", sizeof(bool), &clear, nullptr, nullptr, nullptr, nullptr, nullptr,
            nullptr);
        H5Pset(fapl, "clear_status_flags", &clear);
        hid_t const file = H5Fopen(path.c_str(), H5F_ACC_RDWR, fapl);
        H5Pclose(fapl);
        if (file >= 0)
        {
            H5Fclose(file);
        }
        return open(path, flags);
    }


    void crash(Case& c)
    {
        Options options;
        options.max_property_sets = 2;
        Model m = generate(c, options);
        describe(c, m);
        label(c, m);
        auto const path = c.path("dataset.lue");
        bool const close = c.chance(25);
        bool const read_after_flush = c.boolean();
        bool const flush_half_way = c.boolean();
        c.notes(close ? "close, then end the process" : "flush, then kill the process");
        c.label(close ? "closed" : "flushed");

        std::uint64_t const state = c.draw(std::numeric_limits<std::uint64_t>::max());

        fflush(stdout);
        fflush(stderr);
        pid_t const pid = fork();
        if (pid == 0)
        {
            int status = 0;
            try
            {
                Builder b{c, m, path, 2};
                b.create();
                b.plan();
                std::size_t i = 0;
                while (b.step())
                {
                    if (flush_half_way && (++i * 2654435761u + state) % 7 == 0)
                    {
                        b.dataset->flush();
                    }
                }
                if (close)
                {
                    b.dataset.reset();
                    _exit(0);
                }
                b.dataset->flush();
                if (read_after_flush)
                {
                    compare(c, *b.dataset, m, "as built");
                }
                kill(getpid(), SIGKILL);
            }
            catch (...)
            {
                status = 3;
            }
            _exit(status);
        }
        c.check(pid > 0, "fork failed");
        int status = 0;
        waitpid(pid, &status, 0);
        bool const as_planned = close ? WIFEXITED(status) && WEXITSTATUS(status) == 0
                                      : WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
        c.check(as_planned, "building the dataset failed");

        auto const flags = c.boolean() ? H5F_ACC_RDWR : H5F_ACC_RDONLY;
        {
            auto d = close ? open(path, flags) : open_after_crash(path, flags);
            compare(c, *d, m, close ? "closed before the process ended" : "flushed before the process was killed");
        }
        // It can be used
        {
            auto d = open(path, H5F_ACC_RDWR);
            PhenomenonModel p;
            p.name = new_name(c, m.phenomena);
            m.phenomena.push_back(p);
            d->add_phenomenon(p.name);
        }
        compare(c, *open(path), m, "changed after that");
        if (m.nr_properties() > 0)
        {
            c.nontrivial();
        }
    }


    // ------------------------------------------------------------------------------------------- V01
    bool has_unsupported(Model& m)
    {
        bool result = false;
        m.for_each_property(
            [&](Where const&, PropertySetModel& s, PropertyModel& p)
            {
                result |= p.kind == k_different_variable || p.time_discretization.has_value() ||
                          p.space_discretization.has_value();
                result |= s.space && s.space->presence;
            });
        return result;
    }


    std::string errors(lh5::Issues const& issues)
    {
        return ldm::message(issues);
    }


    void valid(Case& c)
    {
        Options options;
        options.consistent = true;
        if (c.thorough())
        {
            options.max_property_sets = 4;
            options.max_properties = 5;
            options.max_ids = 10;
        }
        Model m = generate(c, options);
        describe(c, m);
        label(c, m);
        auto const path = c.path("dataset.lue");
        Builder b{c, m, path};
        b.build();
        auto const verify = [&](auto const& subject, std::string const& what)
        {
            lh5::Issues issues;
            ldm::validate(subject, issues);
            c.check(!issues.errors_found(), what + ": a consistent dataset is reported invalid: " + errors(issues));
            try
            {
                ldm::assert_is_valid(subject, false);
                if (!has_unsupported(m))
                {
                    ldm::assert_is_valid(subject);
                }
            }
            catch (std::runtime_error const& exception)
            {
                c.fail(what + ": asserting validity of a consistent dataset raises: " + exception.what());
            }
        };
        verify(*b.dataset, "as built");
        b.dataset.reset();
        verify(path, "by name");
        verify(lh5::File{path}, "by file");
        verify(*open(path), "opened");
        std::size_t nr_sets = 0;
        m.for_each_property_set([&](Where const&, PropertySetModel& s) { nr_sets += s.tracker->nr_sets() > 0; });
        if (nr_sets > 0 && m.nr_properties() > 0)
        {
            c.nontrivial();
        }
    }


    // ------------------------------------------------------------------------------------------- V02
    void resize(Arrays& a, std::size_t type, std::size_t n)
    {
        a.n = n;
        a.bytes.resize(n * nr_elements(a.shape) * size_of(type));
    }

    std::size_t other_count(Case& c, std::size_t n)
    {
        return n == 0 || c.boolean() ? n + 1 + c.draw(2) : c.draw(n - 1);
    }


    //! Make the model inconsistent in one way. Returns an empty string if this is not possible.
    std::string inject(Case& c, Model& m, std::size_t way)
    {
        using Candidates = std::vector<std::function<std::string()>>;
        Candidates candidates;
        m.for_each_phenomenon(
            [&](Where const& w, PhenomenonModel& p)
            {
                auto* phenomenon = &p;
                // Object IDs are validated together with property sets
                if (way == 0 && !p.ids.empty() && !p.property_sets.empty())
                {
                    candidates.push_back(
                        [&c, &m, w, phenomenon]() -> std::string
                        {
                            auto& ids = phenomenon->ids;
                            auto const id = c.pick(ids);
                            ids.insert(ids.begin() + c.draw(ids.size()), id);
                            // Counts still agree
                            for (auto& s: phenomenon->property_sets)
                            {
                                if (s.space && s.space->mobility == ldm::Mobility::stationary)
                                {
                                    s.space->n += 1;
                                    s.space->bytes.resize(s.space->n * s.space->width() * size_of(s.space->type));
                                }
                                for (auto& q: s.properties)
                                {
                                    if (q.kind == k_same) resize(q.arrays, q.type, ids.size());
                                }
                            }
                            return "object ID " + str(id) + " of " + str_where(m, w) + " twice";
                        });
                }
            });
        m.for_each_property_set(
            [&](Where const& w, PropertySetModel& s)
            {
                auto* set = &s;
                auto& t = *s.tracker;
                if (way == 1 && s.space)
                {
                    candidates.push_back(
                        [&c, &m, w, set]()
                        {
                            set->space->n = other_count(c, set->space->n);
                            set->space->bytes.resize(
                                set->space->n * set->space->width() * size_of(set->space->type));
                            return "number of coordinates of " + str_where(m, w) + " becomes " + str(set->space->n);
                        });
                }
                if (s.tracker_from)
                {
                    return;
                }
                if (way == 2 && !w.collection && !t.id.empty() && !m.phenomenon(w).ids.empty())
                {
                    candidates.push_back(
                        [&c, &m, w, set]()
                        {
                            auto const& ids = m.phenomenon(w).ids;
                            auto const i = c.draw(set->tracker->id.size() - 1);
                            hsize_t id = c.any64();
                            auto const& active = set->tracker->id;
                            while (std::count(ids.begin(), ids.end(), id) ||
                                   std::count(active.begin(), active.end(), id))
                            {
                                ++id;
                            }
                            set->tracker->id[i] = id;
                            return "active object " + str(i) + " of " + str_where(m, w) + " is unknown";
                        });
                }
                if (way == 3)
                {
                    for (std::size_t i = 0; i < t.nr_sets(); ++i)
                    {
                        if (t.set(i).size() > 1)
                        {
                            candidates.push_back(
                                [&c, &m, w, set, i]()
                                {
                                    auto& t = *set->tracker;
                                    auto const n = t.set(i).size();
                                    auto const a = c.draw(n - 1);
                                    auto const b = (a + 1 + c.draw(n - 2)) % n;
                                    t.id[t.set_idx[i] + a] = t.id[t.set_idx[i] + b];
                                    return "active object twice in set " + str(i) + " of " + str_where(m, w);
                                });
                        }
                    }
                }
                if (way == 4 && t.nr_sets() > 0)
                {
                    candidates.push_back(
                        [&c, &m, w, set]()
                        {
                            auto& t = *set->tracker;
                            auto const i = c.draw(t.nr_sets() - 1);
                            t.set_idx[i] = t.id.size() + 1 + (c.boolean() ? c.draw(3) : c.any64() / 2);
                            return "index of set " + str(i) + " of " + str_where(m, w) + " exceeds the number of objects";
                        });
                }
                if (way == 5)
                {
                    for (std::size_t i = 1; i < t.nr_sets(); ++i)
                    {
                        if (t.set_idx[i] > t.set_idx[i - 1] || t.set_idx[i] > 0)
                        {
                            candidates.push_back(
                                [&c, &m, w, set, i]() -> std::string
                                {
                                    auto& t = *set->tracker;
                                    if (t.set_idx[i - 1] == 0)
                                    {
                                        // Decrease from this one to the next
                                        if (i + 1 >= t.nr_sets()) return "";
                                        t.set_idx[i] = t.set_idx[i + 1] + 1;
                                        return "index of set " + str(i) + " of " + str_where(m, w) + " is larger than the next";
                                    }
                                    t.set_idx[i] = c.draw(t.set_idx[i - 1] - 1);
                                    return "index of set " + str(i) + " of " + str_where(m, w) + " decreases";
                                });
                        }
                    }
                }
                if (way == 14 && w.collection && t.id.size() > 1)
                {
                    // A collection is a single thing
                    candidates.push_back(
                        [&c, &m, w, set]()
                        {
                            auto& id = set->tracker->id;
                            auto const i = 1 + c.draw(id.size() - 2);
                            auto const old = id[i];
                            do id[i] = c.boolean() ? old + 1 + c.draw(3) : c.any64();
                            while (id[i] == old);
                            return "active object " + str(i) + " of " + str_where(m, w) + " is another one";
                        });
                }
                if (way == 15 && s.space && s.space->item == ldm::SpaceDomainItemType::point)
                {
                    for (std::size_t i = 0; i < s.properties.size(); ++i)
                    {
                        Where target = w;
                        target.property = i;
                        candidates.push_back(
                            [&m, w, set, target]()
                            {
                                set->space->presence = target;
                                return "presence in points of " + str_where(m, w) + " is discretized";
                            });
                    }
                }
                if (way == 15 && s.space && s.time && s.space->item == ldm::SpaceDomainItemType::box &&
                    s.space->mobility == ldm::Mobility::stationary)
                {
                    // Presence at other moments
                    m.for_each_property(
                        [&](Where const& target, PropertySetModel& other, PropertyModel& p)
                        {
                            bool const variable = p.kind == k_same_constant || p.kind == k_same_variable ||
                                                  p.kind == k_different_constant || p.kind == k_different_variable;
                            if (variable && other.time && other.time != set->time)
                            {
                                candidates.push_back(
                                    [&m, w, set, target, &p]()
                                    {
                                        set->space->presence = target;
                                        return "presence in boxes of " + str_where(m, w) + " is discretized by " +
                                               p.name + " of " + str_where(m, target) + ", with another time domain";
                                    });
                            }
                        });
                }
                if (way == 6 && !t.id.empty() && t.nr_sets() > 0)
                {
                    candidates.push_back(
                        [&m, w, set]()
                        {
                            set->tracker->set_idx.clear();
                            return "no set indices for the active objects of " + str_where(m, w);
                        });
                }
            });
        if (way == 7 || way == 8)
        {
            m.for_each_property_set(
                [&](Where const& w, PropertySetModel& s)
                {
                    auto* set = &s;
                    if (!s.time || s.time_from)
                    {
                        return;
                    }
                    if (way == 7 && s.time->items.size() > 1 && s.time->items.front() < s.time->items.back())
                    {
                        candidates.push_back(
                            [&c, &m, w, set]()
                            {
                                auto& items = set->time->items;
                                // Somewhere the coordinates increase: swap there
                                std::vector<std::size_t> where;
                                for (std::size_t i = 0; i + 1 < items.size(); ++i)
                                {
                                    if (items[i] < items[i + 1]) where.push_back(i);
                                }
                                auto const i = c.pick(where);
                                std::swap(items[i], items[i + 1]);
                                return "coordinate " + str(i) + " of time domain of " + str_where(m, w) +
                                       " is larger than the next";
                            });
                    }
                    if (way == 8)
                    {
                        candidates.push_back(
                            [&c, &m, w, set]()
                            {
                                auto& time = *set->time;
                                if (time.item == ldm::TimeDomainItemType::cell && c.boolean())
                                {
                                    if (!time.counts.empty() && c.boolean())
                                    {
                                        auto& count = time.counts[c.draw(time.counts.size() - 1)];
                                        if (count > 0 && c.boolean())
                                            count = c.draw(count - 1);
                                        else
                                            count += 1 + c.draw(3);
                                        return "a count of time cells of " + str_where(m, w);
                                    }
                                    time.counts.resize(other_count(c, time.counts.size()), 1);
                                    return "number of counts of time cells of " + str_where(m, w);
                                }
                                auto const n = other_count(c, time.nr_items());
                                time.items.resize(
                                    n * time.width(), time.items.empty() ? 0 : time.items.back());
                                if (time.item == ldm::TimeDomainItemType::cell && n == time.counts.size())
                                {
                                    time.counts.push_back(1);
                                }
                                return "number of locations in time of " + str_where(m, w) + " becomes " + str(n);
                            });
                    }
                });
        }
        m.for_each_property(
            [&](Where const& w, PropertySetModel& s, PropertyModel& p)
            {
                auto* property = &p;
                auto* set = &s;
                std::string const what = p.name + " of " + str_where(m, w);
                if (way == 9)
                {
                    switch (p.kind)
                    {
                        case k_same:
                        case k_same_constant:
                        {
                            candidates.push_back(
                                [&c, property, what]()
                                {
                                    resize(property->arrays, property->type, other_count(c, property->arrays.n));
                                    return "number of values of " + what + " becomes " + str(property->arrays.n);
                                });
                            break;
                        }
                        case k_different:
                        case k_different_constant:
                        {
                            candidates.push_back(
                                [&c, property, what]()
                                {
                                    auto& by_id = property->by_id;
                                    if (by_id.empty() || c.boolean())
                                    {
                                        hsize_t id = c.any64();
                                        while (by_id.count(id)) ++id;
                                        Arrays a;
                                        a.shape = lh5::Shape(property->rank, 1);
                                        resize(a, property->type, 1);
                                        by_id[id] = a;
                                        return "one object more in " + what;
                                    }
                                    by_id.erase(std::next(by_id.begin(), c.draw(by_id.size() - 1)));
                                    return "one object less in " + what;
                                });
                            break;
                        }
                        case k_same_variable:
                        {
                            candidates.push_back(
                                [&c, property, what]()
                                {
                                    auto& by_time = property->by_time;
                                    if (!by_time.empty() && c.boolean())
                                    {
                                        auto& a = std::next(by_time.begin(), c.draw(by_time.size() - 1))->second;
                                        resize(a, property->type, other_count(c, a.n));
                                        return "number of arrays at a location in time of " + what;
                                    }
                                    if (!by_time.empty() && c.boolean())
                                    {
                                        by_time.erase(std::prev(by_time.end()));
                                        return "one location in time less in " + what;
                                    }
                                    Arrays a;
                                    a.shape = lh5::Shape(property->rank, 1);
                                    by_time[by_time.size()] = a;
                                    return "one location in time more in " + what;
                                });
                            break;
                        }
                        case k_different_variable:
                        {
                            candidates.push_back(
                                [&c, property, what]()
                                {
                                    auto& at = property->by_time_id;
                                    if (!at.empty() && c.boolean())
                                    {
                                        at.erase(std::prev(at.end()));
                                        return "one location in time less in " + what;
                                    }
                                    at[at.size()];
                                    return "one location in time more in " + what;
                                });
                            break;
                        }
                    }
                }
                if (way == 10 && p.kind == k_different)
                {
                    // Another object than the one with the values
                    if (!p.by_id.empty())
                    {
                        candidates.push_back(
                            [&c, property, what]()
                            {
                                auto& by_id = property->by_id;
                                auto it = std::next(by_id.begin(), c.draw(by_id.size() - 1));
                                hsize_t id = c.any64();
                                while (by_id.count(id)) ++id;
                                by_id[id] = it->second;
                                by_id.erase(it);
                                return "values of an unknown object instead of those of a known one in " + what;
                            });
                    }
                }
                if (way == 10 && p.kind == k_different_constant && !p.by_id.empty())
                {
                    candidates.push_back(
                        [&c, property, what]()
                        {
                            auto& by_id = property->by_id;
                            auto it = std::next(by_id.begin(), c.draw(by_id.size() - 1));
                            if (c.boolean())
                            {
                                resize(it->second, property->type, it->second.n - 1);
                                return "too few arrays for an object in " + what;
                            }
                            hsize_t id = c.any64();
                            while (by_id.count(id)) ++id;
                            by_id[id] = it->second;
                            by_id.erase(it);
                            return "values of an unknown object instead of those of a known one in " + what;
                        });
                }
                if (way == 11 && p.kind == k_different_constant && !s.tracker->object_idx.empty() && !s.tracker_from)
                {
                    candidates.push_back(
                        [&c, set, what]()
                        {
                            auto& idx = set->tracker->object_idx;
                            if (c.boolean())
                            {
                                idx.resize(c.draw(idx.size() - 1));
                                return "too few object indices for " + what;
                            }
                            auto const i = c.draw(idx.size() - 1);
                            idx[i] = idx.size() + c.draw(5) + 1000;
                            return "object index " + str(i) + " for " + what + " is too large";
                        });
                }
                if (way == 12 && p.space_discretization)
                {
                    candidates.push_back(
                        [&c, &m, property, what]()
                        {
                            auto& counts = m.property(*property->space_discretization);
                            do
                            {
                                counts.type = c.draw(nr_types - 1);
                            } while (is_unsigned(counts.type));
                            resize(counts.arrays, counts.type, counts.arrays.n);
                            return "counts of " + what + " are not unsigned";
                        });
                }
                if (way == 16 && (p.kind == k_different || p.kind == k_different_constant))
                {
                    // Constant shapes require constant counts
                    for (std::size_t i = 0; i < s.properties.size(); ++i)
                    {
                        auto const kind = s.properties[i].kind;
                        if (kind != k_same && &s.properties[i] != &p)
                        {
                            Where target = w;
                            target.property = i;
                            candidates.push_back(
                                [property, target, what]()
                                {
                                    property->space_discretization = target;
                                    return "space of " + what + " is discretized by another kind of property";
                                });
                        }
                    }
                }
                if (way == 16 && p.kind == k_same_constant && !w.collection && !s.tracker->id.empty())
                {
                    // A single shape requires a single count, or counts of the same shape
                    for (std::size_t i = 0; i < s.properties.size(); ++i)
                    {
                        auto const& q = s.properties[i];
                        if ((q.kind == k_same && q.arrays.n != 1) || q.kind == k_different)
                        {
                            Where target = w;
                            target.property = i;
                            candidates.push_back(
                                [property, target, what]()
                                {
                                    property->space_discretization = target;
                                    return "space of " + what + " is discretized for each object";
                                });
                        }
                    }
                }
                if (way == 13 && p.kind == k_same_variable && s.properties.size() > 1)
                {
                    for (std::size_t i = 0; i < s.properties.size(); ++i)
                    {
                        auto const kind = s.properties[i].kind;
                        if (kind != k_same_constant && &s.properties[i] != &p)
                        {
                            Where target = w;
                            target.property = i;
                            candidates.push_back(
                                [property, target, what]()
                                {
                                    property->time_discretization = target;
                                    return "time of " + what + " is discretized by another kind of property";
                                });
                        }
                    }
                }
            });
        if (candidates.empty())
        {
            return "";
        }
        return candidates[c.draw(candidates.size() - 1)]();
    }


    //! All issues are in the report, errors first
    void check_report(Case& c, lh5::Issues const& issues)
    {
        std::string const report = ldm::message(issues);
        std::size_t const n = issues.errors().size() + issues.warnings().size();
        std::size_t nr = 0;
        for (std::size_t at = 0; (at = report.find("\n- [" + str(nr + 1) + "/" + str(n) + "] ", at)) != std::string::npos;
             ++at)
        {
            ++nr;
        }
        c.equal(nr, n, "number of issues in the report");
        for (auto const& e: issues.errors())
        {
            c.check(report.find("error: " + e.message()) != std::string::npos, "an error is not in the report");
            c.check(report.find(e.id().pathname() + ":\n") != std::string::npos, "the object of an error is not in the report");
        }
        for (auto const& w: issues.warnings())
        {
            c.check(report.find("warning: " + w.message()) != std::string::npos, "a warning is not in the report");
            c.check(
                report.find(w.id().pathname() + ":\n") != std::string::npos, "the object of a warning is not in the report");
        }
        c.check(report.find("error: ") < report.find("warning: "), "the report does not start with an error");
    }


    void invalid(Case& c)
    {
        Options options;
        options.consistent = true;
        Model m = generate(c, options);
        auto const way = c.draw(16);
        auto const what = inject(c, m, way);
        if (what.empty())
        {
            c.discard();
        }
        describe(c, m);
        c.notes("inconsistency: ", what);
        c.label("way " + std::to_string(way));
        auto const path = c.path("dataset.lue");
        Builder b{c, m, path, 2};
        b.build();
        auto const verify = [&](auto const& subject, std::string const& how)
        {
            lh5::Issues issues;
            ldm::validate(subject, issues);
            c.check(issues.errors_found(), how + ": no error is reported: " + what);
            check_report(c, issues);
            c.refused([&]() { ldm::assert_is_valid(subject, false); }, how + ": asserting validity: " + what);
            c.refused([&]() { ldm::assert_is_valid(subject); }, how + ": asserting validity: " + what);
        };
        verify(*b.dataset, "as built");
        b.dataset.reset();
        verify(path, "by name");
        verify(*open(path), "opened");
        c.nontrivial();
    }

}  // namespace


int main(int argc, char** argv)
{
    std::vector<pt::Property> properties{
        {"D01",
            "a case is a random tree of universes, phenomena, property sets (all ways to make one) and properties (all "
            "6 kinds), built in random order with reopening half-way, compared in full with its model as built, "
            "opened for reading and for writing, and through a copied handle; non-trivial: at least two properties",
            round_trip, 3000, 40000, quiet},
        {"D02",
            "a case is a dataset and 1-6 operations that must be refused (names in use for all items and all pairs of "
            "kinds of properties, missing items, unsupported arguments and names), each followed by a full comparison "
            "with the model, mixed with valid additions and reopening; non-trivial: an operation was refused",
            refused_operations, 2500, 30000, quiet},
        {"D03",
            "a case is a dataset in which property sets share trackers and time domains and 1-9 additions through "
            "random ones, after each of which all property sets are compared with the model; non-trivial: something "
            "is shared",
            sharing, 4000, 40000, quiet},
        {"D04",
            "a case is a dataset opened for reading, read and validated in full, and 1-6 attempts to change it; the "
            "file must stay the same byte for byte; then it is opened for writing, closed and compared; non-trivial: "
            "there is a property and a change was refused",
            read_only, 2500, 30000, quiet},
        {"D06",
            "a case is a dataset built by another process that flushes and is killed, or closes and ends; the file is "
            "compared in full with the model and changed; non-trivial: there is a property",
            crash, 2500, 25000, quiet},
        {"V01",
            "a case is a consistent dataset validated as built, by name, by file and opened again; non-trivial: there "
            "are properties and active sets",
            valid, 3000, 40000, quiet},
        {"V02",
            "a case is a consistent dataset with one inconsistency of one of 17 ways; all are non-trivial", invalid,
            4000, 50000, quiet},
    };
    return pt::main(argc, argv, properties);
}
