// R01, R02: raster views, and finding rasters
#include "common.hpp"
#include "lue/data_model.hpp"
#include "lue/data_model/hl/raster_view.hpp"
#include "lue/data_model/hl/util.hpp"
#include "lue/validate.hpp"

using namespace vp;
namespace ldm = lue::data_model;


namespace {

    char const* const time_grid = "time_grid_shape";
    char const* const space_grid = "space_grid_shape";

    struct LayerBase
    {
            std::size_t type{0};
            virtual ~LayerBase() = default;
    };

    template<typename T>
    struct Layer: LayerBase
    {
            Elements<T> elements;
    };


    //! What is known about a raster
    struct Raster
    {
            std::string phenomenon, property_set;
            bool variable{false};
            lh5::Shape shape;
            std::array<double, 4> space_box{};
            std::array<std::uint64_t, 2> time_box{};
            std::uint64_t nr_steps{1};
            std::optional<ldm::Clock> clock;
            std::map<std::string, std::shared_ptr<LayerBase>> layers;
            std::set<std::string> other_properties;

            std::size_t nr_cells() const
            {
                return shape[0] * shape[1];
            }
    };


    template<typename Ptr>
    struct World
    {
            std::string path;
            std::shared_ptr<ldm::Dataset> dataset;
            std::map<std::string, std::optional<ldm::ID>> object_id;  // By name of phenomenon
            std::vector<Raster> rasters;
            std::vector<std::unique_ptr<ldm::constant::RasterView<Ptr>>> constant_views;
            std::vector<std::unique_ptr<ldm::variable::RasterView<Ptr>>> variable_views;

            Ptr ptr()
            {
                if constexpr (std::is_pointer_v<Ptr>)
                    return dataset.get();
                else
                    return dataset;
            }

            void close()
            {
                constant_views.clear();
                variable_views.clear();
                dataset.reset();
            }

            void open(unsigned int flags = H5F_ACC_RDWR)
            {
                close();
                dataset = std::make_shared<ldm::Dataset>(ldm::open_dataset(path, flags));
                for (auto const& r: rasters)
                {
                    constant_views.emplace_back();
                    variable_views.emplace_back();
                    open_view(r);
                }
            }

            void open_view(Raster const& raster)
            {
                std::size_t const i = std::size_t(&raster - rasters.data());
                if (raster.variable)
                    variable_views[i] = std::make_unique<ldm::variable::RasterView<Ptr>>(
                        ldm::variable::open_raster_view(ptr(), raster.phenomenon, raster.property_set));
                else
                    constant_views[i] = std::make_unique<ldm::constant::RasterView<Ptr>>(
                        ldm::constant::open_raster_view(ptr(), raster.phenomenon, raster.property_set));
            }

            template<typename F>
            void with_view(std::size_t i, F&& f)
            {
                if (rasters[i].variable)
                    f(*variable_views[i]);
                else
                    f(*constant_views[i]);
            }
    };


    double coordinate(Case& c)
    {
        return c.value<double>();
    }


    ldm::Clock clock(Case& c)
    {
        using namespace ldm::time;
        Unit const unit = c.pick({Unit::day, Unit::second, Unit::minute, Unit::hour, Unit::week, Unit::month, Unit::year});
        TickPeriodCount const n = 1 + c.draw(50);
        switch (c.draw(2))
        {
            case 0: return ldm::Clock{unit, n};
            case 1: return ldm::Clock{Epoch{Epoch::Kind::common_era}, unit, n};
            default:
                return ldm::Clock{
                    Epoch{Epoch::Kind::common_era, "2019-01-02", Calendar::gregorian}, unit, n};
        }
    }


    lh5::Hyperslab window(Case& c, lh5::Shape const& shape, std::vector<std::size_t>& cells, std::size_t plane = 0,
        bool with_plane = false)
    {
        std::size_t const r0 = c.draw(shape[0] - 1);
        std::size_t const c0 = c.draw(shape[1] - 1);
        std::size_t const nr = 1 + c.draw(shape[0] - r0 - 1);
        std::size_t const nc = 1 + c.draw(shape[1] - c0 - 1);
        for (std::size_t i = 0; i < nr; ++i)
            for (std::size_t j = 0; j < nc; ++j)
                cells.push_back(plane * shape[0] * shape[1] + (r0 + i) * shape[1] + c0 + j);
        lh5::Offset start;
        lh5::Count count;
        if (with_plane)
        {
            start = {0, plane};
            count = {1, 1};
        }
        start.push_back(r0);
        start.push_back(c0);
        count.push_back(nr);
        count.push_back(nc);
        return lh5::Hyperslab{start, count};
    }


    template<typename T, typename Ptr>
    void write_layer(Case& c, World<Ptr>& w, std::size_t i, std::string const& name, Layer<T>& layer)
    {
        Raster& raster = w.rasters[i];
        std::size_t const n = raster.nr_cells();
        auto const how = c.draw(2);

        auto partial = [&](std::vector<std::size_t> const& cells, auto&& write)
        {
            auto const v = values<T>(c, cells.size());
            write(v.data());
            for (std::size_t k = 0; k < cells.size(); ++k) layer.elements.write(cells[k], {v[k]});
        };

        if (raster.variable)
        {
            auto l = w.variable_views[i]->layer(name);
            std::size_t const step = c.draw(raster.nr_steps - 1);
            if (how == 0)
            {
                std::size_t const end = step + 1 + c.draw(raster.nr_steps - step - 1);
                c.notes("write layer ", name, ", steps ", step, "-", end);
                auto const v = values<T>(c, n * (end - step));
                l.write(
                    lh5::Hyperslab{lh5::Offset{0, step, 0, 0}, lh5::Count{1, end - step, raster.shape[0], raster.shape[1]}},
                    v.data());
                layer.elements.write(step * n, v);
            }
            else if (how == 1)
            {
                c.notes("write layer ", name);
                auto const v = values<T>(c, n * raster.nr_steps);
                l.write(ldm::Index(0), v.data());
                layer.elements.write(0, v);
            }
            else
            {
                std::vector<std::size_t> cells;
                auto const slab = window(c, raster.shape, cells, step, true);
                c.notes("write window of layer ", name, ", step ", step);
                partial(cells, [&](T const* b) { l.write(slab, b); });
            }
        }
        else
        {
            auto l = w.constant_views[i]->layer(name);
            if (how == 2)
            {
                std::vector<std::size_t> cells;
                auto const slab = window(c, raster.shape, cells);
                c.notes("write window of layer ", name);
                partial(cells, [&](T const* b) { l.write(slab, b); });
            }
            else
            {
                c.notes("write layer ", name);
                auto const v = values<T>(c, n);
                l.write(v.data());
                layer.elements.write(0, v);
            }
        }
    }


    template<typename T, typename Ptr>
    void verify_layer(Case& c, World<Ptr>& w, std::size_t i, std::string const& name, Layer<T>& layer)
    {
        Raster& raster = w.rasters[i];
        std::size_t const n = raster.nr_cells();
        auto const what = "layer " + name;
        if (raster.variable)
        {
            auto const l = w.variable_views[i]->layer(name);
            c.check(
                l.array_shape() == lh5::Shape{raster.nr_steps, raster.shape[0], raster.shape[1]},
                what + ": array shape " + str_shape(l.array_shape()));
            c.equal(l.nr_arrays(), 1u, what + ": number of arrays");
            c.check(l.memory_datatype() == datatype<T>(), what + ": datatype");
            layer.elements.verify(c, 0, n * raster.nr_steps, what + ", whole", [&](void* b) { l.read(b); });
            std::size_t const step = c.draw(raster.nr_steps - 1);
            layer.elements.verify(
                c, step * n, n, what + ", step " + str(step),
                [&](void* b)
                {
                    l.read(
                        lh5::Hyperslab{lh5::Offset{0, step, 0, 0}, lh5::Count{1, 1, raster.shape[0], raster.shape[1]}},
                        b);
                });
        }
        else
        {
            auto const l = w.constant_views[i]->layer(name);
            c.check(l.shape() == raster.shape, what + ": shape " + str_shape(l.shape()));
            c.check(l.memory_datatype() == datatype<T>(), what + ": datatype");
            layer.elements.verify(c, 0, n, what + ", whole", [&](void* b) { l.read(b); });
        }
    }


    template<typename Ptr>
    void verify(Case& c, World<Ptr>& w, bool data = true)
    {
        std::size_t i = 0;
        for (auto& raster: w.rasters)
        {
            auto const what = "raster " + raster.phenomenon + "/" + raster.property_set;
            w.with_view(
                i,
                [&](auto& view)
                {
                    c.equal(view.phenomenon_name(), raster.phenomenon, what + ": phenomenon name");
                    c.equal(view.property_set_name(), raster.property_set, what + ": property-set name");
                    c.equal(view.object_id(), *w.object_id[raster.phenomenon], what + ": object ID");
                    c.check(
                        std::memcmp(view.space_box().data(), raster.space_box.data(), 32) == 0, what + ": space box");
                    c.check(view.grid_shape() == raster.shape, what + ": grid shape " + str_shape(view.grid_shape()));
                    c.equal(view.nr_layers(), raster.layers.size(), what + ": number of layers");
                    auto const names = view.layer_names();
                    std::set<std::string> const set(names.begin(), names.end());
                    std::set<std::string> expected;
                    for (auto const& l: raster.layers) expected.insert(l.first);
                    c.check(
                        set == expected && names.size() == expected.size(),
                        what + ": layer names " + str(names));
                    for (auto const& name: expected) c.check(view.contains(name), what + ": contains " + name);
                    for (auto const& name: raster.other_properties)
                        c.check(!view.contains(name), what + ": contains " + name);
                    c.check(!view.contains(space_grid), what + ": discretization property is a layer");
                    c.check(&*view == w.dataset.get(), what + ": view does not manage its dataset");
                    c.refused([&]() { view.layer("none of these"); }, what + ": layer that does not exist");
                    if constexpr (requires { view.time_box(); })
                    {
                        c.check(view.time_box() == raster.time_box, what + ": time box");
                        c.equal(view.nr_time_steps(), raster.nr_steps, what + ": number of time steps");
                        auto& ps = (*w.dataset).phenomena()[raster.phenomenon].property_sets()[raster.property_set];
                        c.check(ps.time_domain().clock() == *raster.clock, what + ": clock");
                    }
                });
            c.equal(
                ldm::constant::contains_raster(*w.dataset, raster.phenomenon, raster.property_set), !raster.variable,
                what + ": contains constant raster");
            c.equal(
                ldm::variable::contains_raster(*w.dataset, raster.phenomenon, raster.property_set), raster.variable,
                what + ": contains variable raster");
            if (data)
            {
                for (auto& [name, layer]: raster.layers)
                {
                    with_type(
                        layer->type,
                        [&, name = name]<typename T>()
                        { verify_layer<T>(c, w, i, name, static_cast<Layer<T>&>(*layer)); });
                }
            }
            ++i;
        }
    }


    template<typename Ptr>
    void create(Case& c, World<Ptr>& w)
    {
        Raster raster;
        raster.variable = c.boolean();
        // Existing phenomena often
        if (!w.object_id.empty() && c.chance(60))
        {
            auto it = w.object_id.begin();
            std::advance(it, c.draw(w.object_id.size() - 1));
            raster.phenomenon = it->first;
        }
        else
        {
            raster.phenomenon = c.name();
        }
        raster.property_set = c.pick({std::string("area"), std::string("x"), c.name()});
        raster.shape = lh5::Shape{1 + c.draw(c.chance(20) ? 40 : 6), 1 + c.draw(c.chance(20) ? 40 : 6)};
        for (auto& v: raster.space_box) v = coordinate(c);
        if (raster.variable)
        {
            raster.nr_steps = 1 + c.draw(c.chance(20) ? 30 : 5);
            if (c.chance(4))
            {
                raster.nr_steps = 300 + c.draw(800);
                raster.shape = lh5::Shape{1 + c.draw(2), 1 + c.draw(2)};
            }
            raster.time_box = {c.any64(), c.any64()};
            std::sort(raster.time_box.begin(), raster.time_box.end());
            raster.clock = clock(c);
        }
        bool const exists = std::any_of(
            w.rasters.begin(), w.rasters.end(),
            [&](auto const& r)
            { return r.phenomenon == raster.phenomenon && r.property_set == raster.property_set; });
        c.notes(
            "create ", raster.variable ? "variable" : "constant", " raster ", raster.phenomenon, "/",
            raster.property_set, ", ", raster.variable ? str(raster.nr_steps) + " x " : "", str_shape(raster.shape),
            exists ? " (exists)" : "");

        auto make = [&]()
        {
            if (raster.variable)
            {
                auto view = std::make_unique<ldm::variable::RasterView<Ptr>>(ldm::variable::create_raster_view(
                    w.ptr(), raster.phenomenon, raster.property_set, *raster.clock, ldm::Count(raster.nr_steps),
                    raster.time_box, raster.shape, raster.space_box));
                w.variable_views.push_back(std::move(view));
                w.constant_views.emplace_back();
            }
            else
            {
                auto view = std::make_unique<ldm::constant::RasterView<Ptr>>(ldm::constant::create_raster_view(
                    w.ptr(), raster.phenomenon, raster.property_set, raster.shape, raster.space_box));
                w.constant_views.push_back(std::move(view));
                w.variable_views.emplace_back();
            }
        };

        if (exists)
        {
            c.refused(make, "creating a raster twice");
            c.label("raster exists");
        }
        else
        {
            make();
            auto& id = w.object_id[raster.phenomenon];
            if (!id)
            {
                // Any ID will do
                ldm::ID actual{};
                auto& phenomenon = w.dataset->phenomena()[raster.phenomenon];
                c.equal(phenomenon.object_id().nr_objects(), 1u, "number of objects");
                phenomenon.object_id().read(&actual);
                id = actual;
            }
            w.rasters.push_back(raster);
        }
    }


    template<typename T, typename View>
    void add_layer(Case& c, View& view, Raster& raster, std::string const& name, std::size_t type)
    {
        auto layer = std::make_shared<Layer<T>>();
        layer->type = type;
        bool const taken =
            raster.layers.count(name) || raster.other_properties.count(name) || name == space_grid ||
            (raster.variable && name == time_grid);
        std::optional<T> no_data;
        if (!raster.variable && c.boolean()) no_data = c.value<T>();
        int const how = int(c.draw(1));
        c.notes(
            "add layer ", name, " of ", type_name<T>(), no_data ? ", no-data " + str(*no_data) : "",
            taken ? " (name taken)" : "");
        auto const v = values<T>(c, raster.nr_cells());
        bool const written = c.boolean();
        auto add = [&]()
        {
            std::optional<typename View::Layer> l;
            if constexpr (std::is_same_v<typename View::Layer, ldm::Array>)
            {
                if (no_data)
                    l = how ? view.template add_layer<T>(name, *no_data)
                            : view.add_layer(name, datatype<T>(), &*no_data);
                else
                    l = how ? view.template add_layer<T>(name) : view.add_layer(name, datatype<T>());
                if (written) l->write(v.data());
            }
            else
            {
                l = how ? view.template add_layer<T>(name) : view.add_layer(name, datatype<T>());
                if (written)
                    l->write(
                        lh5::Hyperslab{lh5::Offset{0, 0, 0, 0}, lh5::Count{1, 1, raster.shape[0], raster.shape[1]}},
                        v.data());
            }
        };
        if (taken)
        {
            c.refused(add, "adding layer " + name + ", a name that is taken");
            c.label("layer name taken");
            return;
        }
        add();
        layer->elements.assign(raster.nr_cells() * raster.nr_steps, no_data);
        if (written) layer->elements.write(0, v);
        raster.layers[name] = layer;
    }


    template<typename Ptr>
    void history(Case& c)
    {
        World<Ptr> w;
        w.path = c.path("d.lue");
        w.dataset = std::make_shared<ldm::Dataset>(ldm::create_dataset(w.path));

        // Things that are there already
        if (c.boolean())
        {
            std::string const name = c.name();
            auto& phenomenon = w.dataset->add_phenomenon(name);
            w.object_id[name];
            if (c.boolean())
            {
                ldm::ID id = c.any64();
                phenomenon.object_id().expand(1);
                phenomenon.object_id().write(0, &id);
                w.object_id[name] = id;
                c.notes("phenomenon ", name, " with object ", id);
            }
            else
            {
                c.notes("phenomenon ", name, " without objects");
            }
        }

        std::size_t const nr_steps = 1 + c.size(2, c.thorough() ? 40 : 14);
        std::size_t nr_layers = 0;
        bool reopened = false;
        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            if (w.rasters.empty())
            {
                create(c, w);
                continue;
            }
            std::size_t const i = c.draw(w.rasters.size() - 1);
            auto& raster = w.rasters[i];
            switch (c.draw(9))
            {
                case 0:
                {
                    if (w.rasters.size() < 4) create(c, w);
                    break;
                }
                case 1:
                case 2:
                case 3:
                {
                    std::string name = c.name();
                    if (c.chance(25))
                    {
                        std::vector<std::string> names{space_grid};
                        if (raster.variable) names.push_back(time_grid);
                        for (auto const& l: raster.layers) names.push_back(l.first);
                        for (auto const& p: raster.other_properties) names.push_back(p);
                        name = c.pick(names);
                    }
                    if (!raster.variable && name == time_grid) break;
                    std::size_t const type = c.draw(nr_types - 1);
                    with_type(
                        type,
                        [&]<typename T>()
                        { w.with_view(i, [&](auto& view) { add_layer<T>(c, view, raster, name, type); }); });
                    nr_layers += 1;
                    break;
                }
                case 4:
                case 5:
                {
                    if (!raster.layers.empty())
                    {
                        auto it = raster.layers.begin();
                        std::advance(it, c.draw(raster.layers.size() - 1));
                        with_type(
                            it->second->type,
                            [&]<typename T>()
                            { write_layer<T>(c, w, i, it->first, static_cast<Layer<T>&>(*it->second)); });
                    }
                    break;
                }
                case 6:
                {
                    c.note("reopen");
                    w.open();
                    reopened = true;
                    break;
                }
                case 7:
                {
                    // Another property than a layer
                    std::string const name = c.name();
                    if (raster.layers.count(name) || raster.other_properties.count(name) || name == space_grid ||
                        name == time_grid)
                        break;
                    auto& properties =
                        w.dataset->phenomena()[raster.phenomenon].property_sets()[raster.property_set].properties();
                    auto const kind = c.draw(3);
                    c.notes("add property ", name, " that is no layer, kind ", kind);
                    if (kind == 3)
                    {
                        // Discretized like the layers of another raster
                        auto const& other = w.rasters[c.draw(w.rasters.size() - 1)];
                        if (&other == &raster) break;
                        auto properties_of = [&](Raster const& r) -> ldm::Properties&
                        {
                            return w.dataset->phenomena()[r.phenomenon].property_sets()[r.property_set].properties();
                        };
                        using Constant = ldm::same_shape::constant_shape::Properties;
                        using Layers = ldm::different_shape::constant_shape::Properties;
                        auto& d = properties_of(other).template collection<ldm::same_shape::Properties>()[space_grid];
                        auto const id = *w.object_id[raster.phenomenon];
                        if (!raster.variable)
                        {
                            auto& p = properties.add(name, datatype<double>(), ldm::Rank(2));
                            p.value().expand(id, other.shape);
                            p.set_space_discretization(ldm::SpaceDiscretization::regular_grid, d);
                        }
                        else
                        {
                            auto& p = properties.template collection<Layers>().add(name, datatype<double>(), ldm::Rank(3));
                            bool const own_space = other.variable && c.boolean();
                            auto const& shape = own_space ? raster.shape : other.shape;
                            auto const& timed = own_space ? other : raster;
                            p.value().expand(id, lh5::Shape{timed.nr_steps, shape[0], shape[1]}, 1);
                            p.set_time_discretization(
                                ldm::TimeDiscretization::regular_grid,
                                properties_of(timed).template collection<Constant>()[time_grid]);
                            p.set_space_discretization(
                                ldm::SpaceDiscretization::regular_grid,
                                own_space ? properties.template collection<ldm::same_shape::Properties>()[space_grid] : d);
                        }
                        c.label("discretized like another raster");
                    }
                    else if (kind == 0)
                    {
                        auto& p = properties.template add<ldm::same_shape::Property>(name, datatype<double>());
                        double const v = 3;
                        p.value().expand(1);
                        p.value().write(0, &v);
                    }
                    else if (kind == 1 || raster.variable)
                    {
                        // Not discretized
                        auto& p = properties.add(name, datatype<double>(), ldm::Rank(2));
                        p.value().expand(*w.object_id[raster.phenomenon], lh5::Shape{2, 2});
                    }
                    else
                    {
                        // Discretized otherwise
                        std::string const other = name + "_shape";
                        if (raster.layers.count(other) || raster.other_properties.count(other)) break;
                        auto& d = properties.template add<ldm::same_shape::Property>(
                            other, datatype<std::uint64_t>(), lh5::Shape{2});
                        std::uint64_t const v[] = {2, 2};
                        d.value().expand(1);
                        d.value().write(0, v);
                        auto& p = properties.add(name, datatype<double>(), ldm::Rank(2));
                        p.value().expand(*w.object_id[raster.phenomenon], lh5::Shape{2, 2});
                        p.set_space_discretization(ldm::SpaceDiscretization::regular_grid, d);
                        raster.other_properties.insert(other);
                    }
                    raster.other_properties.insert(name);
                    break;
                }
                case 8:
                {
                    // Views are values
                    auto const how = c.draw(2);
                    c.notes(how == 0 ? "copy" : how == 1 ? "move" : "open", " view of raster ", i);
                    auto again = [&](auto& views)
                    {
                        using View = std::decay_t<decltype(*views[i])>;
                        if (how == 0)
                        {
                            auto copy = std::make_unique<View>(*views[i]);
                            views[i] = std::move(copy);
                        }
                        else if (how == 1)
                        {
                            auto copy = std::make_unique<View>(std::move(*views[i]));
                            views[i] = std::move(copy);
                        }
                        else
                        {
                            w.open_view(raster);
                        }
                    };
                    if (raster.variable)
                        again(w.variable_views);
                    else
                        again(w.constant_views);
                    break;
                }
                default:
                {
                    // Two views of a raster
                    if (raster.layers.empty()) break;
                    c.note("second view adds a layer");
                    auto const name = raster.layers.begin()->first + "_2";
                    if (raster.layers.count(name) || raster.other_properties.count(name)) break;
                    auto twice = [&](auto& view)
                    {
                        auto other = view;
                        add_layer<float>(c, other, raster, name, 4);
                        c.check(other.contains(name), "view lost a layer");
                        c.refused(
                            [&]() { view.template add_layer<float>(name); }, "adding layer " + name + " in another view");
                        view = other;
                    };
                    w.with_view(i, twice);
                }
            }
            if (c.chance(10)) verify(c, w);
        }
        verify(c, w);
        // What is there is valid
        {
            lh5::Issues issues;
            ldm::validate(*w.dataset, issues);
            if (issues.errors_found())
            {
                c.fail("dataset with rasters is not valid: " + std::string(issues.errors().begin()->message()));
            }
        }
        w.open(c.boolean() ? H5F_ACC_RDWR : H5F_ACC_RDONLY);
        verify(c, w);
        c.refused(
            [&]() { ldm::constant::open_raster_view(w.ptr(), "no such thing", "area"); },
            "opening raster of a phenomenon that does not exist");
        c.refused(
            [&]() { ldm::variable::open_raster_view(w.ptr(), w.rasters[0].phenomenon, "no such thing"); },
            "opening raster of a property set that does not exist");
        for (auto const& raster: w.rasters)
        {
            c.label(raster.variable ? "variable raster" : "constant raster");
        }
        if (nr_layers >= 2 && (w.rasters.size() >= 2 || reopened)) c.nontrivial();
    }


    void r01(Case& c)
    {
        if (c.boolean())
            history<std::shared_ptr<ldm::Dataset>>(c);
        else
            history<ldm::Dataset*>(c);
    }


    // ---------------------------------------------------------------- R02
    std::string part(Case& c)
    {
        std::string r;
        std::size_t const n = 1 + c.draw(7);
        static std::string const alphabet = "abcXYZ019_ .-:\\#%{}\xc3\xa9";
        for (std::size_t i = 0; i < n; ++i) r += c.pick(alphabet);
        return r;
    }


    void paths(Case& c)
    {
        if (c.chance(40))
        {
            // Three parts
            if (c.boolean())
            {
                std::array<std::string, 3> const parts{part(c), part(c), part(c)};
                std::string const path = parts[0] + "/" + parts[1] + "/" + parts[2];
                c.notes("three parts: ", path);
                auto const actual = lue::parse_array_pathname3(path);
                for (std::size_t i = 0; i < 3; ++i) c.equal(actual[i], parts[i], "part " + str(i) + " of " + path);
            }
            else
            {
                std::size_t n = 1 + c.draw(6);
                if (n == 3) n = 4;
                std::string path = part(c);
                for (std::size_t i = 1; i < n; ++i) path += "/" + part(c);
                c.notes("not three parts: ", path);
                c.refused([&]() { lue::parse_array_pathname3(path); }, "parsing " + path);
            }
            return;
        }
        bool const absolute = c.boolean();
        std::size_t const n = c.chance(20) ? c.draw(absolute ? 2 : 2) : 1 + c.draw(4);
        std::string dataset = absolute ? "/" : "";
        for (std::size_t i = 0; i < n; ++i)
        {
            dataset += part(c);
            if (i + 1 < n) dataset += "/";
        }
        std::array<std::string, 3> const parts{part(c), part(c), part(c)};
        if (n == 0)
        {
            // Fewer than four parts
            std::size_t const k = c.draw(3);
            std::string path;
            for (std::size_t i = 0; i < k; ++i) path += (i ? "/" : "") + parts[i];
            c.notes("too few parts: ", path);
            c.refused([&]() { lue::parse_array_pathname(path); }, "parsing " + path);
            return;
        }
        std::string const path = dataset + "/" + parts[0] + "/" + parts[1] + "/" + parts[2];
        c.notes("path: ", path);
        auto const actual = lue::parse_array_pathname(path);
        c.equal(actual[0], dataset, "dataset of " + path);
        for (std::size_t i = 0; i < 3; ++i) c.equal(actual[i + 1], parts[i], "part " + str(i + 1) + " of " + path);
    }


    void probe(Case& c)
    {
        std::string const path = c.path("some data.lue");
        std::string const ph = c.name(), ps = c.name(), layer = c.name();
        std::size_t const type = c.draw(nr_types - 1);
        bool const variable = c.boolean();
        lh5::Shape const shape{1 + c.draw(30), 1 + c.draw(30)};
        std::uint64_t const nr_steps = 1 + c.draw(9);
        ldm::ID id = c.any64();
        bool const own_id = c.boolean();
        c.notes(
            "probe ", variable ? "variable " : "constant ", ph, "/", ps, "/", layer, ", ", str_shape(shape), ", type ",
            type);
        with_type(
            type,
            [&]<typename T>()
            {
                {
                    auto dataset = ldm::create_dataset(path);
                    if (own_id)
                    {
                        auto& phenomenon = dataset.add_phenomenon(ph);
                        phenomenon.object_id().expand(1);
                        phenomenon.object_id().write(0, &id);
                    }
                    if (variable)
                    {
                        auto view = ldm::variable::create_raster_view(
                            &dataset, ph, ps, clock(c), nr_steps, {0, nr_steps}, shape, {0, 0, 1, 1});
                        if (!own_id) id = view.object_id();
                        view.add_layer<T>(layer);
                        view.add_layer<double>(layer + "b");
                    }
                    else
                    {
                        auto view = ldm::constant::create_raster_view(&dataset, ph, ps, shape, {0, 0, 1, 1});
                        if (!own_id) id = view.object_id();
                        view.add_layer<T>(layer);
                        view.add_layer<double>(layer + "b");
                    }
                }
                auto const [i, s, d] = variable ? ldm::variable::probe_raster(path, ph, ps, layer)
                                                : ldm::constant::probe_raster(path, ph, ps, layer);
                c.equal(i, id, "object ID");
                c.check(s == shape, "shape " + str_shape(s));
                c.check(d == datatype<T>(), "element type");
                // Native types of this machine are little endian
                auto missing = [&](std::string const& a, std::string const& b, std::string const& l)
                {
                    c.refused(
                        [&]()
                        {
                            if (variable)
                                ldm::variable::probe_raster(path, a, b, l);
                            else
                                ldm::constant::probe_raster(path, a, b, l);
                        },
                        "probing layer that does not exist");
                };
                missing(ph, ps, layer + "c");
                missing(ph, ps + "c", layer);
                missing(ph + "c", ps, layer);
            });
    }


    //! A property set that is a raster, except for what is wrong about it
    void predicate(Case& c)
    {
        auto dataset = ldm::create_in_memory_dataset(c.path("d.lue"));
        auto const defect = c.draw(20);
        bool const variable = c.boolean();
        bool ok = true;
        std::string note;
        auto wrong = [&](std::size_t i, char const* what)
        {
            if (defect == i)
            {
                ok = false;
                note = what;
                return true;
            }
            return false;
        };

        auto& phenomenon = dataset.add_phenomenon("p");
        std::size_t const nr_objects = wrong(1, "several objects") ? 2 + c.draw(3) : wrong(2, "no objects") ? 0 : 1;
        std::vector<ldm::ID> ids(nr_objects);
        std::iota(ids.begin(), ids.end(), c.draw(100));
        phenomenon.object_id().expand(nr_objects);
        if (nr_objects) phenomenon.object_id().write(ids.data());

        ldm::SpaceConfiguration const space{
            !variable || defect != 3 ? ldm::Mobility::stationary : ldm::Mobility::mobile,
            wrong(4, "points in space") ? ldm::SpaceDomainItemType::point : ldm::SpaceDomainItemType::box};
        if (variable) wrong(3, "mobile");
        bool const no_time = variable && wrong(5, "no time domain");
        bool const no_space = wrong(6, "no space domain");
        auto const ck = clock(c);
        auto& sets = phenomenon.property_sets();
        // A raster without layers that change can be part of a property set with a time domain
        bool const decoy = !variable && c.chance(25);
        bool const with_time = (variable && !no_time) || decoy;
        bool const moment = (variable && wrong(7, "points in time")) || (decoy && c.boolean());
        ldm::TimeConfiguration const time{
            moment ? c.pick({ldm::TimeDomainItemType::point, ldm::TimeDomainItemType::cell}) : ldm::TimeDomainItemType::box};
        auto& ps = no_space ? (with_time ? sets.add("s", time, ck) : sets.add("s"))
                            : (with_time ? sets.add("s", time, ck, space, datatype<double>(), 2)
                                         : sets.add("s", space, datatype<double>(), 2));

        // Items in time and space
        if (!no_space && space.value<ldm::Mobility>() == ldm::Mobility::stationary &&
            space.value<ldm::SpaceDomainItemType>() == ldm::SpaceDomainItemType::box)
        {
            auto value = ps.space_domain().value<ldm::StationarySpaceBox>();
            std::size_t const n = wrong(8, "not one box in space") ? c.pick({0, 2, 3}) : 1;
            value.expand(n);
            std::vector<double> const boxes(n * 4, 7.0);
            if (n) value.write(boxes.data());
        }
        if (with_time && !moment)
        {
            auto value = ps.time_domain().value<ldm::TimeBox>();
            std::size_t const n = decoy ? c.draw(3) : wrong(9, "not one box in time") ? c.pick({0, 2, 3}) : 1;
            value.expand(n);
            std::vector<std::uint64_t> const boxes(n * 2, 7);
            if (n) value.write(boxes.data());
        }

        auto& properties = ps.properties();
        auto space_property = [&]()
        {
            if (wrong(10, "no space discretization")) return;
            if (wrong(11, "space discretization of another shape"))
            {
                auto& p = properties.add<ldm::same_shape::Property>(
                    space_grid, datatype<std::uint64_t>(), c.pick({lh5::Shape{}, lh5::Shape{3}, lh5::Shape{2, 2}, lh5::Shape{1}}));
                p.value().expand(1);
                return;
            }
            if (wrong(12, "space discretization of another type"))
            {
                auto& p = c.boolean()
                              ? properties.add<ldm::same_shape::Property>(space_grid, datatype<double>(), lh5::Shape{2})
                              : properties.add<ldm::same_shape::Property>(
                                    space_grid, datatype<std::uint32_t>(), lh5::Shape{2});
                p.value().expand(1);
                return;
            }
            if (wrong(13, "space discretization is not constant"))
            {
                if (c.boolean())
                    properties.add<ldm::same_shape::constant_shape::Property>(
                        space_grid, datatype<std::uint64_t>(), lh5::Shape{2});
                else
                    properties.add(space_grid, datatype<std::uint64_t>(), ldm::Rank(1));
                return;
            }
            auto& p = properties.add<ldm::same_shape::Property>(space_grid, datatype<std::uint64_t>(), lh5::Shape{2});
            std::size_t const n = wrong(15, "several or no space discretizations") ? c.pick({0, 2, 5}) : 1;
            std::vector<std::uint64_t> const v(n * 2, 3);
            p.value().expand(n);
            if (n) p.value().write(v.data());
            if (wrong(16, "discretized space discretization"))
            {
                if (c.boolean())
                    p.set_space_discretization(ldm::SpaceDiscretization::regular_grid, p);
                else
                    p.set_time_discretization(ldm::TimeDiscretization::regular_grid, p);
            }
            if (!no_space && wrong(17, "discretized presence")) ps.space_domain().set_presence_discretization(p);
        };
        auto time_property = [&]()
        {
            if (!variable || wrong(14, "no time discretization")) return;
            if (wrong(18, "time discretization of another shape or type"))
            {
                auto& p = c.boolean() ? properties.add<ldm::same_shape::constant_shape::Property>(
                                            time_grid, datatype<std::uint64_t>(),
                                            c.pick({lh5::Shape{2}, lh5::Shape{3}, lh5::Shape{1, 1}}))
                                      : properties.add<ldm::same_shape::constant_shape::Property>(
                                            time_grid, datatype<std::int64_t>(), lh5::Shape{1});
                p.value().expand(1);
                return;
            }
            if (wrong(19, "time discretization does not vary or has another shape through time"))
            {
                switch (c.draw(2))
                {
                    case 0:
                        properties.add<ldm::same_shape::Property>(time_grid, datatype<std::uint64_t>(), lh5::Shape{1})
                            .value()
                            .expand(1);
                        break;
                    case 1: properties.add(time_grid, datatype<std::uint64_t>(), ldm::Rank(1)); break;
                    default:
                        properties.collection<ldm::different_shape::constant_shape::Properties>().add(
                            time_grid, datatype<std::uint64_t>(), ldm::Rank(1));
                }
                return;
            }
            auto& p = properties.add<ldm::same_shape::constant_shape::Property>(
                time_grid, datatype<std::uint64_t>(), lh5::Shape{1});
            std::size_t const n = wrong(20, "several or no time discretizations") ? c.pick({0, 2, 5}) : 1;
            std::vector<std::uint64_t> const v(n, 3);
            p.value().expand(n);
            if (n) p.value().write(v.data());
        };
        space_property();
        time_property();

        c.notes("property set like a ", variable ? "variable" : "constant", " raster; ", ok ? "one" : note);
        if (!ok) c.label(note);
        if (variable)
        {
            c.equal(ldm::variable::contains_raster(dataset, "p", "s"), ok, "contains a variable raster (" + note + ")");
            if (defect == 14 && !ok)
                c.check(
                    ldm::constant::contains_raster(dataset, "p", "s"), "does not contain a constant raster (" + note + ")");
            else
                c.check(
                    !ldm::constant::contains_raster(dataset, "p", "s"), "contains a constant raster (" + note + ")");
        }
        else
        {
            c.equal(ldm::constant::contains_raster(dataset, "p", "s"), ok, "contains a constant raster (" + note + ")");
            c.check(!ldm::variable::contains_raster(dataset, "p", "s"), "contains a variable raster (" + note + ")");
        }
        c.refused([&]() { ldm::constant::contains_raster(dataset, "q", "s"); }, "phenomenon that does not exist");
        c.refused([&]() { ldm::variable::contains_raster(dataset, "p", "t"); }, "property set that does not exist");
        c.nontrivial();
    }


    void r02(Case& c)
    {
        switch (c.draw(2))
        {
            case 0:
                c.label("path");
                c.nontrivial();
                return paths(c);
            case 1:
                c.label("probe");
                c.nontrivial();
                return probe(c);
            default: c.label("predicate"); return predicate(c);
        }
    }

}  // namespace


int main(int argc, char** argv)
{
    std::vector<pt::Property> const properties{
        {"R01",
            "a case is a history of creating constant and temporal rasters, in new and existing phenomena of a dataset, adding "
            "layers, writing and reading these, opening, copying and moving views; non-trivial if at least two layers are "
            "added, and there are at least two rasters or the dataset is opened again",
            r01, 8000, 400000, quiet},
        {"R02",
            "a case is an array path name joined from parts (right or wrong number of them), a stored layer that is probed, or "
            "a property set that is like a raster but for at most one thing; all are non-trivial",
            r02, 20000, 1000000, quiet},
    };
    return pt::main(argc, argv, properties);
}
