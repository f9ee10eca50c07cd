// X01 - X06: command-line utilities
#include "model.hpp"
#include "lue/data_model/hl.hpp"
#include "lue/gdal.hpp"
#include "lue/translate/format.hpp"
#include "lue/translate/stack_name.hpp"
#include "lue/translate/translate.hpp"
#include "lue/utility/environment.hpp"
#include "lue/validate/validate.hpp"
#include <iostream>
#include <nlohmann/json.hpp>

using namespace vp;
namespace lgd = lue::gdal;
using Json = nlohmann::json;


namespace {

    struct Output
    {
            int status{};
            std::string info;
            std::string error;
    };


    //! Run a utility, in this process
    template<typename Utility>
    Output run(Case& c, std::vector<std::string> arguments)
    {
        std::string line;
        for (auto const& a: arguments) line += " " + a;
        std::vector<char const*> argv;
        for (auto const& a: arguments) argv.push_back(a.c_str());
        argv.push_back(nullptr);
        std::ostringstream info;
        std::ostringstream error;
        auto* const out_buffer = std::cout.rdbuf(info.rdbuf());
        auto* const err_buffer = std::cerr.rdbuf(error.rdbuf());
        Output output;
        try
        {
            output.status = Utility(int(arguments.size()), argv.data()).run();
        }
        catch (...)
        {
            std::cout.rdbuf(out_buffer);
            std::cerr.rdbuf(err_buffer);
            c.fail("exception escapes from" + line);
        }
        std::cout.rdbuf(out_buffer);
        std::cerr.rdbuf(err_buffer);
        output.info = info.str();
        output.error = error.str();
        c.notes("$", line, " -> ", output.status, output.error.empty() ? "" : ": " + output.error);
        c.check(output.status == EXIT_SUCCESS || output.status == EXIT_FAILURE, "exit status");
        if (output.status == EXIT_FAILURE && std::is_same_v<Utility, lue::utility::Translate>)
        {
            c.check(!output.error.empty(), "failure without a message");
        }
        return output;
    }


    Output translate(Case& c, std::vector<std::string> arguments)
    {
        arguments.insert(arguments.begin(), "lue_translate");
        return run<lue::utility::Translate>(c, std::move(arguments));
    }


    void write_file(std::string const& path, std::string const& content)
    {
        std::ofstream stream(path, std::ios::binary);
        stream << content;
    }


    struct Validity
    {
            bool errors;
            bool warnings;
            std::string message;
    };


    Validity validity(std::string const& path)
    {
        lh5::Issues issues;
        ldm::validate(path, issues);
        return {issues.errors_found(), issues.warnings_found(), ldm::message(issues)};
    }


    // --------------------------------------------------------------------------------------------- X01
    //! Types supported, as indices of with_type
    constexpr std::array<std::pair<char const*, std::size_t>, 4> json_types{
        std::pair{"uint64", std::size_t(3)}, std::pair{"uint32", std::size_t(6)}, std::pair{"float64", std::size_t(1)},
        std::pair{"float32", std::size_t(4)}};


    char const* json_type(PropertyModel const& p)
    {
        if (p.text) return "string";
        for (auto const& [name, type]: json_types)
        {
            if (type == p.type) return name;
        }
        return "uint8";
    }


    //! Elements as they are stored, and as they are described in JSON
    std::pair<Bytes, Json> json_elements(Case& c, std::size_t type, std::size_t n)
    {
        Bytes bytes;
        Json json = Json::array();
        with_type(type,
            [&]<typename T>()
            {
                auto v = values<T>(c, n);
                for (auto& e: v)
                {
                    if constexpr (std::is_floating_point_v<T>)
                    {
                        // Cannot be represented in JSON
                        if (!std::isfinite(e)) e = T(0.5);
                        json.push_back(double(e));
                    }
                    else
                    {
                        json.push_back(e);
                    }
                }
                bytes.assign(reinterpret_cast<char const*>(v.data()), n * sizeof(T));
            });
        return {bytes, json};
    }


    std::string json_string(Case& c)
    {
        switch (c.draw(3))
        {
            case 0: return c.pick({"", "a", " ", "réseau", "日本", "two\nlines", "\"quoted\"", "\\", "${HOME}", "null"});
            case 1: return std::string(c.draw(300), 'x');
            default: return c.name(12);
        }
    }


    void write_raster(
        std::string const& path, lgd::Shape const& shape, lgd::GeoTransform const& geo_transform, GDALDataType type,
        void const* values)
    {
        auto* driver = GetGDALDriverManager()->GetDriverByName("GTiff");
        auto* dataset = driver->Create(path.c_str(), shape[1], shape[0], 1, type, nullptr);
        dataset->SetGeoTransform(const_cast<double*>(geo_transform.data()));
        if (values != nullptr)
        {
            (void)dataset->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, shape[1], shape[0], const_cast<void*>(values),
                shape[1], shape[0], type, 0, 0, nullptr);
        }
        GDALClose(dataset);
    }


    struct Importer
    {
            Case& c;
            Model m{};
            std::size_t nr_rasters{0};
            std::size_t nr_properties{0};
            bool appends{false};
            //! Try to describe valid datasets
            bool consistent{false};

            std::string raster_name(std::string const& path)
            {
                if (c.boolean())
                {
                    setenv("VP_SCRATCH", c.scratch().c_str(), 1);
                    c.label("environment variable");
                    return "${VP_SCRATCH}" + path.substr(c.scratch().size());
                }
                return path;
            }

            std::vector<hsize_t> new_ids(std::vector<hsize_t> const& used, std::size_t n)
            {
                std::set<hsize_t> s(used.begin(), used.end());
                return object_ids(c, n, s);
            }

            Json property_value(PropertyModel& p, hsize_t id, lh5::Shape const& shape)
            {
                Json j = Json::object();
                j["id"] = id;
                std::size_t const n = nr_elements(shape);
                Arrays a;
                a.shape = shape;
                a.n = 1;
                if (p.text)
                {
                    for (std::size_t i = 0; i < n; ++i) p.strings_by_id[id].push_back(json_string(c));
                    j["value"] = p.strings_by_id[id];
                    j["shape"] = shape;
                }
                else
                {
                    auto const [bytes, elements] = json_elements(c, p.type, n);
                    a.bytes = bytes;
                    if (shape.size() == 2 && p.type != 3 && c.chance(30))
                    {
                        std::string const path = c.path("raster" + std::to_string(nr_rasters++) + ".tif");
                        GDALDataType const type = p.type == 6   ? GDT_UInt32
                                                  : p.type == 1 ? GDT_Float64
                                                  : p.type == 4 ? GDT_Float32
                                                                : GDT_Byte;
                        if (a.bytes.find_first_not_of('\0') != Bytes::npos)
                        {
                            // Blocks with only zeros are not written
                            with_type(p.type,
                                [&]<typename T>()
                                {
                                    auto* e = reinterpret_cast<T*>(a.bytes.data());
                                    for (std::size_t i = 0; i < n; ++i)
                                        if (e[i] == T(0)) e[i] = T(0);
                                });
                        }
                        write_raster(path, {int(shape[0]), int(shape[1])}, {0, 1, 0, 0, 0, -1}, type, a.bytes.data());
                        j["dataset"] = raster_name(path);
                        c.label("value in a raster");
                    }
                    else
                    {
                        j["value"] = elements;
                        j["shape"] = shape;
                    }
                }
                p.by_id[id] = a;
                return j;
            }

            Json property_json(Where w, PhenomenonModel& phenomenon, PropertySetModel& s, std::vector<hsize_t> const& new_active)
            {
                Json j = Json::object();
                bool const existing = !s.properties.empty() && !consistent && c.chance(40);
                if (!existing)
                {
                    PropertyModel p;
                    p.name = new_name(c, s.properties);
                    p.kind = c.pick({k_same, k_different, k_same_constant, k_different_constant, k_different_variable});
                    if (consistent) p.kind = s.time ? k_same_constant : c.pick({k_same, k_different});
                    p.type = p.kind == k_different_constant ? 2 : c.pick(json_types).second;
                    p.text = (p.kind == k_same || p.kind == k_different) && c.chance(25);
                    p.shape = shape(c, 0, 3, 4, 24);
                    p.rank = 1 + int(c.draw(2));
                    s.properties.push_back(p);
                }
                std::size_t const i = existing ? c.draw(s.properties.size() - 1) : s.properties.size() - 1;
                auto& p = s.properties[i];
                appends = appends || existing;
                ++nr_properties;
                if (existing) c.label("appending to a property");
                c.label(std::string(kind_names[p.kind]) + " " + json_type(p));
                j["name"] = p.name;
                j["datatype"] = json_type(p);
                bool const different = p.kind == k_different || p.kind == k_different_constant || p.kind == k_different_variable;
                bool const constant = p.kind == k_same || p.kind == k_different;
                j["shape_per_object"] = different ? "different_shape" : "same_shape";
                j["value_variability"] = constant ? "constant" : "variable";
                if (!constant) j["shape_variability"] = p.kind == k_different_variable ? "variable_shape" : "constant_shape";
                std::size_t const nr_active = consistent ? (s.time ? new_active.size() : phenomenon.ids.size()) : c.draw(4);
                switch (p.kind)
                {
                    case k_same:
                    case k_same_constant:
                    {
                        if (!p.shape.empty() || c.boolean()) j["shape"] = p.shape;
                        std::size_t const n = nr_active * nr_elements(p.shape);
                        if (p.text)
                        {
                            Json strings = Json::array();
                            for (std::size_t k = 0; k < n; ++k)
                            {
                                p.strings.push_back(json_string(c));
                                strings.push_back(p.strings.back());
                            }
                            j["value"] = strings;
                        }
                        else
                        {
                            auto const [bytes, elements] = json_elements(c, p.type, n);
                            p.arrays.bytes += bytes;
                            j["value"] = elements;
                        }
                        p.arrays.n += nr_active;
                        break;
                    }
                    case k_different:
                    case k_different_constant:
                    {
                        j["rank"] = p.rank;
                        std::vector<hsize_t> used;
                        for (auto const& [id, a]: p.by_id) used.push_back(id);
                        auto const ids = consistent ? phenomenon.ids : new_ids(used, nr_active);
                        Json value = Json::array();
                        for (auto const id: ids)
                        {
                            value.push_back(property_value(p, id, shape(c, p.rank, p.rank, 5, 40)));
                        }
                        j["value"] = value;
                        break;
                    }
                    default:
                    {
                        j["rank"] = p.rank;
                        auto const ids = new_ids({}, nr_active);
                        j["object_id"] = ids;
                        Json shapes = Json::array();
                        Json value = Json::array();
                        auto const idx = p.by_time_id.size();
                        p.by_time_id[idx] = {};
                        for (auto const id: ids)
                        {
                            Arrays a;
                            a.shape = shape(c, p.rank, p.rank, 5, 40);
                            a.n = 1;
                            auto const [bytes, elements] = json_elements(c, p.type, nr_elements(a.shape));
                            a.bytes = bytes;
                            p.by_time_id[idx][id] = a;
                            shapes.push_back(a.shape);
                            value.push_back(elements);
                        }
                        j["shape"] = shapes;
                        j["value"] = value;
                    }
                }
                if (p.kind == k_different && !p.space_discretization && c.chance(40))
                {
                    // Properties that can be found by path: part of a phenomenon that is not part of a universe
                    std::vector<Where> targets;
                    m.for_each_property(
                        [&](Where const& t, PropertySetModel& ts, PropertyModel& tp)
                        {
                            if (t.universe >= 0) return;
                            auto const& sets = m.phenomena[t.phenomenon].collection_property_sets;
                            bool const hidden = std::any_of(
                                sets.begin(), sets.end(), [&](auto const& o) { return o.name == ts.name; });
                            // The last one is being described
                            if (&tp != &p && (t.collection || !hidden)) targets.push_back(t);
                        });
                    if (!targets.empty())
                    {
                        auto const t = c.pick(targets);
                        p.space_discretization = t;
                        auto& target_set = m.property_set(t);
                        j["space_discretization"] = {{"type", "regular_grid"},
                            {"property", "/" + m.phenomenon(t).name + "/" + target_set.name + "/" + m.property(t).name}};
                        c.label("space discretization");
                    }
                }
                (void)w;
                return j;
            }

            Json clock_json(ClockModel const& k)
            {
                static std::array<char const*, 10> const units{"nanosecond", "microsecond", "millisecond", "second", "minute",
                    "hour", "day", "week", "month", "year"};
                Json epoch = {{"kind", k.epoch.kind == 0 ? "common_era" : "formation_of_earth"}};
                if (k.epoch.origin) epoch["origin"] = *k.epoch.origin;
                if (k.epoch.calendar) epoch["calendar"] = "gregorian";
                return {{"epoch", epoch}, {"unit", units[k.unit]}, {"tick_period_count", k.nr_units}};
            }

            //! Returns the new active object IDs
            std::vector<hsize_t> time_json(Json& j, PhenomenonModel& phenomenon, PropertySetModel& s, bool collection)
            {
                auto& t = *s.tracker;
                std::size_t const nr_sets = c.draw(3);
                std::vector<hsize_t> idx;
                std::vector<hsize_t> ids;
                std::size_t const offset = t.id.size();
                for (std::size_t i = 0; i < nr_sets; ++i)
                {
                    idx.push_back(ids.size());
                    auto const from = phenomenon.ids;
                    std::size_t const n = from.empty() ? 0 : collection && consistent ? 1 : c.draw(from.size());
                    for (std::size_t k = 0; k < n; ++k) ids.push_back(collection && consistent ? 999 : from[k]);
                }
                Json tracker = Json::object();
                bool const with_indices = consistent || c.chance(80);
                bool const with_ids = consistent || c.chance(80);
                if (with_indices)
                {
                    tracker["active_set_index"] = idx;
                    for (auto const i: idx) t.set_idx.push_back(i + offset);
                }
                if (with_ids)
                {
                    tracker["active_object_id"] = ids;
                    t.id.insert(t.id.end(), ids.begin(), ids.end());
                }
                if (t.object_idx.empty() && (consistent || c.chance(40)))
                {
                    std::map<hsize_t, hsize_t> count;
                    for (auto const id: ids) t.object_idx.push_back(count[id]++);
                    tracker["active_object_index"] = t.object_idx;
                }
                j["object_tracker"] = tracker;
                std::uint64_t last = s.time->items.empty() ? 0 : s.time->items.back();
                std::vector<std::uint64_t> points;
                for (std::size_t i = 0; i < (consistent ? nr_sets : c.draw(4)); ++i)
                {
                    last += c.draw(10);
                    points.push_back(consistent || c.chance(80) ? last : c.any64());
                }
                s.time->items.insert(s.time->items.end(), points.begin(), points.end());
                j["time_domain"] = {{"clock", clock_json(s.time->clock)}, {"time_point", points}};
                return ids;
            }

            Json property_set_json(Where w, PhenomenonModel& phenomenon, bool collection)
            {
                auto& sets = collection ? phenomenon.collection_property_sets : phenomenon.property_sets;
                bool const existing = !sets.empty() && !consistent && c.chance(50);
                if (!existing)
                {
                    PropertySetModel s;
                    s.name = new_name(c, sets);
                    s.tracker = std::make_shared<TrackerModel>();
                    if (c.boolean())
                    {
                        s.time = std::make_shared<TimeModel>();
                        s.time->item = ldm::TimeDomainItemType::point;
                        s.time->clock = any_clock(c);
                        if (s.time->clock.epoch.origin && c.boolean())
                            s.time->clock.epoch.origin = "2000-01-01T00:00:00+00:00";
                        else if (s.time->clock.epoch.origin)
                            s.time->clock.epoch.origin = json_string(c);
                    }
                    sets.push_back(s);
                }
                std::size_t const i = existing ? c.draw(sets.size() - 1) : sets.size() - 1;
                auto& s = sets[i];
                w.property_set = i;
                w.collection = collection;
                if (existing)
                {
                    appends = true;
                    c.label("adding to a property set");
                }
                Json j = {{"name", s.name}};
                std::vector<hsize_t> active;
                if (s.time && (!existing || c.chance(60)))
                {
                    c.label(existing ? "appending time points" : "time points");
                    active = time_json(j, phenomenon, s, collection);
                }
                if (!existing && c.chance(40)) space_json(j, phenomenon, s, active);
                std::size_t const nr_properties = c.draw(3);
                if (nr_properties > 0 || c.boolean())
                {
                    j["properties"] = Json::array();
                    for (std::size_t k = 0; k < nr_properties; ++k)
                        j["properties"].push_back(property_json(w, phenomenon, s, active));
                }
                return j;
            }

            void space_json(Json& j, PhenomenonModel& phenomenon, PropertySetModel& s, std::vector<hsize_t> const& active)
            {
                SpaceModel space;
                space.mobility = ldm::Mobility::stationary;
                space.item = ldm::SpaceDomainItemType::box;
                space.type = 1;
                space.rank = 1 + c.draw(2);
                std::set<hsize_t> const different(active.begin(), active.end());
                space.n = consistent ? (s.time ? different.size() : phenomenon.ids.size()) : c.draw(3);
                Json boxes = Json::array();
                if (space.rank == 2 && c.chance(30))
                {
                    c.label("space box of a raster");
                    for (std::size_t i = 0; i < space.n; ++i)
                    {
                        double const size = c.pick({1.0, 0.5, 25.0, 0.125});
                        lgd::Shape const extent{1 + int(c.draw(30)), 1 + int(c.draw(30))};
                        double const west = double(c.integer(-2000, 2000)) / 8;
                        double const north = double(c.integer(-2000, 2000)) / 8;
                        std::string const path = c.path("box" + std::to_string(nr_rasters++) + ".tif");
                        write_raster(path, extent, {west, size, 0, north, 0, -size}, GDT_Byte, nullptr);
                        boxes.push_back(raster_name(path));
                        std::array<double, 4> const box{
                            west, north - extent[0] * size, west + extent[1] * size, north};
                        space.bytes.append(reinterpret_cast<char const*>(box.data()), sizeof(box));
                    }
                }
                else
                {
                    std::vector<double> coordinates;
                    for (std::size_t i = 0; i < space.n; ++i)
                    {
                        std::vector<double> low, high;
                        for (std::size_t d = 0; d < space.rank; ++d)
                        {
                            low.push_back(double(c.integer(-2000, 2000)) / 7);
                            high.push_back(low.back() + double(c.draw(100)) / 3);
                        }
                        coordinates.insert(coordinates.end(), low.begin(), low.end());
                        coordinates.insert(coordinates.end(), high.begin(), high.end());
                    }
                    boxes = coordinates;
                    space.bytes.assign(
                        reinterpret_cast<char const*>(coordinates.data()), coordinates.size() * sizeof(double));
                }
                j["space_domain"] = {{"datatype", "float64"}, {"rank", space.rank}, {"space_box", boxes}};
                s.space = space;
                c.label("space boxes");
            }

            Json phenomenon_json(Where w, std::deque<PhenomenonModel>& phenomena)
            {
                bool const existing = !phenomena.empty() && !consistent && c.chance(60);
                if (!existing)
                {
                    PhenomenonModel p;
                    p.name = new_name(c, phenomena);
                    phenomena.push_back(p);
                }
                std::size_t const i = existing ? c.draw(phenomena.size() - 1) : phenomena.size() - 1;
                auto& p = phenomena[i];
                w.phenomenon = i;
                Json j = {{"name", p.name}};
                if (c.chance(70))
                {
                    auto const ids = new_ids(p.ids, c.draw(4));
                    j["object_id"] = ids;
                    p.ids.insert(p.ids.end(), ids.begin(), ids.end());
                }
                for (bool const collection: {true, false})
                {
                    std::size_t const n = collection ? (c.chance(25) ? 1 : 0) : c.draw(2);
                    if (n == 0) continue;
                    Json sets = Json::array();
                    for (std::size_t k = 0; k < n; ++k) sets.push_back(property_set_json(w, p, collection));
                    j[collection ? "collection_property_sets" : "property_sets"] = sets;
                }
                return j;
            }

            Json dataset_json()
            {
                Json j = Json::object();
                if (c.chance(30))
                {
                    Json universes = Json::array();
                    std::size_t const n = c.draw(2);
                    for (std::size_t k = 0; k < n; ++k)
                    {
                        if (m.universes.empty() || c.boolean())
                        {
                            UniverseModel u;
                            u.name = new_name(c, m.universes);
                            m.universes.push_back(u);
                        }
                        std::size_t const i = c.draw(m.universes.size() - 1);
                        auto& u = m.universes[i];
                        Json universe = {{"name", u.name}};
                        // The one added last must be mentioned
                        if (i + 1 != m.universes.size()) universes.push_back({{"name", m.universes.back().name}});
                        std::size_t const nr_phenomena = c.draw(2);
                        if (nr_phenomena > 0)
                        {
                            universe["phenomena"] = Json::array();
                            for (std::size_t p = 0; p < nr_phenomena; ++p)
                                universe["phenomena"].push_back(phenomenon_json(Where{int(i)}, u.phenomena));
                        }
                        universes.push_back(universe);
                    }
                    j["universes"] = universes;
                }
                if (c.chance(90))
                {
                    Json phenomena = Json::array();
                    std::size_t const n = c.draw(2);
                    for (std::size_t k = 0; k < n; ++k) phenomena.push_back(phenomenon_json(Where{}, m.phenomena));
                    j["phenomena"] = phenomena;
                }
                return j;
            }

            //! A description that cannot be imported. Nothing of it is expected to be stored
            std::string wrong(bool exists)
            {
                auto const of = [&](std::string const& phenomenon, Json const& set)
                {
                    return Json{{"dataset", {{"phenomena", {{{"name", phenomenon}, {"property_sets", {set}}}}}}}}.dump();
                };
                switch (c.draw(exists ? 5 : 1))
                {
                    case 0: c.label("refused: no dataset"); return R"({"dataset_": {}})";
                    case 1: c.label("refused: no JSON"); return R"({"dataset": {)";
                    default: break;
                }
                // Something that contradicts what is there
                std::vector<Where> sets;
                m.for_each_property_set(
                    [&](Where const& w, PropertySetModel&)
                    {
                        if (w.universe < 0 && !w.collection) sets.push_back(w);
                    });
                if (sets.empty()) return R"({"dataset": 5, "phenomena"})";
                auto const w = c.pick(sets);
                auto& s = m.property_set(w);
                Json j = {{"name", s.name}};
                if (s.time && c.boolean())
                {
                    c.label("refused: other clock");
                    auto clock = s.time->clock;
                    switch (c.draw(3))
                    {
                        case 0: clock.nr_units += 1; break;
                        case 1: clock.unit = (clock.unit + 1) % 10; break;
                        case 2: clock.epoch.kind = 1 - clock.epoch.kind; break;
                        default:
                            clock.epoch.origin = clock.epoch.origin ? *clock.epoch.origin + "0" : std::string{"1970"};
                    }
                    j["time_domain"] = {{"clock", clock_json(clock)}, {"time_point", {1, 2}}};
                    j["object_tracker"] = {{"active_set_index", {0}}, {"active_object_id", {4}}};
                }
                else
                {
                    Json property = {{"name", "no such property yet"}, {"value_variability", "constant"},
                        {"shape_per_object", "same_shape"}, {"datatype", "uint32"}, {"value", {1, 2, 3}}, {"shape", {3}}};
                    switch (c.draw(4))
                    {
                        case 0:
                            property["shape"] = {2};
                            c.label("refused: number of values");
                            break;
                        case 1:
                            property["datatype"] = c.pick({"int7", "", "float", "uint16"});
                            c.label("refused: datatype");
                            break;
                        case 2:
                            property["value_variability"] = "sometimes";
                            c.label("refused: variability");
                            break;
                        case 3:
                            property.erase(c.pick({"datatype", "value", "shape_per_object", "value_variability", "name"}));
                            c.label("refused: missing entry");
                            break;
                        default:
                            property["value_variability"] = "variable";
                            property["shape_variability"] = c.pick({"constant_shape", "variable_shape"});
                            property["shape_per_object"] = "different_shape";
                            property["datatype"] = "int16";
                            c.label("refused: datatype");
                    }
                    j["properties"] = {property};
                }
                return of(m.phenomenon(w).name, j);
            }
    };


    void x01(Case& c)
    {
        Importer g{c};
        g.consistent = c.chance(40);
        std::string const path = c.path(c.pick({"d.lue", "a b.lue", "dataset"}));
        std::size_t const nr_steps = g.consistent ? 1 + c.draw(1) : 1 + c.draw(3);
        bool exists = false;
        for (std::size_t i = 0; i < nr_steps; ++i)
        {
            std::string const json_path = c.path("in" + std::to_string(i) + ".json");
            bool const add = c.chance(exists ? 85 : 50);
            bool const skip = c.chance(40);
            std::vector<std::string> arguments{"import"};
            if (add) arguments.push_back("--add");
            if (skip) arguments.push_back("--skip-validate");
            arguments.insert(c.boolean() ? arguments.end() : arguments.begin() + 1, {path, json_path});
            if (c.chance(15))
            {
                auto const content = g.wrong(exists && add);
                c.notes(content);
                write_file(json_path, content);
                auto const before = exists ? file_bytes(path) : "";
                c.equal(translate(c, arguments).status, EXIT_FAILURE, "exit status");
                c.equal(std::filesystem::exists(path), exists, "a dataset is there");
                if (exists)
                {
                    auto dataset = ldm::open_dataset(path);
                    compare(c, dataset, g.m, "after an import that was refused");
                }
                continue;
            }
            if (!add || !exists)
            {
                if (exists) c.label("overwriting a dataset");
                g.m = Model{};
            }
            Json const json = {{"dataset", g.dataset_json()}};
            auto const content = json.dump(c.boolean() ? -1 : int(c.draw(4)), ' ', c.boolean());
            c.notes(content);
            write_file(json_path, content);
            auto const output = translate(c, arguments);
            exists = true;
            auto const v = validity(path);
            c.label(v.errors || v.warnings ? "not valid" : "valid");
            c.equal(output.status, skip || !(v.errors || v.warnings) ? EXIT_SUCCESS : EXIT_FAILURE,
                "exit status (" + v.message + output.error + ")");
            auto dataset = ldm::open_dataset(path);
            compare(c, dataset, g.m, "after import " + std::to_string(i + 1));
        }
        if (g.nr_properties >= 2 || g.appends) c.nontrivial();
    }


    // --------------------------------------------------------------------------------------------- X02
    template<typename T>
    struct Layer
    {
            std::vector<T> values;
            bool has_no_data{false};
            T no_data{};
    };


    template<typename T>
    std::vector<T> cells(Case& c, std::size_t n)
    {
        auto result = values<T>(c, n);
        for (auto& v: result)
        {
            if (v == T(0)) v = T(0);
        }
        return result;
    }


    template<typename T>
    bool same_value(T a, T b)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            return (std::isnan(a) && std::isnan(b)) || a == b;
        }
        return a == b;
    }


    lgd::Shape raster_shape(Case& c)
    {
        switch (c.draw(5))
        {
            case 0: return {int(1 + c.draw(400)), int(1 + c.draw(20))};
            case 1: return {int(1 + c.draw(20)), int(1 + c.draw(400))};
            case 2: return {int(1 + c.draw(230)), int(1 + c.draw(230))};
            default: return {int(1 + c.draw(40)), int(1 + c.draw(40))};
        }
    }


    std::map<std::string, std::string> creation_options(Case& c, lgd::Shape const& shape)
    {
        std::map<std::string, std::string> o;
        switch (c.draw(2))
        {
            case 0: break;
            case 1:
            {
                o["TILED"] = "YES";
                o["BLOCKXSIZE"] = std::to_string(16 * (1 + c.draw(2)));
                o["BLOCKYSIZE"] = std::to_string(16 * (1 + c.draw(2)));
                break;
            }
            default: o["BLOCKYSIZE"] = std::to_string(1 + c.draw(std::uint64_t(std::min(shape[0], 12))));
        }
        if (c.chance(30)) o["COMPRESS"] = c.pick({"DEFLATE", "LZW"});
        if (c.chance(30)) o["INTERLEAVE"] = c.pick({"PIXEL", "BAND"});
        return o;
    }


    template<typename T>
    struct RasterSet
    {
            std::string phenomenon;
            std::string property_set;
            lgd::Shape shape;
            lgd::GeoTransform geo_transform;
            std::map<std::string, Layer<T>> layers;
    };


    template<typename T>
    void compare_layers(Case& c, std::string const& path, std::deque<RasterSet<T>>& sets, std::string const& what)
    {
        auto dataset = ldm::open_dataset(path);
        for (auto& s: sets)
        {
            if (s.layers.empty()) continue;
            auto view = ldm::constant::open_raster_view(&dataset, s.phenomenon, s.property_set);
            std::string const where = what + ": " + s.phenomenon + "/" + s.property_set;
            c.check(view.grid_shape() == lh5::Shape{lh5::Shape::value_type(s.shape[0]), lh5::Shape::value_type(s.shape[1])},
                where + ": shape");
            auto const& gt = s.geo_transform;
            std::array<double, 4> const box{
                gt[0], gt[3] + s.shape[0] * gt[5], gt[0] + s.shape[1] * gt[1], gt[3]};
            for (int i = 0; i < 4; ++i) c.equal(view.space_box()[i], box[i], where + ": space box, item " + str(i));
            auto names = view.layer_names();
            std::sort(names.begin(), names.end());
            std::vector<std::string> expected;
            for (auto const& [name, layer]: s.layers) expected.push_back(name);
            c.check(names == expected, where + ": layers are " + str(names) + " instead of " + str(expected));
            for (auto const& [name, layer]: s.layers)
            {
                auto array = view.layer(name);
                c.check(array.memory_datatype() == datatype<T>(), where + ": datatype of layer " + name);
                c.equal(array.has_no_data_value(), layer.has_no_data, where + ": no-data value of layer " + name);
                if (layer.has_no_data)
                {
                    c.check(same_value(array.template no_data_value<T>(), layer.no_data),
                        where + ": no-data value of layer " + name);
                }
                auto const actual =
                    guarded_read<T>(c, layer.values.size(), where, [&](void* buffer) { array.read(buffer); });
                expect_same(c, actual, layer.values, where + ": values of layer " + name);
            }
        }
    }


    template<typename T>
    void rasters(Case& c, std::size_t type)
    {
        using Bands = std::vector<std::string>;
        std::string const path = c.path("d.lue");
        std::deque<RasterSet<T>> sets;
        std::size_t nr_imports = 1 + c.draw(2);
        std::size_t nr_layers = 0;
        bool blocks = false;
        bool exists = false;

        for (std::size_t i = 0; i < nr_imports; ++i)
        {
            // A number of rasters, imported in one go
            std::vector<std::string> arguments{"import", "--meta", c.path("import.json")};
            if (i > 0 || c.chance(30)) arguments.push_back("--add");
            if (c.chance(30)) arguments.push_back("--skip-validate");
            arguments.push_back(path);
            Json datasets = Json::array();
            std::size_t const nr_rasters = 1 + c.draw(2);
            for (std::size_t k = 0; k < nr_rasters; ++k)
            {
                // Layers of an existing set of rasters, or a new set
                if (sets.empty() || c.chance(50))
                {
                    RasterSet<T> s;
                    // A phenomenon contains the single object the rasters are about
                    s.phenomenon = item_name(c,
                        [&](auto const& n) {
                            return std::any_of(sets.begin(), sets.end(), [&](auto const& o) { return o.phenomenon == n; });
                        });
                    if (!sets.empty() && c.chance(40)) s.phenomenon = c.pick(sets).phenomenon;
                    s.property_set = item_name(c,
                        [&](auto const& n)
                        {
                            return std::any_of(sets.begin(), sets.end(),
                                [&](auto const& o) { return o.phenomenon == s.phenomenon && o.property_set == n; });
                        });
                    s.shape = raster_shape(c);
                    double const size = c.pick({1.0, 0.5, 25.0, 0.125, 1.0 / 1024});
                    s.geo_transform = {double(c.integer(-2000, 2000)) / 8, size, 0.0,
                        double(c.integer(-2000, 2000)) / 8, 0.0, -size};
                    sets.push_back(s);
                }
                auto& s = sets[c.draw(sets.size() - 1)];
                std::string const stem = c.pick({"raster", "my.raster", "a b"}) + std::to_string(i) + std::to_string(k);
                std::string const name = c.path(stem + ".tif");
                int const nr_bands = 1 + int(c.draw(2));
                // Not all bands have to be imported
                int const nr_imported = c.chance(20) ? int(c.draw(nr_bands)) : nr_bands;
                auto const options = creation_options(c, s.shape);
                auto gdal_dataset = lgd::create_dataset("GTiff", name, s.shape, nr_bands, lgd::TypeTraits<T>::data_type, options);
                lgd::Raster raster{gdal_dataset};
                raster.set_geo_transform(s.geo_transform);
                Layer<T> layer;
                layer.has_no_data = c.boolean();
                if (layer.has_no_data)
                {
                    layer.no_data = c.value<T>();
                    if constexpr (std::is_floating_point_v<T>)
                    {
                        if (c.chance(30)) layer.no_data = std::numeric_limits<T>::quiet_NaN();
                        else if (!std::isfinite(layer.no_data)) layer.no_data = T(-999);
                    }
                    for (int b = 0; b < nr_bands; ++b) raster.band(b + 1).set_no_data_value(layer.no_data);
                }
                std::size_t const n = std::size_t(s.shape[0]) * s.shape[1];
                Json bands = Json::array();
                for (int b = 0; b < nr_bands; ++b)
                {
                    layer.values = cells<T>(c, n);
                    auto copy = layer.values;
                    auto band = raster.band(b + 1);
                    band.write(copy.data());
                    auto const bs = band.block_shape();
                    blocks |= bs[0] < s.shape[0] || bs[1] < s.shape[1];
                    if (bs[0] * 10 < s.shape[0] || bs[1] * 10 < s.shape[1]) c.label("more than 10 blocks in a row or column");
                    if (b < nr_imported)
                    {
                        std::string const layer_name =
                            item_name(c, [&](auto const& candidate) { return s.layers.count(candidate) > 0; });
                        s.layers[layer_name] = layer;
                        bands.push_back({{"name", layer_name}});
                        ++nr_layers;
                    }
                }
                std::string note = "raster " + stem + " " + type_name<T>() + " " + std::to_string(nr_bands) + " bands of " +
                                   std::to_string(s.shape[0]) + "x" + std::to_string(s.shape[1]);
                for (auto const& [key, value]: options) note += " " + key + "=" + value;
                c.note(note);
                datasets.push_back({{"name", stem}, {"phenomenon", s.phenomenon}, {"property_set", s.property_set},
                    {"raster", {{"bands", bands}}}});
                arguments.push_back(name);
            }
            write_file(c.path("import.json"), Json{{"datasets", datasets}}.dump());
            c.notes(Json{{"datasets", datasets}}.dump());
            // The layers of rasters of several property sets per phenomenon are about the same object
            auto const output = translate(c, arguments);
            exists = true;
            c.equal(output.status, EXIT_SUCCESS, "exit status of import: " + output.error);
            c.check(!validity(path).errors, "the dataset is not valid");
            compare_layers(c, path, sets, "after import " + std::to_string(i + 1));
        }

        // Export some of the layers
        std::size_t const nr_exports = c.draw(2);
        for (std::size_t i = 0; i < nr_exports; ++i)
        {
            auto const& s = sets[c.draw(sets.size() - 1)];
            if (s.layers.empty()) continue;
            Bands all;
            for (auto const& [name, layer]: s.layers) all.push_back(name);
            Bands selected;
            std::size_t const n = 1 + c.draw(2);
            for (std::size_t k = 0; k < n; ++k)
            {
                auto const name = c.pick(all);
                // All bands in a GeoTIFF have the same no-data value
                auto const& a = s.layers.at(name);
                auto const& b = selected.empty() ? a : s.layers.at(selected.front());
                if (a.has_no_data == b.has_no_data && same_value(a.no_data, b.no_data)) selected.push_back(name);
            }
            std::string const stem = "out" + std::to_string(i);
            std::string const name = c.path(stem + ".tif");
            Json bands = Json::array();
            for (auto const& band: selected) bands.push_back({{"name", band}});
            Json const meta = {{"datasets", {{{"name", stem}, {"phenomenon", s.phenomenon}, {"property_set", s.property_set},
                                                 {"raster", {{"bands", bands}}}}}}};
            write_file(c.path("export.json"), meta.dump());
            c.note(meta.dump());
            auto const output = translate(c, {"export", "-m", c.path("export.json"), path, name});
            c.equal(output.status, EXIT_SUCCESS, "exit status of export: " + output.error);
            auto* dataset = static_cast<GDALDataset*>(GDALOpen(name.c_str(), GA_ReadOnly));
            c.check(dataset != nullptr, "the exported raster cannot be opened");
            std::unique_ptr<GDALDataset, void (*)(GDALDataset*)> const closer{dataset, [](GDALDataset* d) { GDALClose(d); }};
            c.equal(dataset->GetRasterXSize(), s.shape[1], "number of columns");
            c.equal(dataset->GetRasterYSize(), s.shape[0], "number of rows");
            c.equal(dataset->GetRasterCount(), int(selected.size()), "number of bands");
            lgd::GeoTransform gt{};
            c.equal(int(dataset->GetGeoTransform(gt.data())), int(CE_None), "geo-transform");
            for (int k = 0; k < 6; ++k) c.equal(gt[k], s.geo_transform[k], "geo-transform, element " + str(k));
            if (selected.size() > 1) c.label("export of several bands");
            for (std::size_t k = 0; k < selected.size(); ++k)
            {
                auto const& layer = s.layers.at(selected[k]);
                auto* band = dataset->GetRasterBand(int(k) + 1);
                c.equal(int(band->GetRasterDataType()), int(lgd::TypeTraits<T>::data_type), "data type of exported band");
                std::vector<T> actual(layer.values.size());
                c.check(band->RasterIO(GF_Read, 0, 0, s.shape[1], s.shape[0], actual.data(), s.shape[1], s.shape[0],
                            lgd::TypeTraits<T>::data_type, 0, 0, nullptr) == CE_None, "values cannot be read");
                expect_same(c, actual, layer.values, "values of exported band " + std::to_string(k + 1));
                auto const [no_data, has_no_data] = lgd::no_data_value<T>(*band);
                c.equal(has_no_data, layer.has_no_data, "no-data value of exported band");
                if (has_no_data) c.check(same_value(no_data, layer.no_data), "no-data value of exported band");
            }
        }

        // Something that is refused
        if (c.chance(40))
        {
            auto const& s = c.pick(sets);
            std::string const stem = "wrong";
            std::string const name = c.path(stem + ".tif");
            lgd::Shape shape = s.shape;
            auto const dimension = c.draw(1);
            auto const defect = c.draw(8);
            if (defect == 0)
            {
                if (shape[0] != shape[1] && c.boolean())
                    std::swap(shape[0], shape[1]);
                else
                    shape[dimension] += c.boolean() || shape[dimension] == 1 ? 1 : -1;
            }
            {
                auto gdal_dataset = lgd::create_dataset("GTiff", name, shape, 1, lgd::TypeTraits<T>::data_type);
                auto gt = s.geo_transform;
                if (defect == 8) gt[c.boolean() ? 1 : 5] *= 2;
                lgd::Raster{gdal_dataset}.set_geo_transform(gt);
            }
            Json meta = {{"name", stem}, {"phenomenon", s.phenomenon}, {"property_set", s.property_set},
                {"raster", {{"bands", {{{"name", "a new layer"}}}}}}};
            std::string lue = path;
            std::vector<std::string> arguments{"import", "--meta", c.path("wrong.json")};
            bool import = true;
            bool add = true;
            switch (defect)
            {
                case 0:
                    if (s.layers.empty()) return;
                    c.label("refused: shape");
                    break;
                case 1: meta["name"] = "other"; c.label("refused: name"); break;
                case 2: add = false; c.label("refused: existing dataset"); break;
                case 3:
                    meta["raster"]["bands"].push_back({{"name", "another new layer"}});
                    c.label("refused: number of bands");
                    break;
                case 4: meta.erase(c.pick({"phenomenon", "property_set", "raster"})); c.label("refused: metadata"); break;
                case 5: import = false; c.label("refused: missing layer"); break;
                case 6:
                    import = false;
                    meta["property_set"] = "no such set";
                    c.label("refused: missing property set");
                    break;
                case 8: c.label("refused: cells are not square"); break;
                default:
                    import = false;
                    lue = c.path("missing.lue");
                    c.label("refused: missing dataset");
            }
            write_file(c.path("wrong.json"), Json{{"datasets", {meta}}}.dump());
            c.note(meta.dump());
            if (import)
            {
                if (add) arguments.push_back("--add");
                arguments.insert(arguments.end(), {lue, name});
            }
            else
            {
                arguments[0] = "export";
                arguments.insert(arguments.end(), {lue, name});
            }
            c.equal(translate(c, arguments).status, EXIT_FAILURE, "exit status");
            if (defect != 3) compare_layers(c, path, sets, "after a command that was refused");
        }
        (void)type;
        (void)exists;
        if (nr_layers >= 2 && blocks) c.nontrivial();
    }


    void x02(Case& c)
    {
        std::size_t const type = c.draw(nr_types - 1);
        with_type(type, [&]<typename T>() { rasters<T>(c, type); });
    }


    // --------------------------------------------------------------------------------------------- X03
    Output validate(Case& c, std::vector<std::string> arguments)
    {
        arguments.insert(arguments.begin(), "lue_validate");
        return run<lue::utility::Validate>(c, std::move(arguments));
    }


    void x03(Case& c)
    {
        struct File
        {
                std::string path;
                bool errors{true};
                bool warnings{false};
        };
        std::vector<File> files;
        std::size_t const n = 1 + c.draw(3);
        bool nontrivial = false;
        for (std::size_t i = 0; i < n; ++i)
        {
            File f;
            f.path = c.path(c.pick({"d", "a b", "data.set"}) + std::to_string(i) + ".lue");
            switch (c.draw(7))
            {
                case 0: c.label("no file"); break;
                case 1:
                    c.label("not a HDF5 file");
                    write_file(f.path, c.text(100));
                    break;
                case 2:
                {
                    c.label("not a dataset");
                    auto file = lh5::create_file(f.path);
                    if (c.boolean()) lh5::create_group(file, "lue_phenomena");
                    break;
                }
                case 3:
                {
                    c.label("same file again");
                    if (!files.empty())
                    {
                        f = c.pick(files);
                        break;
                    }
                    [[fallthrough]];
                }
                default:
                {
                    auto m = generate(c, Options{.consistent = c.chance(60), .max_properties = 2});
                    {
                        Builder b{c, m, f.path, 0};
                        b.build();
                    }
                    auto const v = validity(f.path);
                    f.errors = v.errors;
                    f.warnings = v.warnings;
                    c.label(v.errors ? "errors" : v.warnings ? "warnings" : "valid");
                    nontrivial = true;
                }
            }
            files.push_back(f);
        }
        std::vector<std::string> arguments;
        bool const only_issues = c.boolean();
        bool const fail_on_warning = c.boolean();
        for (auto const& f: files) arguments.push_back(f.path);
        if (only_issues) arguments.insert(arguments.begin() + c.draw(arguments.size()), "--issues");
        if (fail_on_warning) arguments.insert(arguments.begin() + c.draw(arguments.size()), "--fail-on-warning");
        auto const output = validate(c, arguments);
        c.notes(output.info);
        bool failed = false;
        std::size_t idx = 0;
        std::size_t nr_mentioned = 0;
        for (auto const& f: files)
        {
            bool const wrong = f.errors || (f.warnings && fail_on_warning);
            failed |= wrong;
            if (!wrong && only_issues) continue;
            ++nr_mentioned;
            auto const line = "File " + f.path +
                              (wrong ? " does not contain a valid LUE dataset:\n" : " contains a valid LUE dataset\n");
            auto const found = output.info.find(line, idx);
            c.check(found != std::string::npos, "missing in the output: " + line);
            c.check(found == 0 || output.info[found - 1] == '\n', "mentioned on a line of its own");
            idx = found + line.size();
            if (wrong)
            {
                auto const end = output.info.find("\nFile ", idx);
                c.check(output.info.substr(idx, end == std::string::npos ? end : end - idx).find_first_not_of(" \n") !=
                            std::string::npos,
                    "what is wrong is not mentioned");
            }
        }
        std::size_t nr_lines = 0;
        for (std::size_t i = 0; (i = output.info.find(" a valid LUE dataset", i)) != std::string::npos; ++i) ++nr_lines;
        c.equal(nr_lines, nr_mentioned, "number of datasets mentioned");
        if (nr_mentioned == 0) c.check(output.info.empty(), "nothing to mention");
        c.equal(output.status, failed ? EXIT_FAILURE : EXIT_SUCCESS, "exit status");
        if (nontrivial && n > 1) c.nontrivial();
    }


    // --------------------------------------------------------------------------------------------- X04
    std::string expand(std::string const& text, std::map<std::string, std::string> const& variables)
    {
        std::string result;
        for (std::size_t i = 0; i < text.size();)
        {
            if (text.compare(i, 2, "${") == 0)
            {
                auto const end = text.find('}', i);
                if (end != std::string::npos && end > i + 2)
                {
                    auto const it = variables.find(text.substr(i + 2, end - i - 2));
                    if (it != variables.end()) result += it->second;
                    i = end + 1;
                    continue;
                }
            }
            result += text[i++];
        }
        return result;
    }


    void x04(Case& c)
    {
        clearenv();
        std::map<std::string, std::string> variables;
        std::vector<std::string> names;
        std::size_t const nr_variables = c.draw(4);
        auto const piece = [&]() -> std::string
        {
            switch (c.draw(9))
            {
                case 0: return "$";
                case 1: return "{";
                case 2: return "}";
                case 3: return "${";
                case 4: return "${}";
                case 5: return "/";
                case 6: return "${" + (names.empty() ? std::string{"A"} : c.pick(names)) + "}";
                case 7: return "$" + (names.empty() ? std::string{"A"} : c.pick(names));
                case 8: return c.text(8);
                default: return "a\\b c";
            }
        };
        for (std::size_t i = 0; i < nr_variables; ++i)
        {
            // All names that can be used between the braces
            auto name = c.pick({"A", "AB", "HOME", "a.b", "A B", "$A", "${A", "{", "é", "_1"}) +
                        (c.chance(30) ? std::to_string(c.draw(20)) : std::string{});
            names.push_back(name);
        }
        for (auto const& name: names)
        {
            std::string value;
            std::size_t const n = c.draw(3);
            for (std::size_t k = 0; k < n; ++k) value += piece();
            std::erase(value, '\0');
            variables[name] = value;
            setenv(name.c_str(), value.c_str(), 1);
            c.notes(name, "=", value);
        }
        // Some variables do not exist
        if (c.boolean()) names.push_back("MISSING");
        std::string text;
        std::size_t const n = c.draw(8);
        for (std::size_t k = 0; k < n; ++k) text += piece();
        auto const expected = expand(text, variables);
        c.notes(text, " -> ", expected);
        c.equal(lue::expand_environment_variables(text), expected, "expanded text");
        if (expected != text && nr_variables > 1) c.nontrivial();
    }


    // --------------------------------------------------------------------------------------------- X05
    //! Tokens in the DOT language
    struct Token
    {
            enum Kind { id, html, punctuation, end } kind;
            std::string text;
    };


    struct Tokens
    {
            Case& c;
            std::string text;
            std::size_t i{0};

            Token next()
            {
                while (i < text.size() && std::isspace(static_cast<unsigned char>(text[i]))) ++i;
                if (i == text.size()) return {Token::end, ""};
                char const ch = text[i];
                if (ch == '"')
                {
                    std::string result;
                    ++i;
                    while (i < text.size() && text[i] != '"')
                    {
                        if (text[i] == '\\' && i + 1 < text.size() && text[i + 1] == '"') ++i;
                        result += text[i++];
                    }
                    c.check(i < text.size(), "a string in the graph is not closed");
                    ++i;
                    return {Token::id, result};
                }
                if (ch == '<')
                {
                    std::size_t const begin = ++i;
                    int depth = 1;
                    while (i < text.size() && depth > 0)
                    {
                        depth += text[i] == '<' ? 1 : text[i] == '>' ? -1 : 0;
                        ++i;
                    }
                    c.equal(depth, 0, "brackets in an HTML label");
                    return {Token::html, text.substr(begin, i - 1 - begin)};
                }
                if (ch == '-' && i + 1 < text.size() && text[i + 1] == '>')
                {
                    i += 2;
                    return {Token::punctuation, "->"};
                }
                auto const word = [](char k)
                { return std::isalnum(static_cast<unsigned char>(k)) || k == '_' || k == '.' || (k & 0x80) != 0; };
                if (word(ch))
                {
                    std::size_t const begin = i;
                    while (i < text.size() && word(text[i])) ++i;
                    return {Token::id, text.substr(begin, i - begin)};
                }
                ++i;
                c.check(std::string_view{"{}[];=,"}.find(ch) != std::string_view::npos,
                    std::string{"character "} + ch + " in the graph");
                return {Token::punctuation, std::string(1, ch)};
            }

            Token peek()
            {
                auto const before = i;
                auto const result = next();
                i = before;
                return result;
            }

            bool accept(std::string const& punctuation)
            {
                auto const t = peek();
                if (t.kind != Token::punctuation || t.text != punctuation) return false;
                next();
                return true;
            }

            void expect(std::string const& punctuation)
            {
                c.check(accept(punctuation), "graph: expected " + punctuation + " before " + text.substr(i, 60));
            }
    };


    //! The text in a label, cells are separated
    std::string html_text(Case& c, std::string const& html)
    {
        std::string result;
        std::vector<std::string> open;
        bool first = true;
        for (std::size_t i = 0; i < html.size();)
        {
            if (html[i] == '<')
            {
                auto const end = html.find('>', i);
                c.check(end != std::string::npos, "HTML label: tag is not closed: " + html);
                auto tag = html.substr(i + 1, end - i - 1);
                auto const name = tag.substr(0, tag.find(' '));
                if (!name.empty() && name[0] == '/')
                {
                    c.check(!open.empty() && "/" + open.back() == name, "HTML label: wrong tag: " + html);
                    open.pop_back();
                }
                else
                {
                    c.check(name == "table" || name == "tr" || name == "td" || name == "br/", "HTML label: tag " + name);
                    if (name == "td")
                    {
                        if (!first) result += "|";
                        first = false;
                    }
                    if (name != "br/") open.push_back(name);
                }
                i = end + 1;
            }
            else if (html[i] == '&')
            {
                auto const end = html.find(';', i);
                c.check(end != std::string::npos, "HTML label: entity is not closed: " + html);
                auto const entity = html.substr(i + 1, end - i - 1);
                if (entity == "amp") result += '&';
                else if (entity == "lt") result += '<';
                else if (entity == "gt") result += '>';
                else if (entity == "quot") result += '"';
                else if (entity == "apos" || entity == "#39" || entity == "#x27") result += '\'';
                else if (entity == "#34") result += '"';
                else c.fail("HTML label: entity " + entity);
                i = end + 1;
            }
            else
            {
                c.check(html[i] != '>', "HTML label: > in " + html);
                result += html[i++];
            }
        }
        c.check(open.empty(), "HTML label: tags are not closed: " + html);
        return result;
    }


    struct Graph
    {
            struct Node
            {
                    std::string label;
                    std::string shape;
                    std::string color;
                    std::string cluster;
            };

            struct Edge
            {
                    std::string from;
                    std::string to;
                    bool soft{};
                    std::string label;
            };

            Case& c;
            std::map<std::string, Node> nodes;
            std::vector<Edge> edges;
            //! Labels of nested clusters
            std::set<std::string> clusters;

            void parse(std::string const& text)
            {
                Tokens t{c, text};
                c.equal(t.next().text, "digraph", "start of the graph");
                if (t.peek().kind != Token::punctuation) t.next();
                t.expect("{");
                statements(t, "");
                c.check(t.next().kind == Token::end, "something follows the graph");
            }

            std::map<std::string, std::string> attributes(Tokens& t)
            {
                std::map<std::string, std::string> result;
                while (t.accept("["))
                {
                    while (!t.accept("]"))
                    {
                        auto const key = t.next();
                        c.check(key.kind == Token::id, "graph: name of an attribute instead of " + key.text);
                        t.expect("=");
                        auto const value = t.next();
                        c.check(value.kind == Token::id || value.kind == Token::html, "graph: value of attribute " + key.text);
                        result[key.text] = value.kind == Token::html ? html_text(c, value.text) : value.text;
                        if (!t.accept(",")) t.accept(";");
                    }
                }
                return result;
            }

            std::string cluster_label(Tokens t)
            {
                // The label of a cluster is one of its statements
                int depth = 1;
                while (depth > 0)
                {
                    auto const token = t.next();
                    c.check(token.kind != Token::end, "graph: cluster is not closed");
                    if (token.kind == Token::punctuation)
                    {
                        if (token.text == "{" || token.text == "[") ++depth;
                        if (token.text == "}" || token.text == "]") --depth;
                    }
                    if (depth == 1 && token.text == "label" && t.accept("="))
                    {
                        auto const value = t.next();
                        return value.kind == Token::html ? html_text(c, value.text) : value.text;
                    }
                }
                c.fail("graph: cluster without a label");
                return "";
            }

            void statements(Tokens& t, std::string const& cluster)
            {
                while (!t.accept("}"))
                {
                    if (t.accept(";")) continue;
                    auto const first = t.next();
                    c.check(first.kind == Token::id, "graph: statement starting with " + first.text);
                    if (first.text == "subgraph")
                    {
                        if (t.peek().kind == Token::id) t.next();
                        t.expect("{");
                        auto const inner = cluster + "\n" + cluster_label(t);
                        c.check(clusters.insert(inner).second, "graph: cluster " + inner + " exists twice");
                        statements(t, inner);
                    }
                    else if (t.accept("="))
                    {
                        t.next();
                    }
                    else if (t.accept("->"))
                    {
                        auto const to = t.next().text;
                        auto a = attributes(t);
                        edges.push_back({first.text, to, a["style"] == "dashed", a["label"]});
                        c.check(a["style"] == "dashed" || a["style"] == "solid", "style of an edge: " + a["style"]);
                    }
                    else
                    {
                        auto a = attributes(t);
                        if (first.text == "graph" || first.text == "node" || first.text == "edge") continue;
                        c.check(nodes.find(first.text) == nodes.end(), "graph: node " + first.text + " exists twice");
                        nodes[first.text] = {a["label"], a["shape"], a["fillcolor"], cluster};
                    }
                }
            }

            std::string path(std::string const& node, int depth = 0)
            {
                c.check(depth < 10, "graph: cycle");
                std::string parent;
                for (auto const& e: edges)
                {
                    if (e.soft || e.to != node) continue;
                    c.check(parent.empty(), "graph: " + nodes.at(node).label + " is part of several things");
                    parent = e.from;
                }
                return (parent.empty() ? nodes.at(node).cluster : path(parent, depth + 1)) + "\n/" + nodes.at(node).label;
            }

            //! Lines describing all nodes and edges
            std::multiset<std::string> lines()
            {
                std::multiset<std::string> result;
                for (auto const& [name, n]: nodes)
                {
                    c.check(path(name).compare(0, n.cluster.size(), n.cluster) == 0, "graph: node in other cluster");
                    result.insert(path(name) + "\n shape=" + n.shape + " color=" + n.color);
                }
                for (auto const& e: edges)
                {
                    c.check(nodes.count(e.from) == 1 && nodes.count(e.to) == 1, "graph: edge without a node");
                    result.insert(path(e.from) + "\n " + (e.soft ? "..>" : "-->") + " " + path(e.to) + "\n label=" + e.label);
                }
                return result;
            }
    };


    struct DotExpectation
    {
            Case& c;
            Model& m;
            std::string dataset_path;
            bool show_value{}, value_details{}, show_tracker{}, time_details{}, space_details{};
            std::string group_shape{"oval"};
            std::string dataset_shape{"box"};
            std::map<std::string, std::string> colors;
            std::multiset<std::string> lines{};

            std::string color(std::string const& what)
            {
                auto const it = colors.find(what);
                return it == colors.end() ? "transparent" : it->second;
            }

            void node(std::string const& path, bool group, std::string const& color)
            {
                lines.insert(path + "\n shape=" + (group ? group_shape : dataset_shape) + " color=" + color);
            }

            std::string owned(std::string const& parent, std::string const& label, bool group, std::string const& color)
            {
                auto const path = parent + "\n/" + label;
                node(path, group, color);
                lines.insert(parent + "\n --> " + path + "\n label=");
                return path;
            }

            void soft(std::string const& from, std::string const& to, std::string const& label = "")
            {
                lines.insert(from + "\n ..> " + to + "\n label=" + label);
            }

            std::string phenomenon_path(Where const& w)
            {
                return "\n" + dataset_path + (w.universe < 0 ? "" : "\n" + m.universes[w.universe].name) + "\n/" +
                       m.phenomenon(w).name;
            }

            std::string set_path(Where const& w)
            {
                return phenomenon_path(w) + "\n/" + m.property_set(w).name;
            }

            std::string property_path(Where const& w)
            {
                return set_path(w) + "\n/" + m.property(w).name;
            }

            static std::string shape_text(lh5::Shape const& shape)
            {
                std::string result;
                for (auto const e: shape) result += (result.empty() ? "" : ", ") + std::to_string(e);
                return "(" + result + ")";
            }

            static std::string type_text(lh5::Datatype const& type)
            {
                return lh5::standard_datatype_as_string(lh5::file_datatype(type));
            }

            std::string same_details(
                std::string const& name, std::size_t n, lh5::Shape const& shape, lh5::Datatype const& type, bool constant = false)
            {
                if (!value_details) return name;
                return name + "|shape_per_object|same" + (constant ? "|shape_variability|constant" : "") + "|nr_arrays|" +
                       std::to_string(n) + "|array_shape|" + shape_text(shape) + "|file_datatype|" + type_text(type);
            }

            void indices(std::string const& parent, std::string const& name, std::size_t n, bool constant = true)
            {
                owned(parent, same_details(name, n, {}, datatype_of(3), constant), false, color("value"));
            }

            std::string time_label(TimeModel const& t)
            {
                static std::array<char const*, 10> const units{"nanosecond", "microsecond", "millisecond", "second", "minute",
                    "hour", "day", "week", "month", "year"};
                if (!time_details) return "lue_time_domain";
                return std::string{"lue_time_domain|unit|"} + units[t.clock.unit] + "|nr_units|" +
                       std::to_string(t.clock.nr_units) + "|item_type|" +
                       (t.item == ldm::TimeDomainItemType::point ? "point"
                           : t.item == ldm::TimeDomainItemType::box ? "box"
                                                                    : "cell");
            }

            void make()
            {
                if (m.universes.empty() && m.phenomena.empty()) empty("\n" + dataset_path);
                for (auto const& u: m.universes)
                {
                    if (u.phenomena.empty()) empty("\n" + dataset_path + "\n" + u.name);
                }
                m.for_each_phenomenon(
                    [&](Where const& w, PhenomenonModel& p)
                    {
                        node(phenomenon_path(w), true, color("phenomenon"));
                        if (show_tracker && show_value) indices(phenomenon_path(w), "lue_object_id", p.ids.size(), false);
                    });
                m.for_each_property_set([&](Where const& w, PropertySetModel& s) { property_set(w, s); });
                m.for_each_property([&](Where const& w, PropertySetModel& s, PropertyModel& p) { property(w, s, p); });
            }

            void empty(std::string const& cluster)
            {
                lines.insert(cluster + "\n/<empty>\n shape=plaintext color=red");
            }

            void property_set(Where const& w, PropertySetModel& s)
            {
                auto const path = owned(phenomenon_path(w), s.name, true, color("property_set"));
                if (show_tracker)
                {
                    if (s.tracker_from)
                    {
                        soft(path, set_path(owner(*s.tracker_from, true)) + "\n/lue_object_tracker");
                    }
                    else
                    {
                        auto const tracker = owned(path, "lue_object_tracker", true, color("object_tracker"));
                        if (show_value)
                        {
                            indices(tracker, "lue_active_set_index", s.tracker->set_idx.size());
                            indices(tracker, "lue_active_object_id", s.tracker->id.size());
                            indices(tracker, "lue_active_object_index", s.tracker->object_idx.size());
                        }
                    }
                }
                if (s.time && s.time_from)
                {
                    soft(path, set_path(owner(*s.time_from, false)) + "\n/" + time_label(*s.time));
                }
                else if (s.time)
                {
                    auto const time = owned(path, time_label(*s.time), true, color("time_domain"));
                    if (show_value)
                    {
                        std::size_t const width = s.time->width();
                        auto const value = owned(time,
                            same_details("lue_coordinates", s.time->nr_items(),
                                lh5::Shape{width}, datatype_of(3), true),
                            false, color("value"));
                        if (s.time->item == ldm::TimeDomainItemType::cell)
                        {
                            indices(value, "lue_time_discretization", s.time->counts.size());
                        }
                    }
                }
                if (s.space)
                {
                    auto const& space = *s.space;
                    bool const mobile = space.mobility == ldm::Mobility::mobile;
                    std::string label = "lue_space_domain";
                    if (space_details)
                    {
                        label += std::string{"|mobility|"} + (mobile ? "mobile" : "stationary") + "|item_type|" +
                                 (space.item == ldm::SpaceDomainItemType::box ? "box" : "point");
                    }
                    auto const domain = owned(path, label, true, color("space_domain"));
                    if (show_value)
                    {
                        owned(domain,
                            same_details("lue_coordinates", space.n, {space.width()}, datatype_of(space.type), mobile),
                            false, color("value"));
                    }
                    if (space.presence) soft(domain, property_path(*space.presence));
                }
            }

            //! Property set owning what is shared
            Where owner(Where w, bool tracker)
            {
                while (true)
                {
                    auto const& s = m.property_set(w);
                    auto const& next = tracker ? s.tracker_from : s.time_from;
                    if (!next) return w;
                    w = *next;
                }
            }

            void property(Where const& w, PropertySetModel&, PropertyModel& p)
            {
                auto const path = owned(set_path(w), p.name, true, color("property"));
                if (p.time_discretization)
                {
                    soft(path, property_path(*p.time_discretization), time_details ? "regular_grid" : "");
                }
                if (p.space_discretization)
                {
                    soft(path, property_path(*p.space_discretization), space_details ? "regular_grid" : "");
                }
                if (!show_value) return;
                auto const type = datatype_of(p.type);
                std::string const name = "lue_value";
                std::string label = name;
                bool group = true;
                auto const rest = [&](std::string const& shapes, std::string const& variability,
                                      std::string const& count, std::size_t n)
                {
                    if (!value_details) return;
                    label += "|shape_per_object|" + shapes;
                    if (!variability.empty()) label += "|shape_variability|" + variability;
                    if (!count.empty()) label += "|" + count + "|" + std::to_string(n);
                    label += "|rank|" + std::to_string(p.rank) + "|file_datatype|" + type_text(type);
                };
                switch (p.kind)
                {
                    case k_same:
                        label = same_details(name, p.arrays.n, p.shape, type);
                        group = false;
                        break;
                    case k_same_constant:
                        label = same_details(name, p.arrays.n, p.shape, type, true);
                        group = false;
                        break;
                    case k_different: rest("different", "", "", 0); break;
                    case k_different_constant: rest("different", "constant", "nr_objects", p.by_id.size()); break;
                    case k_same_variable: rest("same", "variable", "nr_locations_in_time", p.by_time.size()); break;
                    default: rest("different", "variable", "nr_locations_in_time", p.by_time_id.size());
                }
                owned(path, label, group, color("value"));
            }
    };


    void x05(Case& c)
    {
        auto m = generate(c, Options{.consistent = true, .max_properties = 2});
        if (c.chance(3))
        {
            m = Model{};
            c.label("empty dataset");
        }
        std::string const path = c.path(c.pick({"d.lue", "a b.lue", "a&b.lue", "<a>.lue", "réseau.lue"}));
        {
            Builder b{c, m, path, 0};
                        b.build();
        }
        auto const v = validity(path);
        std::string const dot = c.path(c.pick({"d.dot", "a b.dot", "x.y.dot"}));
        DotExpectation e{c, m, path};
        Json meta = Json::object();
        auto const flag = [&](char const* pointer, bool& value)
        {
            switch (c.draw(2))
            {
                case 0: break;
                default:
                    value = c.boolean();
                    meta[Json::json_pointer(pointer)] = value;
            }
        };
        flag("/lue/value/show", e.show_value);
        flag("/lue/value/show_details", e.value_details);
        flag("/lue/object_tracker/show", e.show_tracker);
        flag("/lue/time_domain/show_details", e.time_details);
        flag("/lue/space_domain/show_details", e.space_details);
        if (c.chance(20)) meta["hdf5"]["group"]["shape"] = e.group_shape = "hexagon";
        if (c.chance(20)) meta["hdf5"]["dataset"]["shape"] = e.dataset_shape = "circle";
        for (auto const* what: {"value", "property", "property_set", "phenomenon", "time_domain", "space_domain", "object_tracker"})
        {
            if (c.chance(15)) meta["lue"][what]["fillcolor"] = e.colors[what] = c.pick({"blue", "#00ff00", "transparent"});
        }
        std::vector<std::string> arguments{"export"};
        if (!meta.empty() || c.boolean())
        {
            write_file(c.path("meta.json"), meta.dump());
            c.note(meta.dump());
            arguments.insert(arguments.end(), {"--meta", c.path("meta.json")});
        }
        arguments.insert(arguments.end(), {path, dot});
        auto const before = file_bytes(path);
        auto const output = translate(c, arguments);
        c.equal(output.status, v.errors ? EXIT_FAILURE : EXIT_SUCCESS, "exit status: " + output.error + v.message);
        c.check(file_bytes(path) == before, "the dataset is changed");
        if (v.errors) return;
        auto const text = file_bytes(dot);
        c.notes(text);
        Graph g{c};
        g.parse(text);
        e.make();
        auto const actual = g.lines();
        for (auto const& line: e.lines)
        {
            if (actual.count(line) != e.lines.count(line))
                c.fail("in the graph " + str(actual.count(line)) + " times instead of " + str(e.lines.count(line)) + ": " + line);
        }
        for (auto const& line: actual)
        {
            if (actual.count(line) != e.lines.count(line))
                c.fail("in the graph " + str(actual.count(line)) + " times instead of " + str(e.lines.count(line)) + ": " + line);
        }
        std::set<std::string> clusters{"\n" + path};
        for (auto const& u: m.universes) clusters.insert("\n" + path + "\n" + u.name);
        c.check(g.clusters == clusters, "clusters");
        std::size_t nr_soft = 0;
        for (auto const& edge: g.edges) nr_soft += edge.soft;
        if (nr_soft > 0) c.label("soft links");
        if (m.nr_properties() >= 2) c.nontrivial();
    }


    // --------------------------------------------------------------------------------------------- X06
    void x06(Case& c)
    {
        enum { boxes, points, refused };
        int const what = c.chance(20) ? refused : c.boolean() ? boxes : points;
        std::string const stem = c.pick({"d", "a b", "data.set"});
        std::string const path = c.path(stem + ".lue");
        std::string const phenomenon_name = c.pick({"p", "phenomenon 1"});
        std::string const set_name = c.pick({"areas", "s_1", "x"});
        std::size_t const type = what == refused ? 1 : c.draw(nr_types - 1);
        std::string reason;
        std::size_t rank = 2;
        std::size_t nr_boxes_of_time = 1;
        auto mobility = what == points ? ldm::Mobility::mobile : ldm::Mobility::stationary;
        auto item = what == points ? ldm::SpaceDomainItemType::point : ldm::SpaceDomainItemType::box;
        auto time = what == points ? ldm::TimeDomainItemType::cell
                                   : c.pick({ldm::TimeDomainItemType::point, ldm::TimeDomainItemType::box,
                                         ldm::TimeDomainItemType::cell});
        Json meta = {{stem, {{"phenomena", {{{"name", phenomenon_name}, {"property_sets", {{{"name", set_name}}}}}}}}}};
        bool with_space = true;
        if (what == refused)
        {
            mobility = c.pick({ldm::Mobility::mobile, ldm::Mobility::stationary});
            item = mobility == ldm::Mobility::mobile ? ldm::SpaceDomainItemType::point : ldm::SpaceDomainItemType::box;
            time = ldm::TimeDomainItemType::cell;
            auto& phenomena = meta[stem]["phenomena"];
            switch (c.draw(8))
            {
                case 0: reason = "rank"; rank = c.boolean() ? 1 : 3; break;
                case 1:
                    reason = "number of time boxes";
                    mobility = ldm::Mobility::mobile;
                    item = ldm::SpaceDomainItemType::point;
                    nr_boxes_of_time = 2;
                    break;
                case 2:
                    reason = "items";
                    item = mobility == ldm::Mobility::mobile ? ldm::SpaceDomainItemType::box
                                                             : ldm::SpaceDomainItemType::point;
                    break;
                case 3:
                    reason = "time items";
                    mobility = ldm::Mobility::mobile;
                    item = ldm::SpaceDomainItemType::point;
                    time = c.pick({ldm::TimeDomainItemType::point, ldm::TimeDomainItemType::box});
                    break;
                case 4: reason = "dataset in metadata"; meta = {{"other", meta[stem]}}; break;
                case 5:
                    reason = "phenomena in metadata";
                    if (c.boolean()) phenomena.push_back(phenomena[0]);
                    else phenomena = Json::array();
                    break;
                case 6:
                    reason = "property sets in metadata";
                    if (c.boolean()) phenomena[0]["property_sets"].push_back(phenomena[0]["property_sets"][0]);
                    else phenomena[0]["property_sets"][0]["name"] = "other";
                    break;
                case 7: reason = "space domain"; with_space = false; break;
                default: reason = "names in metadata"; phenomena[0]["name"] = "other"; break;
            }
            c.label("refused: " + reason);
        }
        // Coordinates of rank numbers that can be represented by the type
        std::size_t const width = item == ldm::SpaceDomainItemType::box ? 2 * rank : rank;
        bool const mobile = mobility == ldm::Mobility::mobile;
        bool const is_box = item == ldm::SpaceDomainItemType::box;
        std::size_t const nr_objects = c.draw(5);
        std::set<hsize_t> used;
        auto const ids = object_ids(c, nr_objects, used);
        // Active sets, one per time cell or another location in time
        std::vector<std::vector<hsize_t>> sets;
        std::size_t const nr_sets = c.draw(4);
        for (std::size_t i = 0; i < nr_sets; ++i)
        {
            auto members = ids;
            for (std::size_t k = members.size(); k > 1; --k) std::swap(members[k - 1], members[c.draw(k - 1)]);
            members.resize(c.draw(members.size()));
            sets.push_back(members);
        }
        if (!mobile && !sets.empty())
        {
            // The stationary items are those of all objects
            sets[0] = ids;
        }
        std::size_t nr_items = 0;
        if (mobile)
        {
            for (auto const& s: sets) nr_items += s.size();
        }
        else
        {
            nr_items = ids.size();
        }
        std::vector<double> coordinates;
        Bytes bytes;
        with_type(type,
            [&]<typename T>()
            {
                bool const whole = std::is_integral_v<T>;
                auto const low = [&]() -> double
                {
                    if (std::is_unsigned_v<T>) return double(c.draw(100));
                    if (whole || c.boolean()) return double(c.integer(-100, 27));
                    return double(T(double(c.integer(-100000, 100000)) / 7));
                };
                for (std::size_t i = 0; i < nr_items; ++i)
                {
                    std::vector<T> r;
                    for (std::size_t d = 0; d < rank; ++d) r.push_back(T(low()));
                    if (is_box)
                    {
                        for (std::size_t d = 0; d < rank; ++d) r.push_back(T(r[d] + T(1 + c.draw(whole ? 99 : 1000))));
                    }
                    for (auto const e: r) coordinates.push_back(double(e));
                    bytes.append(reinterpret_cast<char const*>(r.data()), r.size() * sizeof(T));
                }
            });
        {
            auto dataset = ldm::create_dataset(path);
            auto& phenomenon = dataset.add_phenomenon(phenomenon_name);
            if (nr_objects > 0)
            {
                phenomenon.object_id().expand(nr_objects);
                phenomenon.object_id().write(ids.data());
            }
            ldm::TimeConfiguration const time_configuration{time};
            ldm::SpaceConfiguration const space_configuration{mobility, item};
            ldm::Clock const clock{ldm::time::Unit::day, 1};
            auto& set = with_space
                            ? phenomenon.property_sets().add(
                                  set_name, time_configuration, clock, space_configuration, datatype_of(type), rank)
                            : phenomenon.property_sets().add(set_name, time_configuration, clock);
            auto& tracker = set.object_tracker();
            std::vector<hsize_t> set_idx, active, object_idx;
            std::map<hsize_t, hsize_t> count;
            for (auto const& s: sets)
            {
                set_idx.push_back(active.size());
                for (auto const id: s)
                {
                    active.push_back(id);
                    object_idx.push_back(count[id]++);
                }
            }
            auto const write = [](auto& value, std::vector<hsize_t> const& v)
            {
                if (v.empty()) return;
                value.expand(v.size());
                value.write(v.data());
            };
            write(tracker.active_set_index(), set_idx);
            write(tracker.active_object_id(), active);
            write(tracker.active_object_index(), object_idx);
            auto& domain = set.time_domain();
            if (time == ldm::TimeDomainItemType::cell)
            {
                auto value = domain.value<ldm::TimeCell>();
                value.expand(nr_boxes_of_time);
                value.count().expand(nr_boxes_of_time);
                std::vector<std::uint64_t> b{0, nr_sets, nr_sets, nr_sets};
                value.write(b.data());
                std::vector<hsize_t> counts{nr_sets, 0};
                counts.resize(nr_boxes_of_time);
                value.count().write(counts.data());
            }
            else
            {
                bool const box = time == ldm::TimeDomainItemType::box;
                std::vector<std::uint64_t> items(nr_sets * (box ? 2 : 1));
                std::iota(items.begin(), items.end(), 5);
                if (nr_sets > 0 && box)
                {
                    auto value = domain.value<ldm::TimeBox>();
                    value.expand(nr_sets);
                    value.write(items.data());
                }
                else if (nr_sets > 0)
                {
                    auto value = domain.value<ldm::TimePoint>();
                    value.expand(nr_sets);
                    value.write(items.data());
                }
            }
            if (with_space && nr_items > 0)
            {
                auto& space = set.space_domain();
                auto const fill = [&](auto&& value)
                {
                    value.expand(nr_items);
                    value.write(bytes.data());
                };
                if (mobile && is_box) fill(space.value<ldm::MobileSpaceBox>());
                else if (mobile) fill(space.value<ldm::MobileSpacePoint>());
                else if (is_box) fill(space.value<ldm::StationarySpaceBox>());
                else fill(space.value<ldm::StationarySpacePoint>());
            }
        }
        auto const v = validity(path);
        c.check(!v.errors, "the dataset of the test is not valid: " + v.message);
        std::string const out_stem = c.pick({"out", "o u t", "out.1"});
        std::string const out = c.path(out_stem + ".shp");
        write_file(c.path("meta.json"), meta.dump());
        c.note(meta.dump());
        auto const output = translate(c, {"export", "--meta", c.path("meta.json"), path, out});
        c.equal(output.status, what == refused ? EXIT_FAILURE : EXIT_SUCCESS, "exit status: " + output.error);
        if (what == refused) return;
        c.label(mobile ? "points" : "boxes");

        struct Closer
        {
                void operator()(GDALDataset* d) const { GDALClose(d); }
        };
        std::string const name = mobile ? c.path(out_stem) : out;
        c.check(std::filesystem::exists(name), name + " does not exist");
        if (mobile && nr_sets == 0)
        {
            c.check(std::filesystem::is_empty(name), "layers for time cells that do not exist");
            return;
        }
        std::unique_ptr<GDALDataset, Closer> const dataset{
            static_cast<GDALDataset*>(GDALOpenEx(name.c_str(), GDAL_OF_VECTOR, nullptr, nullptr, nullptr))};
        c.check(dataset != nullptr, "the Shapefile cannot be opened");
        c.equal(dataset->GetLayerCount(), int(mobile ? nr_sets : 1), "number of layers");
        std::size_t idx = 0;
        for (std::size_t i = 0; i < (mobile ? nr_sets : 1); ++i)
        {
            auto* layer = mobile ? dataset->GetLayerByName((set_name + "-" + std::to_string(i + 1)).c_str())
                                 : dataset->GetLayer(0);
            c.check(layer != nullptr, "no layer for time cell " + std::to_string(i));
            std::size_t const n = mobile ? sets[i].size() : nr_items;
            c.equal(std::size_t(layer->GetFeatureCount()), n, "number of features in layer " + std::to_string(i));
            layer->ResetReading();
            for (std::size_t k = 0; k < n; ++k, idx += width)
            {
                std::unique_ptr<OGRFeature, void (*)(OGRFeature*)> const feature{
                    layer->GetNextFeature(), [](OGRFeature* f) { OGRFeature::DestroyFeature(f); }};
                c.check(feature != nullptr && feature->GetGeometryRef() != nullptr, "no geometry");
                auto* geometry = feature->GetGeometryRef();
                if (mobile)
                {
                    c.check(wkbFlatten(geometry->getGeometryType()) == wkbPoint, "geometry is not a point");
                    c.equal(geometry->toPoint()->getX(), coordinates[idx], "x-coordinate");
                    c.equal(geometry->toPoint()->getY(), coordinates[idx + 1], "y-coordinate");
                    continue;
                }
                c.check(wkbFlatten(geometry->getGeometryType()) == wkbPolygon, "geometry is not a polygon");
                auto* polygon = geometry->toPolygon();
                c.equal(polygon->getNumInteriorRings(), 0, "number of interior rings");
                auto* ring = polygon->getExteriorRing();
                c.equal(ring->getNumPoints(), 5, "number of points");
                std::set<std::pair<double, double>> corners;
                for (int p = 0; p < 5; ++p)
                {
                    corners.insert({ring->getX(p), ring->getY(p)});
                    // Along the sides
                    if (p > 0)
                        c.check((ring->getX(p) == ring->getX(p - 1)) != (ring->getY(p) == ring->getY(p - 1)), "side of box");
                }
                auto const* b = &coordinates[idx];
                std::set<std::pair<double, double>> const expected{{b[0], b[1]}, {b[2], b[1]}, {b[2], b[3]}, {b[0], b[3]}};
                c.check(corners == expected, "corners of box " + std::to_string(k));
            }
        }
        if (nr_items >= 2) c.nontrivial();
    }


    void setup()
    {
        quiet();
        GDALAllRegister();
        CPLPushErrorHandler(CPLQuietErrorHandler);
    }

}  // namespace


int main(int argc, char** argv)
{
    std::vector<pt::Property> const properties{
        {"X01",
            "a case is a sequence of imports of JSON descriptions into the same dataset, new or added to, some of which are "
            "wrong; non-trivial if at least two properties are described or something existing is added to",
            x01, 3000, 200000, setup},
        {"X02",
            "a case is a sequence of imports of rasters and exports of layers, in one dataset; non-trivial if at least two "
            "layers are imported and some raster has more than one block",
            x02, 1500, 200000, setup},
        {"X03",
            "a case is a list of files, datasets or something else, that is validated in one go; non-trivial if there are "
            "several, and at least one is a dataset",
            x03, 3000, 200000, setup},
        {"X04",
            "a case is a set of environment variables and a text; non-trivial if there are at least two variables and the "
            "text is changed",
            x04, 200000, 5000000, setup},
        {"X05",
            "a case is a dataset that is exported to a graph, given settings; non-trivial if there are at least two "
            "properties in the dataset",
            x05, 4000, 200000, setup},
        {"X06",
            "a case is a dataset of which space boxes or points are exported to Shapefiles; non-trivial if there are at "
            "least two of these",
            x06, 3000, 200000, setup},
    };
    return pt::main(argc, argv, properties);
}
