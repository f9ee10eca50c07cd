// V03: foreign and damaged files
#include "model.hpp"

using namespace vp;


namespace {

    struct Object
    {
            std::string path;
            bool soft;
            bool group;
            std::vector<std::string> attributes;
    };


    std::string parent_of(std::string const& path)
    {
        auto const i = path.rfind('/');
        return i == 0 ? "/" : path.substr(0, i);
    }


    std::string name_of(std::string const& path)
    {
        return path.substr(path.rfind('/') + 1);
    }


    //! Everything in the file, without using the code under test
    std::vector<Object> objects(hid_t file)
    {
        std::vector<Object> result{{"/", false, true, {}}};
        H5Lvisit(
            file, H5_INDEX_NAME, H5_ITER_INC,
            [](hid_t, char const* name, H5L_info_t const* info, void* data) -> herr_t
            {
                auto& result = *static_cast<std::vector<Object>*>(data);
                result.push_back({"/" + std::string{name}, info->type == H5L_TYPE_SOFT, false, {}});
                return 0;
            },
            &result);
        for (auto& o: result)
        {
            if (o.soft) continue;
            hid_t const id = H5Oopen(file, o.path.c_str(), H5P_DEFAULT);
            o.group = H5Iget_type(id) == H5I_GROUP;
            H5Aiterate2(
                id, H5_INDEX_NAME, H5_ITER_INC, nullptr,
                [](hid_t, char const* name, H5A_info_t const*, void* data) -> herr_t
                {
                    static_cast<std::vector<std::string>*>(data)->push_back(name);
                    return 0;
                },
                &o.attributes);
            H5Oclose(id);
        }
        return result;
    }


    void make_dataset(Case& c, hid_t file, std::string const& path)
    {
        std::vector<hsize_t> dims(c.draw(4));
        for (auto& d: dims) d = c.draw(4);
        hid_t const type =
            c.pick({H5T_NATIVE_UINT64, H5T_NATIVE_INT8, H5T_NATIVE_DOUBLE, H5T_NATIVE_INT32, H5T_NATIVE_FLOAT});
        hid_t const space = dims.empty() ? H5Screate(c.boolean() ? H5S_SCALAR : H5S_NULL)
                                         : H5Screate_simple(int(dims.size()), dims.data(), nullptr);
        c.notes("  as an array of rank ", dims.size());
        hid_t const dataset = H5Dcreate2(file, path.c_str(), type, space, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        if (dataset >= 0) H5Dclose(dataset);
        H5Sclose(space);
    }


    void make_group(hid_t file, std::string const& path)
    {
        hid_t const group = H5Gcreate2(file, path.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        if (group >= 0) H5Gclose(group);
    }


    void make_attribute(Case& c, hid_t object, std::string const& name)
    {
        // Another type, size or contents
        std::size_t const way = c.draw(7);
        c.notes("  kind of attribute: ", way);
        hid_t space = H5Screate(H5S_SCALAR);
        hid_t type = H5T_NATIVE_INT32;
        std::uint64_t number[64]{};
        for (auto& n: number) n = c.chance(10) ? c.any64() : 7;
        char text[64] = "nonsense";
        void const* data = number;
        bool own_type = false;
        char const* pointer = text;
        switch (way)
        {
            case 0: number[0] = c.any64(); break;
            case 1: type = H5T_NATIVE_UINT64; break;
            case 2: type = H5T_NATIVE_DOUBLE; break;
            case 3:
            {
                // Text of fixed size, as LUE does
                type = H5Tcopy(H5T_C_S1);
                own_type = true;
                H5Tset_size(type, c.boolean() ? 8 : 1);
                H5Tset_cset(type, c.boolean() ? H5T_CSET_UTF8 : H5T_CSET_ASCII);
                data = text;
                break;
            }
            case 4:
            {
                // Text of variable size
                type = H5Tcopy(H5T_C_S1);
                own_type = true;
                H5Tset_size(type, H5T_VARIABLE);
                data = &pointer;
                break;
            }
            case 5:
            {
                hsize_t const n = 1 + c.draw(7);
                H5Sclose(space);
                space = H5Screate_simple(1, &n, nullptr);
                type = H5T_NATIVE_UINT64;
                break;
            }
            case 6:
            {
                hsize_t const n[2]{2, 3};
                H5Sclose(space);
                space = H5Screate_simple(2, n, nullptr);
                break;
            }
            default:
            {
                H5Sclose(space);
                space = H5Screate(H5S_NULL);
                data = nullptr;
            }
        }
        hid_t const attribute = H5Acreate2(object, name.c_str(), type, space, H5P_DEFAULT, H5P_DEFAULT);
        if (attribute >= 0)
        {
            if (data) H5Awrite(attribute, type, data);
            H5Aclose(attribute);
        }
        if (own_type) H5Tclose(type);
        H5Sclose(space);
    }


    //! Do something with everything in the dataset
    void visit(ldm::Dataset& d);


    template<typename Collection>
    void visit_phenomena(Collection& phenomena)
    {
        for (auto const& name: phenomena.names())
        {
            auto& p = phenomena[name];
            p.description();
            p.object_id().nr_objects();
            for (bool collection: {false, true})
            {
                auto& sets = collection ? p.collection_property_sets() : p.property_sets();
                for (auto const& set_name: sets.names())
                {
                    auto& s = sets[set_name];
                    s.object_tracker().active_object_id().nr_ids();
                    if (s.has_time_domain()) s.time_domain().clock();
                    if (s.has_space_domain()) s.space_domain().configuration();
                    s.owns_time_domain();
                    s.owns_object_tracker();
                    s.properties().size();
                }
            }
        }
    }


    void visit(ldm::Dataset& d)
    {
        d.description();
        visit_phenomena(d.phenomena());
        for (auto const& name: d.universes().names())
        {
            visit_phenomena(d.universes()[name].phenomena());
        }
    }


    bool is_required(Object const& o)
    {
        static std::set<std::string> const names{"lue_phenomena", "lue_universes", "lue_property_sets",
            "lue_collection_property_sets", "lue_object_tracker", "lue_object_id", "lue_active_object_id",
            "lue_active_set_index", "lue_active_object_index", "lue_coordinates", "lue_value", "lue_properties",
            "lue_same_shape", "lue_same_shape_constant_shape", "lue_same_shape_variable_shape", "lue_different_shape",
            "lue_different_shape_constant_shape", "lue_different_shape_variable_shape"};
        // Items of collections can have any name
        static std::set<std::string> const collections{"lue_phenomena", "lue_universes", "lue_property_sets",
            "lue_collection_property_sets", "lue_same_shape", "lue_same_shape_constant_shape",
            "lue_same_shape_variable_shape", "lue_different_shape", "lue_different_shape_constant_shape",
            "lue_different_shape_variable_shape"};
        return names.count(name_of(o.path)) > 0 && collections.count(name_of(parent_of(o.path))) == 0;
    }


    void damage(Case& c)
    {
        auto const path = c.path("dataset.lue");
        bool foreign = c.chance(15);
        bool must_be_reported = false;
        if (foreign)
        {
            std::size_t const way = c.draw(5);
            c.label("foreign file");
            c.notes("foreign file ", way);
            must_be_reported = true;
            if (way == 0)
            {
                std::ofstream{path};
            }
            else if (way == 1)
            {
                std::ofstream stream{path, std::ios::binary};
                std::size_t const n = c.size(1, 5000);
                for (std::size_t i = 0; i < n; ++i) stream.put(char(i < 64 ? c.draw(255) : i * 37));
            }
            else if (way == 2)
            {
                std::filesystem::create_directory(path);
            }
            else if (way == 3)
            {
                std::ofstream{path, std::ios::binary} << "\x89HDF\r\n\x1a\n" << std::string(c.draw(100), char(c.draw(255)));
            }
            else
            {
                hid_t const file = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
                for (char const* name: {"/lue_phenomena", "/lue_universes", "/other"})
                {
                    if (c.boolean())
                        make_group(file, name);
                    else if (c.boolean())
                        make_dataset(c, file, name);
                }
                // May be a dataset without contents
                must_be_reported = false;
                H5Fclose(file);
            }
        }
        else
        {
            Options options;
            options.consistent = true;
            options.max_property_sets = 2;
            options.max_properties = 3;
            Model m = generate(c, options);
            Builder b{c, m, path, 0};
            b.build();
            b.dataset.reset();

            if (c.chance(8))
            {
                // Lose the end
                auto const bytes = file_bytes(path);
                std::size_t const n = c.draw(bytes.size() - 1);
                c.notes("truncate the file from ", bytes.size(), " to ", n);
                std::filesystem::resize_file(path, n);
                must_be_reported = true;
                c.label("truncated");
            }
            else
            {
                std::size_t const nr_damages = 1 + (c.chance(30) ? c.draw(4) : 0);
                for (std::size_t i = 0; i < nr_damages; ++i)
                {
                    hid_t const file = H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
                    auto const all = objects(file);
                    auto const& o = all[c.draw(all.size() - 1)];
                    switch (c.draw(7))
                    {
                        case 0:
                        {
                            if (o.path == "/") break;
                            c.notes("remove ", o.path);
                            c.label("removed");
                            H5Ldelete(file, o.path.c_str(), H5P_DEFAULT);
                            must_be_reported |= nr_damages == 1 && is_required(o);
                            break;
                        }
                        case 1:
                        case 2:
                        case 3:
                        {
                            std::vector<std::pair<std::string, std::string>> attributes;
                            for (auto const& o: all)
                                for (auto const& a: o.attributes) attributes.emplace_back(o.path, a);
                            if (attributes.empty()) break;
                            auto const [object, name] = c.pick(attributes);
                            // Other bytes would be decoded by the library itself
                            bool const replace = false;
                            c.notes(replace ? "replace" : "remove", " attribute ", name, " of ", object);
                            c.label(replace ? "attribute replaced" : "attribute removed");
                            hid_t const id = H5Oopen(file, object.c_str(), H5P_DEFAULT);
                            H5Adelete(id, name.c_str());
                            if (replace) make_attribute(c, id, name);
                            H5Oclose(id);
                            static std::set<std::string> const required{"lue_rank", "lue_epoch_kind", "lue_time_unit",
                                "lue_nr_time_units", "lue_time_domain_item_type", "lue_space_domain_item_type",
                                "lue_mobility", "lue_value_variability", "lue_shape_per_object",
                                "lue_shape_variability", "lue_nr_locations_in_time"};
                            must_be_reported |= nr_damages == 1 && required.count(name) > 0 &&
                                                object.find("lue_property_sets") != std::string::npos &&
                                                object.find("/lue_value/") == std::string::npos;
                            break;
                        }
                        case 4:
                        {
                            if (o.path == "/" || o.soft) break;
                            bool const group = !o.group;
                            c.notes("replace ", o.path, group ? " by a group" : " by an array");
                            c.label("replaced");
                            H5Ldelete(file, o.path.c_str(), H5P_DEFAULT);
                            if (group)
                                make_group(file, o.path);
                            else
                                make_dataset(c, file, o.path);
                            break;
                        }
                        case 5:
                        {
                            if (o.path == "/") break;
                            std::string const target = c.boolean() ? "/nowhere" : o.path;
                            c.notes("replace ", o.path, " by a link to ", target);
                            c.label("linked");
                            H5Ldelete(file, o.path.c_str(), H5P_DEFAULT);
                            H5Lcreate_soft(target.c_str(), file, o.path.c_str(), H5P_DEFAULT, H5P_DEFAULT);
                            break;
                        }
                        case 6:
                        {
                            if (o.soft || !o.group) break;
                            static std::vector<std::string> const names{"stray", "lue_value", "lue_time_domain",
                                "lue_space_domain", "lue_object_tracker", "lue_properties", "lue_coordinates",
                                "lue_time_discretization_property", "lue_space_discretization_property",
                                "lue_presence_discretization_property"};
                            auto const name = (o.path == "/" ? "/" : o.path + "/") + c.pick(names);
                            c.notes("add ", name);
                            c.label("added");
                            switch (c.draw(2))
                            {
                                case 0: make_group(file, name); break;
                                case 1: make_dataset(c, file, name); break;
                                default:
                                    H5Lcreate_soft(
                                        c.pick(all).path.c_str(), file, name.c_str(), H5P_DEFAULT, H5P_DEFAULT);
                            }
                            break;
                        }
                        default:
                        {
                            if (o.soft) break;
                            c.notes("add an attribute to ", o.path);
                            c.label("attribute added");
                            static std::vector<std::string> const names{"stray", "units", "lue_stray"};
                            auto const& name = c.pick(names);
                            hid_t const id = H5Oopen(file, o.path.c_str(), H5P_DEFAULT);
                            H5Adelete(id, name.c_str());
                            make_attribute(c, id, name);
                            H5Oclose(id);
                        }
                    }
                    H5Fclose(file);
                }
            }
        }

        bool const directory = std::filesystem::is_directory(path);
        auto const before = directory ? std::string{} : file_bytes(path);
        bool reported = false;
        std::string what;
        try
        {
            auto d = ldm::open_dataset(path, H5F_ACC_RDONLY);
            c.label("could be opened");
            visit(d);
            lh5::Issues issues;
            ldm::validate(d, issues);
            reported |= issues.errors_found();
        }
        catch (std::exception const& exception)
        {
            reported = true;
            what = exception.what();
            c.label("refused");
        }
        bool reported2 = false;
        try
        {
            lh5::Issues issues;
            ldm::validate(path, issues);
            reported2 |= issues.errors_found();
        }
        catch (std::exception const& exception)
        {
            reported2 = true;
        }
        c.label(reported ? "reported" : "not reported");
        if (must_be_reported)
        {
            c.check(reported, "damage is not reported when opening and validating the dataset");
            c.check(reported2, "damage is not reported when validating by name");
        }
        c.check(directory || file_bytes(path) == before, "the damaged file was changed");
        c.nontrivial();
    }

}  // namespace


int main(int argc, char** argv)
{
    std::vector<pt::Property> const properties{
        {"V03",
            "a case is a file that is not a dataset, or a generated dataset with 1-5 of its members or attributes "
            "removed, swapped, made dangling or added, or with its end missing; it is opened, visited and "
            "validated; all are non-trivial",
            damage, 6000, 80000, quiet},
    };
    return pt::main(argc, argv, properties);
}
