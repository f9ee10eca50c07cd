// Properties of the HDF5 layer: H01 - H05, D05
#include "common.hpp"
#include "lue/hdf5/chunk.hpp"
#include "lue/hdf5/link.hpp"
#include <set>
#include <variant>
#include <unistd.h>

using namespace vp;


namespace {

    using Strings = std::vector<std::string>;


    lh5::Datatype file_type_of(std::size_t idx)
    {
        lh5::Datatype result;
        with_type(idx, [&]<typename T>() { result = lh5::file_datatype(datatype<T>()); });
        return result;
    }


    // ---------------------------------------------------------------------------------------------- H01

    template<typename... Ts>
    using ValueOf = std::variant<std::string, std::vector<std::string>, Ts..., std::vector<Ts>...>;

    using Value = ValueOf<
        std::int32_t, double, std::uint8_t, std::uint64_t, float, std::int64_t, std::uint32_t, std::int8_t,
        std::int16_t, std::uint16_t>;

    template<typename T>
    struct IsVector: std::false_type
    {
    };

    template<typename T>
    struct IsVector<std::vector<T>>: std::true_type
    {
    };

    template<typename T>
    bool equal_values(T const& a, T const& b)
    {
        if constexpr (std::is_same_v<T, std::string>)
        {
            return a == b;
        }
        else if constexpr (IsVector<T>::value)
        {
            if constexpr (std::is_same_v<T, Strings>)
            {
                return a == b;
            }
            else
            {
                return same(a, b);
            }
        }
        else
        {
            return pt::same_bits(a, b);
        }
    }

    //! Everything that lies in an object, asked from the library
    std::set<std::string> raw_attribute_names(hid_t id)
    {
        std::set<std::string> result;
        H5Aiterate2(
            id, H5_INDEX_NAME, H5_ITER_INC, nullptr,
            [](hid_t, char const* name, H5A_info_t const*, void* data) -> herr_t
            {
                static_cast<std::set<std::string>*>(data)->insert(name);
                return 0;
            },
            &result);
        return result;
    }

    std::string any_text(Case& c, std::size_t max)
    {
        std::string result;
        switch (c.draw(5))
        {
            case 0:
                return c.text(max, true);
            case 1:
            {
                result = c.text(max, true);
                std::size_t const n = c.chance(10) ? c.draw(60000) : c.draw(c.thorough() ? 3000 : 300);
                while (result.size() < n)
                {
                    result += static_cast<char>('a' + result.size() % 26);
                }
                return result;
            }
            case 2:
            {
                // Trailing and leading blanks
                return std::string(c.draw(3), ' ') + c.text(4, true) + std::string(c.draw(3), ' ');
            }
            default:
            {
                return c.text(max, true);
            }
        }
    }

    struct H01Object
    {
            std::string name;
            bool is_dataset;
            std::map<std::string, Value> attributes{};
    };

    void check_object(Case& c, lh5::Attributes const& attributes, hid_t id, H01Object const& model, bool details)
    {
        std::set<std::string> expected_names;
        for (auto const& [name, value]: model.attributes)
        {
            expected_names.insert(name);
            std::string const what = "attribute '" + name + "' of " + (model.name.empty() ? "the root" : model.name);
            c.check(attributes.exists(name), what + " must exist");
            std::visit(
                [&, &name = name]<typename T>(T const& expected)
                {
                    T actual;
                    if constexpr (std::is_same_v<T, Strings>)
                    {
                        return;
                    }
                    else
                    {
                        actual = attributes.read<T>(name);
                        if (!equal_values(actual, expected))
                        {
                            c.fail(what + ": got " + str(actual) + ", expected " + str(expected));
                        }
                        if constexpr (std::is_arithmetic_v<T>)
                        {
                            if (details)
                            {
                                c.check(
                                    attributes.datatype(name) == datatype<T>(), what + ": wrong element type");
                            }
                        }
                    }
                },
                value);
        }
        auto actual_names = raw_attribute_names(id);
        actual_names.erase("hdf5_version");
        c.check(
            actual_names == expected_names,
            "attributes present: got " + str(std::vector<std::string>(actual_names.begin(), actual_names.end())) +
                ", expected " + str(std::vector<std::string>(expected_names.begin(), expected_names.end())));
    }

    void h01(Case& c)
    {
        std::string const path = c.path("a.h5");
        auto file = std::make_unique<lh5::File>(lh5::create_file(path));
        std::vector<H01Object> objects{{"", false}, {"g", false}, {"d", true}};
        {
            lh5::create_group(*file, "g");
            lh5::create_dataset(
                file->id(), "d", file_type_of(0), lh5::create_dataspace(lh5::Shape{2}),
                lh5::Dataset::CreationPropertyList{});
        }

        auto with_attributes = [&](H01Object const& object, auto&& f)
        {
            if (object.name.empty())
            {
                f(file->attributes(), file->id());
            }
            else if (object.is_dataset)
            {
                lh5::Dataset dataset{*file, object.name};
                f(dataset.attributes(), dataset.id());
            }
            else
            {
                lh5::Group group{*file, object.name};
                f(group.attributes(), group.id());
            }
        };

        std::size_t const nr_steps = 1 + c.size(1, c.thorough() ? 40 : 16);
        std::size_t nr_overwrites = 0;
        std::vector<std::string> const name_pool{"a", "b", "description", c.name(), c.text(60, false)};

        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            switch (c.draw(9))
            {
                default:
                {
                    H01Object& object = objects[c.draw(objects.size() - 1)];
                    std::string const name = c.pick(name_pool);
                    auto it = object.attributes.find(name);
                    Value value;
                    if (it != object.attributes.end())
                    {
                        // Overwrite by a value of the same kind
                        std::visit(
                            [&]<typename T>(T const&)
                            {
                                if constexpr (std::is_same_v<T, std::string>)
                                {
                                    value = any_text(c, 30);
                                }
                                else if constexpr (std::is_same_v<T, Strings>)
                                {
                                }
                                else if constexpr (IsVector<T>::value)
                                {
                                    value = values<typename T::value_type>(c, c.draw(12));
                                }
                                else
                                {
                                    value = c.value<T>();
                                }
                            },
                            it->second);
                        ++nr_overwrites;
                        c.label("overwritten");
                    }
                    else
                    {
                        std::size_t const kind = c.draw(9);
                        if (kind < 4)
                        {
                            value = any_text(c, 30);
                        }
                        else
                        {
                            with_type(
                                c.draw(nr_types - 1),
                                [&]<typename T>()
                                {
                                    if (kind < 7)
                                    {
                                        value = values<T>(c, c.draw(12));
                                    }
                                    else
                                    {
                                        value = c.value<T>();
                                    }
                                });
                        }
                    }
                    std::visit(
                        [&]<typename T>(T const& v)
                        {
                            if constexpr (!std::is_same_v<T, Strings>)
                            {
                                c.notes("write '", name, "' of '", object.name, "': ", str(v));
                                with_attributes(
                                    object,
                                    [&](lh5::Attributes& attributes, hid_t)
                                    { attributes.write<T>(name, v); });
                                object.attributes[name] = v;
                            }
                        },
                        value);
                    break;
                }
                case 6:
                {
                    H01Object& object = objects[c.draw(objects.size() - 1)];
                    std::string const name = c.pick(name_pool);
                    if (!object.attributes.count(name))
                    {
                        c.notes("read the missing '", name, "' of '", object.name, "'");
                        c.label("missing attribute");
                        with_attributes(
                            object,
                            [&](lh5::Attributes& attributes, hid_t)
                            {
                                c.check(!attributes.exists(name), "attribute '" + name + "' must not exist");
                                if (c.boolean())
                                {
                                    c.refused(
                                        [&]() { attributes.read<std::string>(name); }, "read missing attribute");
                                }
                                else
                                {
                                    c.refused(
                                        [&]() { attributes.read<std::int32_t>(name); }, "read missing attribute");
                                }
                            });
                    }
                    break;
                }
                case 7:
                {
                    c.notes("reopen");
                    c.label("reopened");
                    file.reset();
                    file = std::make_unique<lh5::File>(path, static_cast<unsigned>(H5F_ACC_RDWR));
                    break;
                }
            }

            for (auto const& object: objects)
            {
                with_attributes(
                    object, [&](lh5::Attributes& attributes, hid_t id)
                    { check_object(c, attributes, id, object, true); });
            }
        }

        file.reset();
        file = std::make_unique<lh5::File>(path);
        for (auto const& object: objects)
        {
            with_attributes(
                object,
                [&](lh5::Attributes& attributes, hid_t id) { check_object(c, attributes, id, object, true); });
        }
        c.check(!file->hdf5_version().empty(), "the version of the library must be stored");

        if (nr_overwrites > 0)
        {
            c.nontrivial();
        }
    }


    // ---------------------------------------------------------------------------------------------- H02

    struct Layout
    {
            H5T_class_t class_;
            std::size_t size;
            int sign;
    };

    template<typename T>
    Layout layout()
    {
        return {
            std::is_floating_point_v<T> ? H5T_FLOAT : H5T_INTEGER, sizeof(T),
            std::is_floating_point_v<T> ? -1 : (std::is_signed_v<T> ? 1 : 0)};
    }

    void check_layout(Case& c, hid_t id, Layout const& expected, std::string const& what)
    {
        c.equal(int(H5Tget_class(id)), int(expected.class_), what + ": class");
        c.equal(H5Tget_size(id), expected.size, what + ": size");
        if (expected.class_ == H5T_INTEGER)
        {
            c.equal(H5Tget_sign(id) == H5T_SGN_2, expected.sign == 1, what + ": signed");
        }
        if (expected.size > 1)
        {
            c.check(H5Tget_order(id) == H5T_ORDER_LE, what + ": byte order");
        }
    }

    void h02(Case& c)
    {
        std::vector<lh5::Datatype> native, standard, by_traits;
        std::vector<Layout> layouts;

        for (std::size_t i = 0; i < nr_types; ++i)
        {
            with_type(
                i,
                [&]<typename T>()
                {
                    native.push_back(lh5::native_datatype<T>());
                    by_traits.push_back(datatype<T>());
                    if constexpr (std::is_floating_point_v<T>)
                    {
                        standard.push_back(lh5::ieee_datatype_le<T>());
                    }
                    else
                    {
                        standard.push_back(lh5::std_datatype_le<T>());
                    }
                    layouts.push_back(layout<T>());
                    c.check(
                        by_traits.back() == lh5::Datatype{native_type<T>()},
                        std::string("native type of ") + type_name<T>());
                });
        }
        native.push_back(lh5::native_datatype<std::string>());
        standard.push_back(lh5::std_datatype<std::string>());

        std::size_t const n = native.size();
        std::size_t const i = c.draw(n - 1), j = c.draw(n - 1);
        c.notes("types ", i, " and ", j);

        for (std::size_t k: {i, j})
        {
            bool const is_string = k == nr_types;
            c.check(native[k] == native[k], "a type must equal itself");
            c.check(
                lh5::file_datatype(native[k]) == standard[k], "file type of native type " + std::to_string(k));
            c.check(
                lh5::memory_datatype(standard[k]) == native[k], "memory type of file type " + std::to_string(k));
            c.equal(native[k].is_string(), is_string, "is_string of native type");
            c.equal(standard[k].is_string(), is_string, "is_string of file type");
            if (!is_string)
            {
                c.check(by_traits[k] == native[k], "types by traits");
                c.check(native[k].is_native(), "is_native of native type");
                c.check(standard[k].is_standard(), "is_standard of file type");
                c.equal(native[k].size(), layouts[k].size, "size of native type");
                c.equal(standard[k].size(), layouts[k].size, "size of file type");
                check_layout(c, native[k].id(), layouts[k], "native type");
                check_layout(c, standard[k].id(), layouts[k], "file type");

                bool const is_float = layouts[k].class_ == H5T_FLOAT;
                bool const is_signed = layouts[k].sign == 1;
                c.equal(lh5::is_native_floating_point(native[k]), is_float, "is native floating point");
                c.equal(lh5::is_native_signed_integral(native[k]), !is_float && is_signed, "is native signed");
                c.equal(
                    lh5::is_native_unsigned_integral(native[k]), !is_float && !is_signed, "is native unsigned");
                c.equal(lh5::is_ieee_floating_point_le(standard[k]), is_float, "is standard floating point");
                c.equal(lh5::is_std_signed_integral_le(standard[k]), !is_float && is_signed, "is standard signed");
                c.equal(
                    lh5::is_std_unsigned_integral_le(standard[k]), !is_float && !is_signed,
                    "is standard unsigned");
            }
            c.check(!lh5::native_datatype_as_string(native[k]).empty(), "name of type");
            c.check(!lh5::standard_datatype_as_string(standard[k]).empty(), "name of type");

            // Encode, decode
            for (auto const& type: {native[k], standard[k]})
            {
                auto const decoded = lh5::decode_datatype(lh5::encode_datatype(type));
                c.check(decoded == type, "decoded type differs from the encoded one");
                c.equal(decoded.size(), type.size(), "size of decoded type");
            }
        }

        c.equal(native[i] == native[j], i == j, "equality of native types");
        c.equal(native[i] != native[j], i != j, "inequality of native types");
        c.equal(standard[i] == standard[j], i == j, "equality of file types");
        c.equal(standard[i] != standard[j], i != j, "inequality of file types");
        c.equal(
            lh5::native_datatype_as_string(native[i]) == lh5::native_datatype_as_string(native[j]), i == j,
            "equality of names of native types " + lh5::native_datatype_as_string(native[i]));
        c.equal(
            lh5::standard_datatype_as_string(standard[i]) == lh5::standard_datatype_as_string(standard[j]), i == j,
            "equality of names of file types " + lh5::standard_datatype_as_string(standard[i]));

        // Fixed-size strings
        {
            std::size_t const size1 = 1 + c.draw(40), size2 = 1 + c.draw(40);
            auto const type1 = lh5::create_datatype(size1), type2 = lh5::create_datatype(size2);
            c.check(type1.is_string(), "fixed size string is a string");
            c.equal(type1.size(), size1, "size of string type");
            c.check(type1.encoding() == H5T_CSET_UTF8, "encoding of string type");
            c.equal(type1 == type2, size1 == size2, "equality of string types");
            c.check(
                lh5::decode_datatype(lh5::encode_datatype(type1)) == type1, "decoded string type differs");
        }

        // Values
        if (i < nr_types)
        {
            with_type(
                i,
                [&]<typename T>()
                {
                    std::size_t const nr_values = 1 + c.draw(20);
                    auto v = values<T>(c, nr_values);
                    if constexpr (std::is_floating_point_v<T>)
                    {
                        if (c.chance(30))
                        {
                            v[c.draw(nr_values - 1)] = std::numeric_limits<T>::quiet_NaN();
                        }
                        if (c.chance(20))
                        {
                            // Quiet, with payload
                            using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
                            T nan = std::numeric_limits<T>::quiet_NaN();
                            U bits;
                            std::memcpy(&bits, &nan, sizeof(T));
                            bits |= c.draw(100000);
                            std::memcpy(&v[c.draw(nr_values - 1)], &bits, sizeof(T));
                        }
                    }
                    c.notes("values ", str(v));
                    std::string const path = c.path("v.h5");
                    {
                        auto file = lh5::create_file(path);
                        auto dataset = lh5::create_dataset(
                            file.id(), "v", standard[i], lh5::create_dataspace(lh5::Shape{nr_values}),
                            lh5::Dataset::CreationPropertyList{});
                        dataset.write(native[i], v.data());
                    }
                    lh5::File file{path};
                    lh5::Dataset dataset{file, "v"};
                    c.check(dataset.datatype() == standard[i], "type of dataset differs");
                    c.equal(dataset.id().type() == H5I_DATASET, true, "kind of object");
                    auto actual = guarded_read<T>(
                        c, nr_values, "values", [&](void* buffer)
                        { dataset.read(lh5::memory_datatype(dataset.datatype()), buffer); });
                    expect_same(c, actual, v, "values");
                    check_layout(c, dataset.datatype().id(), layouts[i], "stored type");
                });
        }
        c.label("type " + std::to_string(i));
        if (i != j)
        {
            c.nontrivial();
        }
    }


    // ---------------------------------------------------------------------------------------------- H03

    //! Multi-dimensional array model
    template<typename T>
    struct Model
    {
            lh5::Shape shape;
            std::vector<T> values;
            std::vector<char> defined;

            Model(lh5::Shape shape_, std::optional<T> const& fill):
                shape{std::move(shape_)},
                values(nr_elements(shape), fill ? *fill : T(0)),
                defined(nr_elements(shape), fill ? 1 : 0)
            {
            }

            std::size_t index(std::vector<hsize_t> const& idxs) const
            {
                std::size_t result = 0;
                for (std::size_t d = 0; d < shape.size(); ++d)
                {
                    result = result * shape[d] + idxs[d];
                }
                return result;
            }

            template<typename F>
            static void each(lh5::Shape const& shape, F&& f)
            {
                std::size_t const n = nr_elements(shape);
                std::vector<hsize_t> idxs(shape.size(), 0);
                for (std::size_t i = 0; i < n; ++i)
                {
                    f(idxs, i);
                    for (std::size_t d = shape.size(); d-- > 0;)
                    {
                        if (++idxs[d] < shape[d])
                        {
                            break;
                        }
                        idxs[d] = 0;
                    }
                }
            }

            template<typename F>
            void selected(lh5::Hyperslab const& slab, F&& f) const
            {
                each(
                    lh5::Shape(slab.count().begin(), slab.count().end()),
                    [&](std::vector<hsize_t> const& idxs, std::size_t i)
                    {
                        std::vector<hsize_t> place(idxs.size());
                        for (std::size_t d = 0; d < idxs.size(); ++d)
                        {
                            place[d] = slab.start()[d] + idxs[d] * slab.stride()[d];
                        }
                        f(index(place), i);
                    });
            }

            void resize(lh5::Shape const& new_shape, std::optional<T> const& fill)
            {
                Model result{new_shape, fill};
                each(
                    new_shape,
                    [&](std::vector<hsize_t> const& idxs, std::size_t i)
                    {
                        for (std::size_t d = 0; d < shape.size(); ++d)
                        {
                            if (idxs[d] >= shape[d])
                            {
                                return;
                            }
                        }
                        result.values[i] = values[index(idxs)];
                        result.defined[i] = defined[index(idxs)];
                    });
                *this = std::move(result);
            }
    };

    lh5::Hyperslab any_slab(Case& c, lh5::Shape const& shape, bool& strided)
    {
        lh5::Offset start;
        lh5::Stride stride;
        lh5::Count count;
        bool const use_stride = c.chance(60);
        for (auto extent: shape)
        {
            hsize_t const s = c.draw(extent - 1);
            hsize_t const step = use_stride ? 1 + c.draw(3) : 1;
            hsize_t const max_count = (extent - s + step - 1) / step;
            hsize_t const n = 1 + c.draw(max_count - 1);
            start.push_back(s);
            stride.push_back(step);
            count.push_back(n);
            strided = strided || (step > 1 && n > 1);
        }
        return use_stride ? lh5::Hyperslab{start, stride, count} : lh5::Hyperslab{start, count};
    }

    std::string str_slab(lh5::Hyperslab const& slab)
    {
        auto list = [](auto const& v) { return str(std::vector<std::uint64_t>(v.begin(), v.end())); };
        return "start " + list(slab.start()) + " stride " + list(slab.stride()) + " count " + list(slab.count());
    }

    template<typename T>
    void h03_typed(Case& c)
    {
        std::string const path = c.path("h.h5");
        std::unique_ptr<lh5::File> file = std::make_unique<lh5::File>(lh5::create_file(path));
        lh5::Shape array_shape = shape(c, 1, 4, 9, c.thorough() ? 2000 : 300);
        std::size_t const rank = array_shape.size();
        std::optional<T> fill;
        if (c.chance(70))
        {
            fill = c.value<T>();
        }
        lh5::Shape chunk;
        for (std::size_t d = 0; d < rank; ++d)
        {
            chunk.push_back(1 + c.draw(4));
        }
        bool const resizable = c.chance(70);
        bool const chunked = resizable || c.boolean();
        lh5::Shape max_shape = array_shape;
        if (resizable)
        {
            std::fill(max_shape.begin(), max_shape.end(), H5S_UNLIMITED);
        }
        else if (chunked)
        {
            for (std::size_t d = 0; d < rank; ++d)
            {
                chunk[d] = std::min(chunk[d], array_shape[d]);
            }
        }

        auto const memory_type = datatype<T>();
        std::unique_ptr<lh5::Dataset> dataset;
        {
            lh5::Dataset::CreationPropertyList properties{};
            if (fill)
            {
                properties.set_fill_value(memory_type, &*fill);
            }
            if (chunked)
            {
                properties.set_chunk(chunk);
            }
            c.equal(properties.fill_value_defined(), bool(fill), "fill value is defined");
            dataset = std::make_unique<lh5::Dataset>(lh5::create_dataset(
                file->id(), "d", lh5::file_datatype(memory_type),
                resizable ? lh5::create_dataspace(array_shape, max_shape) : lh5::create_dataspace(array_shape),
                properties));
        }
        c.notes(
            "array of ", type_name<T>(), " ", str_shape(array_shape), chunked ? " chunk " + str_shape(chunk) : "",
            resizable ? " resizable" : "", fill ? " fill value " + str(*fill) : "");

        Model<T> model{array_shape, fill};
        bool written = false;
        bool strided = false;
        std::size_t nr_partial = 0;

        auto verify = [&](lh5::Hyperslab const& slab, std::string const& what)
        {
            std::size_t const n =
                nr_elements(lh5::Shape(slab.count().begin(), slab.count().end()));
            if (!written && !fill)
            {
                // Reading values that were never written may be refused
                return;
            }
            auto const actual = guarded_read<T>(
                c, n, what, [&](void* buffer) { dataset->read(memory_type, slab, buffer); });
            model.selected(
                slab,
                [&](std::size_t place, std::size_t i)
                {
                    if (model.defined[place] && !pt::same_bits(actual[i], model.values[place]))
                    {
                        c.fail(
                            what + ": element " + std::to_string(i) + " of selection (" + str_slab(slab) +
                            ") is " + str(actual[i]) + " instead of " + str(model.values[place]));
                    }
                });
        };

        auto verify_all = [&](std::string const& what)
        {
            c.check(dataset->shape() == model.shape, what + ": shape is " + str_shape(dataset->shape()) +
                " instead of " + str_shape(model.shape));
            c.equal(dataset->dataspace().nr_elements(), hssize_t(model.values.size()), what + ": number of elements");
            c.equal(dataset->dataspace().nr_dimensions(), int(rank), what + ": rank");
            verify(lh5::Hyperslab{model.shape}, what);
        };

        std::size_t const nr_steps = 1 + c.size(1, c.thorough() ? 30 : 12);
        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            std::size_t const op = c.draw(11);
            if (op <= 6)
            {
                bool is_strided = false;
                lh5::Hyperslab const slab = any_slab(c, model.shape, is_strided);
                std::size_t const n = nr_elements(lh5::Shape(slab.count().begin(), slab.count().end()));
                c.equal(slab.nr_elements(), n, "number of elements of selection (" + str_slab(slab) + ")");
                c.equal(slab.nr_dimensions(), rank, "rank of selection");
                c.check(!slab.empty(), "selection is not empty");
                strided = strided || is_strided;
                if (op <= 2)
                {
                    auto const v = values<T>(c, n);
                    c.notes("write ", str_slab(slab), " ", str(v));
                    if (c.chance(30))
                    {
                        auto const memory_space = lh5::create_dataspace(lh5::Shape{n});
                        dataset->write(memory_type, memory_space, slab, v.data());
                    }
                    else
                    {
                        dataset->write(memory_type, slab, v.data());
                    }
                    model.selected(
                        slab,
                        [&](std::size_t place, std::size_t i)
                        {
                            model.values[place] = v[i];
                            model.defined[place] = 1;
                        });
                    written = true;
                    ++nr_partial;
                    c.label("written");
                }
                else if (op <= 4)
                {
                    T const v = c.value<T>();
                    c.notes("fill ", str_slab(slab), " with ", str(v));
                    dataset->fill(memory_type, slab, &v);
                    model.selected(
                        slab,
                        [&](std::size_t place, std::size_t)
                        {
                            model.values[place] = v;
                            model.defined[place] = 1;
                        });
                    written = true;
                    ++nr_partial;
                    c.label(is_strided ? "filled with stride" : "filled");
                }
                else
                {
                    c.notes("read ", str_slab(slab));
                    verify(slab, "read");
                    c.label(is_strided ? "read with stride" : "read");
                }
            }
            else if (op == 7)
            {
                auto const v = values<T>(c, model.values.size());
                c.notes("write all ", str(v));
                dataset->write(memory_type, v.data());
                model.values = v;
                std::fill(model.defined.begin(), model.defined.end(), 1);
                written = true;
            }
            else if (op == 8)
            {
                if (resizable)
                {
                    lh5::Shape new_shape;
                    for (auto extent: model.shape)
                    {
                        new_shape.push_back(c.boolean() ? extent : 1 + c.draw(8));
                    }
                    if (nr_elements(new_shape) <= 4000)
                    {
                        c.notes("resize to ", str_shape(new_shape));
                        dataset->resize(new_shape);
                        model.resize(new_shape, fill);
                        c.label("resized");
                    }
                }
            }
            else if (op == 9)
            {
                // A selection beyond the extent
                lh5::Offset start(rank, 0);
                lh5::Count count(model.shape.begin(), model.shape.end());
                std::size_t const d = c.draw(rank - 1);
                start[d] = 1 + c.draw(3);
                std::vector<T> v(nr_elements(model.shape));
                c.notes("access outside of the array in dimension ", d);
                if (c.boolean())
                {
                    c.refused(
                        [&]() { dataset->write(memory_type, lh5::Hyperslab{start, count}, v.data()); },
                        "write outside of the array");
                }
                else
                {
                    c.refused(
                        [&]() { dataset->read(memory_type, lh5::Hyperslab{start, count}, v.data()); },
                        "read outside of the array");
                }
                c.label("refused");
            }
            else if (op == 10)
            {
                // A block around a center
                lh5::Shape const s2 = [&]()
                {
                    lh5::Shape result;
                    for (std::size_t d = 0; d < 2; ++d)
                    {
                        result.push_back(1 + c.draw(11));
                    }
                    return result;
                }();
                lh5::Offset center;
                lh5::Shape block;
                lh5::Offset expected_start;
                for (std::size_t d = 0; d < 2; ++d)
                {
                    hsize_t const extent = 1 + c.draw(s2[d] - 1);
                    hsize_t const first = c.draw(s2[d] - extent);
                    block.push_back(extent);
                    expected_start.push_back(first);
                    center.push_back(first + extent / 2);
                }
                auto const slab = lh5::hyperslab(center, block, s2);
                c.check(
                    slab.start() == expected_start && std::equal(block.begin(), block.end(), slab.count().begin()) &&
                        slab.count().size() == 2 && slab.stride() == lh5::Stride(2, 1),
                    "block of shape " + str_shape(block) + " around center: " + str_slab(slab));
                c.equal(slab.nr_elements(), nr_elements(block), "number of elements of block");

                // Selections without elements
                lh5::Offset start(rank, 0);
                lh5::Stride stride(rank, 1);
                lh5::Count count(rank, 1);
                std::size_t expected_nr = 1;
                bool no_stride = false;
                for (std::size_t d = 0; d < rank; ++d)
                {
                    start[d] = c.draw(3);
                    stride[d] = c.draw(4);
                    count[d] = c.draw(4);
                    expected_nr *= count[d];
                    no_stride = no_stride || stride[d] == 0;
                }
                expected_nr = no_stride ? 0 : expected_nr;
                lh5::Hyperslab const any{start, stride, count};
                c.equal(any.empty(), expected_nr == 0, "selection (" + str_slab(any) + ") is empty");
                c.equal(any.nr_elements(), expected_nr, "number of elements of selection (" + str_slab(any) + ")");
                c.check(lh5::Hyperslab{}.empty() && lh5::Hyperslab{}.nr_elements() == 0, "default selection is empty");
            }
            else
            {
                c.notes("reopen");
                dataset.reset();
                file.reset();
                file = std::make_unique<lh5::File>(path, static_cast<unsigned>(H5F_ACC_RDWR));
                dataset = std::make_unique<lh5::Dataset>(*file, "d");
                c.equal(
                    dataset->creation_property_list().fill_value_defined(), bool(fill), "fill value is defined");
                if (fill)
                {
                    c.check(
                        pt::same_bits(
                            dataset->creation_property_list().template get_fill_value<T>(), *fill),
                        "fill value differs");
                }
                c.label("reopened");
            }
            verify_all("step " + std::to_string(step));
        }
        dataset.reset();
        file.reset();
        file = std::make_unique<lh5::File>(path);
        dataset = std::make_unique<lh5::Dataset>(*file, "d");
        verify_all("after reopening");

        if (strided && nr_partial > 0)
        {
            c.nontrivial();
        }
    }

    void h03(Case& c)
    {
        with_type(c.draw(nr_types - 1), [&]<typename T>() { h03_typed<T>(c); });
    }


    // ---------------------------------------------------------------------------------------------- H04

    void h04(Case& c)
    {
        std::size_t const max_rank = 31;
        std::size_t const rank = c.chance(60) ? c.draw(4) : c.draw(max_rank);
        lh5::Shape value_shape;
        std::size_t const style = c.draw(4);
        // Number of bytes in total must be representable
        double budget = 60.0;
        for (std::size_t d = 0; d < rank; ++d)
        {
            std::uint64_t extent = 1;
            switch (style)
            {
                case 0: extent = 1 + c.draw(20); break;
                case 1: extent = 1 + c.draw(3); break;
                case 2: extent = c.chance(20) ? (1 + c.draw(std::uint64_t(1) << (c.draw(40)))) : 1 + c.draw(3); break;
                case 3: extent = 1 + c.draw((std::uint64_t(1) << c.draw(22))); break;
                default: extent = 1 + c.draw(2000); break;
            }
            while (extent > 1 && std::log2(double(extent)) > budget - 12)
            {
                extent = 1 + extent / 2;
                if (budget < 13)
                {
                    extent = 1;
                }
            }
            budget -= std::log2(double(extent));
            value_shape.push_back(extent);
        }
        std::size_t const element_size = c.chance(85) ? c.pick({1, 2, 4, 8}) : 1 + c.draw(99);
        c.notes("array shape ", str_shape(value_shape), ", element size ", element_size);

        auto const chunk = lh5::chunk_shape(value_shape, element_size);
        c.notes("chunk ", str_shape(chunk));
        c.equal(chunk.size(), value_shape.size() + 1, "rank of chunk");
        double size = double(element_size);
        for (std::size_t d = 0; d < chunk.size(); ++d)
        {
            c.check(
                chunk[d] > 0, "chunk " + str_shape(chunk) + " has no elements in dimension " + std::to_string(d));
            if (d > 0)
            {
                c.check(
                    chunk[d] <= value_shape[d - 1],
                    "chunk " + str_shape(chunk) + " is larger than the array in dimension " + std::to_string(d));
            }
            size *= double(chunk[d]);
        }
        c.check(
            size <= double(lh5::upper_chunk_size_limit()),
            "size of chunk " + str_shape(chunk) + " is " + std::to_string(size) + " bytes");
        c.check(
            size >= double(lh5::lower_chunk_size_limit()),
            "size of chunk " + str_shape(chunk) + " is just " + std::to_string(size) + " bytes");
        c.equal(lh5::size_of_chunk(chunk, element_size), hsize_t(size), "size of chunk");
        c.check(
            lh5::lower_chunk_size_limit() < lh5::upper_chunk_size_limit() &&
                lh5::upper_chunk_size_limit() <= (std::size_t(1) << 32) - 1,
            "size limits");

        double value_size = double(element_size);
        for (auto e: value_shape)
        {
            value_size *= double(e);
        }
        c.label(value_size > double(lh5::upper_chunk_size_limit()) ? "large value" : "small value");
        c.label("rank " + std::to_string(rank));
        if (value_size > double(lh5::upper_chunk_size_limit()) && rank > 1)
        {
            c.nontrivial();
        }

        // Use it
        if (c.chance(15))
        {
            c.label("used");
            auto file = lh5::create_in_memory_file(c.path("chunk.h5"));
            lh5::Shape shape{1}, max_shape{H5S_UNLIMITED};
            shape.insert(shape.end(), value_shape.begin(), value_shape.end());
            max_shape.insert(max_shape.end(), value_shape.begin(), value_shape.end());
            lh5::Dataset::CreationPropertyList properties{};
            properties.set_chunk(lh5::chunk_shape<std::int32_t>(value_shape));
            auto dataset = lh5::create_dataset(
                file.id(), "d", lh5::std_int32_le, lh5::create_dataspace(shape, max_shape), properties);
            lh5::Offset start{0};
            for (auto e: value_shape)
            {
                start.push_back(c.draw(e - 1));
            }
            lh5::Hyperslab const slab{start, lh5::Count(rank + 1, 1)};
            std::int32_t const v = 5, *p = &v;
            std::int32_t actual = 0;
            dataset.write(lh5::native_int32, slab, p);
            dataset.read(lh5::native_int32, slab, &actual);
            c.equal(actual, v, "element");
        }
    }


    // ---------------------------------------------------------------------------------------------- H05

    struct Node
    {
            char kind;  // g, d
            std::string content;
            std::map<std::string, std::pair<char, std::shared_ptr<Node>>> links{};  // h: hard link, s: soft
            std::map<std::string, std::string> soft_paths{};
            std::map<std::string, std::size_t> soft_costs{};
    };

    using NodePtr = std::shared_ptr<Node>;

    std::string link_name(Case& c)
    {
        if (c.chance(50))
        {
            return c.pick(Strings{"a", "b", "c", "lue", "1", "a b"});
        }
        std::string name = c.chance(20) ? std::string() : c.text(12, false);
        if (c.chance(15) || name.empty())
        {
            std::size_t const n = 100 + c.draw(c.thorough() ? 3000 : 900);
            while (name.size() < n)
            {
                name += static_cast<char>('a' + name.size() % 23);
            }
        }
        std::replace(name.begin(), name.end(), '/', '|');
        if (name == "." || name == "..")
        {
            name = "dot";
        }
        return name;
    }

    struct Place
    {
            std::string path;
            NodePtr node;
            std::string parent_path;
            // Number of soft links followed. The library has a limit on these.
            std::size_t cost;
    };

    void places(NodePtr const& node, std::string const& path, std::size_t depth, std::vector<Place>& result,
        std::string const& parent_path, std::size_t cost = 0)
    {
        result.push_back({path, node, parent_path, cost});
        if (depth == 0)
        {
            return;
        }
        for (auto const& [name, link]: node->links)
        {
            places(
                link.second, (path == "/" ? path : path + "/") + name, depth - 1, result, path,
                cost + (link.first == 's' ? 1 + node->soft_costs.at(name) : 0));
        }
    }

    lh5::Group open_group(lh5::File& file, std::string const& path)
    {
        // Step by step
        if (path == "/")
        {
            return lh5::Group{file, "/"};
        }
        std::size_t pos = 1;
        std::unique_ptr<lh5::Group> group;
        while (pos <= path.size())
        {
            std::size_t end = path.find('/', pos);
            if (end == std::string::npos)
            {
                end = path.size();
            }
            std::string const name = path.substr(pos, end - pos);
            lh5::Group next = group ? lh5::Group{*group, name} : lh5::Group{file, name};
            group = std::make_unique<lh5::Group>(next);
            pos = end + 1;
        }
        return *group;
    }

    void check_group(
        Case& c, lh5::Group& group, Place const& place, bool is_file,
        std::map<Node const*, std::unique_ptr<lh5::Group>> const& known)
    {
        std::string const what = "group " + place.path;
        if (!is_file)
        {
            c.equal(group.id().pathname(), place.path, what + ": path name");
            std::string const name = place.path.substr(place.path.find_last_of('/') + 1);
            c.equal(group.id().name(), name, what + ": name");
            if (place.path != "/")
            {
                c.check(group.has_parent(), what + ": must have a parent");
                c.equal(group.parent_pathname(), place.parent_path, what + ": path name of parent");
                auto const parent = group.parent();
                c.equal(parent.id().pathname(), place.parent_path, what + ": path name of opened parent");
            }
        }
        std::set<std::string> groups, objects;
        for (auto const& [name, link]: place.node->links)
        {
            bool const is_group = link.second->kind == 'g';
            if (is_group)
            {
                groups.insert(name);
            }
            objects.insert(name);
            c.equal(group.contains_group(name), is_group, what + ": contains group '" + name + "'");
            c.equal(group.contains_dataset(name), !is_group, what + ": contains dataset '" + name + "'");
            c.equal(
                group.contains_soft_link(name), link.first == 's', what + ": contains soft link '" + name + "'");
            c.equal(
                group.contains_hard_link(name), link.first == 'h', what + ": contains hard link '" + name + "'");
            if (link.first == 's')
            {
                c.equal(
                    group.soft_link(name).path(), place.node->soft_paths.at(name),
                    what + ": path of soft link '" + name + "'");
                c.equal(group.soft_link(name).name(), name, what + ": name of soft link");
            }
            else
            {
                c.equal(group.hard_link(name).name(), name, what + ": name of hard link");
            }
            std::string content;
            if (is_group)
            {
                lh5::Group child{group, name};
                if (child.attributes().exists("content"))
                {
                    content = child.attributes().read<std::string>("content");
                }
                for (auto const& [node, other]: known)
                {
                    c.equal(
                        child == *other, node == link.second.get(),
                        what + ": identity of '" + name + "' and " + other->id().pathname());
                    c.equal(
                        child != *other, node != link.second.get(),
                        what + ": non-identity of '" + name + "' and " + other->id().pathname());
                }
            }
            else
            {
                lh5::Dataset child{group, name};
                if (child.attributes().exists("content"))
                {
                    content = child.attributes().read<std::string>("content");
                }
            }
            c.equal(content, link.second->content, what + ": '" + name + "' is another object");
        }
        auto as_set = [](Strings const& names) { return std::set<std::string>(names.begin(), names.end()); };
        c.check(as_set(group.group_names()) == groups, what + ": names of groups " + str(group.group_names()));
        c.equal(group.group_names().size(), groups.size(), what + ": number of groups");
        c.check(as_set(group.object_names()) == objects, what + ": names of objects " + str(group.object_names()));
        c.equal(group.object_names().size(), objects.size(), what + ": number of objects");

        std::string missing = link_name(c);
        if (!place.node->links.count(missing))
        {
            c.check(!group.contains_group(missing), what + ": contains missing group");
            c.check(!group.contains_dataset(missing), what + ": contains missing dataset");
            c.check(!group.contains_soft_link(missing), what + ": contains missing soft link");
            c.check(!group.contains_hard_link(missing), what + ": contains missing hard link");
            c.refused([&]() { lh5::Group(group, missing); }, what + ": open missing group");
            c.refused([&]() { lh5::Dataset(group, missing); }, what + ": open missing dataset");
        }
    }

    void h05(Case& c)
    {
        std::string const path = c.path("g.h5");
        auto file = std::make_unique<lh5::File>(lh5::create_file(path));
        auto const root = std::make_shared<Node>(Node{'g', "", {}, {}, {}});
        std::size_t const nr_steps = 2 + c.size(1, c.thorough() ? 30 : 14);
        std::size_t counter = 0;
        std::size_t nr_links = 0;
        bool deep = false;

        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            std::vector<Place> all;
            places(root, "/", 4, all, "");
            std::vector<Place> groups;
            std::copy_if(
                all.begin(), all.end(), std::back_inserter(groups), [](Place const& p) { return p.node->kind == 'g'; });
            Place const target = c.pick(groups);
            std::string const name = link_name(c);
            bool const exists = target.node->links.count(name) > 0;
            std::size_t const op = c.draw(8);
            std::string const content = "object " + std::to_string(++counter);

            if (op <= 5)
            {
                bool const at_root = target.path == "/" && c.boolean();
                lh5::Group group = at_root ? lh5::Group{*file} : open_group(*file, target.path);
                if (op <= 2)
                {
                    c.notes("create group '", name, "' in ", target.path);
                    if (exists)
                    {
                        c.refused([&]() { lh5::create_group(group, name); }, "create group with a name in use");
                        c.label("refused");
                    }
                    else
                    {
                        auto child = lh5::create_group(group, name);
                        child.attributes().write<std::string>("content", content);
                        c.equal(child.id().name(), name, "name of new group");
                        c.equal(
                            child.id().pathname(), (target.path == "/" ? "/" : target.path + "/") + name,
                            "path name of new group");
                        c.check(child.has_parent(), "new group has a parent");
                        c.equal(child.parent_pathname(), target.path, "path name of parent of new group");
                        c.check(child.parent() == group, "parent of new group");
                        c.check(child != group, "new group is not its parent");
                        target.node->links[name] = {'h', std::make_shared<Node>(Node{'g', content, {}, {}, {}})};
                    }
                }
                else if (op == 3)
                {
                    c.notes("create dataset '", name, "' in ", target.path);
                    auto create = [&]()
                    {
                        return lh5::create_dataset(
                            group.id(), name, file_type_of(0), lh5::create_dataspace(lh5::Shape{1}),
                            lh5::Dataset::CreationPropertyList{});
                    };
                    if (exists)
                    {
                        c.refused([&]() { create(); }, "create dataset with a name in use");
                        c.label("refused");
                    }
                    else
                    {
                        auto child = create();
                        child.attributes().write<std::string>("content", content);
                        c.equal(child.id().name(), name, "name of new dataset");
                        c.equal(
                            child.id().pathname(), (target.path == "/" ? "/" : target.path + "/") + name,
                            "path name of new dataset");
                        target.node->links[name] = {'h', std::make_shared<Node>(Node{'d', content, {}, {}, {}})};
                    }
                }
                else
                {
                    bool const soft = op == 4;
                    std::vector<Place> targets;
                    std::copy_if(
                        all.begin(), all.end(), std::back_inserter(targets),
                        [&](Place const& p) { return !soft || p.cost <= 1; });
                    Place const place = c.pick(targets);
                    c.notes("create ", soft ? "soft" : "hard", " link '", name, "' in ", target.path, " to ", place.path);
                    auto create = [&](lh5::Identifier const& id)
                    {
                        if (soft)
                        {
                            group.create_soft_link(id, name);
                        }
                        else
                        {
                            group.create_hard_link(id, name);
                        }
                    };
                    auto act = [&](lh5::Identifier const& id)
                    {
                        if (exists)
                        {
                            c.refused([&]() { create(id); }, "create link with a name in use");
                            c.label("refused");
                        }
                        else
                        {
                            create(id);
                            target.node->links[name] = {soft ? 's' : 'h', place.node};
                            target.node->soft_paths[name] = place.path;
                            target.node->soft_costs[name] = place.cost;
                            ++nr_links;
                            c.label(soft ? "soft link" : "hard link");
                        }
                    };
                    if (place.node->kind == 'g')
                    {
                        act(open_group(*file, place.path).id());
                    }
                    else
                    {
                        std::string const dataset_name = place.path.substr(place.path.find_last_of('/') + 1);
                        auto parent = open_group(*file, place.parent_path);
                        act(lh5::Dataset{parent, dataset_name}.id());
                    }
                }
            }
            else if (op == 6)
            {
                c.notes("reopen");
                file.reset();
                file = std::make_unique<lh5::File>(path, static_cast<unsigned>(H5F_ACC_RDWR));
            }
            else
            {
                // Verify
                std::map<Node const*, std::unique_ptr<lh5::Group>> known;
                for (auto const& place: groups)
                {
                    deep = deep || std::count(place.path.begin(), place.path.end(), '/') > 2;
                    if (known.size() < 6 && !known.count(place.node.get()))
                    {
                        known[place.node.get()] = std::make_unique<lh5::Group>(open_group(*file, place.path));
                    }
                }
                Place const place = c.pick(groups);
                bool const at_once = place.path != "/" && c.chance(40);
                auto group = at_once ? lh5::Group{*file, place.path.substr(1)} : open_group(*file, place.path);
                check_group(c, group, place, false, known);
            }
        }

        file.reset();
        file = std::make_unique<lh5::File>(path);
        std::vector<Place> all;
        places(root, "/", 3, all, "");
        check_group(c, *file, all.front(), true, {});
        std::size_t nr_checked = 0;
        for (auto const& place: all)
        {
            if (place.node->kind == 'g' && nr_checked++ < 12)
            {
                deep = deep || std::count(place.path.begin(), place.path.end(), '/') > 2;
                auto group = open_group(*file, place.path);
                check_group(c, group, place, false, {});
            }
        }
        if (nr_links > 0 && deep)
        {
            c.nontrivial();
        }
    }


    // ---------------------------------------------------------------------------------------------- D05

    using Handle = std::variant<std::monostate, lh5::File, lh5::Group, lh5::Dataset, lh5::Attribute, lh5::SoftLink>;

    struct Slot
    {
            Handle handle{};
            std::size_t object{0};  // Index of opened object, 0 for none
    };

    struct Opened
    {
            char kind;
            std::size_t file;
            std::string name;
            // The object in the file this refers to
            std::string what;
    };

    constexpr unsigned all_objects = H5F_OBJ_FILE | H5F_OBJ_GROUP | H5F_OBJ_DATASET | H5F_OBJ_ATTR;

    void d05(Case& c)
    {
        std::size_t const nr_files = 1 + c.draw(1);
        std::vector<std::string> paths;
        std::map<std::string, std::vector<std::int32_t>> contents;
        for (std::size_t f = 0; f < nr_files; ++f)
        {
            std::string const path = c.path("f" + std::to_string(f) + ".h5");
            paths.push_back(path);
            lh5::File file = lh5::create_file(path);
            for (std::string name: {"g0", "g1"})
            {
                auto group = lh5::create_group(file, name);
                group.attributes().write<std::string>("a", "value of " + name);
                lh5::Identifier& id = group.id();
                auto dataset = lh5::create_dataset(
                    id, "d", file_type_of(0), lh5::create_dataspace(lh5::Shape{2}),
                    lh5::Dataset::CreationPropertyList{});
                std::vector<std::int32_t> const v{std::int32_t(f), name == "g0" ? 7 : 9};
                dataset.write(lh5::native_int32, v.data());
                group.create_soft_link(dataset.id(), "s");
            }
        }
        c.equal(H5Fget_obj_count(H5F_OBJ_ALL, all_objects), ssize_t(0), "open objects after creating files");

        hsize_t nr_types_before = 0, nr_spaces_before = 0, nr_attributes_before = 0;
        H5Inmembers(H5I_DATATYPE, &nr_types_before);
        H5Inmembers(H5I_DATASPACE, &nr_spaces_before);
        H5Inmembers(H5I_ATTR, &nr_attributes_before);

        std::size_t const nr_slots = 5;
        std::vector<Slot> slots(nr_slots);
        std::vector<Opened> opened{{'-', 0, "", ""}};
        std::size_t nr_copies = 0, nr_moves = 0, nr_drops = 0;

        auto use = [&](Slot& slot, std::string const& when)
        {
            if (slot.object == 0)
            {
                return;
            }
            Opened const& object = opened[slot.object];
            std::string const what = when + ": handle to " + object.what;
            std::visit(
                [&]<typename T>(T& handle)
                {
                    if constexpr (std::is_same_v<T, lh5::File>)
                    {
                        c.check(handle.id().is_valid(), what + " is not usable");
                        c.equal(handle.pathname(), paths[object.file], what + ": path name");
                        c.check(handle.contains_group("g0"), what + ": contents");
                        c.equal(handle.intent(), unsigned(H5F_ACC_RDONLY), what + ": intent");
                    }
                    else if constexpr (std::is_same_v<T, lh5::Group>)
                    {
                        c.check(handle.id().is_valid(), what + " is not usable");
                        c.equal(handle.id().pathname(), "/" + object.name, what + ": path name");
                        c.equal(
                            handle.attributes().template read<std::string>("a"), "value of " + object.name,
                            what + ": attribute");
                        c.check(handle.contains_dataset("d"), what + ": contents");
                        c.equal(handle.parent_pathname(), std::string("/"), what + ": parent");
                        c.equal(handle.parent().id().pathname(), std::string("/"), what + ": parent");
                    }
                    else if constexpr (std::is_same_v<T, lh5::Dataset>)
                    {
                        c.check(handle.id().is_valid(), what + " is not usable");
                        c.equal(handle.id().pathname(), "/" + object.name + "/d", what + ": path name");
                        std::vector<std::int32_t> v(2);
                        handle.read(lh5::native_int32, v.data());
                        std::vector<std::int32_t> const expected{
                            std::int32_t(object.file), object.name == "g0" ? 7 : 9};
                        expect_same(c, v, expected, what + ": values");
                    }
                    else if constexpr (std::is_same_v<T, lh5::Attribute>)
                    {
                        c.check(handle.id().is_valid(), what + " is not usable");
                        c.equal(
                            handle.template read<std::string>(), "value of " + object.name, what + ": value");
                        c.equal(handle.datatype().size(), ("value of " + object.name).size(), what + ": type");
                    }
                    else if constexpr (std::is_same_v<T, lh5::SoftLink>)
                    {
                        c.equal(handle.path(), "/" + object.name + "/d", what + ": path of link");
                        c.equal(handle.name(), std::string("s"), what + ": name of link");
                    }
                    else
                    {
                        c.fail(what + ": model out of step");
                    }
                },
                slot.handle);
        };

        auto check_counts = [&](std::string const& when)
        {
            // One open object in the library for each thing opened that still has a handle
            std::map<char, std::set<std::size_t>> live;
            for (auto const& slot: slots)
            {
                if (slot.object)
                {
                    live[opened[slot.object].kind].insert(slot.object);
                }
            }
            c.equal(
                H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE), ssize_t(live['f'].size()),
                when + ": number of open files");
            c.equal(
                H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_GROUP), ssize_t(live['g'].size() + live['l'].size()),
                when + ": number of open groups");
            c.equal(
                H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_DATASET), ssize_t(live['d'].size()),
                when + ": number of open datasets");
            c.equal(
                H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ATTR), ssize_t(live['a'].size()),
                when + ": number of open attributes");
            for (auto const& slot: slots)
            {
                if (slot.object && opened[slot.object].kind == 'f')
                {
                    auto const& handle = std::get<lh5::File>(slot.handle);
                    c.check(handle.object_count(H5F_OBJ_FILE) > 0, when + ": object count of file");
                }
            }
        };

        auto equality = [&](Slot& a, Slot& b)
        {
            if (a.object == 0 || b.object == 0)
            {
                return;
            }
            auto compare = [&]<typename T>(T const& x, T const& y)
            {
                bool const expected = opened[a.object].what == opened[b.object].what;
                c.equal(x == y, expected, "equality of " + opened[a.object].what + " and " + opened[b.object].what);
                c.equal(x != y, !expected, "inequality of " + opened[a.object].what + " and " + opened[b.object].what);
            };
            if (std::holds_alternative<lh5::Group>(a.handle) && std::holds_alternative<lh5::Group>(b.handle))
            {
                compare(std::get<lh5::Group>(a.handle), std::get<lh5::Group>(b.handle));
                c.label("compared");
            }
            if (std::holds_alternative<lh5::Dataset>(a.handle) && std::holds_alternative<lh5::Dataset>(b.handle))
            {
                compare(std::get<lh5::Dataset>(a.handle), std::get<lh5::Dataset>(b.handle));
                c.label("compared");
            }
            if (std::holds_alternative<lh5::File>(a.handle) && std::holds_alternative<lh5::File>(b.handle))
            {
                compare(std::get<lh5::File>(a.handle), std::get<lh5::File>(b.handle));
                c.label("compared");
            }
        };

        std::size_t const nr_steps = 3 + c.size(1, c.thorough() ? 60 : 25);
        for (std::size_t step = 0; step < nr_steps; ++step)
        {
            std::size_t const i = c.draw(nr_slots - 1);
            std::size_t const j = c.draw(nr_slots - 1);
            Slot& slot = slots[i];
            Slot& other = slots[j];
            switch (c.draw(9))
            {
                case 0:
                case 1:
                case 2:
                {
                    // Open
                    std::size_t const f = c.draw(nr_files - 1);
                    std::string const name = c.pick(Strings{"g0", "g1"});
                    char const kind = c.pick(std::vector<char>{'f', 'g', 'd', 'a', 'l'});
                    lh5::File file{paths[f]};
                    Handle handle;
                    std::string what = paths[f].substr(paths[f].size() - 5);
                    switch (kind)
                    {
                        case 'f': handle = file; break;
                        case 'g': handle = lh5::Group{file, name}; what += " group " + name; break;
                        case 'd':
                        {
                            what += " dataset of " + name;
                            lh5::Group group{file, name};
                            handle = lh5::Dataset{group, "d"};
                            break;
                        }
                        case 'a':
                        {
                            what += " attribute of " + name;
                            handle = lh5::Group{file, name}.attributes().attribute("a");
                            break;
                        }
                        default:
                        {
                            what += " link in " + name;
                            handle = lh5::Group{file, name}.soft_link("s");
                            break;
                        }
                    }
                    c.notes("slot ", i, " = open ", what);
                    opened.push_back({kind, f, name, what});
                    slot.handle = std::move(handle);
                    slot.object = opened.size() - 1;
                    break;
                }
                case 3:
                {
                    // Copy construct, or assign
                    c.notes("slot ", i, " = copy of slot ", j);
                    Handle copy{other.handle};
                    slot.handle = std::move(copy);
                    slot.object = other.object;
                    ++nr_copies;
                    break;
                }
                case 4:
                {
                    c.notes("slot ", i, " = slot ", j);
                    if (i == j)
                    {
                        c.label("self-assigned");
                    }
                    Handle const& source = other.handle;
                    slot.handle = source;
                    slot.object = other.object;
                    ++nr_copies;
                    break;
                }
                case 5:
                {
                    if (i != j)
                    {
                        c.notes("slot ", i, " = move of slot ", j);
                        // Assign between live handles where these are of the same kind
                        slot.handle = std::move(other.handle);
                        slot.object = other.object;
                        other.object = 0;
                        if (c.boolean())
                        {
                            // Drop what was moved from now, or later
                            other.handle = std::monostate{};
                        }
                        ++nr_moves;
                    }
                    break;
                }
                case 6:
                {
                    if (i != j)
                    {
                        c.notes("swap slot ", i, " and slot ", j);
                        std::swap(slot.handle, other.handle);
                        std::swap(slot.object, other.object);
                        ++nr_moves;
                    }
                    break;
                }
                case 7:
                {
                    c.notes("drop slot ", i);
                    slot.handle = std::monostate{};
                    slot.object = 0;
                    ++nr_drops;
                    break;
                }
                default:
                {
                    equality(slot, other);
                    break;
                }
            }
            for (auto& s: slots)
            {
                use(s, "step " + std::to_string(step));
            }
            check_counts("step " + std::to_string(step));
        }

        c.notes("drop all");
        for (auto& slot: slots)
        {
            slot.handle = std::monostate{};
            slot.object = 0;
        }
        check_counts("after dropping all");
        c.equal(H5Fget_obj_count(H5F_OBJ_ALL, all_objects), ssize_t(0), "open objects after dropping all");
        hsize_t n = 0;
        H5Inmembers(H5I_DATATYPE, &n);
        c.equal(n, nr_types_before, "open types after dropping all");
        H5Inmembers(H5I_DATASPACE, &n);
        c.equal(n, nr_spaces_before, "open dataspaces after dropping all");
        H5Inmembers(H5I_ATTR, &n);
        c.equal(n, nr_attributes_before, "open attributes after dropping all");

        {
            // Another mode
            lh5::File file{paths[0], static_cast<unsigned>(H5F_ACC_RDWR)};
            c.equal(file.intent(), unsigned(H5F_ACC_RDWR), "intent");
            lh5::create_group(file, "new");
        }
        {
            lh5::File file{lh5::create_file(paths[0])};
            c.check(file.group_names().empty(), "truncated file is not empty");
        }
        c.check(lh5::file_exists(paths[0]), "file must exist");
        lh5::remove_file(paths[0]);
        c.check(!lh5::file_exists(paths[0]), "file must not exist anymore");
        c.refused([&]() { lh5::File{paths[0]}; }, "open removed file");

        if (nr_copies > 0 && nr_moves > 0 && nr_drops > 0)
        {
            c.nontrivial();
        }
    }

}  // Anonymous namespace


int main(int argc, char** argv)
{
    return pt::main(
        argc, argv,
        {
            {"H01",
             "A history of attribute writes (numbers, vectors, strings), overwrites, reads of missing attributes and "
             "reopens on three objects; non-trivial if an attribute was overwritten",
             h01, 60000, 600000, quiet},
            {"H02",
             "An ordered pair of supported types and values of the first one; non-trivial if the types differ", h02,
             100000, 1500000, quiet},
            {"H03",
             "A history of write, fill, read, resize, refused accesses and reopens on an array of rank 1-4; "
             "non-trivial if a strided selection of more than one element was used and something was written",
             h03, 40000, 400000, quiet},
            {"H04",
             "An array shape of rank 0-31 and an element size; non-trivial if the array has more than one dimension "
             "and is larger than a chunk may be",
             h04, 150000, 3000000, quiet},
            {"H05",
             "A history of creating groups, datasets, soft and hard links, refused creations, lookups and reopens; "
             "non-trivial if links were made and the tree is more than two levels deep",
             h05, 24000, 240000, quiet},
            {"D05",
             "A history of open, copy, move, assign, swap, compare and drop over five handle slots and one or two "
             "files; non-trivial if something was copied, moved and dropped",
             d05, 24000, 240000, quiet},
        });
}
