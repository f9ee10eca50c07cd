// A01, A02, A03: object arrays
#include "common.hpp"
#include "lue/array/different_shape/constant_shape/value.hpp"
#include "lue/array/different_shape/value.hpp"
#include "lue/array/different_shape/variable_shape/value.hpp"
#include "lue/array/same_shape/constant_shape/value.hpp"
#include "lue/array/same_shape/value.hpp"
#include "lue/array/same_shape/variable_shape/value.hpp"

namespace ldm = lue::data_model;
using namespace vp;


namespace {

    //! A file with nested groups, that can be closed and opened again
    struct Store
    {
            Store(Case& c):
                c{c},
                path{c.path("store.h5")}
            {
                file = std::make_unique<lh5::File>(lh5::create_file(path));
                depth = c.draw(2);
                lh5::Group group{*file};
                for (std::size_t i = 0; i < depth; ++i)
                {
                    group = lh5::create_group(group, "g" + std::to_string(i));
                }
                parent = std::make_unique<lh5::Group>(group);
            }

            void close()
            {
                parent.reset();
                file.reset();
            }

            void open(bool writable = true)
            {
                file = std::make_unique<lh5::File>(path, writable ? H5F_ACC_RDWR : H5F_ACC_RDONLY);
                lh5::Group group{*file};
                for (std::size_t i = 0; i < depth; ++i)
                {
                    group = lh5::Group{group, "g" + std::to_string(i)};
                }
                parent = std::make_unique<lh5::Group>(group);
            }

            Case& c;
            std::string path;
            std::size_t depth;
            std::unique_ptr<lh5::File> file;
            std::unique_ptr<lh5::Group> parent;
    };


    //! A type to store elements in, which can hold all values of T. When it is wide, it differs from the type in
    //! memory and values are converted.
    template<typename T>
    lh5::Datatype file_type(bool wide)
    {
        if constexpr (std::is_integral_v<T>)
        {
            if (wide)
            {
                return lh5::Datatype{std::is_signed_v<T> ? H5T_STD_I64LE : H5T_STD_U64LE};
            }
        }
        return lh5::file_datatype(vp::datatype<T>());
    }

    template<typename T>
    bool any_wide(Case& c)
    {
        bool const wide = std::is_integral_v<T> && sizeof(T) < 8 && c.chance(25);
        if (wide)
        {
            c.notes("store ", type_name<T>(), " as 64 bit integers");
            c.label("converted");
        }
        return wide;
    }


    //! A value, with its element type hidden
    struct Subject
    {
            virtual ~Subject() = default;

            //! Do something
            virtual void step() = 0;

            //! Compare everything with the model
            virtual void verify() = 0;

            virtual void drop() = 0;

            virtual void open(lh5::Group& parent) = 0;

            virtual bool interesting() const = 0;
    };


    // ------------------------------------------------------------------------------------------- A01
    template<typename T, typename Value>
    struct SameShape: public Subject
    {
            SameShape(Case& c, lh5::Group& parent, std::string const& name):
                c{c},
                name{name}
            {
                array_shape = c.chance(6) ? vp::shape(c, 1, 2, 60000, 60000) : vp::shape(c, 0, 4, 40, 400);
                if (c.chance(40))
                {
                    no_data = c.value<T>();
                }
                void const* no_data_ptr = no_data ? &*no_data : nullptr;
                c.notes(name, ": create ", type_name<T>(), " array_shape=", str_shape(array_shape),
                    no_data ? " no_data=" + str(*no_data) : "");
                auto const memory_type = vp::datatype<T>();
                wide = any_wide<T>(c);
                bool const explicit_file_type = wide || c.boolean();
                bool const shape_overload = !array_shape.empty() || c.boolean();

                if constexpr (std::is_same_v<Value, ldm::same_shape::Value>)
                {
                    if (explicit_file_type)
                    {
                        value = std::make_unique<Value>(
                            shape_overload ? ldm::same_shape::create_value(parent, name,
                                                 file_type<T>(wide), memory_type, array_shape,
                                                 no_data_ptr)
                                           : ldm::same_shape::create_value(parent, name,
                                                 file_type<T>(wide), memory_type, no_data_ptr));
                    }
                    else
                    {
                        value = std::make_unique<Value>(
                            shape_overload
                                ? ldm::same_shape::create_value(
                                      parent, name, memory_type, array_shape, no_data_ptr)
                                : ldm::same_shape::create_value(parent, name, memory_type, no_data_ptr));
                    }
                }
                else
                {
                    namespace v = ldm::same_shape::constant_shape;
                    if (explicit_file_type)
                    {
                        value = std::make_unique<Value>(
                            shape_overload
                                ? v::create_value(parent, name, file_type<T>(wide), memory_type,
                                      array_shape, no_data_ptr)
                                : v::create_value(
                                      parent, name, file_type<T>(wide), memory_type, no_data_ptr));
                    }
                    else
                    {
                        value = std::make_unique<Value>(
                            shape_overload ? v::create_value(parent, name, memory_type, array_shape, no_data_ptr)
                                           : v::create_value(parent, name, memory_type, no_data_ptr));
                    }
                }
                n_elements = nr_elements(array_shape);
            }

            void step() override
            {
                switch (c.draw(11))
                {
                    case 0:
                    case 1:
                    case 2:
                    {
                        std::size_t limit = c.chance(8) ? std::max<std::size_t>(6, 40000 / n_elements) : 6;
                        limit = std::min<std::size_t>(limit, 3000000 / (n_elements * sizeof(T)) + 2);
                        std::size_t n = c.draw(limit);
                        c.notes(name, ": expand ", n);
                        value->expand(n);
                        elements.resize((nr_arrays + n) * n_elements, no_data);
                        nr_arrays += n;
                        nr_expansions += n > 0;
                        expand_after_write = expand_after_write || (nr_writes > 0 && n > 0);
                        break;
                    }
                    case 3:
                    case 4:
                    {
                        if (nr_arrays > 0)
                        {
                            std::size_t i = c.draw(nr_arrays - 1);
                            auto v = vp::values<T>(c, n_elements);
                            c.notes(name, ": write ", i, " <- ", str(v));
                            value->write(ldm::Index(i), v.data());
                            elements.write(i * n_elements, v);
                            ++nr_writes;
                        }
                        break;
                    }
                    case 5:
                    case 6:
                    {
                        // A range may be empty
                        std::size_t begin = c.draw(nr_arrays);
                        std::size_t end = begin + c.draw(nr_arrays - begin);
                        auto v = vp::values<T>(c, (end - begin) * n_elements);
                        c.notes(name, ": write [", begin, ", ", end, ") <- ", str(v));
                        value->write(ldm::IndexRange{begin, end}, v.data());
                        elements.write(begin * n_elements, v);
                        nr_writes += end > begin;
                        break;
                    }
                    case 7:
                    {
                        auto v = vp::values<T>(c, elements.size());
                        c.notes(name, ": write all <- ", str(v));
                        value->write(v.data());
                        elements.write(0, v);
                        nr_writes += !v.empty();
                        break;
                    }
                    case 9:
                    {
                        outside();
                        break;
                    }
                    case 10:
                    {
                        block();
                        break;
                    }
                    case 8:
                    {
                        c.notes(name, ": assign a copy of the handle");
                        Value copy{*value};
                        *value = copy;
                        Value moved{std::move(copy)};
                        value = std::make_unique<Value>(std::move(moved));
                        break;
                    }
                    default:
                    {
                        if (nr_arrays > 0)
                        {
                            std::size_t i = c.draw(nr_arrays - 1);
                            read_one(i);
                            std::size_t begin = c.draw(nr_arrays);
                            std::size_t end = begin + c.draw(nr_arrays - begin);
                            read_range(begin, end);
                        }
                    }
                }
            }

            //! Arrays that are not there cannot be written or read
            void outside()
            {
                std::size_t const begin = c.chance(50) ? 0 : c.draw(nr_arrays + 2);
                std::size_t const end = std::max(begin, nr_arrays) + 1 + c.draw(2);
                if ((end - begin) * n_elements > 100000)
                {
                    return;
                }
                std::vector<T> buffer((end - begin) * n_elements, T(7));
                c.notes(name, ": access [", begin, ", ", end, ")");
                c.refused([&]() { value->write(ldm::IndexRange{begin, end}, buffer.data()); },
                    name + ": write arrays beyond the last one");
                c.refused([&]() { value->read(ldm::IndexRange{begin, end}, buffer.data()); },
                    name + ": read arrays beyond the last one");
                c.refused([&]() { value->write(ldm::Index(end - 1), buffer.data()); },
                    name + ": write an array beyond the last one");
                c.refused([&]() { value->read(ldm::Index(end - 1), buffer.data()); },
                    name + ": read an array beyond the last one");
                c.label("outside");
            }

            //! Write or read part of the arrays
            void block()
            {
                if (nr_arrays == 0)
                {
                    return;
                }
                lh5::Shape extents{array_shape};
                extents.insert(extents.begin(), nr_arrays);
                lh5::Offset start;
                lh5::Count count;
                for (auto const extent: extents)
                {
                    start.push_back(c.draw(extent - 1));
                    count.push_back(1 + c.draw(extent - start.back() - 1));
                }
                std::size_t const n = nr_elements(lh5::Shape(count.begin(), count.end()));
                lh5::Hyperslab const slab{start, count};
                std::vector<std::size_t> places(n);
                for (std::size_t i = 0; i < n; ++i)
                {
                    std::size_t rest = i, place = 0, stride = 1;
                    for (std::size_t d = extents.size(); d-- > 0;)
                    {
                        place += (start[d] + rest % count[d]) * stride;
                        rest /= count[d];
                        stride *= extents[d];
                    }
                    places[i] = place;
                }
                auto const memory_type = vp::datatype<T>();
                auto const memory_space = lh5::create_dataspace(lh5::Shape{n});
                lh5::Dataset::TransferPropertyList const transfer{};
                std::size_t const kind = c.draw(3);
                if (c.boolean())
                {
                    auto const v = vp::values<T>(c, n);
                    c.notes(name, ": write block ", kind, " start=", str_shape(lh5::Shape(start.begin(), start.end())), " count=",
                        str_shape(lh5::Shape(count.begin(), count.end())), " <- ", str(v));
                    switch (kind)
                    {
                        case 0: value->write(slab, v.data()); break;
                        case 1: value->write(slab, transfer, v.data()); break;
                        case 2: value->write(memory_space, slab, v.data()); break;
                        default: value->write(memory_space, slab, transfer, v.data()); break;
                    }
                    for (std::size_t i = 0; i < n; ++i)
                    {
                        elements.write(places[i], {v[i]});
                    }
                    ++nr_writes;
                }
                else if (elements.touched || no_data)
                {
                    c.notes(name, ": read block ", kind, " start=", str_shape(lh5::Shape(start.begin(), start.end())), " count=",
                        str_shape(lh5::Shape(count.begin(), count.end())));
                    auto const actual = vp::guarded_read<T>(c, n, name + ": read block",
                        [&](void* buffer)
                        {
                            using Base = lue::data_model::Array;
                            Base const& base = *value;
                            switch (kind)
                            {
                                case 0: base.read(slab, buffer); break;
                                case 1: base.read(memory_type, slab, buffer); break;
                                default: base.read(memory_type, slab, transfer, buffer); break;
                            }
                        });
                    for (std::size_t i = 0; i < n; ++i)
                    {
                        if (elements.defined[places[i]] && !pt::same_bits(actual[i], elements.values[places[i]]))
                        {
                            c.fail(name + ": element " + std::to_string(i) + " of block is " + str(actual[i]) +
                                " instead of " + str(elements.values[places[i]]));
                        }
                    }
                }
                c.label("block");
            }

            void read_one(std::size_t i)
            {
                elements.verify(c, i * n_elements, n_elements, name + ": read array " + std::to_string(i),
                    [&](void* buffer) { value->read(ldm::Index(i), buffer); });
            }

            void read_range(std::size_t begin, std::size_t end)
            {
                elements.verify(c, begin * n_elements, (end - begin) * n_elements,
                    name + ": read arrays [" + std::to_string(begin) + ", " + std::to_string(end) + ")",
                    [&](void* buffer) { value->read(ldm::IndexRange{begin, end}, buffer); });
            }

            void verify() override
            {
                c.equal(value->nr_arrays(), nr_arrays, name + ": number of arrays");
                c.check(value->array_shape() == array_shape,
                    name + ": array shape is " + str_shape(value->array_shape()) + " instead of " +
                        str_shape(array_shape));
                if constexpr (!std::is_same_v<Value, ldm::same_shape::Value>)
                {
                    c.equal(value->rank(), int(array_shape.size()), name + ": rank");
                }
                c.check(value->memory_datatype() == vp::datatype<T>(), name + ": memory datatype");
                c.check(value->file_datatype() == file_type<T>(wide), name + ": file datatype");
                c.check(H5Tequal(value->memory_datatype().id(), native_type<T>()) > 0,
                    name + ": memory datatype differs from that of the library");
                if (no_data)
                {
                    c.check(value->has_no_data_value(), name + ": no-data value is not there");
                    c.check(pt::same_bits(value->template no_data_value<T>(), *no_data),
                        name + ": no-data value is " + str(value->template no_data_value<T>()) + " instead of " +
                            str(*no_data));
                }
                else
                {
                    c.check(!value->has_no_data_value(), name + ": a no-data value was never set");
                }
                elements.verify(
                    c, 0, elements.size(), name + ": read all", [&](void* buffer) { value->read(buffer); });
                for (std::size_t k = 0; k < std::min<std::size_t>(nr_arrays, 3); ++k)
                {
                    read_one(k);
                    read_one(nr_arrays - 1 - k);
                }
            }

            void drop() override
            {
                value.reset();
            }

            void open(lh5::Group& parent) override
            {
                value = !wide && c.boolean() ? std::make_unique<Value>(parent, name)
                                    : std::make_unique<Value>(parent, name, vp::datatype<T>());
            }

            bool interesting() const override
            {
                return expand_after_write;
            }

            Case& c;
            std::string name;
            lh5::Shape array_shape;
            std::optional<T> no_data;
            std::unique_ptr<Value> value;
            std::size_t n_elements;
            bool wide{false};
            std::size_t nr_arrays{0};
            std::size_t nr_expansions{0};
            std::size_t nr_writes{0};
            bool expand_after_write{false};
            Elements<T> elements;
    };


    // ------------------------------------------------------------------------------------------- A02
    template<typename T>
    struct SameShapeVariableShape: public Subject
    {
            using Value = ldm::same_shape::variable_shape::Value;

            SameShapeVariableShape(Case& c, lh5::Group& parent, std::string const& name):
                c{c},
                name{name},
                rank(c.draw(3))
            {
                c.notes(name, ": create per-time same shape ", type_name<T>(), " rank=", rank);
                auto const type = vp::datatype<T>();
                wide = any_wide<T>(c);
                value = std::make_unique<Value>(
                    !wide && c.boolean() ? ldm::same_shape::variable_shape::create_value(parent, name, type, rank)
                                : ldm::same_shape::variable_shape::create_value(
                                      parent, name, file_type<T>(wide), type, rank));
            }

            struct Location
            {
                    lh5::Shape shape;
                    std::size_t nr_arrays;
                    Elements<T> elements;
            };

            void step() override
            {
                switch (c.draw(4))
                {
                    case 0:
                    case 1:
                    {
                        ldm::Index idx = c.chance(60) ? locations.size() : c.draw(1000);
                        if (locations.count(idx))
                        {
                            return;
                        }
                        lh5::Shape shape = vp::shape(c, rank, rank, 12, 300);
                        std::size_t n = c.draw(5);
                        c.notes(name, ": expand at ", idx, " n=", n, " shape=", str_shape(shape));
                        auto location = value->expand(idx, n, shape);
                        c.equal(location.nr_arrays(), n, name + ": number of arrays of a new location in time");
                        auto& l = locations[idx];
                        l.shape = shape;
                        l.nr_arrays = n;
                        l.elements.assign(n * nr_elements(shape));
                        if (c.chance(70))
                        {
                            auto v = vp::values<T>(c, l.elements.size());
                            l.elements.write(0, v);
                            c.notes(name, ": write at ", idx, " <- ", str(v));
                            location.write(v.data());
                        }
                        break;
                    }
                    case 2:
                    {
                        if (!locations.empty())
                        {
                            auto it = std::next(locations.begin(), c.draw(locations.size() - 1));
                            auto location = (*value)[it->first];
                            if (it->second.nr_arrays > 0)
                            {
                                std::size_t i = c.draw(it->second.nr_arrays - 1);
                                std::size_t n = nr_elements(it->second.shape);
                                auto v = vp::values<T>(c, n);
                                c.notes(name, ": write at ", it->first, "[", i, "] <- ", str(v));
                                location.write(ldm::Index(i), v.data());
                                it->second.elements.write(i * n, v);
                            }
                        }
                        break;
                    }
                    case 3:
                    {
                        if (!locations.empty())
                        {
                            // More arrays at an existing location
                            auto it = std::next(locations.begin(), c.draw(locations.size() - 1));
                            auto location = (*value)[it->first];
                            std::size_t n = c.draw(3);
                            c.notes(name, ": more arrays at ", it->first, ": ", n);
                            location.expand(n);
                            it->second.nr_arrays += n;
                            it->second.elements.resize(
                                it->second.nr_arrays * nr_elements(it->second.shape), {});
                        }
                        break;
                    }
                    default:
                    {
                        Value copy{*value};
                        value = std::make_unique<Value>(std::move(copy));
                    }
                }
            }

            void verify() override
            {
                c.equal(value->nr_locations_in_time(), locations.size(), name + ": number of locations in time");
                c.equal(value->rank(), rank, name + ": rank");
                c.check(value->memory_datatype() == vp::datatype<T>(), name + ": memory datatype");
                c.check(value->file_datatype() == file_type<T>(wide), name + ": file datatype");
                for (auto const& [idx, l]: locations)
                {
                    std::string const what = name + ": location " + std::to_string(idx);
                    auto location = (*value)[idx];
                    c.equal(location.nr_arrays(), l.nr_arrays, what + ": number of arrays");
                    c.check(location.array_shape() == l.shape, what + ": array shape");
                    l.elements.verify(
                        c, 0, l.elements.size(), what, [&](void* buffer) { location.read(buffer); });
                }
            }

            void drop() override
            {
                value.reset();
            }

            void open(lh5::Group& parent) override
            {
                value = !wide && c.boolean() ? std::make_unique<Value>(parent, name)
                                    : std::make_unique<Value>(parent, name, vp::datatype<T>());
            }

            bool interesting() const override
            {
                return locations.size() > 1;
            }

            Case& c;
            std::string name;
            int rank;
            bool wide{false};
            std::unique_ptr<Value> value;
            std::map<ldm::Index, Location> locations;
    };


    //! Check and change the arrays in a different_shape::Value
    template<typename T>
    struct ObjectArrays
    {
            struct Array
            {
                    lh5::Shape shape;
                    std::optional<T> no_data;
                    Elements<T> elements;
            };

            std::map<ldm::ID, Array> arrays;
            std::set<ldm::ID> used;

            void expand(Case& c, std::string const& name, ldm::different_shape::Value& value, int rank)
            {
                std::size_t const kind = c.draw(2);
                std::size_t const n = kind == 0 ? 1 : c.draw(4);
                auto const ids = object_ids(c, n, used);
                std::vector<lh5::Shape> shapes;
                for (std::size_t i = 0; i < n; ++i)
                {
                    shapes.push_back(vp::shape(c, rank, rank, 12, 300));
                }
                for (std::size_t i = 0; i < n; ++i)
                {
                    auto& array = arrays[ids[i]];
                    array.shape = shapes[i];
                    array.elements.assign(nr_elements(shapes[i]));
                }
                switch (kind)
                {
                    case 0:
                    {
                        std::optional<T> no_data;
                        if (c.boolean())
                        {
                            no_data = c.value<T>();
                            auto& array = arrays[ids[0]];
                            array.no_data = no_data;
                            array.elements.assign(nr_elements(shapes[0]), no_data);
                        }
                        c.notes(name, ": expand id=", ids[0], " shape=", str_shape(shapes[0]),
                            no_data ? " no_data=" + str(*no_data) : "");
                        value.expand(ids[0], shapes[0], no_data ? &*no_data : nullptr);
                        break;
                    }
                    case 1:
                    {
                        c.notes(name, ": expand n=", n, " ids=", str(ids));
                        value.expand(n, ids.data(), shapes.data());
                        break;
                    }
                    default:
                    {
                        // Shapes as a flat list of extents
                        std::vector<hsize_t> extents;
                        for (auto const& shape: shapes)
                        {
                            extents.insert(extents.end(), shape.begin(), shape.end());
                        }
                        c.notes(name, ": expand flat n=", n, " ids=", str(ids), " extents=", str(extents));
                        value.expand(n, ids.data(), extents.data());
                    }
                }
                c.label("expand overload " + std::to_string(kind));
            }

            void write(Case& c, std::string const& name, ldm::different_shape::Value& value)
            {
                if (!arrays.empty())
                {
                    auto it = std::next(arrays.begin(), c.draw(arrays.size() - 1));
                    auto v = vp::values<T>(c, it->second.elements.size());
                    c.notes(name, ": write id=", it->first, " <- ", str(v));
                    auto array = value[it->first];
                    array.write(v.data());
                    it->second.elements.write(0, v);
                }
            }

            void verify(Case& c, std::string const& name, ldm::different_shape::Value& value, int rank, bool wide)
            {
                c.equal(value.nr_objects(), arrays.size(), name + ": number of objects");
                c.equal(value.rank(), rank, name + ": rank");
                c.check(value.memory_datatype() == vp::datatype<T>(), name + ": memory datatype");
                c.check(value.file_datatype() == file_type<T>(wide), name + ": file datatype");
                for (auto const& [id, a]: arrays)
                {
                    std::string const what = name + ": object " + std::to_string(id);
                    c.check(value.contains(id), what + " is not there");
                    auto array = value[id];
                    c.check(array.shape() == a.shape,
                        what + ": shape is " + str_shape(array.shape()) + " instead of " + str_shape(a.shape));
                    c.check(array.memory_datatype() == vp::datatype<T>(), what + ": memory datatype");
                    c.equal(array.has_no_data_value(), a.no_data.has_value(), what + ": has no-data value");
                    if (a.no_data)
                    {
                        c.check(pt::same_bits(array.template no_data_value<T>(), *a.no_data),
                            what + ": no-data value");
                    }
                    a.elements.verify(
                        c, 0, a.elements.size(), what, [&](void* buffer) { array.read(buffer); });
                }
                for (int i = 0; i < 3; ++i)
                {
                    ldm::ID id = c.chance(50) ? c.draw(200) : c.any64();
                    c.equal(value.contains(id), arrays.count(id) > 0,
                        name + ": presence of object " + std::to_string(id));
                }
            }
    };


    template<typename T>
    struct DifferentShapeVariableShape: public Subject
    {
            using Value = ldm::different_shape::variable_shape::Value;

            DifferentShapeVariableShape(Case& c, lh5::Group& parent, std::string const& name):
                c{c},
                name{name},
                rank(1 + c.draw(2))
            {
                c.notes(name, ": create per-time different shape ", type_name<T>(), " rank=", rank);
                auto const type = vp::datatype<T>();
                wide = any_wide<T>(c);
                value = std::make_unique<Value>(
                    !wide && c.boolean() ? ldm::different_shape::variable_shape::create_value(parent, name, type, rank)
                                : ldm::different_shape::variable_shape::create_value(
                                      parent, name, file_type<T>(wide), type, rank));
            }

            void step() override
            {
                switch (c.draw(3))
                {
                    case 0:
                    case 1:
                    {
                        ldm::Index idx = c.chance(60) ? locations.size() : c.draw(1000);
                        if (locations.count(idx))
                        {
                            return;
                        }
                        auto& l = locations[idx];
                        std::size_t n = c.draw(4);
                        auto ids = object_ids(c, n, l.used);
                        std::vector<lh5::Shape> shapes;
                        for (std::size_t i = 0; i < n; ++i)
                        {
                            shapes.push_back(vp::shape(c, rank, rank, 12, 300));
                            auto& array = l.arrays[ids[i]];
                            array.shape = shapes[i];
                            array.elements.assign(nr_elements(shapes[i]));
                        }
                        c.notes(name, ": expand at ", idx, " ids=", str(ids));
                        auto location = value->expand(idx, n, ids.data(), shapes.data());
                        c.equal(location.nr_objects(), n, name + ": number of objects at new location");
                        if (c.chance(60))
                        {
                            l.write(c, name + "[" + std::to_string(idx) + "]", location);
                        }
                        break;
                    }
                    case 2:
                    {
                        if (!locations.empty())
                        {
                            auto it = std::next(locations.begin(), c.draw(locations.size() - 1));
                            auto location = (*value)[it->first];
                            it->second.write(c, name + "[" + std::to_string(it->first) + "]", location);
                        }
                        break;
                    }
                    default:
                    {
                        if (!locations.empty())
                        {
                            auto it = std::next(locations.begin(), c.draw(locations.size() - 1));
                            auto location = (*value)[it->first];
                            it->second.expand(c, name + "[" + std::to_string(it->first) + "]", location, rank);
                        }
                    }
                }
            }

            void verify() override
            {
                c.equal(value->nr_locations_in_time(), locations.size(), name + ": number of locations in time");
                c.equal(value->rank(), rank, name + ": rank");
                for (auto& [idx, l]: locations)
                {
                    auto location = (*value)[idx];
                    l.verify(c, name + "[" + std::to_string(idx) + "]", location, rank, wide);
                }
            }

            void drop() override
            {
                value.reset();
            }

            void open(lh5::Group& parent) override
            {
                value = !wide && c.boolean() ? std::make_unique<Value>(parent, name)
                                    : std::make_unique<Value>(parent, name, vp::datatype<T>());
            }

            bool interesting() const override
            {
                return locations.size() > 1;
            }

            Case& c;
            std::string name;
            int rank;
            bool wide{false};
            std::unique_ptr<Value> value;
            std::map<ldm::Index, ObjectArrays<T>> locations;
    };


    // ------------------------------------------------------------------------------------------- A03
    template<typename T>
    struct DifferentShape: public Subject
    {
            using Value = ldm::different_shape::Value;

            DifferentShape(Case& c, lh5::Group& parent, std::string const& name):
                c{c},
                name{name},
                rank(1 + c.draw(3))
            {
                c.notes(name, ": create different shape ", type_name<T>(), " rank=", rank);
                auto const type = vp::datatype<T>();
                wide = any_wide<T>(c);
                value = std::make_unique<Value>(
                    !wide && c.boolean() ? ldm::different_shape::create_value(parent, name, type, rank)
                                : ldm::different_shape::create_value(
                                      parent, name, file_type<T>(wide), type, rank));
            }

            void step() override
            {
                switch (c.draw(4))
                {
                    case 0:
                    case 1:
                    {
                        model.expand(c, name, *value, rank);
                        break;
                    }
                    case 2:
                    case 3:
                    {
                        model.write(c, name, *value);
                        break;
                    }
                    default:
                    {
                        Value copy{*value};
                        value = std::make_unique<Value>(std::move(copy));
                    }
                }
            }

            void verify() override
            {
                model.verify(c, name, *value, rank, wide);
            }

            void drop() override
            {
                value.reset();
            }

            void open(lh5::Group& parent) override
            {
                value = !wide && c.boolean() ? std::make_unique<Value>(parent, name)
                                    : std::make_unique<Value>(parent, name, vp::datatype<T>());
            }

            bool interesting() const override
            {
                return model.arrays.size() > 1;
            }

            Case& c;
            std::string name;
            int rank;
            bool wide{false};
            std::unique_ptr<Value> value;
            ObjectArrays<T> model;
    };


    template<typename T>
    struct DifferentShapeConstantShape: public Subject
    {
            using Value = ldm::different_shape::constant_shape::Value;

            DifferentShapeConstantShape(Case& c, lh5::Group& parent, std::string const& name):
                c{c},
                name{name},
                rank(1 + c.draw(2))
            {
                c.notes(name, ": create different shape, constant shape ", type_name<T>(), " rank=", rank);
                auto const type = vp::datatype<T>();
                wide = any_wide<T>(c);
                namespace v = ldm::different_shape::constant_shape;
                value = std::make_unique<Value>(
                    !wide && c.boolean() ? v::create_value(parent, name, type, rank)
                                : v::create_value(parent, name, file_type<T>(wide), type, rank));
            }

            struct Array
            {
                    lh5::Shape shape;
                    std::size_t nr_locations;
                    Elements<T> elements;
            };

            void step() override
            {
                switch (c.draw(5))
                {
                    case 0:
                    case 1:
                    {
                        bool const single = c.boolean();
                        std::size_t n = single ? 1 : c.draw(4);
                        auto ids = object_ids(c, n, used);
                        std::vector<lh5::Shape> shapes;
                        std::vector<ldm::Count> counts;
                        for (std::size_t i = 0; i < n; ++i)
                        {
                            shapes.push_back(vp::shape(c, rank, rank, 12, 300));
                            counts.push_back(c.draw(5));
                            auto& a = arrays[ids[i]];
                            a.shape = shapes[i];
                            a.nr_locations = counts[i];
                            a.elements.assign(counts[i] * nr_elements(shapes[i]));
                        }
                        c.notes(name, ": expand ids=", str(ids), " locations=", str(counts));
                        if (single)
                        {
                            auto array = value->expand(ids[0], shapes[0], counts[0]);
                            c.equal(array.nr_arrays(), counts[0], name + ": number of arrays of new object");
                        }
                        else
                        {
                            value->expand(n, ids.data(), shapes.data(), counts.data());
                        }
                        break;
                    }
                    case 2:
                    case 3:
                    {
                        if (!arrays.empty())
                        {
                            auto it = std::next(arrays.begin(), c.draw(arrays.size() - 1));
                            auto& a = it->second;
                            std::size_t const n = nr_elements(a.shape);
                            std::size_t begin = c.draw(a.nr_locations);
                            std::size_t end = begin + c.draw(a.nr_locations - begin);
                            auto v = vp::values<T>(c, (end - begin) * n);
                            c.notes(name, ": write id=", it->first, " [", begin, ", ", end, ") <- ", str(v));
                            auto array = (*value)[it->first];
                            if (end == begin + 1 && c.boolean())
                            {
                                array.write(ldm::Index(begin), v.data());
                            }
                            else
                            {
                                array.write(ldm::IndexRange{begin, end}, v.data());
                            }
                            a.elements.write(begin * n, v);
                        }
                        break;
                    }
                    case 4:
                    {
                        if (!arrays.empty())
                        {
                            auto it = std::next(arrays.begin(), c.draw(arrays.size() - 1));
                            std::size_t n = c.draw(3);
                            c.notes(name, ": more locations in time for id=", it->first, ": ", n);
                            auto array = (*value)[it->first];
                            array.expand(n);
                            it->second.nr_locations += n;
                            it->second.elements.resize(
                                it->second.nr_locations * nr_elements(it->second.shape), {});
                        }
                        break;
                    }
                    default:
                    {
                        Value copy{*value};
                        value = std::make_unique<Value>(std::move(copy));
                    }
                }
            }

            void verify() override
            {
                c.equal(value->nr_objects(), arrays.size(), name + ": number of objects");
                c.equal(value->rank(), rank, name + ": rank");
                c.check(value->memory_datatype() == vp::datatype<T>(), name + ": memory datatype");
                c.check(value->file_datatype() == file_type<T>(wide), name + ": file datatype");
                for (auto const& [id, a]: arrays)
                {
                    std::string const what = name + ": object " + std::to_string(id);
                    c.check(value->exists(id), what + " is not there");
                    auto array = (*value)[id];
                    c.equal(array.nr_arrays(), a.nr_locations, what + ": number of locations in time");
                    c.check(array.array_shape() == a.shape, what + ": shape");
                    c.equal(array.rank(), rank, what + ": rank");
                    c.check(array.memory_datatype() == vp::datatype<T>(), what + ": memory datatype");
                    a.elements.verify(
                        c, 0, a.elements.size(), what, [&](void* buffer) { array.read(buffer); });
                    if (a.nr_locations > 0)
                    {
                        std::size_t i = c.draw(a.nr_locations - 1);
                        std::size_t n = nr_elements(a.shape);
                        a.elements.verify(c, i * n, n, what + " at one location",
                            [&](void* buffer) { array.read(ldm::Index(i), buffer); });
                    }
                }
                for (int i = 0; i < 3; ++i)
                {
                    ldm::ID id = c.chance(50) ? c.draw(200) : c.any64();
                    c.equal(value->exists(id), arrays.count(id) > 0,
                        name + ": presence of object " + std::to_string(id));
                }
            }

            void drop() override
            {
                value.reset();
            }

            void open(lh5::Group& parent) override
            {
                value = !wide && c.boolean() ? std::make_unique<Value>(parent, name)
                                    : std::make_unique<Value>(parent, name, vp::datatype<T>());
            }

            bool interesting() const override
            {
                return arrays.size() > 1;
            }

            Case& c;
            std::string name;
            int rank;
            bool wide{false};
            std::unique_ptr<Value> value;
            std::map<ldm::ID, Array> arrays;
            std::set<ldm::ID> used;
    };


    using Make = std::function<std::unique_ptr<Subject>(Case&, lh5::Group&, std::string const&)>;


    void history(Case& c, Make const& make)
    {
        Store store{c};
        std::size_t const nr_subjects = 1 + c.draw(2);
        std::vector<std::unique_ptr<Subject>> subjects;
        for (std::size_t i = 0; i < nr_subjects; ++i)
        {
            subjects.push_back(make(c, *store.parent, "value_" + std::to_string(i)));
            subjects.back()->verify();
        }

        std::size_t const nr_steps = 1 + c.draw(c.thorough() ? 30 : 14);
        bool reopened = false;
        for (std::size_t i = 0; i < nr_steps; ++i)
        {
            if (c.chance(10))
            {
                bool const writable = c.chance(80);
                c.notes("reopen ", writable ? "for writing" : "for reading");
                for (auto& s: subjects)
                {
                    s->drop();
                }
                store.close();
                store.open(writable);
                for (auto& s: subjects)
                {
                    s->open(*store.parent);
                    s->verify();
                }
                if (!writable)
                {
                    for (auto& s: subjects)
                    {
                        s->drop();
                    }
                    store.close();
                    store.open();
                    for (auto& s: subjects)
                    {
                        s->open(*store.parent);
                    }
                }
                reopened = true;
                c.label("reopen");
            }
            if (c.chance(5))
            {
                store.file->flush();
                c.label("flush");
            }
            auto& subject = *subjects[c.draw(nr_subjects - 1)];
            subject.step();
            subject.verify();
        }

        for (auto& s: subjects)
        {
            s->verify();
            s->drop();
        }
        store.close();
        store.open(false);
        bool interesting = false;
        for (auto& s: subjects)
        {
            s->open(*store.parent);
            s->verify();
            interesting = interesting || s->interesting();
            s->drop();
        }
        if (interesting)
        {
            c.nontrivial();
            c.label("interesting");
        }
        if (reopened && interesting)
        {
            c.label("interesting and reopened half-way");
        }
    }


    template<template<typename> class S>
    Make maker()
    {
        return [](Case& c, lh5::Group& parent, std::string const& name)
        {
            std::unique_ptr<Subject> result;
            with_type(c.draw(nr_types - 1),
                [&]<typename T>() { result = std::make_unique<S<T>>(c, parent, name); });
            return result;
        };
    }

    template<typename T>
    using SameShapeConstant = SameShape<T, ldm::same_shape::Value>;

    template<typename T>
    using SameShapeConstantShape = SameShape<T, ldm::same_shape::constant_shape::Value>;


    Make either(Make first, Make second)
    {
        return [=](Case& c, lh5::Group& parent, std::string const& name)
        { return c.boolean() ? second(c, parent, name) : first(c, parent, name); };
    }

}  // namespace


int main(int argc, char** argv)
{
    std::vector<pt::Property> properties{
        {"A01",
            "a case is a history of grow, write (one, range, all), read, copy handle, flush and reopen on 1-3 "
            "same-shape value arrays of random type, rank 0-4, shape and no-data value in one file, compared with an "
            "in-memory model after each step; non-trivial: an array was grown after something was written to it",
            [](Case& c) { history(c, either(maker<SameShapeConstant>(), maker<SameShapeConstantShape>())); }, 30000,
            250000, quiet},
        {"A02",
            "a case is a history of adding locations in time (any index order), writing, growing and reopening on 1-3 "
            "values of random type and rank, compared with an in-memory model after each step; non-trivial: "
            "at least two locations in time in one value",
            [](Case& c)
            { history(c, either(maker<SameShapeVariableShape>(), maker<DifferentShapeVariableShape>())); },
            15000, 100000, quiet},
        {"A03",
            "a case is a history of adding objects (single, in bulk, in bulk with flat shapes), writing, growing and "
            "reopening on 1-3 values of random type and rank, compared with an in-memory model after each step; "
            "non-trivial: at least two objects in one value",
            [](Case& c)
            { history(c, either(maker<DifferentShape>(), maker<DifferentShapeConstantShape>())); }, 15000, 100000,
            quiet},
    };
    return pt::main(argc, argv, properties);
}
