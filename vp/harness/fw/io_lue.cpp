#include "io.hpp"
#include "lue/framework/io/from_lue.hpp"
#include "lue/framework/io/to_lue.hpp"
#include "lue/data_model/hl/raster_view.hpp"
#include <map>

namespace fw {

    extern bool io_others;
    void io_reset();
    std::string const& io_conflict();
    std::size_t io_nr_open_files();

    namespace {

        namespace ldm = lue::data_model;

        using DatasetPtr = std::shared_ptr<ldm::Dataset>;
        using ConstantView = ldm::constant::RasterView<DatasetPtr>;
        using VariableView = ldm::variable::RasterView<DatasetPtr>;

        struct Raster
        {
                std::string dataset;
                std::string phenomenon;
                std::string property_set;
                std::vector<std::string> layers;
                bool variable;
                Count nr_steps;
                Shape shape;
                ldm::ID object_id;

                auto path(std::size_t const layer) const
                {
                    return dataset + "/" + phenomenon + "/" + property_set + "/" + layers[layer];
                }
        };


        template<typename T>
        struct Read
        {
                std::string what;
                Array<T> array;
                Grid<T> expected;
        };


        Layout partitions(Case& c, Shape const& shape)
        {
            Layout result;
            result.array = shape;
            for (int d = 0; d < 2; ++d) result.partition[d] = 1 + Count(c.draw(std::uint64_t(shape[d] - 1)));
            return result;
        }


        template<typename T>
        std::vector<Raster> create(Case& c)
        {
            std::vector<Raster> result;
            auto const nr_datasets = 1 + c.draw(1);
            for (std::uint64_t d = 0; d < nr_datasets; ++d)
            {
                std::string const name = c.path("d" + str(d) + ".lue");
                auto dataset = std::make_shared<ldm::Dataset>(ldm::create_dataset(name));
                auto const nr_rasters = 1 + c.draw(1);
                for (std::uint64_t r = 0; r < nr_rasters; ++r)
                {
                    Raster raster;
                    raster.dataset = name;
                    raster.phenomenon = "p" + str(r);
                    raster.property_set = "s";
                    raster.variable = !c.chance(30);
                    raster.nr_steps = raster.variable ? 1 + Count(c.draw(2)) : 1;
                    raster.shape = Shape{{1 + Count(c.draw(5)), 1 + Count(c.draw(5))}};
                    auto const nr_layers = 1 + c.draw(1);
                    lue::hdf5::Shape const grid{std::uint64_t(raster.shape[0]), std::uint64_t(raster.shape[1])};
                    ConstantView::SpaceBox const box{0, 0, double(raster.shape[1]), double(raster.shape[0])};
                    for (std::uint64_t l = 0; l < nr_layers; ++l) raster.layers.push_back("l" + str(l));

                    if (raster.variable)
                    {
                        VariableView view = ldm::variable::create_raster_view(
                            dataset, raster.phenomenon, raster.property_set, ldm::Clock{ldm::time::Unit::day, 1},
                            ldm::Count(raster.nr_steps), {0, ldm::time::DurationCount(raster.nr_steps)}, grid, box);
                        for (auto const& layer : raster.layers) view.template add_layer<T>(layer);
                        raster.object_id = view.object_id();
                    }
                    else
                    {
                        ConstantView view = ldm::constant::create_raster_view(
                            dataset, raster.phenomenon, raster.property_set, grid, box);
                        for (auto const& layer : raster.layers) view.template add_layer<T>(layer);
                        raster.object_id = view.object_id();
                    }

                    c.notes(
                        "raster ", result.size(), ": dataset ", d, raster.variable ? ", variable, " : ", constant, ",
                        raster.nr_steps, " steps, ", raster.shape[0], "x", raster.shape[1], ", ", nr_layers, " layers");
                    result.push_back(raster);
                }
            }
            return result;
        }


        template<typename T>
        void io(Case& c)
        {
            std::vector<Raster> const rasters = create<T>(c);
            io_reset();
            fw::io_others = true;
            struct Off { ~Off() { fw::io_others = false; } } const off;

            std::map<std::tuple<std::size_t, std::size_t, Count>, Grid<T>> written;
            std::vector<hpx::future<void>> writes;
            std::vector<Read<T>> reads;
            bool again{false};

            run(c, [&]() {
                auto const nr_operations = 1 + c.draw(9);
                for (std::uint64_t o = 0; o < nr_operations; ++o)
                {
                    std::size_t const r = c.draw(rasters.size() - 1);
                    Raster const& raster = rasters[r];
                    std::size_t const layer = c.draw(raster.layers.size() - 1);
                    Count const step = Count(c.draw(std::uint64_t(raster.nr_steps - 1)));
                    auto const key = std::make_tuple(r, layer, step);
                    bool const present = written.contains(key);
                    std::string const where = "raster " + str(r) + " layer " + str(layer) + " step " + str(step);

                    if (!present || c.chance(35))
                    {
                        Layout const l = partitions(c, raster.shape);
                        Grid<T> const values = grid<T>(c, l, [&]() { return number<T>(c); }, 10);
                        c.notes("write ", where, ", partitions ", l.partition[0], "x", l.partition[1], ": ", values.text());
                        Array<T> array = to_array(l, values);
                        if (c.chance(60)) array = pending(c, std::move(array));
                        again = again || !writes.empty() || !reads.empty();
                        writes.push_back(
                            raster.variable ? lue::to_lue(array, raster.path(layer), raster.object_id, step)
                                            : lue::to_lue(array, raster.path(layer), raster.object_id));
                        written[key] = values;
                    }
                    else
                    {
                        Grid<T> const& all = written.at(key);
                        again = true;
                        if (c.chance(60))
                        {
                            Layout const l = partitions(c, raster.shape);
                            c.notes("read ", where, ", partitions ", l.partition[0], "x", l.partition[1]);
                            reads.push_back(
                                {where,
                                 raster.variable
                                     ? lue::from_lue<T>(raster.path(layer), l.partition, raster.object_id, step)
                                     : lue::from_lue<T>(raster.path(layer), l.partition, raster.object_id),
                                 all});
                        }
                        else
                        {
                            Shape offset;
                            Shape count;
                            for (int d = 0; d < 2; ++d)
                            {
                                offset[d] = Count(c.draw(std::uint64_t(raster.shape[d] - 1)));
                                count[d] = 1 + Count(c.draw(std::uint64_t(raster.shape[d] - offset[d] - 1)));
                            }
                            Layout const l = partitions(c, count);
                            lue::hdf5::Hyperslab const hyperslab{
                                lue::hdf5::Offset{std::uint64_t(offset[0]), std::uint64_t(offset[1])},
                                lue::hdf5::Count{std::uint64_t(count[0]), std::uint64_t(count[1])}};
                            Grid<T> expected{count[0], count[1]};
                            for (Index row = 0; row < count[0]; ++row)
                            {
                                for (Index col = 0; col < count[1]; ++col)
                                    expected(row, col) = all(offset[0] + row, offset[1] + col);
                            }
                            c.notes(
                                "read ", where, ", part ", count[0], "x", count[1], " at ", offset[0], ", ", offset[1],
                                ", partitions ", l.partition[0], "x", l.partition[1]);
                            c.label("part of an array");
                            reads.push_back(
                                {where,
                                 raster.variable ? lue::from_lue<T>(
                                                       raster.path(layer), hyperslab, l.partition, raster.object_id, step)
                                                 : lue::from_lue<T>(
                                                       raster.path(layer), hyperslab, l.partition, raster.object_id),
                                 expected});
                        }
                    }

                    if (c.chance(25)) progress(c);
                    if (!writes.empty() && c.chance(10))
                    {
                        c.note("wait for last write");
                        writes.back().wait();
                    }
                    if (!reads.empty() && c.chance(10))
                    {
                        c.note("use last read");
                        expect(c, reads.back().array, reads.back().expected, "read " + reads.back().what);
                        reads.back().array = Array<T>{};
                        reads.pop_back();
                    }
                }

                for (auto& write : writes) write.get();
                for (auto& read : reads) expect(c, read.array, read.expected, "read " + read.what);
                reads.clear();
            });

            c.check(io_conflict().empty(), io_conflict());
            c.equal(io_nr_open_files(), std::size_t{0}, "number of files that are still open");
            fw::io_others = false;

            // What has been written is there
            for (auto const& [key, values] : written)
            {
                auto const& [r, layer, step] = key;
                Raster const& raster = rasters[r];
                auto dataset = std::make_shared<ldm::Dataset>(ldm::open_dataset(raster.dataset, H5F_ACC_RDONLY));
                std::vector<T> cells(values.size());
                if (raster.variable)
                {
                    VariableView view{dataset, raster.phenomenon, raster.property_set};
                    view.layer(raster.layers[layer])
                        .read(
                            lue::hdf5::Hyperslab{
                                lue::hdf5::Offset{0, std::uint64_t(step), 0, 0},
                                lue::hdf5::Count{1, 1, std::uint64_t(values.rows), std::uint64_t(values.cols)}},
                            cells.data());
                }
                else
                {
                    ConstantView view{dataset, raster.phenomenon, raster.property_set};
                    view.layer(raster.layers[layer]).read(cells.data());
                }
                Grid<T> actual{values.rows, values.cols};
                actual.cells = cells;
                expect(c, actual, values, "contents of raster " + str(r) + " layer " + str(layer) + " step " + str(step));
            }

            c.label("writes: " + str(std::min<std::size_t>(writes.size(), 4)));
            if (again) c.nontrivial();
        }

    }  // Anonymous namespace

#if FW_GROUP == 0
    Operations io_lue_i32_operations()
    {
        return {{"int32", [](Case& c) { start(c); io<I32>(c); }}};
    }
#else
    Operations io_lue_double_operations()
    {
        return {{"float64", [](Case& c) { start(c); io<double>(c); }}};
    }
#endif

}  // namespace fw
