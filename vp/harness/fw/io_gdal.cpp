#include "io.hpp"
#include "framework_io_gdal.hpp"

namespace fw {

    namespace {

        std::string raster_name(Case& c, std::string const& name)
        {
            return c.path(name + ".tif");
        }


        template<typename T>
        T special(Case& c)
        {
            if constexpr (std::is_floating_point_v<T>) return c.pick<T>({T(-9999), T(0), T(7), std::numeric_limits<T>::lowest()});
            else if constexpr (std::is_signed_v<T>) return c.pick<T>({T(-9999), T(0), T(7), std::numeric_limits<T>::min(), std::numeric_limits<T>::max()});
            else return c.pick<T>({T(0), T(7), std::numeric_limits<T>::max()});
        }


        //! Create a raster with GDAL only
        template<typename T>
        void create(
            Case& c, std::string const& name, Grid<T> const& values, std::optional<T> const no_data_value,
            std::array<double, 6> const* const geo_transform, bool const crs)
        {
            auto* driver = GetGDALDriverManager()->GetDriverByName("GTiff");
            char** options{nullptr};
            if (c.chance(40))
            {
                options = CSLSetNameValue(options, "TILED", "YES");
                options = CSLSetNameValue(options, "BLOCKXSIZE", "16");
                options = CSLSetNameValue(options, "BLOCKYSIZE", "16");
            }
            else
            {
                options = CSLSetNameValue(options, "BLOCKYSIZE", str(1 + c.draw(3)).c_str());
            }
            auto* dataset = driver->Create(
                name.c_str(), int(values.cols), int(values.rows), 1, lue::gdal::data_type_v<T>, options);
            CSLDestroy(options);
            if (geo_transform) dataset->SetGeoTransform(const_cast<double*>(geo_transform->data()));
            if (crs)
            {
                OGRSpatialReference reference;
                reference.SetWellKnownGeogCS("WGS84");
                dataset->SetSpatialRef(&reference);
            }
            auto* band = dataset->GetRasterBand(1);
            if (no_data_value)
            {
                if constexpr (std::is_same_v<T, std::int64_t>) band->SetNoDataValueAsInt64(*no_data_value);
                else if constexpr (std::is_same_v<T, std::uint64_t>) band->SetNoDataValueAsUInt64(*no_data_value);
                else band->SetNoDataValue(double(*no_data_value));
            }
            auto cells = values.cells;
            c.check(
                band->RasterIO(
                    GF_Write, 0, 0, int(values.cols), int(values.rows), cells.data(), int(values.cols), int(values.rows),
                    lue::gdal::data_type_v<T>, 0, 0) == CE_None,
                "cannot create raster");
            GDALClose(dataset);
        }


        Layout partitions(Case& c, Shape const& shape)
        {
            Layout result;
            result.array = shape;
            for (int d = 0; d < 2; ++d) result.partition[d] = 1 + Count(c.draw(std::uint64_t(shape[d] - 1)));
            return result;
        }


        std::array<double, 6> transform(Case& c)
        {
            double const cell_size = double(1 + c.draw(30)) / 4;
            return {double(c.draw(100)), cell_size, 0, double(c.draw(100)), 0, -cell_size};
        }


        Shape raster_shape(Case& c)
        {
            Count const limit = c.chance(15) ? 39 : 9;
            return Shape{{1 + Count(c.draw(std::uint64_t(limit))), 1 + Count(c.draw(std::uint64_t(limit)))}};
        }


        template<typename T>
        void read(Case& c)
        {
            std::string const name = raster_name(c, "input");
            Shape const shape = raster_shape(c);
            Layout const all{shape, shape};
            auto const kind = c.draw(2);
            std::optional<T> no_data_value;
            if (kind == 1) no_data_value = special<T>(c);
            if (kind == 2) no_data_value = no_data<T>();
            Grid<T> const values = grid<T>(c, all, [&]() { return number<T>(c); }, 0);
            Grid<T> raster = values;
            Grid<T> expected = values;
            bool some{false};
            for (std::size_t i = 0; i < raster.size(); ++i)
            {
                if (no_data_value && c.chance(20)) raster.cells[i] = *no_data_value;
                else if (c.chance(10)) raster.cells[i] = no_data<T>();
                expected.cells[i] = raster.cells[i];
                if (no_data_value && (raster.cells[i] == *no_data_value || (is_no_data(raster.cells[i]) && is_no_data(*no_data_value))))
                {
                    expected.cells[i] = no_data<T>();
                    some = true;
                }
            }
            create<T>(c, name, raster, no_data_value, nullptr, false);
            c.notes("raster ", shape[0], "x", shape[1], ", no-data value ", no_data_value ? show(*no_data_value) : std::string{"not set"}, ": ", raster.text());
            c.label(kind == 0 ? "no no-data value" : kind == 1 ? "some no-data value" : "own no-data value");

            start(c);
            run(c, [&]() {
                std::vector<std::pair<Array<T>, Grid<T>>> results;
                auto const nr_reads = 1 + c.draw(1);
                for (std::uint64_t i = 0; i < nr_reads; ++i)
                {
                    if (c.chance(50))
                    {
                        Layout const l = partitions(c, shape);
                        c.notes("read all, partitions ", l.partition[0], "x", l.partition[1]);
                        results.emplace_back(lue::from_gdal<T>(name, l.partition), expected);
                        if (l.nr_partitions() > 1 && some) c.nontrivial();
                    }
                    else
                    {
                        Shape offset;
                        Shape count;
                        for (int d = 0; d < 2; ++d)
                        {
                            offset[d] = Count(c.draw(std::uint64_t(shape[d] - 1)));
                            count[d] = 1 + Count(c.draw(std::uint64_t(shape[d] - offset[d] - 1)));
                        }
                        Layout const l = partitions(c, count);
                        bool const outside = c.chance(15);
                        int const dimension = int(c.draw(1));
                        if (outside) count[dimension] = shape[dimension] - offset[dimension] + 1 + Count(c.draw(3));
                        c.notes("read ", count[0], "x", count[1], " at ", offset[0], ", ", offset[1], ", partitions ", l.partition[0], "x", l.partition[1]);
                        lue::Hyperslab<2> const hyperslab{{offset[0] + count[0] / 2, offset[1] + count[1] / 2}, {count[0], count[1]}};
                        if (outside)
                        {
                            c.refused([&]() { lue::from_gdal<T>(name, hyperslab, l.partition); }, "reading cells from outside of the raster");
                            c.label("outside");
                            continue;
                        }
                        Grid<T> part{count[0], count[1]};
                        for (Index r = 0; r < count[0]; ++r)
                        {
                            for (Index col = 0; col < count[1]; ++col) part(r, col) = expected(offset[0] + r, offset[1] + col);
                        }
                        results.emplace_back(lue::from_gdal<T>(name, hyperslab, l.partition), part);
                        if (l.nr_partitions() > 1 && some) c.nontrivial();
                        c.label("part of a raster");
                    }
                }
                if (c.chance(30)) progress(c);
                for (auto const& [array, grid] : results) expect(c, array, grid, "read");
            });
        }


        template<typename T>
        void write(Case& c)
        {
            std::string const name = raster_name(c, "output");
            std::string const clone = raster_name(c, "clone");
            Shape const shape = raster_shape(c);
            Layout const l = partitions(c, shape);
            Grid<T> const values = grid<T>(c, l, [&]() { return any_number<T>(c); }, nd_percentage(c));
            bool const use_clone = c.chance(40);
            bool const clone_differs = use_clone && c.chance(15);
            bool const crs = c.chance(50);
            std::array<double, 6> geo_transform{0, 1, 0, double(shape[0]), 0, -1};
            if (use_clone)
            {
                Shape clone_shape = shape;
                if (clone_differs) clone_shape[int(c.draw(1))] += 1;
                geo_transform = transform(c);
                create<U8>(c, clone, Grid<U8>{clone_shape[0], clone_shape[1], 1}, {}, &geo_transform, crs);
            }
            std::map<std::string, std::string> options;
            if (c.chance(30)) options["COMPRESS"] = "LZW";
            if (c.chance(30)) options["TILED"] = "YES";
            c.notes("write ", l.text(), use_clone ? ", with clone" : "", ": ", values.text());

            start(c);
            run(c, [&]() {
                Array<T> array = to_array(l, values);
                if (c.chance(60)) array = pending(c, std::move(array));
                if (clone_differs)
                {
                    c.refused([&]() { lue::to_gdal<T>(array, name, clone).get(); }, "clone with another shape");
                    c.label("shape of clone differs");
                    return;
                }
                hpx::future<void> written = lue::to_gdal<T>(array, name, use_clone ? clone : std::string{}, options);
                if (c.chance(30)) progress(c);
                array = Array<T>{};
                written.get();
            });
            if (clone_differs) return;

            auto* dataset = static_cast<GDALDataset*>(GDALOpen(name.c_str(), GA_ReadOnly));
            c.check(dataset, "the raster cannot be opened");
            c.check(dataset->GetRasterXSize() == shape[1] && dataset->GetRasterYSize() == shape[0], "shape of the raster");
            c.equal(dataset->GetRasterCount(), 1, "number of bands");
            std::array<double, 6> actual_transform{};
            c.check(dataset->GetGeoTransform(actual_transform.data()) == CE_None, "the raster has no geo-transform");
            for (int i = 0; i < 6; ++i) c.equal(actual_transform[i], geo_transform[i], "geo-transform, value " + str(i));
            c.check((dataset->GetSpatialRef() != nullptr) == (use_clone && crs), "spatial reference of the raster");
            auto* band = dataset->GetRasterBand(1);
            c.check(band->GetRasterDataType() == lue::gdal::data_type_v<T>, "data type of the raster");
            int has{0};
            T no_data_value;
            if constexpr (std::is_same_v<T, std::int64_t>) no_data_value = band->GetNoDataValueAsInt64(&has);
            else if constexpr (std::is_same_v<T, std::uint64_t>) no_data_value = band->GetNoDataValueAsUInt64(&has);
            else no_data_value = T(band->GetNoDataValue(&has));
            c.check(has && is_no_data(no_data_value), "no-data value of the raster is " + (has ? str(no_data_value) : std::string{"not set"}));
            Grid<T> actual{shape[0], shape[1]};
            c.check(
                band->RasterIO(
                    GF_Read, 0, 0, int(shape[1]), int(shape[0]), actual.cells.data(), int(shape[1]), int(shape[0]),
                    lue::gdal::data_type_v<T>, 0, 0) == CE_None,
                "the raster cannot be read");
            GDALClose(dataset);
            expect(c, actual, values, "raster written");
            if (l.nr_partitions() > 1) c.nontrivial();

            // Back into an array
            if (c.chance(40))
            {
                c.label("round trip");
                run(c, [&]() {
                    Layout const again = partitions(c, shape);
                    expect(c, lue::from_gdal<T>(name, again.partition), values, "raster read back");
                });
            }
        }


        template<typename T>
        Operations operations(std::string const& type)
        {
            return {{"read " + type, read<T>}, {"write " + type, write<T>}};
        }

    }  // Anonymous namespace

#if FW_GROUP == 0
    Operations io_gdal_operations_0() { return operations<U8>("uint8"); }
#elif FW_GROUP == 1
    Operations io_gdal_operations_1() { return operations<I32>("int32"); }
#elif FW_GROUP == 2
    Operations io_gdal_operations_2() { return operations<float>("float32"); }
#elif FW_GROUP == 3
    Operations io_gdal_operations_3() { return operations<double>("float64"); }
#else
    Operations io_gdal_operations_4() { return operations<I64>("int64"); }
#endif

}  // namespace fw
