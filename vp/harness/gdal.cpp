// G01, G02, G03: rasters
#include "common.hpp"
#include "lue/gdal.hpp"
#include "lue/gdal/compare_rasters.hpp"

using namespace vp;
namespace lgd = lue::gdal;


namespace {

    struct Setup
    {
            std::string driver;
            std::string extension;
            std::map<std::string, std::string> options;
            int max_block{0};
    };


    Setup setup_of(Case& c, std::size_t type, int nr_rows, int nr_cols)
    {
        Setup s;
        // Erdas Imagine does not know about 8-bit signed and 64-bit integers
        bool const hfa = c.chance(15) && type != 3 && type != 5 && type != 7;
        if (hfa)
        {
            s.driver = "HFA";
            s.extension = c.boolean() ? ".img" : ".IMG";
            if (c.boolean()) s.options["BLOCKSIZE"] = "32";
            if (c.boolean()) s.options["COMPRESSED"] = "YES";
            return s;
        }
        s.driver = "GTiff";
        s.extension = c.pick({".tif", ".Tif", ".TIF"});
        switch (c.draw(2))
        {
            case 0: break;
            case 1:
            {
                s.options["TILED"] = "YES";
                s.options["BLOCKXSIZE"] = std::to_string(16 * (1 + c.draw(2)));
                s.options["BLOCKYSIZE"] = std::to_string(16 * (1 + c.draw(2)));
                break;
            }
            default: s.options["BLOCKYSIZE"] = std::to_string(1 + c.draw(std::uint64_t(nr_rows) + 2));
        }
        (void)nr_cols;
        if (c.chance(30)) s.options["COMPRESS"] = c.pick({"DEFLATE", "LZW", "PACKBITS"});
        if (c.chance(30)) s.options["INTERLEAVE"] = c.pick({"PIXEL", "BAND"});
        return s;
    }


    lgd::GeoTransform geo_transform(Case& c)
    {
        double const size = c.pick({1.0, 0.5, 25.0, 0.125, 1.0 / 1024, 4096.5});
        return {double(c.integer(-2000, 2000)) / 8, size, 0.0, double(c.integer(-2000, 2000)) / 8, 0.0, -size};
    }


    std::string describe(Setup const& s)
    {
        std::string r = s.driver + " " + s.extension;
        for (auto const& [k, v]: s.options) r += " " + k + "=" + v;
        return r;
    }


    template<typename T>
    using Grid = std::vector<T>;


    //! Values, without negative zero: blocks that contain only zeros can be left out of a file
    template<typename T>
    std::vector<T> cells(Case& c, std::size_t n)
    {
        auto result = values<T>(c, n);
        for (auto& v: result)
        {
            if (v == T(0)) v = T(0);
        }
        return result;
    }


    template<typename T>
    T nan_or_value(Case& c)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            if (c.chance(30)) return std::numeric_limits<T>::quiet_NaN();
            // Written as text, in some formats
            T const v = c.value<T>();
            return std::isfinite(v) ? v : T(-999);
        }
        return c.value<T>();
    }


    template<typename T>
    bool same_value(T a, T b)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            return (std::isnan(a) && std::isnan(b)) || a == b;
        }
        return a == b;
    }


    // ------------------------------------------------------------------ G01
    template<typename T>
    struct RasterModel
    {
            lgd::Shape shape{};
            lgd::Count nr_bands{};
            lgd::GeoTransform geo_transform{};
            bool has_no_data{false};
            T no_data{};
            std::vector<Grid<T>> bands;
    };


    template<typename T>
    void check_window(Case& c, RasterModel<T> const& m, lgd::RasterBandPtr ptr, lgd::Count band, lgd::Offset o, lgd::Shape s)
    {
        Grid<T> got(std::size_t(s[0]) * s[1] + 4, T(77));
        lgd::read(*ptr, o, s, lgd::TypeTraits<T>::data_type, got.data());
        Grid<T> expected;
        for (int r = 0; r < s[0]; ++r)
            for (int k = 0; k < s[1]; ++k)
                expected.push_back(m.bands[band][std::size_t(o[0] + r) * m.shape[1] + o[1] + k]);
        for (int i = 0; i < 4; ++i) expected.push_back(T(77));
        expect_same(c, got, expected, "window of band " + std::to_string(band + 1));
    }


    template<typename T>
    void check_block(Case& c, RasterModel<T> const& m, lgd::Raster::Band& b, lgd::Count band, lgd::Offset block)
    {
        auto const bs = b.block_shape();
        Grid<T> got(std::size_t(bs[0]) * bs[1]);
        b.read_block(block, got.data());
        for (int r = 0; r < bs[0]; ++r)
        {
            for (int k = 0; k < bs[1]; ++k)
            {
                int const row = block[0] * bs[0] + r;
                int const col = block[1] * bs[1] + k;
                if (row < m.shape[0] && col < m.shape[1])
                {
                    T const expected = m.bands[band][std::size_t(row) * m.shape[1] + col];
                    T const actual = got[std::size_t(r) * bs[1] + k];
                    c.check(
                        pt::same_bits(actual, expected),
                        "block (" + str(block[0]) + ", " + str(block[1]) + ") of band " + str(band + 1) + ", cell (" +
                            str(row) + ", " + str(col) + "): got " + str(actual) + ", expected " + str(expected));
                }
            }
        }
    }


    template<typename T>
    void check_all(Case& c, RasterModel<T> const& m, lgd::DatasetPtr dataset, bool whole, bool blocks)
    {
        lgd::Raster raster{dataset};
        c.check(raster.shape() == m.shape, "shape of raster");
        c.check(lgd::shape(*dataset) == m.shape, "shape of dataset");
        c.equal(raster.nr_bands(), m.nr_bands, "number of bands");
        c.equal(raster.data_type(), lgd::TypeTraits<T>::data_type, "data type of raster");
        c.equal(lgd::nr_raster_bands(*dataset), m.nr_bands, "number of raster bands");
        c.equal(lgd::data_type(*dataset), lgd::TypeTraits<T>::data_type, "data type of dataset");
        c.check(lgd::raster_band(*dataset) == lgd::raster_band(*dataset, 1), "the band of a dataset is not the first one");
        auto const gt = raster.geo_transform();
        for (int i = 0; i < 6; ++i) c.equal(gt[i], m.geo_transform[i], "geo-transform, element " + str(i));
        for (int b = 0; b < m.nr_bands; ++b)
        {
            auto band = raster.band(b + 1);
            c.check(band.shape() == m.shape, "shape of band");
            c.equal(band.data_type(), lgd::TypeTraits<T>::data_type, "data type of band");
            auto const [value, valid] = band.template no_data_value<T>();
            c.equal(valid, m.has_no_data, "whether there is a no-data value in band " + str(b + 1));
            if (m.has_no_data)
            {
                c.check(
                    same_value(value, m.no_data), "no-data value of band " + str(b + 1) + ": got " + str(value) +
                                                      ", expected " + str(m.no_data));
            }
            Grid<T> got(m.bands[b].size());
            if (whole)
            {
                band.read(got.data());
                expect_same(c, got, m.bands[b], "values of band " + str(b + 1));
            }
            auto const bs = band.block_shape();
            int const ny = (m.shape[0] + bs[0] - 1) / bs[0];
            int const nx = (m.shape[1] + bs[1] - 1) / bs[1];
            if (blocks)
                for (int y = 0; y < ny; ++y)
                    for (int x = 0; x < nx; ++x) check_block(c, m, band, b, {y, x});
        }
    }


    template<typename T>
    void rasters(Case& c, std::size_t type)
    {
        RasterModel<T> m;
        m.shape = {int(c.size(1, 70)), int(c.size(1, 70))};
        m.nr_bands = 1 + int(c.draw(2));
        bool const many_bands = c.chance(2);
        if (many_bands)
        {
            m.shape = {1 + int(c.draw(1)), 1 + int(c.draw(1))};
            m.nr_bands = 4 + int(c.draw(320));
            c.label("many bands");
        }
        m.geo_transform = geo_transform(c);
        auto s = setup_of(c, type, m.shape[0], m.shape[1]);
        if (many_bands) s = Setup{"GTiff", ".tif", {}};
        std::string const name = c.path(c.pick({"raster", "my.raster", "a b"}) + s.extension);
        c.notes(
            describe(s), " ", type_name<T>(), " ", m.nr_bands, " bands of ", m.shape[0], "x", m.shape[1]);
        c.label(s.driver);
        c.label(type_name<T>());
        c.equal(lgd::driver_name(name), s.driver, "driver by extension");
        c.refused([&] { lgd::open_dataset(name, GA_ReadOnly); }, "opening a missing raster");
        c.check(!lgd::try_open_dataset(name, GA_ReadOnly), "a missing raster can be opened");
        c.check(!std::filesystem::exists(name), "opening a missing raster creates a file");

        auto dataset = c.boolean()
                           ? lgd::create_dataset(
                                 s.driver, name, m.shape, m.nr_bands, lgd::TypeTraits<T>::data_type, s.options)
                           : lgd::create_dataset(
                                 *lgd::driver(s.driver), name, m.shape, m.nr_bands, lgd::TypeTraits<T>::data_type,
                                 s.options);
        lgd::Raster{dataset}.set_geo_transform(m.geo_transform);
        if (c.boolean())
        {
            m.has_no_data = true;
            m.no_data = nan_or_value<T>(c);
            c.notes("no-data value ", str(m.no_data));
            for (int b = 0; b < m.nr_bands; ++b)
            {
                lgd::Raster{dataset}.band(b + 1).template set_no_data_value<T>(m.no_data);
            }
        }
        std::size_t const n = std::size_t(m.shape[0]) * m.shape[1];
        for (int b = 0; b < m.nr_bands; ++b)
        {
            m.bands.push_back(cells<T>(c, n));
            auto copy = m.bands.back();
            lgd::Raster{dataset}.band(b + 1).write(copy.data());
        }

        bool writable = true;
        bool split = false;
        // Something else to refer to
        auto const placeholder = lgd::create_dataset("MEM", "", lgd::Shape{1, 1}, 1, GDT_Int32);
        std::size_t const nr_operations = c.size(0, 12);
        // GDAL's block access does not look in the cache that is used by the rest. Do not mix these while there is
        // something to write
        bool block_access = false;
        for (std::size_t i = 0; i < nr_operations; ++i)
        {
            auto const operation = writable ? c.draw(9) : 4 + c.draw(5);
            bool const needs_blocks = operation == 1 || operation == 5;
            if (writable && operation != 6 && operation != 7 && needs_blocks != block_access)
            {
                dataset.reset();
                dataset = lgd::open_dataset(name, GA_Update);
                block_access = needs_blocks;
            }
            lgd::Raster raster{dataset};
            int const b = int(c.draw(std::uint64_t(m.nr_bands) - 1));
            auto band = raster.band(b + 1);
            auto const ptr = lgd::raster_band(*dataset, b + 1);
            auto const bs = band.block_shape();
            int const ny = (m.shape[0] + bs[0] - 1) / bs[0];
            int const nx = (m.shape[1] + bs[1] - 1) / bs[1];
            split |= ny * nx > 1;
            switch (operation)
            {
                case 0:
                {
                    c.notes("write band ", b + 1);
                    m.bands[b] = cells<T>(c, n);
                    auto copy = m.bands[b];
                    if (c.boolean())
                        band.write(copy.data());
                    else
                        band.write(m.shape, lgd::TypeTraits<T>::data_type, copy.data());
                    break;
                }
                case 1:
                {
                    lgd::Offset const block{int(c.draw(ny - 1)), int(c.draw(nx - 1))};
                    c.notes("write block (", block[0], ", ", block[1], ") of band ", b + 1);
                    auto v = cells<T>(c, std::size_t(bs[0]) * bs[1]);
                    band.write_block(block, v.data());
                    for (int r = 0; r < bs[0]; ++r)
                        for (int k = 0; k < bs[1]; ++k)
                        {
                            int const row = block[0] * bs[0] + r;
                            int const col = block[1] * bs[1] + k;
                            if (row < m.shape[0] && col < m.shape[1])
                                m.bands[b][std::size_t(row) * m.shape[1] + col] = v[std::size_t(r) * bs[1] + k];
                        }
                    break;
                }
                case 2:
                case 3:
                {
                    lgd::Offset o{int(c.draw(m.shape[0] - 1)), int(c.draw(m.shape[1] - 1))};
                    lgd::Shape const w{1 + int(c.draw(m.shape[0] - o[0] - 1)), 1 + int(c.draw(m.shape[1] - o[1] - 1))};
                    bool const free = c.boolean();
                    c.notes("write window ", w[0], "x", w[1], " at (", o[0], ", ", o[1], ") of band ", b + 1);
                    auto v = cells<T>(c, std::size_t(w[0]) * w[1]);
                    if (free)
                        lgd::write(*ptr, o, w, lgd::TypeTraits<T>::data_type, v.data());
                    else
                        band.write(o, w, lgd::TypeTraits<T>::data_type, v.data());
                    for (int r = 0; r < w[0]; ++r)
                        for (int k = 0; k < w[1]; ++k)
                            m.bands[b][std::size_t(o[0] + r) * m.shape[1] + o[1] + k] = v[std::size_t(r) * w[1] + k];
                    break;
                }
                case 4:
                {
                    lgd::Offset const o{int(c.draw(m.shape[0] - 1)), int(c.draw(m.shape[1] - 1))};
                    lgd::Shape const w{1 + int(c.draw(m.shape[0] - o[0] - 1)), 1 + int(c.draw(m.shape[1] - o[1] - 1))};
                    c.notes("read window ", w[0], "x", w[1], " at (", o[0], ", ", o[1], ") of band ", b + 1);
                    check_window(c, m, ptr, b, o, w);
                    break;
                }
                case 5:
                {
                    c.notes("read a block of band ", b + 1);
                    check_block(c, m, band, b, {int(c.draw(ny - 1)), int(c.draw(nx - 1))});
                    break;
                }
                case 6:
                {
                    c.notes("refer to what is not there");
                    Grid<T> buffer(n + std::size_t(bs[0]) * bs[1]);
                    bool const row = c.boolean();
                    int const by = row ? (c.boolean() ? ny : -1) : 0;
                    int const bx = row ? 0 : (c.boolean() ? nx : -1);
                    c.refused([&] { band.read_block({by, bx}, buffer.data()); }, "reading a block outside of the raster");
                    c.refused([&] { raster.band(m.nr_bands + 1 + int(c.draw(3))); }, "obtaining a missing band");
                    c.refused([&] { raster.band(-int(c.draw(2))); }, "obtaining a band before the first one");
                    lgd::Shape const big{m.shape[0] + (row ? 1 : 0), m.shape[1] + (row ? 0 : 1)};
                    c.refused(
                        [&] { lgd::read(*ptr, big, lgd::TypeTraits<T>::data_type, buffer.data()); },
                        "reading a window that is too large");
                    if (writable)
                    {
                        c.refused(
                            [&] { band.write_block({by, bx}, buffer.data()); }, "writing a block outside of the raster");
                        c.refused(
                            [&] { band.write(big, lgd::TypeTraits<T>::data_type, buffer.data()); },
                            "writing a window that is too large");
                        c.refused(
                            [&] {
                                band.write(
                                    {row ? m.shape[0] : 0, row ? 0 : m.shape[1]}, {1, 1}, lgd::TypeTraits<T>::data_type,
                                    buffer.data());
                            },
                            "writing a window outside of the raster");
                    }
                    break;
                }
                case 7:
                {
                    // Close and open
                    raster = lgd::Raster{placeholder};
                    dataset.reset();
                    writable = c.boolean();
                    c.notes("open for ", writable ? "update" : "reading");
                    dataset = lgd::open_dataset(name, writable ? GA_Update : GA_ReadOnly);
                    c.equal(lgd::data_type(name), lgd::TypeTraits<T>::data_type, "data type by name");
                    block_access = writable && c.boolean();
                    check_all(c, m, dataset, !writable || !block_access, !writable || block_access);
                    c.label("reopened");
                    break;
                }
                case 8:
                {
                    c.notes("check all");
                    check_all(c, m, dataset, true, !writable);
                    break;
                }
                default:
                {
                    // The copy keeps everything
                    std::string const copy = c.path("copy" + std::to_string(i) + ".tif");
                    c.notes("copy");
                    lgd::create_copy(copy, *dataset);
                    auto copied = lgd::open_dataset(copy, GA_ReadOnly);
                    check_all(c, m, copied, true, true);
                    copied.reset();
                    c.label("copied");
                    if (c.boolean())
                    {
                        lgd::delete_dataset(*lgd::driver("GTiff"), copy);
                        c.check(!std::filesystem::exists(copy), "a deleted raster still exists");
                        c.refused([&] { lgd::delete_dataset(*lgd::driver("GTiff"), copy); }, "deleting a missing raster");
                    }
                    break;
                }
            }
            c.check(lgd::shape(*dataset) == m.shape, "shape changed");
        }
        dataset.reset();
        dataset = lgd::open_dataset(name, GA_ReadOnly);
        check_all(c, m, dataset, true, true);
        if (split && nr_operations > 0) c.nontrivial();
    }


    //! Only rasters with square cells, of which north is up, are supported
    void orientation(Case& c)
    {
        std::string const name = c.path("raster.tif");
        auto gt = geo_transform(c);
        auto const expected = gt;
        bool supported = false;
        bool written = true;
        switch (c.draw(5))
        {
            case 0: supported = true; break;
            case 1: gt[1] *= c.pick({2.0, 0.5, 1.0 + 1.0 / 1024}); break;
            case 2: gt[5] *= c.pick({2.0, 0.5, 1.0 + 1.0 / 1024}); break;
            case 3: gt[5] = -gt[5]; break;
            case 4: gt[c.boolean() ? 2 : 4] = c.pick({1.0, -0.5, 1.0 / 1024}); break;
            default: written = false;
        }
        {
            auto* dataset = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(
                name.c_str(), 1 + int(c.draw(3)), 1 + int(c.draw(3)), 1, GDT_Int32, nullptr);
            if (written) dataset->SetGeoTransform(gt.data());
            GDALClose(dataset);
        }
        c.notes("geo-transform ", gt[0], " ", gt[1], " ", gt[2], " ", gt[3], " ", gt[4], " ", gt[5], written ? "" : " not written");
        auto dataset = lgd::open_dataset(name, GA_ReadOnly);
        if (supported)
        {
            c.check(lgd::geo_transform(*dataset) == expected, "geo-transform");
            c.check(lgd::Raster{dataset}.geo_transform() == expected, "geo-transform of the raster");
        }
        else
        {
            c.refused([&] { lgd::geo_transform(*dataset); }, "geo-transform of a raster that is not supported");
            c.refused([&] { lgd::Raster{dataset}.geo_transform(); }, "geo-transform of a raster that is not supported");
        }
        c.label("orientation");
    }


    void g01(Case& c)
    {
        auto const type = c.draw(nr_types - 1);
        if (c.chance(5)) return orientation(c);
        if (c.chance(5))
        {
            // Names of drivers
            static std::vector<std::pair<std::string, std::string>> const names{{"a.tif", "GTiff"}, {"b.c.tif", "GTiff"},
                {"x.map", "PCRaster"}, {"x.CSF", "PCRaster"}, {"x.img", "HFA"}, {"x.nc", "netCDF"}, {"tif", "Unknown"},
                {"x.lue", "Unknown"}, {"x.tif.gz", "Unknown"}, {"", "Unknown"}};
            auto const& [name, driver] = c.pick(names);
            c.equal(lgd::driver_name(name), driver, "driver of " + name);
            c.refused([&] { lgd::driver("Unknown"); }, "obtaining an unknown driver");
            c.refused([&] { lgd::create_dataset("nonsense", c.path("x"), lgd::Shape{2, 2}, 1, GDT_Int32); },
                "creating a raster in an unknown format");
            return;
        }
        with_type(type, [&]<typename T>() { rasters<T>(c, type); });
    }


    // ------------------------------------------------------------------ G02
    void tile(Case& c, lgd::Shape const& rs, lgd::Shape const& bs)
    {
        lgd::Blocks const blocks{rs, bs};
        std::string const what = str(rs[0]) + "x" + str(rs[1]) + " by " + str(bs[0]) + "x" + str(bs[1]) + ": ";
        c.check(blocks.raster_shape() == rs, what + "raster shape");
        c.check(blocks.block_shape() == bs, what + "block shape");
        auto const nb = blocks.shape_in_blocks();
        for (int d: {0, 1})
        {
            c.check(nb[d] >= 1, what + "no blocks");
            c.check(std::int64_t(nb[d]) * bs[d] >= rs[d], what + "too few blocks");
            c.check(std::int64_t(nb[d] - 1) * bs[d] < rs[d], what + "too many blocks");
        }
        // Along each dimension, blocks are consecutive
        std::int64_t total = 0;
        auto check = [&](lgd::Offset const& o)
        {
            auto const v = blocks.shape_in_valid_cells(o);
            for (int d: {0, 1})
            {
                auto const expected =
                    o[d] < nb[d] - 1 ? std::int64_t(bs[d]) : rs[d] - std::int64_t(nb[d] - 1) * bs[d];
                c.equal(
                    std::int64_t(v[d]), expected,
                    what + "valid extent " + str(d) + " of block (" + str(o[0]) + ", " + str(o[1]) + ")");
            }
            return std::int64_t(v[0]) * v[1];
        };
        if (std::int64_t(nb[0]) * nb[1] <= 400)
        {
            for (int y = 0; y < nb[0]; ++y)
                for (int x = 0; x < nb[1]; ++x) total += check({y, x});
            c.equal(total, std::int64_t(rs[0]) * rs[1], what + "number of valid cells");
        }
        else
        {
            for (int y: {0, nb[0] / 2, nb[0] - 1})
                for (int x: {0, nb[1] / 2, nb[1] - 1}) check({y, x});
        }
    }


    void g02(Case& c)
    {
        switch (c.draw(3))
        {
            case 0:
            {
                // All block shapes of a small raster
                lgd::Shape const rs{1 + int(c.draw(11)), 1 + int(c.draw(11))};
                c.notes("all blocks of ", rs[0], "x", rs[1]);
                for (int y = 1; y <= rs[0]; ++y)
                    for (int x = 1; x <= rs[1]; ++x) tile(c, rs, {y, x});
                c.label("all blocks of a small raster");
                c.nontrivial();
                break;
            }
            default:
            {
                lgd::Shape rs;
                lgd::Shape bs;
                for (int d: {0, 1})
                {
                    rs[d] = 1 + int(c.chance(50) ? c.draw(300) : c.draw(400000));
                    switch (c.draw(3))
                    {
                        case 0: bs[d] = 1 + int(c.draw(rs[d] - 1)); break;
                        case 1: bs[d] = std::max<int>(1, int((rs[d] + int(c.draw(1))) / (1 + int(c.draw(9))))); break;
                        case 2: bs[d] = rs[d]; break;
                        default: bs[d] = 1 << int(c.draw(10));
                    }
                    bs[d] = std::min(bs[d], rs[d]);
                }
                c.notes(rs[0], "x", rs[1], " by ", bs[0], "x", bs[1]);
                tile(c, rs, bs);
                c.label("random shapes");
                if (rs[0] % bs[0] || rs[1] % bs[1]) c.nontrivial();
            }
        }
    }


    // ------------------------------------------------------------------ G03
    template<typename T>
    void write_raster(
        std::string const& name, Setup const& s, lgd::Shape const& shape, std::vector<Grid<T>>& bands,
        lgd::GeoTransform const& gt, std::optional<T> const& no_data)
    {
        // Without using the code under test
        char** options = nullptr;
        for (auto const& [k, v]: s.options) options = CSLSetNameValue(options, k.c_str(), v.c_str());
        auto* driver = GetGDALDriverManager()->GetDriverByName(s.driver.c_str());
        GDALDataset* dataset = driver->Create(
            name.c_str(), shape[1], shape[0], int(bands.size()), lgd::TypeTraits<T>::data_type, options);
        CSLDestroy(options);
        auto copy = gt;
        dataset->SetGeoTransform(copy.data());
        for (std::size_t b = 0; b < bands.size(); ++b)
        {
            auto* band = dataset->GetRasterBand(int(b) + 1);
            if (no_data)
            {
                if constexpr (std::is_same_v<T, std::int64_t>)
                    band->SetNoDataValueAsInt64(*no_data);
                else if constexpr (std::is_same_v<T, std::uint64_t>)
                    band->SetNoDataValueAsUInt64(*no_data);
                else
                    band->SetNoDataValue(double(*no_data));
            }
        }
        for (std::size_t b = 0; b < bands.size(); ++b)
        {
            auto* band = dataset->GetRasterBand(int(b) + 1);
            if (band->RasterIO(
                    GF_Write, 0, 0, shape[1], shape[0], bands[b].data(), shape[1], shape[0],
                    lgd::TypeTraits<T>::data_type, 0, 0, nullptr) != CE_None)
            {
                throw pt::Failure("the harness cannot write a raster");
            }
        }
        GDALClose(dataset);
    }


    template<typename T>
    T other(Case& c, T value)
    {
        T r = c.boolean() ? static_cast<T>(value + 1) : c.value<T>();
        if (same_value(r, value) || (r != r)) r = value == T(3) ? T(4) : T(3);
        return r;
    }


    template<typename T>
    void compare(Case& c, std::size_t type)
    {
        lgd::Shape const shape{int(c.size(1, 70)), int(c.size(1, 70))};
        auto const s1 = setup_of(c, type, shape[0], shape[1]);
        auto const s2 = c.boolean() ? s1 : setup_of(c, type, shape[0], shape[1]);
        auto const n1 = c.path("one" + s1.extension);
        auto const n2 = c.path("two" + s2.extension);
        std::size_t const nr_bands = c.chance(6) ? 4 + c.draw(16) : 1 + c.draw(2);
        auto const gt = geo_transform(c);
        std::optional<T> no_data;
        if (c.boolean()) no_data = nan_or_value<T>(c);
        std::vector<Grid<T>> bands;
        std::size_t const n = std::size_t(shape[0]) * shape[1];
        for (std::size_t b = 0; b < nr_bands; ++b)
        {
            bands.push_back(cells<T>(c, n));
        }
        bool nan = false;
        if constexpr (std::is_floating_point_v<T>)
        {
            if (no_data && std::isnan(*no_data))
            {
                nan = true;
                for (std::size_t i = 0; i < 4; ++i)
                    bands[c.draw(nr_bands - 1)][c.draw(n - 1)] = std::numeric_limits<T>::quiet_NaN();
            }
        }
        c.notes(
            type_name<T>(), " ", nr_bands, " bands of ", shape[0], "x", shape[1], ", ", describe(s1), " and ",
            describe(s2));
        write_raster<T>(n1, s1, shape, bands, gt, no_data);

        auto shape2 = shape;
        auto bands2 = bands;
        auto gt2 = gt;
        auto no_data2 = no_data;
        bool missing = false;
        bool other_type = false;
        bool differ = true;
        switch (c.draw(11))
        {
            case 0:
            case 1:
            case 2: differ = false; break;
            case 3:
            {
                gt2[0] += 1.0;
                c.notes("other west");
                break;
            }
            case 4:
            {
                if (c.boolean())
                {
                    gt2[1] *= 2;
                    gt2[5] *= 2;
                }
                else
                    gt2[3] -= 0.5;
                c.notes("other cell size or north");
                break;
            }
            case 5:
            {
                if (no_data)
                    if (c.boolean())
                        no_data2.reset();
                    else if (nan)
                        no_data2 = T(5);
                    else
                        no_data2 = other<T>(c, *no_data);
                else
                    no_data2 = T(5);
                if constexpr (std::is_floating_point_v<T>)
                    if (!std::isfinite(*no_data2)) no_data2 = T(-99);
                c.notes("other no-data value");
                break;
            }
            case 6:
            {
                bands2.push_back(bands.back());
                c.notes("more bands");
                break;
            }
            case 7:
            {
                // As many cells, of another raster shape
                shape2[0] += 1;
                for (auto& b: bands2) b.resize(std::size_t(shape2[0]) * shape2[1]);
                c.notes("more rows");
                break;
            }
            case 8:
            {
                if (c.chance(30))
                {
                    missing = true;
                    c.notes("missing raster");
                }
                else
                {
                    other_type = true;
                    c.notes("other type");
                }
                break;
            }
            default:
            {
                // One cell, edges more often
                std::size_t const b = c.draw(nr_bands - 1);
                std::size_t const row = c.chance(30) ? shape[0] - 1 : c.draw(shape[0] - 1);
                std::size_t const col = c.chance(30) ? shape[1] - 1 : c.draw(shape[1] - 1);
                auto& cell = bands2[b][row * shape[1] + col];
                bool const was_nan = cell != cell;
                if (was_nan)
                    cell = T(6);
                else if (nan && c.chance(30))
                    cell = std::numeric_limits<T>::quiet_NaN();
                else
                    cell = other<T>(c, cell);
                c.notes("other value in cell (", row, ", ", col, ") of band ", b + 1);
                c.label("cell differs");
            }
        }
        if (other_type)
        {
            using U = std::conditional_t<std::is_same_v<T, std::int32_t>, float, std::int32_t>;
            std::vector<Grid<U>> b2;
            for (auto const& b: bands2) b2.emplace_back(b.size(), U(1));
            write_raster<U>(n2, Setup{"GTiff", ".tif", {}}, shape2, b2, gt2, {});
        }
        else if (!missing)
        {
            write_raster<T>(n2, s2, shape2, bands2, gt2, no_data2);
        }
        c.label(differ ? "different" : "equal");
        auto const before1 = file_bytes(n1);
        bool const swap = c.boolean();
        auto const differences = lgd::compare_rasters(swap ? n2 : n1, swap ? n1 : n2);
        c.check(file_bytes(n1) == before1, "comparing changes a raster");
        if (differ)
        {
            c.check(!differences.empty(), "different rasters compare equal");
        }
        else
        {
            c.check(differences.empty(), "equal rasters differ: " + (differences.empty() ? "" : differences[0]));
        }
        c.nontrivial();
    }


    void g03(Case& c)
    {
        auto const type = c.draw(nr_types - 1);
        with_type(type, [&]<typename T>() { compare<T>(c, type); });
    }


    void start()
    {
        quiet();
        CPLSetErrorHandler(CPLQuietErrorHandler);
        CPLSetConfigOption("GDAL_PAM_ENABLED", "YES");
        CPLSetConfigOption("GDAL_NUM_THREADS", "1");
        lgd::register_gdal_drivers();
    }

}  // namespace


int main(int argc, char** argv)
{
    std::vector<pt::Property> const properties{
        {"G01",
            "a case is a GeoTIFF or Erdas Imagine raster of 1-3 bands of up to 70x70 cells (sometimes up to 324 tiny ones) of any type, to which bands, "
            "blocks and windows are written and read, with reopening and copying; non-trivial if bands have multiple blocks",
            g01, 20000, 300000, start},
        {"G02",
            "a case is a raster shape with all block shapes (up to 12x12), or one with a single block shape (up to 400000); "
            "non-trivial if the blocks do not fit the raster",
            g02, 100000, 4000000, start},
        {"G03",
            "a case is a pair of rasters that are the same or differ in exactly one thing, of the same or of different "
            "formats and blocks; all are non-trivial",
            g03, 50000, 600000, start},
    };
    return pt::main(argc, argv, properties);
}
