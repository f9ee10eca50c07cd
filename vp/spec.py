#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json.

    python3 vp/spec.py     rewrites both files
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

DM = "source/data_model/"
CXX = DM + "cxx/source/"
H5 = DM + "hdf5/source/"
PY = DM + "python/source/"
QA = "source/quality_assurance/"
FW = "source/framework/"

PROPERTIES = []
TECH = {}


def prop(id, title, statement, over, qtext, tests, files, mech, technique=None, note=None, observe=None,
         not_applicable=None):
    PROPERTIES.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=tests,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                **(dict(observe_at=observe) if observe else {}),
            ),
        )
    )
    TECH[id] = dict(technique=technique, note=note, not_applicable=not_applicable)


# ------------------------------------------------------------------ value arrays
prop(
    "A01",
    "Same-shape object arrays read back the last value written",
    "When all objects have an array of the same shape (constant through time, or one such array per location "
    "in time), every element read, by whole array, by object index or by index range, equals the last value "
    "written there, or the no-data value if one was given and nothing was written, whatever the numeric element type. "
    "Growing the array never changes or moves values already stored, and the reported number of arrays, array shape and rank follow the calls made. "
    "This also holds after the dataset is closed and opened again.",
    ["inputs", "histories"],
    "all element types, ranks, shapes, object counts, and interleavings of grow, write, read, flush and reopen",
    "The unit tests write one or two fixed arrays once and read them back in the same session; they do not "
    "cover histories of growth, partial writes and reopening, nor most types and ranks.",
    [CXX + "array/same_shape/value.cpp", CXX + "array/same_shape/constant_shape/value.cpp", CXX + "core/array.cpp",
     H5 + "dataset.cpp", H5 + "hyperslab.cpp"],
    [("array reads and writes select a hyperslab of one chunked dataset", CXX + "core/array.cpp"),
     ("growing extends dimension 0 only", CXX + "array/same_shape/value.cpp")],
    "stateful model-based property testing (in-memory reference model, shrinking)",
    "Random histories over all numeric types, rank 0-4; model compare after every step. Trusts HDF5 and the file system.",
)
prop(
    "A02",
    "Per-time-location arrays keep their own size, shape and contents",
    "For object arrays whose shape or number varies per location in time, each location's arrays keep exactly the object count, shapes and "
    "values given for it, independently of what is done at other locations in time and of the order in which "
    "locations are added, written and read. The collection reports the number of locations in time, the "
    "element type and the rank it was created with, and this also holds after closing and reopening.",
    ["inputs", "histories"],
    "all sequences of expand/write/read at arbitrary locations in time, all element types, ranks and shapes",
    "Tests expand a fixed handful of locations in ascending order with one shape pattern.",
    [CXX + "array/value_group.cpp", CXX + "array/same_shape/variable_shape/value.cpp",
     CXX + "array/different_shape/variable_shape/value.cpp"],
    [("one child array or group per location in time, named by index", CXX + "array/value_group.cpp")],
    "stateful model-based property testing (in-memory reference model, shrinking)",
    "Random histories; trusts HDF5.",
)
prop(
    "A03",
    "Different-shape object arrays are kept per object",
    "When each object has an array of its own shape (constant, or per location in time), the "
    "array found for an object ID is the one created for that ID: its shape, element type, no-data fill and values are those last given "
    "for that object, and no write for one object changes another's. The number of objects "
    "counts exactly the objects added, however they were added (one at a time or in bulk), and all of this survives closing and reopening.",
    ["inputs", "histories"],
    "all object ID sets (including zero and the largest), ranks, per-object shapes, element types, and interleavings of adding, "
    "writing, reading and reopening",
    "Tests use a few consecutive small IDs and a single rank, created once in one call.",
    [CXX + "array/different_shape/value.cpp", CXX + "array/different_shape/constant_shape/value.cpp"],
    [("one child array per object, named by object ID; object count kept as attribute",
      CXX + "array/different_shape/value.cpp")],
    "stateful model-based property testing (in-memory reference model, shrinking)",
    "Random histories; trusts HDF5.",
)

# ------------------------------------------------------------------ datasets
prop(
    "D01",
    "A dataset is found exactly as built when opened again",
    "Any tree of universes, phenomena, collection property sets, property sets and properties (all kinds), with "
    "their descriptions, domain configurations, clocks, epochs, coordinate reference systems, discretization links, "
    "object tracking, coordinates and values, is found "
    "unchanged, with nothing added or lost, after the dataset is closed and opened again.",
    ["inputs", "histories"],
    "all finite construction sequences over the public construction operations of the data model",
    "Tests construct one small fixed tree per class and mostly inspect it in the same session.",
    [CXX + "object/dataset.cpp", CXX + "object/phenomenon.cpp", CXX + "object/universe.cpp",
     CXX + "object/property/property_set.cpp", CXX + "object/property/properties.cpp", CXX + "object/time_domain.cpp",
     CXX + "object/space_domain.cpp", CXX + "info/property/property_group.cpp", CXX + "core/clock.cpp",
     CXX + "core/time/epoch.cpp", DM + "cxx/include/lue/core/configuration.hpp"],
    [("each object is a group with attributes and soft links", CXX + "object/property/property_set.cpp"),
     ("configuration aspects are stored as string attributes", DM + "cxx/include/lue/core/aspect.hpp")],
    "generated construction sequences against an in-memory tree model, compared after reopen",
    "Random trees built through the C++ API, read back through freshly opened handles and compared with the model.",
)
prop(
    "D02",
    "Names are unique and failed operations leave the dataset unchanged",
    "Within a collection a name identifies one item: adding an item under a name in use is refused with an error, also "
    "across the different kinds of properties in one property set, and looking up a missing name or opening a missing dataset is refused. "
    "A refused operation leaves everything in the dataset as it was and later operations keep working, "
    "and membership tests, sizes and name listings agree with the items present.",
    ["inputs", "histories"],
    "all interleavings of valid and refused adds and lookups over all collection kinds and names",
    "Tests try one duplicate name on one kind of collection and do not compare the dataset before and after.",
    [DM + "cxx/include/lue/core/collection.hpp", CXX + "object/property/property_set.cpp",
     CXX + "object/property_sets.cpp", CXX + "object/universes.cpp", CXX + "object/phenomena.cpp", H5 + "group.cpp",
     CXX + "object/dataset.cpp"],
    [("collections check for presence before creating a group", DM + "cxx/include/lue/core/collection.hpp"),
     ("property names are checked across all kinds", CXX + "object/property/property_set.cpp")],
    "generated histories of valid and refused operations; independent HDF5 dump compared before/after",
    "Oracle: set model plus a raw dump of the file made without LUE code.",
)
prop(
    "D03",
    "Property sets that share tracking or domains see one and the same thing",
    "A property set created from an existing object tracker or time domain refers to that very information: additions made through "
    "any of the sharing property sets are visible through all others, also after reopening. Property sets created "
    "without sharing are independent of each other.",
    ["inputs", "histories"],
    "all sharing graphs over property sets and all orders of writing through the sharing handles",
    "Tests create a single sharing pair and do not write through both sides, nor reopen.",
    [CXX + "object/property/property_set.cpp", CXX + "object/property_sets.cpp", CXX + "object/time_domain.cpp",
     CXX + "object/identity/object_tracker.cpp", H5 + "soft_link.cpp"],
    [("soft links to the owning group", CXX + "object/property/property_set.cpp")],
    "stateful model-based property testing over sharing graphs",
    "Random sharing graphs, writes through random aliases, reads through all aliases before and after reopen.",
)
prop(
    "D04",
    "Reading, validating and refused writes never change a dataset",
    "Opening a dataset for reading, navigating all of it, reading any values and validating it leaves the file byte-for-byte "
    "unchanged, and every attempt to modify a dataset opened for reading is refused with an error. "
    "Opening a dataset for writing and closing it does not change its contents.",
    ["inputs", "histories"],
    "all generated datasets and all sequences of read, navigate, validate and attempted-write operations on them",
    "Tests open files read-only only to check the open succeeds.",
    [CXX + "object/dataset.cpp", CXX + "validate.cpp", H5 + "file.cpp", CXX + "core/array.cpp"],
    [("the access flags are passed to the file open", H5 + "file.cpp")],
    "generated datasets and operation sequences; file hash invariant",
    "File bytes are compared before and after; attempted writes must raise.",
)
prop(
    "D05",
    "Objects can be copied, moved and dropped in any order without leaking",
    "Handles to files, groups, datasets, attributes and links may be copied, moved, assigned and dropped in any order: an open handle stays usable as "
    "long as one copy exists, equality reflects identity of the underlying object, and after the last handle is gone nothing remains open, so the "
    "file can be opened in another mode, truncated or removed.",
    ["histories"],
    "all sequences of copy, move, assign, self-assign, use and drop over the handle types",
    "Tests copy and move one handle each.",
    [H5 + "identifier.cpp", H5 + "file.cpp", H5 + "group.cpp", H5 + "dataset.cpp",
     DM + "hdf5/include/lue/hdf5/identifier.hpp"],
    [("reference counting of library identifiers", H5 + "identifier.cpp")],
    "stateful model-based property testing with reference-count oracle from the HDF5 library",
    "The number of open objects and reference counts are asked from the HDF5 library itself.",
)
prop(
    "D06",
    "What was flushed survives a crash",
    "After a dataset is flushed, everything written before the flush is readable from the file even if the process is then killed without closing "
    "the dataset; a dataset that was closed normally is complete on disk.",
    ["crash_points", "histories"],
    "all write histories and all kill points right after a flush or close",
    "No test kills a process.",
    [H5 + "file.cpp", H5 + "group.cpp", CXX + "object/dataset.cpp", H5 + "dataset.cpp"],
    [("flush is delegated to the library for the whole file", H5 + "file.cpp")],
    "generated histories with injected process kill after flush; model compare on reopen",
    "The child process is ended with SIGKILL directly after the flush; only process crashes are modelled, not power loss.",
)

# ------------------------------------------------------------------ info
prop(
    "I01",
    "Object identity and activity records read back as written",
    "Object IDs, and per location in time the sets of active object IDs, set indices and value indices, read back in order exactly as "
    "written, whole or per range, for any number of objects and sets and across successive expansions and reopening.",
    ["inputs", "histories"],
    "all IDs over the full unsigned 64-bit range, all set sizes including empty sets, all expansion schedules",
    "Tests write one or two fixed vectors.",
    [CXX + "object/identity/object_tracker.cpp", CXX + "info/identity/object_id.cpp",
     CXX + "info/identity/active_object_id.cpp", CXX + "info/identity/active_set_index.cpp",
     CXX + "info/identity/active_object_index.cpp"],
    [("arrays of unsigned 64-bit values grown by appending", CXX + "array/same_shape/value.cpp")],
    "stateful model-based property testing",
    "Random histories against a vector model.",
)
prop(
    "I02",
    "Locations in time and space read back as written",
    "Time points, time boxes, time cells with their counts, and stationary and mobile space points and boxes of any rank and "
    "coordinate type read back exactly as written, per index and as a whole, with the configuration (item type, mobility, clock) they "
    "were created with, across expansions and reopening.",
    ["inputs", "histories"],
    "all coordinate types, space ranks, counts, expansion schedules and domain configurations",
    "Tests use one rank, one coordinate type and one expansion.",
    [CXX + "info/time/location_in_time.cpp", CXX + "info/time/time_cell.cpp", CXX + "info/time/time_box.cpp",
     CXX + "info/space/stationary_space_point.cpp", CXX + "info/space/stationary_space_box.cpp",
     CXX + "info/space/mobile_space_point.cpp", CXX + "info/space/mobile_space_box.cpp",
     CXX + "object/time_domain.cpp", CXX + "object/space_domain.cpp"],
    [("box of rank r stored as 2r coordinates", CXX + "info/space/stationary_space_box.cpp")],
    "stateful model-based property testing",
    "Random histories against an array model.",
)

# ------------------------------------------------------------------ validation
prop(
    "V01",
    "Validation accepts every consistent dataset",
    "A dataset built through the public operations such that counts, indices, IDs and coordinates agree with each other is "
    "reported valid: no error is reported and asserting validity does not raise.",
    ["inputs", "programs"],
    "all consistent datasets over all property kinds, domain kinds and object tracking variants",
    "Tests validate a single tiny dataset.",
    [CXX + "validate.cpp", H5 + "validate.cpp"],
    [("recursive validation collecting issues", CXX + "validate.cpp")],
    "generated consistent datasets; validator must be silent",
    "The generator constructs consistency by design; it never asks the validator.",
)
prop(
    "V02",
    "Validation reports every inconsistency it documents",
    "A consistent dataset with one injected inconsistency - duplicate object IDs, a number of values that "
    "differs from the number of objects, active objects that are unknown or occur twice in a set, set indices that decrease or exceed the number of active "
    "objects, time coordinates that are not increasing, or coordinate counts that do not match - is reported "
    "invalid with at least one error; validation itself never crashes.",
    ["inputs", "fault_sequences"],
    "all consistent datasets and all single faults of the listed kinds at any place",
    "Tests contain only a handful of hand-made invalid cases.",
    [CXX + "validate.cpp", H5 + "issues.cpp"],
    [("count and order checks per object kind", CXX + "validate.cpp")],
    "single-fault injection into generated consistent datasets; validator must report an error",
    "Fault kinds are enumerated from the validator's documented checks; places are generated.",
)
prop(
    "V03",
    "Foreign and damaged files are refused or reported, never crash",
    "Opening or validating a file that is not a LUE dataset, or one whose groups, arrays, links or attributes are missing, or in which groups and arrays "
    "took each other's place, or whose end is missing, ends with an error or with reported issues when something required is missing; the process never "
    "crashes and the file is not changed. (Attributes and arrays of another type than LUE wrote are outside of this: reading assumes the type.)",
    ["inputs", "fault_sequences"],
    "all structural damage (removed, swapped or dangling members, removed attributes, truncation, foreign files) to generated datasets",
    "Tests open one missing file.",
    [CXX + "validate.cpp", CXX + "object/dataset.cpp", H5 + "file.cpp", H5 + "attribute.cpp", H5 + "group.cpp"],
    [("library return codes are turned into exceptions, which validation turns into issues", CXX + "validate.cpp")],
    "structural mutation fuzzing of generated datasets in a forked process",
    "Structural mutations keep the HDF5 container well formed, so that the library itself is not what is tested.",
)

# ------------------------------------------------------------------ hdf5
prop(
    "H01",
    "Attributes hold the last value written",
    "Reading an attribute returns exactly the last value written under that name - numbers of any type, vectors of any length "
    "and strings of any length and content - also when it was overwritten by a "
    "longer or shorter value, and after reopening the file. Attributes of the same object do not influence each other, and reading a missing one is refused.",
    ["inputs", "histories"],
    "all value types, lengths (including empty and overwriting with other lengths), names and write sequences",
    "Tests write each attribute once with one value.",
    [H5 + "attribute.cpp", H5 + "attributes.cpp", DM + "hdf5/include/lue/hdf5/attribute.hpp",
     DM + "hdf5/include/lue/hdf5/attributes.hpp"],
    [("create on first write, write to existing afterwards", DM + "hdf5/include/lue/hdf5/attributes.hpp")],
    "stateful model-based property testing",
    "Map model; strings without embedded NUL bytes.",
)
prop(
    "H02",
    "Element types and identifiers map both ways without loss",
    "Every supported element type maps from its in-memory type to its file type and back to "
    "the same type, with a unique printable name, and data written with a type are read back as the same values; types compare equal "
    "exactly if they are the same, and an encoded type decodes to an equal type.",
    ["inputs"],
    "all supported types and pairs of types, all values including extremes, infinities and NaN payloads",
    "Tests check a few types, not all pairs or value extremes.",
    [H5 + "datatype.cpp", DM + "hdf5/include/lue/hdf5/datatype_traits.hpp", CXX + "core/array.cpp"],
    [("type tables", H5 + "datatype.cpp")],
    "generated values round trip and exhaustive enumeration of type pairs",
    "All ordered pairs of supported types are enumerated; values are generated.",
)
prop(
    "H03",
    "Partial array access touches exactly the selected elements",
    "Writing or filling a selection of an array, given by offset, stride and count in any dimensionality, changes exactly the selected elements, "
    "and reading a selection returns exactly those, in row-major order, also after resizing and reopening; "
    "reported shapes and element counts agree with the selection.",
    ["inputs", "histories"],
    "all shapes, ranks, strided selections, chunk layouts and sequences of write, fill, read, resize and reopen",
    "Tests read and write unit-stride blocks of one small dataset.",
    [H5 + "dataset.cpp", H5 + "hyperslab.cpp", H5 + "dataspace.cpp", H5 + "shape.cpp",
     DM + "hdf5/include/lue/hdf5/dataset.hpp"],
    [("hyperslab selections", H5 + "dataspace.cpp")],
    "stateful model-based property testing against an n-dimensional array model",
    "Random histories over rank 0-4 arrays.",
)
prop(
    "H04",
    "Storage chunks are valid for every array shape",
    "For every object array shape and element size, the chosen storage chunk has the same "
    "rank, at least one element in each dimension, never exceeds the array's extent in its own dimensions and stays within the documented lower and upper "
    "sizes in bytes, so an array of any shape can be created and used.",
    ["inputs"],
    "all ranks up to the library maximum, all extents including very large and lopsided ones, all element sizes",
    "Tests try a few square shapes.",
    [H5 + "chunk.cpp", DM + "hdf5/include/lue/hdf5/chunk.hpp", CXX + "array/same_shape/value.cpp"],
    [("chunk extents are halved or multiplied towards a size band", H5 + "chunk.cpp")],
    "property testing with an explicit validity predicate",
    "Validity predicate only; many chunk shapes are acceptable.",
)
prop(
    "H05",
    "Groups, links and path names are consistent",
    "The name, parent and path of every group and dataset are those under which it was created, a soft or hard link leads to the object it was made for, and membership tests "
    "tell exactly which objects exist; a duplicate name or a missing object is refused with an error, without side effects.",
    ["inputs", "histories"],
    "all trees, name lengths (also longer than internal buffers) and sequences of create, link, open and lookup",
    "Tests use depth-one trees and short names.",
    [H5 + "group.cpp", H5 + "link.cpp", H5 + "soft_link.cpp", H5 + "hard_link.cpp", H5 + "identifier.cpp",
     H5 + "primary_data_object.cpp"],
    [("path names are asked from the library", H5 + "identifier.cpp")],
    "stateful model-based property testing against a tree model",
    "Random trees; object identity is compared by the library's object address.",
)
prop(
    "T01",
    "Clocks, tick periods, durations and time points form a consistent time scale",
    "Clocks are equal exactly when epoch, unit and tick length are the same, ordering of clocks is a strict total order "
    "consistent with equality, and a clock stored in a dataset equals the one it was stored from. Durations, time points and tick periods "
    "keep any count they are given, are equal exactly when their counts are, and the number of units since the epoch of a time point is its number of ticks "
    "times the length of a tick.",
    ["inputs"],
    "all tick counts, units, tick period counts, epochs and clocks",
    "Tests check single numbers.",
    [DM + "cxx/include/lue/core/time/duration.hpp", DM + "cxx/include/lue/core/time/time_point.hpp",
     DM + "cxx/include/lue/core/time/tick_period.hpp", DM + "cxx/include/lue/core/time/clock.hpp",
     DM + "cxx/include/lue/core/time/epoch.hpp", CXX + "core/clock.cpp", CXX + "core/time/epoch.cpp"],
    [("clocks are compared by their parts", CXX + "core/clock.cpp")],
    "algebraic-law property testing",
    "Laws of equality and order checked on pairs and triples of clocks made of few parts; counts over the full 64-bit range.",
)

# ------------------------------------------------------------------ gdal
prop(
    "G01",
    "Raster files read back what was written",
    "Values written to a raster through whole-band, window or block access are read back unchanged through the same access path and, after the raster is closed and opened "
    "again, through any of them, for every supported element type, and so are raster shape, number of bands, element type, no-data value and geo-transform; blocks or bands outside the raster and missing files are refused with an error.",
    ["inputs", "histories"],
    "all element types, raster and block shapes, band counts and sequences of whole and block writes",
    "Tests write one constant raster of one type.",
    [DM + "gdal/source/raster.cpp", DM + "gdal/source/raster_band.cpp", DM + "gdal/source/dataset.cpp",
     DM + "gdal/source/driver.cpp", DM + "gdal/source/data_type.cpp", DM + "gdal/include/lue/gdal/raster_band.hpp"],
    [("64-bit no-data values use the type-specific library calls", DM + "gdal/include/lue/gdal/raster_band.hpp")],
    "stateful model-based property testing",
    "GeoTIFF driver and in-memory driver; trusts GDAL.",
)
prop(
    "G02",
    "Raster blocks tile the raster exactly",
    "For every raster shape and block shape, the valid cells of all blocks cover every raster cell exactly once: the numbers of blocks "
    "are just enough, and only blocks at the far edges are partial.",
    ["inputs"],
    "all raster shapes and block shapes not larger than the raster",
    "Tests check three fixed shapes.",
    [DM + "gdal/source/blocks.cpp", DM + "gdal/include/lue/gdal/blocks.hpp"],
    [("ceiling division and remainder at the edges", DM + "gdal/source/blocks.cpp")],
    "property testing, exhaustive for small shapes",
    "Exhaustive up to a small bound, random above.",
)
prop(
    "G03",
    "Comparing two rasters succeeds exactly if they are the same",
    "Two rasters compare equal if their shape, geo-transform, bands, element types, no-data values and all cell values are equal, whatever the layout of their blocks, and unequal if any "
    "single one of them - a cell anywhere in any band included - differs; where the no-data value is not a number, cells that are not a number compare equal to each other.",
    ["inputs"],
    "all raster shapes, block layouts, element types and places of a single difference",
    "Tests compare one small raster with itself.",
    [DM + "gdal/source/compare_rasters.cpp"],
    [("block-wise comparison of valid cells", DM + "gdal/source/compare_rasters.cpp")],
    "differential property testing with single-difference mutation",
    "Pairs equal by construction and pairs with exactly one difference.",
)

# ------------------------------------------------------------------ hl
prop(
    "R01",
    "Raster views store and return stacks of layers",
    "A raster view created with a grid shape, space box, and for temporal rasters a clock and time boxes, reports exactly those, holds the layers added to it, "
    "and each layer's cell values (per time step, if temporal) are those last written, also when opened again; "
    "a dataset made this way is valid, and a duplicate or missing layer is refused with an error.",
    ["inputs", "histories"],
    "all grid shapes, time step counts, layer names and types, write orders, in new or existing datasets",
    "Tests create one raster with one layer.",
    [DM + "hl/source/raster_view.cpp", DM + "hl/source/dataset_view.cpp"],
    [("raster stored as one object with a discretized different-shape property", DM + "hl/source/raster_view.cpp")],
    "stateful model-based property testing",
    "Constant and temporal rasters, several per dataset.",
)
prop(
    "R02",
    "Raster probing and array path names identify layers correctly",
    "Probing a layer returns the object's ID, grid shape and element type with which it was created; testing "
    "whether a property set contains a raster answers true exactly if it does. An array path name splits into "
    "the dataset, phenomenon, property set and property parts that were joined to make it, and any other path name is refused.",
    ["inputs"],
    "all stored rasters, property sets that are not rasters, and all path names with any number of parts",
    "Tests use a single path name per form.",
    [DM + "hl/source/util.cpp", DM + "hl/source/raster_view.cpp"],
    [("path tokens are split on slashes", DM + "hl/source/util.cpp")],
    "round-trip and predicate property testing",
    "Paths generated from parts and from arbitrary token lists.",
)

# ------------------------------------------------------------------ python
prop(
    "P01",
    "Python array reads follow NumPy indexing",
    "Indexing a stored array from Python with any mix of integers, slices (with steps, open ends, negative or out-of-range "
    "bounds), and tuples of these gives the same result as indexing an equal NumPy array, for every supported element type; "
    "what is not supported raises an error instead of returning something else.",
    ["inputs"],
    "all array shapes, element types and basic index expressions",
    "Tests use a handful of index expressions on one array.",
    [PY + "core/array.cpp"],
    [("index expressions are normalised into hyperslabs", PY + "core/array.cpp")],
    "differential property testing against NumPy",
    "Oracle is NumPy on an equal in-memory array; raising is accepted only for unsupported forms, by a stated rule.",
)
prop(
    "P02",
    "Python array writes follow NumPy assignment or change nothing",
    "Assigning a scalar or an array of matching size to any supported index expression of a stored array changes it as the "
    "same assignment changes an equal NumPy array; an assignment that is refused raises an error and leaves all values unchanged.",
    ["inputs", "histories"],
    "all array shapes, element types, index expressions and assigned values, and sequences of these",
    "Tests assign whole arrays and single slices once.",
    [PY + "core/array.cpp", DM + "hdf5/include/lue/hdf5/dataset.hpp", H5 + "hyperslab.cpp"],
    [("assignments become hyperslab writes or fills", PY + "core/array.cpp")],
    "stateful differential property testing against NumPy",
    "Histories of assignments; whole array compared after each.",
)
prop(
    "P03",
    "Python string arrays keep every string",
    "An array of strings written from Python, in full or in part, is read back with every string equal to the one written at that place, for any "
    "Unicode text and any mix of lengths, also after reopening.",
    ["inputs", "histories"],
    "all Unicode strings (any script, empty strings, mixed lengths) at all positions and slices",
    "Tests write short ASCII strings of equal content.",
    [PY + "core/array.cpp", H5 + "vlen_memory.cpp", H5 + "datatype.cpp"],
    [("conversion between fixed-width UTF-32 and variable-length UTF-8", PY + "core/array.cpp")],
    "round-trip property testing",
    "Oracle is a NumPy string array; strings without embedded NUL characters.",
)
prop(
    "P04",
    "Datasets built from Python are complete, navigable and valid",
    "A dataset built from Python through any combination of the documented construction calls shows, by attribute access, names, iteration and indexing, exactly the items "
    "and values added, also after reopening in either mode; a missing item raises an error, and the dataset is "
    "valid when its contents are consistent.",
    ["inputs", "histories", "programs"],
    "all construction call sequences of the Python API, all element types and value kinds",
    "Tests build single items and mostly do not reopen.",
    [PY + "object/property_set.cpp", PY + "object/phenomenon.cpp", PY + "dataset.cpp", PY + "object/universe.cpp",
     PY + "conversion.cpp", PY + "object/time_domain.cpp", PY + "object/space_domain.cpp", PY + "core/collection.hpp",
     PY + "validate.cpp"],
    [("overloads select the property kind from the arguments", PY + "object/property_set.cpp")],
    "model-based property testing of generated Python construction programs",
    "Random programs against a Python tree model.",
)

# ------------------------------------------------------------------ quality assurance
prop(
    "Q01",
    "Scalability experiments use exactly the workers and hardware configured",
    "A worker pool's sizes start at its minimum, follow its progression (step or factor), never exceed its maximum, reach the "
    "largest value of the progression within it, and number of steps and size per step agree; the amounts of NUMA nodes, cores, "
    "threads and memory of a cluster are the product of what is configured; a benchmark reports the ranges of cluster nodes, NUMA "
    "nodes and threads its workers span, and the localities to use and to reserve. Configurations survive a round trip through "
    "their JSON settings, and pools that make no sense, or that need more workers than the hardware has, are refused.",
    ["inputs", "configurations"],
    "all pool, cluster and benchmark configurations",
    "Tests check a few pools.",
    [QA + "scalability/command/scalability/experiment/pool.py",
     QA + "scalability/command/scalability/experiment/worker.py",
     QA + "scalability/command/scalability/experiment/cluster.py",
     QA + "scalability/command/scalability/experiment/benchmark.py"],
    [("progressions by increment or multiplication", QA + "scalability/command/scalability/experiment/pool.py"),
     ("localities to reserve", QA + "scalability/command/scalability/experiment/cluster.py")],
    "property testing against a naive enumeration",
    "Oracle: naive enumeration of the progression, products of the configured amounts.",
)
prop(
    "Q02",
    "Experiment array and partition shapes respect their ranges",
    "Ranges of shapes start at the configured shape, grow linearly or exponentially by the configured multiplier, are ordered from "
    "small to large, and contain all shapes whose size is within the maximum; shapes for weak scalability are the shape per worker, "
    "scaled by the number of workers to within 0.1 percent; array shapes determined from an amount of memory are the largest that "
    "fit, also by the lue_array_shape command; partition shapes and their multipliers divide the array shape. Configurations "
    "survive a round trip through their JSON settings, and arguments that make no sense are refused.",
    ["inputs", "configurations"],
    "all shape and range configurations",
    "Tests check a few fixed configurations.",
    [QA + "scalability/command/scalability/experiment/shape.py",
     QA + "scalability/command/scalability/experiment/weak_scalability/generate_script.py",
     QA + "scalability/command/scalability/cli/array_shape.py"],
    [("linear and exponential ranges of shapes", QA + "scalability/command/scalability/experiment/shape.py")],
    "property testing with validity predicates",
    "Validity predicates and exact recomputation with integers.",
)
prop(
    "Q03",
    "Recorded experiments contain every run with consistent times",
    "Results saved from an experiment are valid JSON that contain exactly the runs added, in order, with the configured "
    "worker count and shapes; start and stop times are those of the clock, in the local time zone, durations are the time between "
    "start and stop in the unit of the file, and results that can not be written are reported as an error.",
    ["inputs", "histories", "faults"],
    "all experiment configurations and run sequences",
    "Tests record one or two runs.",
    [QA + "cxx/source/scalability/io.cpp", QA + "cxx/source/scalability/experiment.cpp",
     QA + "cxx/source/scalability/array_experiment.cpp", QA + "cxx/source/scalability/stopwatch.cpp",
     QA + "cxx/source/scalability/run.cpp", QA + "cxx/source/scalability/time_interval.cpp"],
    [("JSON export", QA + "cxx/source/scalability/io.cpp")],
    "stateful property testing with controlled clocks and injected write failures",
    "Clocks are replaced by generated ones; the JSON is parsed with an independent parser.",
)
prop(
    "Q04",
    "Scalability experiments are run, imported and summarised faithfully",
    "The script generated for a strong, weak or partition shape experiment runs the program once per configured number of workers "
    "or combination of shapes, with the matching numbers of threads, localities and workers, count, array and partition shape and "
    "result pathname, in jobs that request the hardware needed; earlier results are kept. Importing the results stores all settings "
    "and durations next to the workers or shapes they belong to, whatever the order in which the runs took place, and derives "
    "speed-up, efficiency, means and deviations from them; the datasets are valid, importing again changes nothing, and exported "
    "durations and the summary agree with the results.",
    ["inputs", "configurations", "histories"],
    "all experiment configurations, results and orders of the runs",
    "No test performs an experiment.",
    [QA + "scalability/command/scalability/experiment/job.py",
     QA + "scalability/command/scalability/experiment/dataset.py",
     QA + "scalability/command/scalability/experiment/strong_scalability/generate_script.py",
     QA + "scalability/command/scalability/experiment/strong_scalability/import_results.py",
     QA + "scalability/command/scalability/experiment/weak_scalability/generate_script.py",
     QA + "scalability/command/scalability/experiment/weak_scalability/import_results.py",
     QA + "scalability/command/scalability/experiment/partition_shape/generate_script.py",
     QA + "scalability/command/scalability/experiment/partition_shape/import_results.py",
     QA + "scalability/command/scalability/query/export.py",
     QA + "scalability/command/scalability/query/summarize.py",
     "source/data_model/translate/source/format/json.cpp"],
    [("the scripts with the runs", QA + "scalability/command/scalability/experiment/job.py"),
     ("derived results", QA + "scalability/command/scalability/experiment/strong_scalability/import_results.py")],
    "end-to-end property testing of generated experiments, with stand-ins for scheduler and program",
    "Calls recorded by the stand-ins, and independent recomputation of what is derived from generated results.",
)

# ------------------------------------------------------------------ command-line utilities
TR = DM + "translate/source/"
prop(
    "X01",
    "Importing JSON stores exactly what the description says",
    "After lue_translate import of a JSON description, the dataset contains exactly the universes, phenomena, property sets, domains "
    "and properties described, with their object IDs, active sets, clock, time points, space boxes (also those of rasters), shapes, "
    "datatypes and values (inline, per object, or from rasters, whose names can contain environment variables). With --add, records "
    "are appended to those that are there, and nothing else changes; without it an existing dataset is replaced. The command "
    "fails if the description is wrong or, unless validation is skipped, the resulting dataset is not valid; and it succeeds otherwise.",
    ["inputs", "histories"],
    "all descriptions of datasets, sequences of imports, and all kinds of properties and datatypes supported",
    "The tests import a number of fixed files; most kinds of properties, adding to datasets and wrong descriptions are not covered.",
    [TR + "format/json.cpp", TR + "command/import.cpp", DM + "utility/source/metadata.cpp",
     DM + "utility/source/environment.cpp", DM + "cxx/include/lue/navigate.hpp"],
    [("a function per kind of property", TR + "format/json.cpp"), ("adding or creating", TR + "format/json.cpp")],
    "stateful model-based property testing of the utility, run in the process of the harness",
    "Generated sequences of descriptions, right and wrong ones, and a model of the dataset that is compared after each of them.",
)
prop(
    "X02",
    "Rasters survive import into and export from a dataset",
    "lue_translate import stores every band mentioned in the metadata as a layer with the same cells, datatype, no-data value, extent and "
    "shape, whatever the size of the raster, its blocks, and the layers that were already there, which do not change. "
    "lue_translate export writes a raster with these same cells, no-data value and geo-transform, with a band per layer requested. "
    "Commands that contradict the dataset or the metadata fail, and leave existing layers as they are.",
    ["inputs", "histories"],
    "all raster shapes, block shapes, datatypes, no-data values, numbers of bands, and sequences of imports and exports",
    "The tests translate a small raster that fits in a single block.",
    [TR + "format/gdal.cpp", TR + "command/import.cpp", TR + "command/export.cpp", DM + "gdal/source/raster.cpp",
     DM + "hl/source/raster_view.cpp"],
    [("translation block by block", TR + "format/gdal.cpp")],
    "stateful round-trip property testing of the utility, run in the process of the harness",
    "Generated rasters with several blocks and bands, imported in steps; the layers are read with the raster view, and exported rasters with GDAL.",
)
prop(
    "X03",
    "lue_validate reports exactly the datasets that are not valid",
    "For every list of files, lue_validate reports for each of them, in order, whether it contains a valid dataset, and what is wrong with it "
    "otherwise. It fails if at least one of them is not valid: missing, not a dataset, containing errors, or, if warnings must be treated as "
    "errors, warnings. Valid datasets are not mentioned if only issues must be printed.",
    ["inputs", "configurations"],
    "all lists of valid, invalid and missing files, and options",
    "The utility is not tested.",
    [DM + "validate/source/validate.cpp", DM + "cxx/source/validate.cpp", DM + "utility/source/application.cpp",
     DM + "utility/source/print_message.cpp"],
    [("loop over the files", DM + "validate/source/validate.cpp")],
    "differential property testing against the validation function",
    "Generated datasets, valid or not, next to other files; what V01 and V02 decide about the validation itself is taken for granted.",
)
prop(
    "X04",
    "Environment variables in pathnames are expanded once",
    "Every ${name} in a text is replaced by the value of the variable, or by nothing if there is no such variable. All other characters "
    "are kept, and the values inserted are not expanded themselves.",
    ["inputs"],
    "all texts, names and values of variables",
    "The tests contain a number of fixed texts.",
    [DM + "utility/source/environment.cpp"],
    [("search and replace", DM + "utility/source/environment.cpp")],
    "property testing against a reference implementation",
    "Generated texts and variables made of the characters with a meaning.",
)
prop(
    "X05",
    "Graphs of datasets show exactly the structure of the dataset",
    "Exporting a dataset to DOT results in a graph in the DOT language with exactly one node per phenomenon, property set, property and domain "
    "(and object tracker and value, if requested) labelled with its name, and an edge for each that is part of another; "
    "shared trackers and domains and discretizations are dashed edges to the thing shared. Universes are clusters. Details (counts, shapes, datatypes, "
    "clock, mobility), shapes and colors follow the metadata. The dataset does not change.",
    ["inputs", "configurations"],
    "all datasets, names and settings in the metadata",
    "The tests do not look at the contents of the graph.",
    [TR + "format/dot.cpp", TR + "command/export.cpp", DM + "utility/source/metadata.cpp"],
    [("a function per kind of thing", TR + "format/dot.cpp")],
    "model-based property testing, with a parser of the resulting graph",
    "Generated datasets and settings; the graph is parsed and compared with the one expected, independent of names and order of nodes.",
)
prop(
    "X06",
    "Space boxes and points are exported to Shapefiles unchanged",
    "Exporting a property set with stationary space boxes to a Shapefile results in a polygon per box with the coordinates of the box; exporting one "
    "with mobile points and time cells results in a layer per time cell, with the points of the objects active in the cell, "
    "all in the order of the dataset, in the location requested. Anything else is refused with an error.",
    ["inputs", "configurations"],
    "all active sets, coordinates, coordinate datatypes and configurations of domains",
    "No test exports a Shapefile.",
    [TR + "format/gdal_vector.cpp", TR + "command/export.cpp"],
    [("active sets delimit the points of a cell", TR + "format/gdal_vector.cpp")],
    "round-trip property testing of the utility, run in the process of the harness",
    "Generated datasets; Shapefiles are read with GDAL. Boxes have a non-zero area.",
)

# ------------------------------------------------------------------ framework
STANDIN = (
    "The framework's headers are compiled as they are, with a stand-in of HPX: tasks, futures, components and localities in one process, "
    "whose scheduler is driven by the generator (order of tasks, suspension points, number of localities), so a schedule can be replayed. "
    "Data that goes to another locality is serialized. What HPX itself does is not checked."
)
prop(
    "F01",
    "Partitioning an array covers every element exactly once",
    "For every array shape and partition shape (not empty, and not larger than the array), the partitions' extents tile the array: they "
    "are disjoint, cover every element, and only partitions at the far edges differ from the requested partition shape: these are enlarged to fill up the array. "
    "Impossible requests are refused. Numbers of tiles that cover an area round up, and partition shapes that are chosen for an array are usable: not empty and not larger than the array, "
    "and resulting in the number of partitions asked for.",
    ["inputs"],
    "all array shapes, ranks, partition shapes and numbers of workers",
    "The framework's tests need its run-time system and check a few shapes; none of them run here.",
    [FW + "core/include/lue/framework/core/domain_decomposition.hpp"],
    [("whole division per dimension, with larger partitions along the far edges", FW + "core/include/lue/framework/core/domain_decomposition.hpp")],
    "property testing against a model of the extents of each partition",
    STANDIN,
)
prop(
    "F02",
    "Partition placement curves visit every partition exactly once",
    "Walking a placement curve over any grid of partitions visits each grid cell exactly once, and numbers them in the order visited. The linear curve is in row-major order. Consecutive cells of the space-filling curve touch, and on a power of "
    "two square grid they share an edge. An empty grid is not visited.",
    ["inputs"],
    "all grid shapes (one-, two-, and three-dimensional for the linear curve)",
    "Tests check a few grids, and need the framework's run-time system.",
    [FW + "core/include/lue/framework/core/hilbert_curve.hpp",
     FW + "core/include/lue/framework/core/linear_curve.hpp"],
    [("generalised Hilbert curve", FW + "core/include/lue/framework/core/hilbert_curve.hpp")],
    "property testing of invariants of the walk",
    STANDIN,
)
prop(
    "F03",
    "Locations in arrays are numbered consistently",
    "Converting between linear indices and multi-dimensional indices, and back, gives the original index, in row-major order, "
    "for every shape and every index within it. Visiting part of an array results in each cell of that part once, in row-major order. A block around a cell has the offset and extent that follow "
    "from its center and shape, is refused if it starts before the array, and knows whether it is within an array. Mapping partitions to localities is monotone, balanced, and within range. Indices outside of an array are refused by the check of indices.",
    ["inputs"],
    "all shapes, indices, parts, and numbers of partitions and localities",
    "Tests check a few indices, and need the framework's run-time system.",
    [FW + "core/include/lue/framework/core/index_util.hpp",
     FW + "core/include/lue/framework/core/domain_decomposition.hpp",
     FW + "core/include/lue/framework/core/array_visitor.hpp",
     FW + "core/include/lue/framework/core/hyperslab.hpp",
     FW + "core/include/lue/framework/core/math.hpp"],
    [("division by strides", FW + "core/include/lue/framework/core/index_util.hpp")],
    "property testing against a row-major enumeration",
    STANDIN,
)
prop(
    "F08",
    "Material routed through a network of flow directions arrives downstream",
    "D8 flow directions point at the steepest descending neighbour, whatever the elevation datum; upstream and downstream take material from or to the direct neighbour; the inflow count is the number of cells "
    "draining into a cell; and accumulating material (all of it, above a threshold, a fraction, up to a capacity, or once a trigger is passed, with and without information about what is left behind) "
    "results in what visiting the cells in order of the network gives: no material appears or disappears, it is not accumulated twice, and it crosses the borders of partitions of any size, however winding the streams. "
    "No-data (and material or parameters outside of the domain) makes that cell and everything downstream of it no-data. Nothing depends on the order of tasks or the number of localities, "
    "arguments do not change, and every operation finishes.",
    ["inputs", "schedules"],
    "all networks without cycles, array shapes, partition shapes, material, parameters, schedules and localities",
    "The framework's tests need HPX and check a few small networks; none of them run here.",
    [FW + "algorithm/include/lue/framework/algorithm/definition/accu.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp",
     FW + "algorithm/include/lue/framework/algorithm/detail/communicator.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/accumulating_router.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/accu_threshold.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/d8_flow_direction.hpp"],
    [("partitions send material to each other through channels, until all inflows have arrived", FW + "algorithm/include/lue/framework/algorithm/definition/accu.hpp")],
    "model-based property testing with generated schedules, against a sequential model of the network",
    STANDIN,
)

prop(
    "F10",
    "Routes visit cells in decreasing order of their value",
    "A route (one for all cells, or one per zone) visits each cell that has a value (and a zone) exactly once, in decreasing order of the values, until no cells are left or the maximum length is reached, "
    "going back and forth between partitions as often as that takes. The fragments of which it consists are connected, located in the partitions that contain the cells, and are part of one route. "
    "Walking the first cells of routes marks exactly those cells. Values of any sign are ordered. Nothing depends on the order of tasks or the number of localities, and every operation finishes.",
    ["inputs", "schedules"],
    "all values, zones, array shapes, partition shapes, lengths, schedules and localities",
    "The framework's tests need HPX and check a few arrays; none of them run here.",
    [FW + "algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/first_n.hpp",
     FW + "algorithm/include/lue/framework/algorithm/walk.hpp",
     FW + "partitioned_route/include/lue/framework/partitioned_route/serial_route_fragment.hpp"],
    [("components of partitions hand a route to each other", FW + "algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp")],
    "model-based property testing with generated schedules, against sorted values",
    STANDIN,
)

prop(
    "F11",
    "Arrays written to a dataset are what is read from it afterwards",
    "Programs that write arrays to and read arrays from rasters in LUE datasets (constant ones and layers of variable ones, in whole or in part, with any partition shape, for any object) get, from each read, the values that "
    "the writes requested before it have stored, and none of the writes requested after it, although reads and writes are asynchronous. A file is never open in one process for reading while another one has it open for writing, "
    "nothing stays open once the futures returned are ready, and every call finishes. This holds for every order of tasks and number of localities, including localities without partitions of an array.",
    ["inputs", "schedules", "histories"],
    "all sequences of reads and writes, rasters, hyperslabs, partition shapes, schedules and localities",
    "The framework's tests need HPX and run each sequence in one schedule; none of them run here.",
    [FW + "io/include/lue/framework/io/to_lue.hpp",
     FW + "io/include/lue/framework/io/from_lue.hpp",
     FW + "io/include/lue/framework/io/util.hpp",
     FW + "io/source/lue.cpp"],
    [("reads and writes are ordered per file", FW + "io/source/lue.cpp")],
    "stateful model-based property testing with generated schedules, against a model of the rasters; calls to HDF5 are intercepted",
    STANDIN,
)

prop(
    "F12",
    "Rasters read and written with the framework keep their cells",
    "Reading a raster file, or part of it, into an array results in the cells of the raster, with no-data where the raster has its no-data value (whatever that value is), for all partition shapes. Reading cells from outside of the raster is refused. "
    "Writing an array results in a raster with the array's cells and no-data, and the georeference of the raster to clone. Neither depends on the order of tasks or the number of localities.",
    ["inputs", "schedules"],
    "all rasters, cell types, no-data values, hyperslabs, partition shapes, schedules and localities",
    "The framework's tests need HPX and round-trip a few rasters; none of them run here.",
    [FW + "io/source/gdal.cpp.in", FW + "core/include/lue/framework/core/hyperslab.hpp"],
    [("no-data values are converted while reading and writing", FW + "io/source/gdal.cpp.in")],
    "round-trip and differential property testing with generated schedules, against rasters handled with GDAL",
    STANDIN,
)

prop(
    "F13",
    "Simulations and serialized tasks run in the requested order",
    "A deterministic or stochastic simulation calls the functions of the model and the progressor in the documented order, once per sample and time step, does not have more time steps being simulated at the same time than the rate limit, and only "
    "finalizes the model once all time steps have finished. Tasks that wait for their predecessor using a serializer run in the order of their generations, per key, whatever the order in which they are created.",
    ["inputs", "schedules", "histories"],
    "all numbers of samples and time steps, rate limits, durations of tasks, keys, orders and schedules",
    "The framework's tests need HPX and count calls; none of them run here.",
    [FW + "model/include/lue/framework/model/simulate.hpp",
     FW + "io/include/lue/framework/io/serializer.hpp"],
    [("futures of time steps signal a semaphore", FW + "model/include/lue/framework/model/simulate.hpp")],
    "model-based property testing with generated schedules, against the log of calls",
    STANDIN,
)

prop(
    "F09",
    "Arrays and shared buffers keep their elements",
    "After every history of constructing, copying, moving, assigning, reshaping, slicing, erasing, clearing and serializing framework arrays, shared buffers and partition data, each of them has the shape and elements that follow from the history. "
    "Arrays own their elements, copies of buffers and partition data share theirs (and only copies do), deep copies, slices and data that has been sent elsewhere do not, and what is moved from is empty. A buffer in use is not handed out again.",
    ["inputs", "histories"],
    "all histories of operations, shapes (including empty ones) and element types",
    "Tests check single operations, and need the framework's run-time system; none of them run here.",
    [FW + "core/include/lue/framework/core/array.hpp",
     FW + "core/include/lue/framework/core/erase.hpp",
     FW + "core/include/lue/framework/core/partition_allocator.hpp",
     FW + "partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp",
     FW + "partitioned_array/include/lue/framework/partitioned_array/array_partition_data.hpp"],
    [("elements are shared between copies of partition data", FW + "partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp")],
    "stateful model-based property testing",
    STANDIN,
)
prop(
    "F04",
    "Local operations on partitioned arrays equal the operation on each cell",
    "Every local operation (arithmetic, comparison, logical, rounding, trigonometric, logarithmic, cast, where, valid), with arrays, scalars and values as arguments, "
    "results in the array the operation gives when applied to each cell, for every partitioning, order of tasks and number of localities. "
    "A cell is no-data if one of the inputs is no-data, or the value is outside of the domain of the operation or outside of the range of the result. "
    "Arguments do not change, and every operation finishes.",
    ["inputs", "schedules"],
    "all array shapes, partition shapes, element types, values (including no-data, limits, infinities), schedules and localities",
    "The framework's tests need HPX and check a handful of values; none of them run here.",
    [FW + "algorithm/include/lue/framework/algorithm/definition/binary_local_operation.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/unary_local_operation.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/ternary_local_operation.hpp",
     FW + "algorithm/include/lue/framework/algorithm/value_policies/cast.hpp"],
    [("a task per partition, policies per cell", FW + "algorithm/include/lue/framework/algorithm/definition/binary_local_operation.hpp")],
    "model-based property testing with generated schedules, against a sequential model of each operation",
    STANDIN,
)
prop(
    "F05",
    "Aggregation and zonal operations do not depend on partitioning or schedule",
    "Sum, minimum, maximum, all, any, none and unique over an array, and the zonal statistics (sum, minimum, maximum, mean, majority, diversity, area, and uniform and normal random values per zone) "
    "equal the statistic of all valid cells, of the array or of the zone, whatever the partitioning, the order of tasks and the number of localities. "
    "No-data cells do not contribute, and without valid cells the result is no-data. A zone gets the same value everywhere.",
    ["inputs", "schedules"],
    "all array shapes, partition shapes, values, zones, schedules and localities",
    "The framework's tests need HPX and check one or two arrays; none of them run here.",
    [FW + "algorithm/include/lue/framework/algorithm/unary_aggregate_operation.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/zonal_operation.hpp"],
    [("partial results per partition, merged in a task", FW + "algorithm/include/lue/framework/algorithm/definition/zonal_operation.hpp")],
    "model-based property testing with generated schedules, against a sequential model of each operation",
    STANDIN,
)
prop(
    "F06",
    "Arrays are created, copied, resampled and numbered as a whole",
    "Creating, filling, copying, downscaling, and reclassifying partitioned arrays, ranges, cell indices, unique identifiers and clumps (groups of connected cells with the same value) give results that only depend on the array, and not on "
    "how it is partitioned: clumps continue across the borders of partitions and different clumps have different identifiers, copies do not share cells, cell indices and ranges "
    "follow from the location in the array, and random values are within the limits asked for.",
    ["inputs", "schedules"],
    "all array shapes, partition shapes (including partitions along the border that are larger), values, schedules and localities",
    "The framework's tests need HPX and use square partitions; none of them run here.",
    [FW + "algorithm/include/lue/framework/algorithm/definition/clump.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/resample.hpp",
     FW + "algorithm/include/lue/framework/algorithm/range.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/cell_index.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/unique_id.hpp"],
    [("clumps are merged along the borders of partitions", FW + "algorithm/include/lue/framework/algorithm/definition/clump.hpp")],
    "model-based property testing with generated schedules, against a sequential model of each operation",
    STANDIN,
)

prop(
    "F07",
    "Focal operations see the same neighbourhood in every partition",
    "Focal statistics (sum, mean, minimum, maximum, diversity, majority, high-pass), convolution, slope and aspect, and any focal operation written by someone else on one or several arrays, "
    "calculate each cell from the values within the kernel around it, wherever the borders of partitions are: values are found at the right position in the window, and outside of the array "
    "the window contains the values of the halo policy for that side or corner. No-data cells are skipped, and a neighbourhood without values results in no-data. "
    "Box and circle kernels contain the cells they must. The operation is refused only if partitions are smaller than the kernel. Slope and aspect are those of Horn's method "
    "for cells that have all neighbours. Nothing depends on the order of tasks or the number of localities, arguments do not change, and every operation finishes.",
    ["inputs", "schedules"],
    "all array shapes, partition shapes, kernels, values, halo policies, schedules and localities",
    "The framework's tests need HPX and check one or two arrays with square partitions; none of them run here.",
    [FW + "algorithm/include/lue/framework/algorithm/definition/focal_operation.hpp",
     FW + "algorithm/include/lue/framework/algorithm/detail/halo_partition.hpp",
     FW + "algorithm/include/lue/framework/algorithm/kernel.hpp",
     FW + "algorithm/include/lue/framework/algorithm/definition/aspect.hpp"],
    [("each partition reads slices of its eight neighbours, or of the halo", FW + "algorithm/include/lue/framework/algorithm/definition/focal_operation.hpp")],
    "model-based property testing with generated schedules, against a sequential model of each operation",
    STANDIN,
)


def claimed():
    path = os.path.join(HERE, "claimed.json")
    return json.load(open(path)) if os.path.exists(path) else {}


def main():
    c = claimed()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            assert len(p["title"]) <= 80, p["title"]
            for a in p["anchors"]["files"]:
                assert os.path.exists(os.path.join("/repo", a)), a
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPERTIES:
        t = TECH[p["id"]]
        if p["id"] in c.get("claimed", []):
            checks.append(
                dict(
                    property=p["id"],
                    quick_cmd=f"python3 vp/check.py {p['id']}",
                    thorough_cmd=f"VERIF_TIER=thorough python3 vp/check.py {p['id']}",
                    technique=t["technique"],
                    level="exploration",
                    level_note=t["note"],
                )
            )
        else:
            na.append(dict(property=p["id"], reason=t["not_applicable"] or "no check built yet"))
    m = dict(
        version=1,
        setup_cmd="python3 vp/setup.py",
        hooks=dict(guard="LUE_VERIF_HOOKS", enable="no hooks are needed; the guard is reserved and unused",
                   source_commits=[]),
        checks=checks,
        not_applicable=na,
        notes="See DESIGN.md. Every check compiles what it needs from /repo's working tree.",
    )
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
