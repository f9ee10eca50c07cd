"""P04: datasets built from Python"""

import gc
import numpy as np
import pt
import lue.data_model as ldm

DTYPES = [np.dtype(t) for t in ["i4", "f8", "u1", "u8", "f4", "i8", "u4", "i1", "i2", "u2"]]
ID = np.dtype(np.uint64)
ITEM_TYPES = [ldm.TimeDomainItemType.point, ldm.TimeDomainItemType.box, ldm.TimeDomainItemType.cell]
UNITS = [ldm.Unit.nanosecond, ldm.Unit.microsecond, ldm.Unit.millisecond, ldm.Unit.second, ldm.Unit.minute, ldm.Unit.hour,
         ldm.Unit.day, ldm.Unit.week, ldm.Unit.month, ldm.Unit.year]
SAME, DIFFERENT, SAME_CONSTANT, SAME_VARIABLE, DIFFERENT_CONSTANT, DIFFERENT_VARIABLE = range(6)
KINDS = ["same", "different", "same constant", "same variable", "different constant", "different variable"]
CLASSES = ["lue.lue_py.data_model.same_shape.Property", "different_shape.Property", "same_shape.constant_shape.Property",
           "same_shape.variable_shape.Property", "different_shape.constant_shape.Property", "different_shape.variable_shape.Property"]
MISSING = "no_such_item"


def name(c, used, default):
    """A name that is not used yet. Attributes of the classes themselves cannot be looked up as attributes, only as items."""
    k = c.draw(9)
    if k <= 5:
        base = default
    elif k <= 7:
        base = c.pick(["a b", "élève", "名前", "x-y", "1", "value2", "A", "with.dot", "\U0001f30d", "x" * 60])
    else:
        base = c.pick(["names", "id", "properties", "description", "time_domain", "value", "lue_version", "phenomena", "object_id"])
    result = base
    n = 0
    while result in used:
        n += 1
        result = f"{base}{n}"
    return result


def description(c):
    return c.pick(["", "", "description", "Ελληνικά", "two\nlines", " ", "x" * 300])


def shape(c, rank):
    limit = {0: 0, 1: 6, 2: 4}.get(rank, 3)
    return tuple(1 + c.draw(limit - 1) for _ in range(rank))


def elements(c, dtype, shape):
    n = int(np.prod(shape))
    if dtype.kind == "f":
        values = [c.float64() if i < 8 else float(i % 31) for i in range(n)]
    else:
        info = np.iinfo(dtype)
        values = [int(np.clip(c.any64() if i < 8 else i % 31, info.min, info.max)) for i in range(n)]
        if n and dtype.kind == "i" and c.chance(30):
            values[0] = info.min
    with np.errstate(all="ignore"):
        return np.array(values, dtype).reshape(shape)


def maybe_strided(c, values):
    """The same values, in some memory layout"""
    k = c.draw(5)
    if k == 0 and values.ndim:
        big = np.zeros(tuple(2 * n for n in values.shape), values.dtype)
        view = big[tuple(slice(None, None, 2) for _ in values.shape)]
        view[...] = values
        return view
    if k == 1:
        return np.asfortranarray(values)
    return values


class Model:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Program:
    def __init__(self, c):
        self.c = c
        self.path = c.path("d.lue")
        self.model = Model(description=description(c), universes={}, phenomena={})
        self.nr_items = 0
        c.note(f"create dataset, description {self.model.description!r}")
        self.dataset = ldm.create_dataset(self.path, self.model.description) if c.boolean() or self.model.description \
            else ldm.create_dataset(self.path)

    # -------------------------------------------------------------------------------- finding things in the model
    def phenomena(self):
        for u in [None] + list(self.model.universes):
            for p in (self.model.universes[u].phenomena if u is not None else self.model.phenomena):
                yield u, p

    def phenomenon(self, w):
        return (self.model.phenomena if w[0] is None else self.model.universes[w[0]].phenomena)[w[1]]

    def sets(self):
        for w in self.phenomena():
            m = self.phenomenon(w)
            for s in m.collection_property_sets:
                yield w + (True, s)
            for s in m.property_sets:
                yield w + (False, s)

    def set(self, w):
        m = self.phenomenon(w)
        return (m.collection_property_sets if w[2] else m.property_sets)[w[3]]

    # -------------------------------------------------------------------------------- finding things in the dataset
    def get(self, parent, collection, item, plain):
        """Using the collection or, if that is possible, an attribute"""
        if plain and self.c.boolean() and not hasattr(type(parent), item):
            self.c.label("attribute")
            return getattr(parent, item)
        return getattr(parent, collection)[item]

    def find_phenomenon(self, dataset, w):
        # Attributes of a dataset are universes first
        if w[0] is None:
            return self.get(dataset, "phenomena", w[1], w[1] not in self.model.universes)
        universe = self.get(dataset, "universes", w[0], True)
        return self.get(universe, "phenomena", w[1], True)

    def find_set(self, dataset, w):
        phenomenon = self.find_phenomenon(dataset, w)
        if w[2]:
            return self.get(phenomenon, "collection_property_sets", w[3], w[3] not in self.phenomenon(w).property_sets)
        return self.get(phenomenon, "property_sets", w[3], True)

    def find_property(self, dataset, w, property):
        return self.get(self.find_set(dataset, w), "properties", property, True)

    # -------------------------------------------------------------------------------- adding things
    def add_universe(self):
        c = self.c
        n = name(c, self.model.universes, "universe")
        c.note(f"add universe {n!r}")
        u = self.dataset.add_universe(n) if c.boolean() else self.dataset.universes.add(n)
        c.check(u.id.name == n, lambda: f"name of universe: {u.id.name!r}")
        self.model.universes[n] = Model(phenomena={})

    def add_phenomenon(self):
        c = self.c
        u = c.pick([None] + list(self.model.universes))
        siblings = self.model.phenomena if u is None else self.model.universes[u].phenomena
        n = name(c, siblings, "phenomenon")
        d = description(c)
        c.note(f"add phenomenon {n!r}, description {d!r} to {u!r}")
        parent = self.dataset if u is None else self.get(self.dataset, "universes", u, True)
        k = c.draw(2)
        p = parent.add_phenomenon(n, d) if k == 0 else parent.add_phenomenon(n, description=d) if k == 1 else \
            parent.add_phenomenon(name=n, description=d)
        ids = []
        for _ in range(c.draw(4)):
            i = c.any64()
            while i in ids:
                i = (i + 1) & ((1 << 64) - 1)
            ids.append(i)
        if ids:
            p.object_id.expand(len(ids))[:] = maybe_strided(c, np.array(ids, ID))
        c.note(f"with objects {ids}")
        siblings[n] = Model(description=d, ids=ids, property_sets={}, collection_property_sets={})

    def tracker(self, ids, nr_sets, collection):
        c = self.c
        t = Model(sets=[], count={})
        single = c.chance(30)
        for _ in range(nr_sets):
            members = list(ids)
            for i in range(len(members) - 1, 0, -1):
                j = c.draw(i)
                members[i], members[j] = members[j], members[i]
            if not collection:
                members = members[:1] if single else members[: len(members) - c.draw(len(members))]
            t.sets.append(members)
        return t

    def write_tracker(self, s, t):
        ids = [i for m in t.sets for i in m]
        if t.sets:
            begin = np.concatenate([[0], np.cumsum([len(m) for m in t.sets])[:-1]]).astype(np.uint64)
            s.object_tracker.active_set_index.expand(len(t.sets))[:] = begin
        if ids:
            s.object_tracker.active_object_id.expand(len(ids))[:] = maybe_strided(self.c, np.array(ids, ID))
            count = {}
            index = []
            for i in ids:
                index.append(count.get(i, 0))
                count[i] = index[-1] + 1
            s.object_tracker.active_object_index.expand(len(ids))[:] = np.array(index, np.uint64)

    def clock(self):
        c = self.c
        unit = c.pick(UNITS)
        n = 1 + c.draw(30)
        k = c.draw(4)
        kind = c.pick([ldm.Epoch.Kind.common_era, ldm.Epoch.Kind.formation_of_earth])
        origin = c.pick(["2000-01-01T00:00:00+00:00", "1970", "later"])
        if k == 0:
            return ldm.Clock(unit, n), Model(unit=unit, n=n, epoch=None)
        if k == 1:
            return ldm.Clock(ldm.Epoch(), unit, n), Model(
                unit=unit, n=n, epoch=(ldm.Epoch.Kind.common_era, "1970-01-01T00:00:00+00:00", ldm.Calendar.gregorian))
        if k == 2:
            return ldm.Clock(ldm.Epoch(kind), unit, n), Model(unit=unit, n=n, epoch=(kind, None, None))
        if k == 3:
            return ldm.Clock(ldm.Epoch(kind, origin), unit, n), Model(unit=unit, n=n, epoch=(kind, origin, None))
        return ldm.Clock(ldm.Epoch(kind, origin, ldm.Calendar.gregorian), unit, n), \
            Model(unit=unit, n=n, epoch=(kind, origin, ldm.Calendar.gregorian))

    def fill_time(self, s, t):
        """Items of a time domain, with t.n locations in time"""
        c = self.c
        value = s.time_domain.value
        n = t.n
        t.counts = None
        if t.item == ldm.TimeDomainItemType.cell:
            t.counts = []
            left = n
            while left > 0:
                t.counts.append(1 + c.draw(left - 1))
                left -= t.counts[-1]
            n = len(t.counts)
        width = 1 if t.item == ldm.TimeDomainItemType.point else 2
        now = 0
        items = []
        for _ in range(n * width):
            now += c.draw(5) if c.chance(90) else c.draw(1 << 55)
            items.append(now)
        t.items = np.array(items, np.uint64).reshape((n, width) if width == 2 else (n, 1))
        if n:
            if width == 1 and tuple(value.shape[1:]) == ():
                t.items = t.items.reshape(n)
            value.expand(n)[:] = maybe_strided(c, t.items)
            if t.counts is not None:
                value.count.expand(n)[:] = np.array(t.counts, np.uint64)

    def add_property_set(self):
        c = self.c
        candidates = list(self.phenomena())
        if not candidates:
            return
        w = c.pick(candidates)
        m = self.phenomenon(w)
        collection = c.chance(25)
        siblings = m.collection_property_sets if collection else m.property_sets
        n = name(c, siblings, "set")
        p = self.find_phenomenon(self.dataset, w)
        ids = [c.any64()] if collection else m.ids
        # What to share
        same_kind = [o for o in self.sets() if o[:3] == w + (collection,)]
        trackers = [o for o in same_kind if self.set(o).time]
        times = [o for o in self.sets() if self.set(o).time]
        with_time = c.chance(60)
        tracker_from = c.pick(trackers) if with_time and trackers and not collection and c.chance(35) else None
        tracker = self.set(tracker_from).tracker if tracker_from else None
        fitting = [o for o in times if tracker is None or len(tracker.sets) == self.set(o).time.n]
        time_from = c.pick(fitting) if with_time and fitting and c.chance(40) else None
        if collection and time_from is None:
            with_time = False
        space_possible = not collection and (tracker_from is None or time_from is not None)
        with_space = space_possible and c.chance(45)

        arguments = []
        time = space = None
        if with_time and time_from:
            time = self.set(time_from).time
            arguments.append(("time_domain", self.find_set(self.dataset, time_from).time_domain))
        elif with_time:
            clock, clock_model = self.clock()
            time = Model(item=c.pick(ITEM_TYPES), clock=clock_model, n=len(tracker.sets) if tracker else c.draw(4))
            arguments.append(("time_configuration", ldm.TimeConfiguration(time.item)))
            arguments.append(("clock", clock))
        if tracker_from:
            arguments.append(("object_tracker", self.find_set(self.dataset, tracker_from).object_tracker))
        if with_space:
            mobility = ldm.Mobility.mobile if with_time and c.boolean() else ldm.Mobility.stationary
            space = Model(mobility=mobility, item=c.pick([ldm.SpaceDomainItemType.point, ldm.SpaceDomainItemType.box]),
                          dtype=c.pick(DTYPES), rank=1 + c.draw(2))
            arguments.append(("space_configuration", ldm.SpaceConfiguration(space.mobility, space.item)))
            arguments.append(("space_coordinate_dtype", c.pick([space.dtype, space.dtype.type, space.dtype.name])))
            arguments.append(("rank", space.rank))
        c.note(f"add {'collection ' if collection else ''}property set {n!r} to {w}, {[a for a, _ in arguments]}, time from "
               f"{time_from}, tracker from {tracker_from}")
        add = p.add_collection_property_set if collection else p.add_property_set
        k = c.draw(len(arguments))
        s = add(n, *[v for _, v in arguments[:k]], **dict(arguments[k:]))
        if tracker is None:
            tracker = self.tracker(ids, time.n if with_time else 0, collection)
            self.write_tracker(s, tracker)
        c.note(f"active sets {tracker.sets}")
        if with_time and not time_from:
            self.fill_time(s, time)
            c.note(f"time: {time.item}, {time.items.tolist()}, {time.counts}")
        if collection:
            # What validation expects the ID of a collection to be
            ids = tracker.sets[0][:1] if tracker.sets else [999]
        if with_space:
            k = sum(len(x) for x in tracker.sets) if space.mobility == ldm.Mobility.mobile else len(ids)
            width = space.rank * (2 if space.item == ldm.SpaceDomainItemType.box else 1)
            space.values = elements(c, space.dtype, (k, width))
            if k:
                s.space_domain.value.expand(k)[:] = maybe_strided(c, space.values)
        siblings[n] = Model(time=time, tracker=tracker, space=space, properties={}, ids=ids)
        self.nr_items += 1

    def add_property(self):
        c = self.c
        candidates = list(self.sets())
        if not candidates:
            return
        w = c.pick(candidates)
        m = self.set(w)
        n = name(c, m.properties, "property")
        kind = c.draw(5)
        if kind == DIFFERENT_VARIABLE and any(len(x) != 1 for x in m.tracker.sets):
            # Python can only add arrays for active sets with a single object
            kind = DIFFERENT_CONSTANT
        d = description(c)
        s = self.find_set(self.dataset, w)
        p = Model(kind=kind, dtype=c.pick(DTYPES), description=d)
        dtype = c.pick([p.dtype, p.dtype.type, p.dtype.name])
        arguments = [("name", n), ("dtype", dtype)]
        if kind in (SAME, SAME_CONSTANT):
            p.shape = shape(c, c.draw(3))
            p.rank = len(p.shape)
            if kind == SAME and c.chance(30):
                if p.shape != ():
                    arguments.append(("shape", p.shape))
            else:
                arguments.append(("shape", p.shape))
                if kind == SAME_CONSTANT or c.boolean():
                    arguments.append(("value_variability",
                                      ldm.ValueVariability.constant if kind == SAME else ldm.ValueVariability.variable))
        else:
            p.rank = (0 if kind == SAME_VARIABLE else 1) + c.draw(2)
            arguments.append(("rank", p.rank))
            if kind != DIFFERENT:
                arguments.append(("shape_per_object", ldm.ShapePerObject.same if kind == SAME_VARIABLE else ldm.ShapePerObject.different))
                arguments.append(("shape_variability",
                                  ldm.ShapeVariability.constant if kind == DIFFERENT_CONSTANT else ldm.ShapeVariability.variable))
        positional = 1 + c.draw(len(arguments) - 1)
        keywords = dict(arguments[positional:])
        if d or c.boolean():
            keywords["description"] = d
        c.note(f"add {KINDS[kind]} property {n!r} to {w}: {arguments}, description {d!r}")
        result = s.add_property(*[v for _, v in arguments[:positional]], **keywords)
        c.label(KINDS[kind])
        c.check(result.id.name == n, lambda: f"name of property: {result.id.name!r}")
        # Hold on to the value only
        value = result.value
        result = s = None
        t = m.tracker
        if kind == SAME or kind == SAME_CONSTANT:
            k = len(m.ids) if kind == SAME else sum(len(x) for x in t.sets)
            p.values = elements(c, p.dtype, (k,) + p.shape)
            if k:
                first = c.draw(k) if c.boolean() else k
                if first:
                    value.expand(first)[:] = p.values[:first]
                if k > first:
                    value.expand(k - first)[first:] = maybe_strided(c, p.values[first:])
        elif kind == DIFFERENT:
            p.values = {i: elements(c, p.dtype, shape(c, p.rank)) for i in m.ids}
            if m.ids:
                shapes = np.array([p.values[i].shape for i in m.ids], np.uint64).reshape(len(m.ids), p.rank)
                value.expand(maybe_strided(c, np.array(m.ids, ID)), maybe_strided(c, shapes))
            for i in m.ids:
                value[i][:] = maybe_strided(c, p.values[i])
        elif kind == SAME_VARIABLE:
            p.values = {}
            for i, members in enumerate(t.sets):
                sh = shape(c, p.rank)
                p.values[i] = elements(c, p.dtype, (len(members),) + sh)
                array = value.expand(i, len(members), sh)
                if members:
                    array[:] = maybe_strided(c, p.values[i])
                actual = np.asarray(array[:])
                c.check(same(actual, p.values[i]), lambda: f"array of property {n!r} at {i}: {actual!r}, expected {p.values[i]!r}")
        elif kind == DIFFERENT_CONSTANT:
            count = {}
            for members in t.sets:
                for i in members:
                    count[i] = count.get(i, 0) + 1
            p.values = {}
            for i, k in count.items():
                p.values[i] = elements(c, p.dtype, (k,) + shape(c, p.rank))
                array = value.expand(i, p.values[i].shape[1:], k)
                array[:] = maybe_strided(c, p.values[i])
        else:
            p.values = {}
            for j, members in enumerate(t.sets):
                p.values[j] = {}
                for i in members:
                    p.values[j][i] = elements(c, p.dtype, shape(c, p.rank))
                    value.expand(j, i, p.values[j][i].shape)
                    value[j][i][:] = maybe_strided(c, p.values[j][i])
        m.properties[n] = p
        self.nr_items += 1

    # -------------------------------------------------------------------------------- things that are refused
    def refused(self):
        c = self.c
        k = c.draw(6)
        d = self.dataset
        sets = list(self.sets())
        if k == 0:
            c.note("look up missing items")
            c.refused(lambda: getattr(d, MISSING), "a missing attribute of a dataset")
            c.refused(lambda: d.phenomena[MISSING], "a missing phenomenon")
            c.refused(lambda: d.universes[MISSING], "a missing universe")
            for w in list(self.phenomena())[:2]:
                p = self.find_phenomenon(d, w)
                c.refused(lambda: getattr(p, MISSING), "a missing attribute of a phenomenon")
                c.refused(lambda: p.property_sets[MISSING], "a missing property set")
                c.refused(lambda: p.collection_property_sets[MISSING], "a missing collection property set")
            for w in sets[:3]:
                s = self.find_set(d, w)
                c.refused(lambda: getattr(s, MISSING), "a missing attribute of a property set")
                c.refused(lambda: s.properties[MISSING], "a missing property")
                c.refused(lambda: s.properties.value_variability(MISSING), "value variability of a missing property")
                if self.set(w).time is None:
                    c.refused(lambda: s.time_domain, "a missing time domain")
                if self.set(w).space is None:
                    c.refused(lambda: s.space_domain, "a missing space domain")
        elif k == 1 and self.model.universes:
            n = c.pick(list(self.model.universes))
            c.note(f"add universe {n!r} again")
            c.refused(lambda: d.add_universe(n), "adding a universe twice")
        elif k == 2 and list(self.phenomena()):
            w = c.pick(list(self.phenomena()))
            c.note(f"add phenomenon {w} again")
            parent = d if w[0] is None else d.universes[w[0]]
            c.refused(lambda: parent.add_phenomenon(w[1], "other"), "adding a phenomenon twice")
        elif k == 3 and sets:
            w = c.pick(sets)
            c.note(f"add property set {w} again")
            p = self.find_phenomenon(d, w)
            add = p.add_collection_property_set if w[2] else p.add_property_set
            c.refused(lambda: add(w[3]), "adding a property set twice")
        elif k == 4 and sets:
            w = c.pick(sets)
            properties = self.set(w).properties
            if properties:
                n = c.pick(list(properties))
                c.note(f"add property {n!r} to {w} again")
                s = self.find_set(d, w)
                c.refused(lambda: s.add_property(n, np.int32), "adding a property twice")
                c.refused(lambda: s.add_property(n, np.int32, 2), "adding a property twice")
                c.refused(lambda: s.add_property(n, np.int32, (2,), ldm.ValueVariability.variable), "adding a property twice")
                c.refused(lambda: s.add_property(n, np.int32, 1, ldm.ShapePerObject.different, ldm.ShapeVariability.variable),
                          "adding a property twice")
        elif k == 5 and sets:
            w = c.pick(sets)
            s = self.find_set(d, w)
            what = c.pick([
                (np.complex128,), (np.bool_,), ("S3",), (np.float16,), (object,), ("no such type",), (np.int32, None),
                (np.int32, 1, ldm.ShapePerObject.same, ldm.ShapeVariability.constant), (np.int32, 1.5), (np.int32, (1,), 5), (None,), (),
                (np.int32, ("a",)), (np.datetime64,), (np.int32, (2**64,)), (np.int32, (-1,)),
            ])
            if what == (None,):
                # This is NumPy's way of saying float64
                what = ()
            c.note(f"add property with arguments {what} to {w}")
            c.refused(lambda: s.add_property(MISSING, *what), f"adding a property with arguments {what}")
        elif k == 6:
            c.note("open a dataset in another mode")
            c.refused(lambda: ldm.open_dataset(self.path, c.pick(["a", "", "x", "rw"])), "opening a dataset in a mode that does not exist")
            c.refused(lambda: ldm.open_dataset(self.path + "x"), "opening a missing dataset")
        c.label("refused")

    # -------------------------------------------------------------------------------- comparing
    def leaf(self):
        """Something deep down a dataset that nothing else refers to"""
        c = self.c
        sets = [w for w in self.sets() if self.set(w).properties]
        if not sets:
            return
        w = c.pick(sets)
        n = c.pick(list(self.set(w).properties))
        c.note(f"open, and refer to property {n!r} of {w} only")
        mode = c.pick(["r", "w"])
        self.dataset = None
        gc.collect()
        k = c.draw(2)
        if k == 0:
            p = self.find_property(ldm.open_dataset(self.path, mode), w, n)
        elif k == 1:
            s = self.find_set(ldm.open_dataset(self.path, mode), w)
            p = self.get(s, "properties", n, True)
            del s
        else:
            phenomenon = self.find_phenomenon(ldm.open_dataset(self.path, mode), w)
            s = (phenomenon.collection_property_sets if w[2] else phenomenon.property_sets)[w[3]]
            del phenomenon
            p = s.properties[n]
            del s
        self.compare_property(p, n, self.set(w).properties[n], w)
        value = p.value
        del p
        self.compare_value(value, n, self.set(w).properties[n], w)
        value = None
        self.dataset = ldm.open_dataset(self.path, "w")
        c.label("leaf")

    def compare_value(self, value, n, m, w):
        c = self.c
        what = f"property {n!r} of {w}"
        if m.kind in (SAME, SAME_CONSTANT):
            c.equal(value.dtype, m.dtype, f"dtype of {what}")
            c.equal(tuple(value.shape), m.values.shape, f"shape of {what}")
            c.equal(value.nr_arrays, len(m.values), f"number of arrays of {what}")
            c.equal(tuple(value.array_shape), m.shape, f"array shape of {what}")
            if len(m.values):
                actual = np.asarray(value[:])
                c.check(same(actual, m.values), lambda: f"{what}: {actual!r}, expected {m.values!r}")
        elif m.kind in (DIFFERENT, DIFFERENT_CONSTANT):
            c.equal(value.dtype, m.dtype, f"dtype of {what}")
            c.equal(len(value), len(m.values), f"number of objects of {what}")
            for i, v in m.values.items():
                c.equal(tuple(value[i].shape), v.shape, f"shape of {what}, object {i}")
                actual = np.asarray(value[i][:])
                c.check(same(actual, v), lambda: f"{what}, object {i}: {actual!r}, expected {v!r}")
        elif m.kind == DIFFERENT_VARIABLE:
            for j, at in m.values.items():
                for i, v in at.items():
                    c.equal(tuple(value[j][i].shape), v.shape, f"shape of {what}, object {i} at {j}")
                    actual = np.asarray(value[j][i][:])
                    c.check(same(actual, v), lambda: f"{what}, object {i} at {j}: {actual!r}, expected {v!r}")

    def compare_property(self, p, n, m, w):
        c = self.c
        c.equal(p.id.name, n, "name of property")
        c.equal(p.description, m.description, f"description of property {n!r}")
        c.equal(type(p).__module__.split("data_model.")[-1] + "." + type(p).__name__,
                CLASSES[m.kind].split("data_model.")[-1], f"class of property {n!r}")
        c.check(not p.time_is_discretized and not p.space_is_discretized, f"property {n!r} is discretized")
        c.check(repr(p.id.pathname) in repr(p) and p.id.pathname in str(p), "representation of property")

    def compare(self, dataset, when):
        c = self.c
        m = self.model
        c.note(f"compare {when}")

        def names(collection, expected, what):
            actual = list(collection.names)
            if sorted(actual) != sorted(expected):
                c.fail(f"{when}: names of {what}: {actual!r}, expected {list(expected)!r}")
            if what != "properties":
                c.equal(len(collection), len(expected), f"{when}: number of {what}")
                c.check(f"size={len(expected)}" in repr(collection), lambda: f"representation of {what}: {collection!r}")
            for n in expected:
                c.check(n in collection, lambda: f"{when}: {what} do not contain {n!r}")
            c.check(MISSING not in collection, f"{when}: {what} contain something that is not there")

        names(dataset.universes, m.universes, "universes")
        names(dataset.phenomena, m.phenomena, "phenomena")
        c.equal(dataset.pathname, self.path, "pathname of dataset")
        c.equal(str(dataset).count("\n"), 2 + "".join(list(m.universes) + list(m.phenomena)).count("\n"), "lines describing a dataset")
        for n, u in m.universes.items():
            names(dataset.universes[n].phenomena, u.phenomena, "phenomena of a universe")
        for w in self.phenomena():
            pm = self.phenomenon(w)
            p = self.find_phenomenon(dataset, w)
            c.equal(p.id.name, w[1], "name of phenomenon")
            c.equal(p.description, pm.description, f"description of {w}")
            names(p.property_sets, pm.property_sets, "property sets")
            names(p.collection_property_sets, pm.collection_property_sets, "collection property sets")
            c.equal(p.object_id.nr_arrays, len(pm.ids), f"number of objects of {w}")
            if pm.ids:
                c.equal(p.object_id[:].tolist(), pm.ids, f"IDs of objects of {w}")
        for w in self.sets():
            sm = self.set(w)
            s = self.find_set(dataset, w)
            c.equal(s.id.name, w[3], "name of property set")
            names(s.properties, sm.properties, "properties")
            c.equal(s.has_time_domain, sm.time is not None, f"{when}: time domain of {w}")
            c.equal(s.has_space_domain, sm.space is not None, f"{when}: space domain of {w}")
            begin = []
            ids = []
            for members in sm.tracker.sets:
                begin.append(len(ids))
                ids += members
            tracker = s.object_tracker
            c.equal(tracker.active_set_index.nr_indices, len(begin), f"{when}: number of active sets of {w}")
            if begin:
                c.equal(tracker.active_set_index[:].tolist(), begin, f"{when}: active set indices of {w}")
            c.equal(tracker.active_object_id.nr_arrays, len(ids), f"{when}: number of active IDs of {w}")
            if ids:
                c.equal(tracker.active_object_id[:].tolist(), ids, f"{when}: active IDs of {w}")
            if sm.time:
                t = s.time_domain
                c.equal(t.configuration.item_type, sm.time.item, f"{when}: kind of time domain of {w}")
                clock = t.clock
                c.equal(clock.unit, sm.time.clock.unit, f"{when}: unit of {w}")
                c.equal(clock.nr_units, sm.time.clock.n, f"{when}: number of units of {w}")
                if sm.time.clock.epoch is not None:
                    c.equal((clock.epoch.kind, clock.epoch.origin, clock.epoch.calendar), sm.time.clock.epoch, f"{when}: epoch of {w}")
                n = len(sm.time.items)
                c.equal(t.value.nr_arrays, n, f"{when}: number of items in time domain of {w}")
                if n:
                    actual = t.value[:]
                    c.check(same(actual, sm.time.items), lambda: f"{when}: time domain of {w}: {actual!r}, expected {sm.time.items!r}")
                if sm.time.counts is not None:
                    c.equal(t.value.nr_counts, n, f"{when}: number of counts of {w}")
                    if n:
                        c.equal(t.value.count[:].tolist(), sm.time.counts, f"{when}: counts of {w}")
            if sm.space:
                d = s.space_domain
                c.equal((d.configuration.mobility, d.configuration.item_type), (sm.space.mobility, sm.space.item),
                        f"{when}: kind of space domain of {w}")
                c.check(not d.presence_is_discretized, "presence is discretized")
                value = d.value
                c.equal(value.dtype, sm.space.dtype, f"{when}: coordinates of {w}")
                c.equal(tuple(value.shape), sm.space.values.shape, f"{when}: shape of space domain of {w}")
                if len(sm.space.values):
                    actual = value[:]
                    c.check(same(actual, sm.space.values),
                            lambda: f"{when}: space domain of {w}: {actual!r}, expected {sm.space.values!r}")
            for n, pm in sm.properties.items():
                c.equal(s.properties.value_variability(n),
                        ldm.ValueVariability.constant if pm.kind <= DIFFERENT else ldm.ValueVariability.variable,
                        f"{when}: value variability of {n!r}")
                c.equal(s.properties.shape_per_object(n),
                        ldm.ShapePerObject.same if pm.kind in (SAME, SAME_CONSTANT, SAME_VARIABLE) else ldm.ShapePerObject.different,
                        f"{when}: shape per object of {n!r}")
                if pm.kind > DIFFERENT:
                    c.equal(s.properties.shape_variability(n),
                            ldm.ShapeVariability.variable if pm.kind in (SAME_VARIABLE, DIFFERENT_VARIABLE) else
                            ldm.ShapeVariability.constant, f"{when}: shape variability of {n!r}")
                p = self.find_property(dataset, w, n)
                self.compare_property(p, n, pm, w)
                self.compare_value(p.value, n, pm, w)

    def valid(self, when):
        c = self.c
        issues = ldm.validate(self.path)
        errors = [i.message for i in issues.errors]
        warnings = [i.message for i in issues.warnings]
        # Contents that cannot be validated yet are warned for
        unsupported = [m for m in warnings if "is not supported yet" in m]
        if errors or issues.errors_found or len(unsupported) < len(warnings) or issues.warnings_found != bool(warnings):
            c.fail(f"{when}: the dataset is not valid: {errors} {warnings}")
        kinds = [p.kind for w in self.sets() for p in self.set(w).properties.values()]
        if not unsupported:
            ldm.assert_is_valid(self.path)
        else:
            c.check(DIFFERENT_VARIABLE in kinds, lambda: f"{warnings}")
            ldm.assert_is_valid(self.path, fail_on_warning=False)
            c.refused(lambda: ldm.assert_is_valid(self.path), "validating in spite of warnings")


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def p04(c):
    p = Program(c)
    for _ in range(2 + c.draw(10)):
        k = c.draw(12)
        if k == 0:
            p.add_universe()
        elif k <= 2 or not list(p.phenomena()):
            p.add_phenomenon()
        elif k <= 5 or not list(p.sets()):
            p.add_property_set()
        elif k <= 9:
            p.add_property()
        elif k == 10:
            p.refused()
        elif k == 11:
            p.leaf()
        else:
            p.compare(p.dataset, "in between")
    p.compare(p.dataset, "as built")
    if c.boolean():
        p.dataset.flush()
        p.valid("as built")
    p.dataset = None
    for mode in ["r", "w"]:
        dataset = ldm.open_dataset(p.path, mode) if mode == "w" or c.boolean() else ldm.open_dataset(p.path)
        p.compare(dataset, f"opened in mode {mode!r}")
        c.check(f"flags='{mode}'" in repr(dataset), lambda: f"representation of dataset: {dataset!r}")
        dataset = None
    p.valid("closed")
    if p.nr_items >= 2:
        c.nontrivial()


if __name__ == "__main__":
    raise SystemExit(pt.main([
        pt.Property(
            "P04",
            "a case is a program of 2-12 steps that add universes, phenomena, property sets (with any of the overloads), properties "
            "(likewise) and their values, try things that must be refused, and keep references to single items, after which everything "
            "is compared with a model, as built and opened again in both modes, and validated; non-trivial if it adds two property sets "
            "or properties",
            p04, 2500, 200000),
    ]))
