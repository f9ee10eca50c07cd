"""P01, P02, P03: arrays, from Python"""

import numpy as np
import pt
import lue.data_model as ldm

DTYPES = [np.dtype(t) for t in ["i4", "f8", "u1", "u8", "f4", "i8", "u4", "i1", "i2", "u2"]]


def elements(c, dtype, n):
    """Values of any kind; when there are many, the rest follow from these"""
    result = np.empty(n, dtype)
    k = min(n, 16)
    for i in range(k):
        if dtype.kind == "f":
            with np.errstate(all="ignore"):
                v = dtype.type(c.float64())
            result[i] = v
        else:
            bits = 8 * dtype.itemsize
            v = c.any64() & ((1 << bits) - 1)
            result[i] = v - (1 << bits) if dtype.kind == "i" and v >> (bits - 1) else v
    i = np.arange(k, n, dtype=np.int64)
    result[k:] = ((i * 31 + 7 + i // 97) % 113).astype(dtype)
    return result


def shape(c, max_rank=4):
    rank = 1 + c.draw(max_rank - 1)
    limit = {1: 60, 2: 12, 3: 6}.get(rank, 4)
    return tuple(1 + c.draw(limit - 1 if c.chance(30) else min(limit - 1, 4)) for _ in range(rank))


def stored_array(c, dataset, dtype, shape, kind):
    """An array in a dataset: all objects' values, or those of a single object"""
    phenomenon = dataset.add_phenomenon("p")
    property_set = phenomenon.add_property_set("s")
    phenomenon.object_id.expand(1)[:] = np.array([1], ldm.dtype.ID)
    if kind == 0:
        p = property_set.add_property("a", dtype, shape[1:])
        return p.value.expand(shape[0])
    if kind == 1:
        p = property_set.add_property("a", dtype, len(shape))
        value = p.value
        value.expand(np.array([1], np.uint64), np.array([shape], np.uint64))
        return value[1]
    p = property_set.add_property("a", dtype, shape[1:], ldm.ValueVariability.variable)
    return p.value.expand(shape[0])


def reopen(path, kind, mode):
    dataset = ldm.open_dataset(path, mode)
    value = dataset.p.s.a.value
    return dataset, value[1] if kind == 1 else value


def integer(c, n):
    k = c.draw(9)
    if k <= 5:
        return c.draw(n - 1)
    if k <= 7:
        return -1 - c.draw(n - 1)
    # Just in or out of range, or far out of range
    return c.pick([n, -n, n - 1, -n - 1, n + 1, 2**31, -(2**31), 2**63 - 1, -(2**63), 2**64, 2**70, -(2**64) + 1, -(2**64)])


def bound(c, n):
    k = c.draw(9)
    if k <= 1:
        return None
    if k <= 6:
        return c.draw(n)
    if k <= 8:
        return -1 - c.draw(n)
    return c.pick([n + 1, n + 10, -n - 1, 2**31, -(2**31), 2**62, -(2**62), 2**63 - 1, 2**64, -(2**64)])


def step(c):
    k = c.draw(9)
    if k <= 3:
        return None
    if k <= 6:
        return c.pick([1, 2, 3])
    if k <= 8:
        return 1 + c.draw(9)
    return c.pick([-1, -2, 2**31, 2**62, -(2**62), -5, 2**63 - 1])


def item(c, n):
    if c.draw(9) < 4:
        return integer(c, n)
    return slice(bound(c, n), bound(c, n), step(c))


def supported_item(i):
    if isinstance(i, slice):
        return i.step is None or i.step > 0
    return True


def index(c, shape):
    """An index expression, and whether it must be supported"""
    k = c.draw(19)
    if k <= 9:
        i = tuple(item(c, n) for n in shape[: c.draw(len(shape))])
        return i, all(supported_item(j) for j in i)
    if k <= 16:
        i = item(c, shape[0])
        return i, supported_item(i)
    if k == 17:
        # Too many
        return tuple(item(c, 2) for _ in range(len(shape) + 1 + c.draw(2))), False
    # Other kinds of indices
    i = c.pick([
        1.0, None, "1", "0:1:1", ..., [0], [0, 0], np.int64(0), np.array([0]), {}, (..., 0), (None, 0), (0, ...), (1.5,),
        ("0",), (np.int32(0), slice(None)), b"0", {"a": 1}, [slice(None)], ((0,),), ([0],), np.uint8(0), (0.0, slice(None)),
        range(1), np.array([True]), slice("a"), slice(1.5, None), (slice("a"),), object(), (np.array([0]),), np.float64(0), "", (),
    ])
    return i, isinstance(i, tuple) and i == ()


def attempt(function):
    try:
        return function(), None
    except Exception as e:
        return None, e


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def p01(c):
    dtype = c.pick(DTYPES)
    s = shape(c)
    kind = c.draw(2)
    path = c.path("d.lue")
    expected = elements(c, dtype, int(np.prod(s))).reshape(s)
    dataset = ldm.create_dataset(path)
    array = stored_array(c, dataset, dtype, s, kind)
    array[:] = expected
    c.note(f"array of {dtype}, shape {s}, kind {kind}")
    if c.boolean():
        del array
        del dataset
        dataset, array = reopen(path, kind, c.pick(["r", "w"]))
        c.note("reopened")
    c.check(array.dtype == dtype, lambda: f"dtype {array.dtype}")
    c.check(tuple(array.shape) == s, lambda: f"shape {array.shape}")
    c.check(same(np.asarray(array[:]), expected), lambda: f"whole array: got {array[:]!r}, expected {expected!r}")
    for _ in range(1 + c.draw(11)):
        i, must = index(c, s)
        c.note(f"[{i!r}]")
        want, error = attempt(lambda: expected[i])
        got, refusal = attempt(lambda: array[i])
        if error is not None:
            if refusal is None:
                c.fail(f"index {i!r}: got {got!r}, expected an error like {error!r}")
            c.label("error")
            if must and isinstance(error, IndexError):
                c.check(isinstance(refusal, (IndexError, OverflowError, ValueError, TypeError)),
                        f"index {i!r}: got {refusal!r}, expected an error like {error!r}")
            continue
        if refusal is not None:
            if must:
                c.fail(f"index {i!r}: got {refusal!r}, expected {want!r}")
            c.label("refused")
            continue
        want = np.asarray(want)
        got = np.asarray(got)
        if not same(got, want):
            c.fail(f"index {i!r}: got {got!r}, expected {want!r}")
        c.label("tuple" if isinstance(i, tuple) else "slice" if isinstance(i, slice) else "integer")
        if want.size == 0:
            c.label("empty result")
        if len(s) > 1:
            c.nontrivial()


def small_values(c, dtype, n):
    """Values any type can represent"""
    return np.array([c.draw(120) for _ in range(min(n, 16))] + [(i * 7) % 113 for i in range(16, n)], dtype)


def layout(c, values):
    """The same values, laid out in memory in some other way"""
    k = c.draw(5)
    if k == 0:
        return np.asfortranarray(values), "Fortran order"
    if k == 1 and values.ndim >= 1:
        big = np.zeros(tuple(2 * n for n in values.shape), values.dtype)
        view = big[tuple(slice(None, None, 2) for _ in values.shape)]
        view[...] = values
        return view, "strided"
    if k == 2 and values.ndim >= 1:
        return values[::-1].copy()[::-1], "reversed"
    if k == 3:
        return values.astype(values.dtype.newbyteorder()), "byte swapped"
    return values, "C order"


def p02(c):
    dtype = c.pick(DTYPES)
    s = shape(c, 3)
    kind = c.draw(2)
    path = c.path("d.lue")
    expected = elements(c, dtype, int(np.prod(s))).reshape(s)
    dataset = ldm.create_dataset(path)
    array = stored_array(c, dataset, dtype, s, kind)
    array[:] = expected
    c.note(f"array of {dtype}, shape {s}, kind {kind}: {expected.tolist()}")

    for _ in range(1 + c.draw(9)):
        if c.chance(10):
            c.note("reopen")
            array = dataset = None
            dataset, array = reopen(path, kind, "w")
        i, must = index(c, s)
        selection, error = attempt(lambda: expected[i])
        size = np.asarray(selection).size if error is None else 1
        selected_shape = np.asarray(selection).shape if error is None else ()
        k = c.draw(9)
        if k <= 1:
            # Python integer
            if dtype.kind == "f":
                value = c.draw(1 << 20) - (1 << 19)
            else:
                value = int(elements(c, dtype, 1)[0])
            must = must and not isinstance(i, tuple) and value < 2**63
        elif k == 2:
            # Python float
            if dtype.kind == "f":
                value = float(elements(c, dtype, 1)[0])
            else:
                value = c.draw(1000) / 8.0
                if dtype.kind == "i" and c.boolean():
                    value = -value
                if dtype.itemsize == 1:
                    value /= 10
            must = must and not isinstance(i, tuple)
        elif k <= 6 or error is not None:
            # Array like what is selected
            value = elements(c, dtype, size).reshape(selected_shape)
            value, how = layout(c, value)
            c.label(how)
        elif k == 7:
            # Array of another type
            other = c.pick(DTYPES)
            value = small_values(c, other, size).reshape(selected_shape)
            if dtype.kind == "f" and other.kind == "f":
                value = value / other.type(8)
            how = c.draw(4)
            if how == 1:
                # Nested lists
                value = value.tolist()
            elif how == 2 and value.ndim == 0:
                value = value[()]
            elif how == 3:
                value, _ = layout(c, value)
            if how:
                must = False
        elif k == 8:
            # Of another shape
            new_shape = list(selected_shape)
            how = c.draw(4)
            if how == 0 and new_shape:
                new_shape[c.draw(len(new_shape) - 1)] += 1 + c.draw(2)
            elif how == 1 and new_shape:
                d = c.draw(len(new_shape) - 1)
                new_shape[d] = max(0, new_shape[d] - 1 - c.draw(1))
            elif how == 2:
                new_shape = [1] + new_shape
            elif how == 3:
                new_shape = new_shape[1:]
            else:
                new_shape = [2] + new_shape
            n = int(np.prod(new_shape))
            value = elements(c, dtype, n).reshape(new_shape)
            if value.shape != selected_shape:
                must = False
        else:
            value = c.pick([
                np.complex128(1), np.array("a"), "text", None, [1, 2], {}, np.array([1 + 2j]), np.datetime64("2020-01-01"),
                np.bool_(True), np.float16(2), np.array(["a", "b"]), b"x", object(), np.array([object()]), np.array([b"abc"]),
                np.array([]), np.array(["abc"] * size).reshape(selected_shape), np.void(b"abcd"), np.longdouble(1)])
            must = False
        c.note(f"[{i!r}] = {value!r}")
        with np.errstate(all="ignore"):
            after = expected.copy()
            try:
                if error is not None:
                    raise error
                after[i] = value
                refused = False
            except Exception as e:
                refused = e
        before = expected
        _, refusal = attempt(lambda: array.__setitem__(i, value))
        actual = np.asarray(array[:])
        if refusal is not None:
            if must and not refused:
                c.fail(f"[{i!r}] = {value!r}: refused: {refusal!r}")
            if not same(actual, before):
                c.fail(f"[{i!r}] = {value!r}: refused ({refusal!r}), but changed {before!r} to {actual!r}")
            c.label("refused")
            continue
        if k == 9 and error is None:
            # Anything else than numbers and arrays: which values end up in the selection is not specified
            after = before.copy()
            after[i] = actual[i]
            refused = False
        if refused:
            # Assigning the same number of values in another shape is up to the array
            values = np.asarray(value) if isinstance(value, (np.ndarray, list)) else None
            if error is None and values is not None and values.size == size:
                after = before.copy()
                after[i] = values.reshape(selected_shape)
            else:
                c.fail(f"[{i!r}] = {value!r}: accepted, expected an error like {refused!r}; now {actual!r}")
        if not same(actual, after):
            c.fail(f"[{i!r}] = {value!r}: got {actual!r}, expected {after!r}, from {before!r}")
        expected = after
        c.label("assigned")
        if size > 1 and len(s) > 1:
            c.nontrivial()
    array = dataset = None
    dataset, array = reopen(path, kind, "r")
    actual = np.asarray(array[:])
    c.check(same(actual, expected), lambda: f"opened again: got {actual!r}, expected {expected!r}")
    c.refused(lambda: array.__setitem__(slice(None), expected), "assigning in a dataset opened for reading")


# ------------------------------------------------------------------------------------------------ strings
PIECES = ["a", "b", "Z", "0", " ", "\n", "é", "λ", "€", "漢", "🌍", "\u0301", "\u200f", "\U0010ffff", "\x7f", "\x01", "ß", "\ud7ff", "\\", "\"", "/"]


def string(c):
    k = c.draw(9)
    if k == 0:
        return ""
    n = 1 + c.draw(6)
    if k == 1:
        n = c.draw(300)
    if k <= 4:
        return "".join(chr(ord("a") + c.draw(25)) for _ in range(min(n, 40)))
    result = "".join(c.pick(PIECES) for _ in range(min(n, 20)))
    return result * (n // 20 + 1) if n > 20 else result


def p03(c):
    path = c.path("d.lue")
    dataset = ldm.create_dataset(path)
    phenomenon = dataset.add_phenomenon("p")
    property_set = phenomenon.add_property_set("s")
    kind = c.draw(1)
    n = 1 + c.draw(20 if c.chance(30) else 5)
    c.note(f"{n} strings, kind {kind}")
    dtype = c.pick([np.dtype("U"), np.dtype("U1"), np.dtype("U20"), str])
    if kind == 0:
        value = property_set.add_property("a", dtype).value
        array = value.expand(n)
    else:
        value = property_set.add_property("a", dtype, 1).value
        value.expand(np.array([1], np.uint64), np.array([[n]], np.uint64))
        array = value[1]
    expected = [None] * n

    def verify(when):
        i = slice(bound(c, n), bound(c, n), c.pick([None, None, 1, 2, 3]))
        for k in [slice(None), i]:
            want = expected[k]
            if any(w is None for w in want) and not any(w is not None for w in expected):
                # Nothing was written yet
                attempt(lambda: array[k])
                continue
            got = np.asarray(array[k])
            c.check(got.dtype.kind == "U", lambda: f"{when}: [{k}]: dtype {got.dtype}")
            c.check(got.shape == (len(want),), lambda: f"{when}: [{k}]: shape {got.shape}, expected {len(want)}")
            for j, (g, w) in enumerate(zip(got.tolist(), want)):
                if w is not None and g != w.rstrip("\0"):
                    c.fail(f"{when}: [{k}]: string {j} is {g!r}, expected {w!r}; all: {got.tolist()!r}, expected {want!r}")

    different = False
    for _ in range(1 + c.draw(5)):
        k = c.draw(9)
        if k <= 3:
            i = slice(None)
        elif k <= 7:
            i = slice(bound(c, n), bound(c, n), c.pick([None, None, 1, 2, 3]))
        elif k == 8 and kind == 0:
            m = 1 + c.draw(4)
            c.note(f"expand by {m}")
            array.expand(m)
            n += m
            expected += [None] * m
            continue
        else:
            c.note("reopen")
            array = value = property_set = phenomenon = dataset = None
            dataset, array = reopen(path, kind, "w")
            verify("opened again")
            continue
        m = len(expected[i])
        if m == 0:
            continue
        strings = [string(c) for _ in range(m)]
        how = c.draw(4)
        # An element type that is wider than needed
        values = np.array(strings, f"U{max(len(s) for s in strings) + c.draw(3)}" if how == 1 else None)
        if how == 2:
            big = np.zeros(2 * m, values.dtype)
            big[::2] = values
            values = big[::2]
        elif how == 3 and all(s.isascii() for s in strings):
            values = np.array([s.encode() for s in strings])
            c.label("bytes")
        elif how == 4:
            # A number of strings that does not match
            m += c.pick([1, -1, 5])
            if m < 1:
                continue
            values = np.array((strings * 2 + ["x"] * 10)[:m], values.dtype)
            c.note(f"[{i}] = {m} strings, which is wrong")
            _, refusal = attempt(lambda: array.__setitem__(i, values))
            if refusal is None:
                # NumPy broadcasts one string
                if m == 1:
                    for j in range(n)[i]:
                        expected[j] = strings[0]
                else:
                    c.fail(f"[{i}] = {m} strings instead of {len(strings)}: accepted")
            verify("after a wrong assignment")
            c.label("wrong number")
            continue
        c.note(f"[{i}] = {strings!r} ({values.dtype})")
        array[i] = values
        for j, s in zip(range(n)[i], strings):
            expected[j] = s
        different |= len(set(strings)) > 1
        verify("after writing")
        if any(not s.isascii() for s in strings):
            c.label("not ASCII")
        if m < n:
            c.label("partial")
    array = value = property_set = phenomenon = dataset = None
    dataset, array = reopen(path, kind, c.pick(["r", "w"]))
    verify("at the end")
    if different:
        c.nontrivial()


if __name__ == "__main__":
    raise SystemExit(pt.main([
        pt.Property(
            "P01",
            "a case is an array of any element type and rank 1-4 in a dataset, written in full, opened again or not, and 1-12 "
            "index expressions (of integers, slices and tuples mostly); non-trivial if a selection of an array of rank 2 or more is compared",
            p01, 8000, 400000),
        pt.Property(
            "P02",
            "a case is an array of any element type and rank 1-3 in a dataset, and 1-10 assignments to index expressions, after each of "
            "which the whole array is compared; non-trivial if an assignment of several elements to an array of rank 2 or more is accepted",
            p02, 8000, 400000),
        pt.Property(
            "P03",
            "a case is an array of 1-25 strings, assigned in full and in part, expanded and opened again; non-trivial if different "
            "strings are assigned at once",
            p03, 8000, 400000),
    ]))
