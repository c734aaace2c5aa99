"""C18: partitioned lists behave as a list of runs over one shared data array."""
import contextlib, itertools
import numpy as np
import gsp, gsp_matplotlib
from gsp.object import Object
from gsp_matplotlib import glm
from gsp_matplotlib.glm.vlist import vlist
from mc import world
from mc.arrays import Mirror, tracking
from mc.core import System, expect

STRUCT = [("a", "<i2"), ("b", "<f4", 2)]
DATA = ("float", "int", "rows", "vec3", "struct", "strided", "list", "arrays", "tuples", "vecs", "rows list")
TYPES = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64")
NESTED = ("list", "arrays", "tuples", "vecs", "rows list")


def flat(kind, n):
    if kind in ("float", "list", "arrays", "tuples"):
        return np.arange(n) + 10.0
    if kind == "int":
        return np.arange(n, dtype=np.int16) + 10
    if kind == "strided":
        return (np.arange(2 * n) + 10.0)[::2]
    if kind in ("rows", "rows list"):
        return np.arange(2 * n).reshape(n, 2) + 10.0
    if kind in ("vec3", "vecs"):
        v = glm.vec3(n)
        v[...] = np.arange(3 * n).reshape(n, 3) + 10
        return v
    s = np.zeros(n, STRUCT)
    s["a"] = np.arange(n) + 10
    s["b"] = np.arange(2 * n).reshape(n, 2)
    return s


def partitions(n, most):
    """All sequences of sizes, zeros included, of sum n and length <= most."""
    for m in range(1, most + 1):
        for sizes in itertools.product(range(n + 1), repeat=m):
            if sum(sizes) == n:
                yield sizes


def build(kind, sizes, form):
    """(list, plain data, sizes)"""
    n = sum(sizes)
    data = flat(kind, n)
    plain = np.array(np.asarray(data))
    ends = np.cumsum(sizes)
    if kind in NESTED:
        items = [data[e - s:e] for s, e in zip(sizes, ends)]
        if kind == "list":
            items = [list(x) for x in items]
        elif kind == "tuples":
            items = tuple(tuple(x) for x in items)
        elif kind == "rows list":
            items = [x.tolist() for x in items]
            if 0 in sizes:
                return None
        return vlist(items), plain, sizes
    if form in ("int", "npint", "npubyte"):
        if len(set(sizes)) != 1 or sizes[0] == 0 or (form == "npubyte" and sizes[0] > 255):
            return None
        return vlist(data, {"int": int, "npint": np.int64, "npubyte": np.uint8}[form](sizes[0])), plain, sizes
    if form == "none":
        if len(sizes) != 1 or not n:
            return None
        return vlist(data), plain, sizes
    if form in TYPES:
        if max(sizes) > np.iinfo(form).max:
            return None
        arg = np.array(sizes, form)
    else:
        arg = {"list": list, "array": lambda s: np.array(s, int), "tuple": tuple, "nplist": lambda s: [np.uint16(x) for x in s] if max(s) < 65536 else None}[form](sizes)
        if arg is None:
            return None
    L = vlist(data, arg)
    expect(not n or np.shares_memory(np.asarray(L.data), np.asarray(data)), "the data is copied")
    return L, plain, sizes


def runs(plain, sizes):
    ends = np.cumsum(sizes)
    return [list(range(e - s, e)) for s, e in zip(sizes, ends)]


def same(got, want, fmt, *args):
    got = np.asarray(got)
    expect(got.shape == want.shape and got.dtype == want.dtype and got.tobytes() == want.tobytes(), fmt + ": %r instead of %r", *(args + (got, want)))


def verify(L, plain, sizes, what=""):
    R = runs(plain, sizes)
    expect(len(L) == len(sizes), "%slength %d instead of %d", what, len(L), len(sizes))
    expect(list(L.itemsize) == list(sizes), "%sitem sizes are %s", what, L.itemsize)
    expect(L.size == len(plain) and L.shape == plain.shape and L.dtype == plain.dtype, "%ssize %s shape %s type %s", what, L.size, L.shape, L.dtype)
    same(L.data, plain, what + "data")
    same(np.asarray(L), plain, what + "as an array")
    items = list(L)
    expect(len(items) == len(sizes), "%siteration gives %d items", what, len(items))
    for i, r in enumerate(R):
        same(items[i], plain[r], what + "item %d of the iteration", i)
        same(L[i], plain[r], what + "item %d", i)
        same(L[i - len(R)], plain[r], what + "item %d", i - len(R))
        same(L[np.int64(i)], plain[r], what + "item %d (numpy integer)", i)


def keys(n, depth):
    """Every slice and index list over n items."""
    bounds = [None] + list(range(-n - 1, n + 2)) if n <= 3 else [None, -n, -2, 0, 1, 2, n - 1, n]
    out = [("slice", a, b, s) for a in bounds for b in bounds for s in (None, 1, 2, -1, -2)]
    for m in range(depth + 1):
        out += [("list", k) for k in itertools.product(range(-n, n), repeat=m)]
    return out


def key_of(k, form):
    if k[0] == "slice":
        return slice(*k[1:])
    if k[0] == "int":
        return k[1]
    return {"list": list, "tuple": tuple}[form](k[1])


def indices(k, n):
    if k[0] == "int":
        return [range(n)[k[1]]]
    if k[0] == "slice":
        return list(range(n))[slice(*k[1:])]
    return [range(n)[i] for i in k[1]]


def read(case):
    kind, sizes, form, k, kform = case
    with tracking(None):
        b = build(kind, sizes, form)
        if b is None:
            return "not applicable"
        L, plain, sizes = b
        if k is None:
            verify(L, plain, sizes)
            for bad in (len(sizes), -len(sizes) - 1):
                try:
                    r = L[bad]
                except IndexError:
                    pass
                else:
                    expect(False, "item %d of %d is %r", bad, len(sizes), r)
            return (sizes,)
        idx = indices(k, len(sizes))
        R = runs(plain, sizes)
        sel = [j for i in idx for j in R[i]]
        got = L[key_of(k, kform)]
        same(got, plain[sel] if sel else plain[:0], "items %s", k[1:])
        if k[0] == "slice" and k[3] in (None, 1) and sel:
            expect(np.shares_memory(np.ndarray.view(got, np.ndarray), np.ndarray.view(np.asarray(L.data), np.ndarray)), "a range of items is a copy")
        same(L.data, plain, "after reading, data")
    return (sizes, tuple(sel))


def values(kind, plain, sel, vk, salt=0):
    if vk == "scalar":
        if plain.dtype.names:
            return (7, (8, 9)), np.array([(7, (8, 9))] * len(sel), plain.dtype)
        return 77 + salt, np.full((len(sel),) + plain.shape[1:], 77 + salt).astype(plain.dtype)
    v = np.zeros((len(sel),) + plain.shape[1:], plain.dtype)
    if plain.dtype.names:
        v["a"] = np.arange(len(sel)) + 50 + salt
    else:
        v[...] = (np.arange(v.size).reshape(v.shape) + 50 + salt)
    return (v.tolist() if vk == "list" else v), v


def write(case):
    kind, sizes, form, k, kform, vk = case
    with tracking(Mirror):
        del Mirror.made[:]
        b = build(kind, sizes, form)
        if b is None:
            return "not applicable"
        L, plain, sizes = b
        R = runs(plain, sizes)
        sel = [j for i in indices(k, len(sizes)) for j in R[i]]
        if vk == "list" and not sel and plain.ndim > 1:
            return "not applicable"     # refused by numpy
        val, want = values(kind, plain, sel, vk)
        L[key_of(k, kform)] = val
        for j, v in zip(sel, want):
            plain[j] = v
        verify(L, plain, sizes, "after writing %s, " % (k,))
        # items share the data: writing one changes the others that overlap, and the data
        if sizes[0] and not plain.dtype.names:
            L[0][...] = 5
            plain[R[0]] = 5
            L.data[-1] = 6
            plain[-1] = 6
            verify(L, plain, sizes, "after writing an item's data, ")
        t = getattr(L.data, "_tracker", None)
        if t is not None and sel and vk == "list":
            got = np.frombuffer(bytes(t.data), plain.dtype).reshape(plain.shape)
            for j in sel:
                expect(np.array_equal(got[j], plain[j]), "the tracker of the data is not signalled")
    return (sizes, tuple(sel))


def large(case):
    """Lists of many elements and of many items."""
    kind, sizes, form = case
    with tracking(None):
        b = build(kind, sizes, form)
        if b is None:
            return "not applicable"
        L, plain, sizes = b
        R = np.cumsum((0,) + sizes)
        expect(len(L) == len(sizes) and L.size == len(plain), "length %d, size %d", len(L), L.size)
        some = [i for i in (0, 1, len(sizes) // 2, len(sizes) - 2, len(sizes) - 1) if 0 <= i < len(sizes)]
        for i in some:
            same(L[i], plain[R[i]:R[i + 1]], "item %d", i)
            same(L[i - len(sizes)], plain[R[i]:R[i + 1]], "item %d", i - len(sizes))
        for i, item in enumerate(L):
            expect(len(item) == sizes[i], "item %d of the iteration has %d elements", i, len(item))
            if i in some:
                same(item, plain[R[i]:R[i + 1]], "item %d of the iteration", i)
        for i in some:
            L[i] = i + 3
            plain[R[i]:R[i + 1]] = i + 3
            same(L.data, plain, "after writing item %d, data", i)
        same(L[some[::-1]], np.concatenate([plain[R[i]:R[i + 1]] for i in some[::-1]]), "several items")
        same(L[some[0]:some[-1] + 1], plain, "all items")
        expect(list(L.itemsize) == list(sizes), "item sizes are %s", L.itemsize)
    return case[1:]


def invalid(case):
    kind, n, sizes, form = case
    with tracking(None):
        data = flat(kind, n)
        try:
            arg = sizes if isinstance(sizes, int) else {"list": list, "array": lambda s: np.array(s, int), "uint8": lambda s: np.array(s, "u1")}[form](sizes)
            L = vlist(data, arg)
        except (ValueError, ZeroDivisionError):
            return "refused"
        expect(False, "%d elements are partitioned by %s as %s", n, sizes, L)


class Writes(System):
    """Histories of writes through items and selections."""
    kind, sizes, form = "float", (1, 2, 0, 3), "list"
    KEYS = (("int", 0), ("int", -1), ("int", 2), ("slice", 1, None, None), ("slice", None, None, 2), ("slice", None, None, -1), ("list", (2, 0)),
            ("list", (1, 1)), ("list", (-1, 0)), ("slice", 2, 1, None), ("list", ()))

    def __init__(self):
        self.cm = tracking(None)
        self.cm.__enter__()
        self.L, self.plain, self.sz = build(self.kind, self.sizes, self.form)
        self.n = 0

    def ops(self):
        return [(i, vk) for i in range(len(self.KEYS)) for vk in ("scalar", "array")] + [("copy", i, j) for i in (0, 1, 3) for j in (0, 1, 3) if self.sizes[i] == self.sizes[j]] + [("held", 1)]

    def do(self, op):
        self.n += 1
        R = runs(self.plain, self.sz)
        if op[0] == "copy":
            self.L[op[1]] = self.L[op[2]]
            self.plain[R[op[1]]] = self.plain[R[op[2]]]
        elif op[0] == "held":
            self.L[op[1]][...] = self.n
            self.plain[R[op[1]]] = self.n
        else:
            k = self.KEYS[op[0]]
            sel = [j for i in indices(k, len(self.sz)) for j in R[i]]
            val, want = values(self.kind, self.plain, sel, op[1], self.n)
            self.L[key_of(k, "list")] = val
            for j, v in zip(sel, want):
                self.plain[j] = v

    def finish(self):
        verify(self.L, self.plain, self.sz)

    def close(self):
        self.cm.__exit__()


def protocol(case):
    """Lists of the protocol: one run per size, rebuilt by a replay."""
    kind, sizes, dform, sform, nested = case
    q = world.reset()
    n = sum(sizes)
    data = flat(kind, n)
    plain = np.array(np.asarray(data))
    ends = np.cumsum(sizes)
    want = [plain[e - s:e] for s, e in zip(sizes, ends)]
    if nested:
        arg = [x.tolist() for x in want]
        if kind in ("rows", "vec3") and 0 in sizes:
            return "not applicable"
        b = gsp.io.convert(arg, "List")
        want = [np.array(x, dtype=np.array([i for a in arg for i in a] or [0]).dtype).reshape((len(x),) + plain.shape[1:]) for x in arg]
    else:
        if sform == "int":
            if len(set(sizes)) != 1 or not sizes[0]:
                return "not applicable"
            sz = sizes[0]
        else:
            sz = {"list": list, "tuple": tuple, "array": np.array}[sform](sizes) if sform not in TYPES else np.array(sizes, sform)
            sz = gsp.io.convert(sz, "Buffer")
        b = gsp_matplotlib.core.List(gsp.io.convert(data if dform == "array" else data.tolist(), "Buffer"), sz)
        if dform == "list":
            want = [np.array(x.tolist(), dtype=np.array(plain.tolist()).dtype).reshape(x.shape) for x in want]
    for turn in ("", "replayed, "):
        expect(len(b) == len(sizes), "%slength %d instead of %d", turn, len(b), len(sizes))
        got = list(b)
        expect(len(got) == len(want), "%s%d runs instead of %d", turn, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            g = np.asarray(g)
            expect(g.shape == w.shape and g.dtype == w.dtype and g.tobytes() == w.tobytes(), "%srun %d is %r instead of %r", turn, i, g, w)
        A = np.asarray(b)
        expect(A.tobytes() == b"".join(w.tobytes() for w in want), "%sthe data is %r", turn, A)
        bid = b.id
        Object.objects = {}
        q.run(gsp_matplotlib)
        b = Object.objects[bid]
    return (sizes, kind)


MIXED = {"int8": [1, -2], "uint8": [200, 3], "int16": [300, -300], "int32": [70000], "int64": [2 ** 40, 1, -1], "float16": [.5, 2], "float32": [.1, 3e10], "float64": [1e-3, 1e100], "bool": [True, False]}


def mixed(case):
    """Items of several types: the data holds them all, whatever their order."""
    types, form, how = case
    items = [np.array(MIXED[t], t) for t in types]
    common = np.result_type(*[i.dtype for i in items])
    if form == "tracked":
        given = [np.array(i).view(glm.ndarray.tracked) for i in items]
    elif form == "list":
        given = [i.tolist() for i in items]
        common = np.concatenate(given).dtype
    else:
        given = [i.copy() for i in items]
    with contextlib.nullcontext() if how == "List" else tracking(None):
        if how == "tuple":
            given = tuple(given)
        if how == "List":
            world.reset()
            L = gsp.io.convert(given, "List")
        else:
            L = vlist(given)
        expect(len(L) == len(items), "%d items instead of %d", len(L), len(items))
        got = list(L)
        for i, (g, w) in enumerate(zip(got, items)):
            for x in (g, L[i]) if how != "List" else (g,):
                x = np.asarray(x)
                expect(x.dtype == common, "%s: item %d is of type %s instead of %s", case, i, x.dtype, common)
                expect(np.array_equal(x, w.astype(common)), "%s: item %d is %r instead of %r", case, i, x, w)
    return case


def check(run):
    most = run.q(4, 6)
    parts = [s for n in range(1, most + 1) for s in partitions(n, most)]
    forms = ("list", "array", "tuple", "int", "none", "npint", "npubyte", "nplist") + TYPES
    cases = [(kind, s, f, None, "list") for kind in DATA for s in parts for f in (forms if kind not in NESTED else ("list",))]
    for s in parts:
        if sum(s) > run.q(4, 5) or len(s) > run.q(4, 5):
            continue
        for k in keys(len(s), run.q(2, 3) if len(s) <= 4 else 2):
            kinds = ("float", "rows") if k[0] == "list" and len(k[1]) > 1 else ("float", "vec3", "struct", "list")
            cases += [(kind, s, "list", k, kf) for kind in kinds for kf in (("list", "tuple") if k[0] == "list" else ("list",))]
    run.bounds["partitions"] = "all partitions (zeros included) of 1..%d elements into <= %d items, %d data forms, %d size forms; every slice with bounds in the domain and steps 1,2,-1,-2; every index list of length <= %d" % (most, most, len(DATA), len(forms), run.q(2, 3))
    run.cases("reads", cases, read)
    cases = []
    for s in parts:
        if sum(s) > run.q(3, 4) or len(s) > run.q(3, 4):
            continue
        ks = [("int", i) for i in range(-len(s), len(s))] + keys(len(s), 2)
        for k in ks:
            for vk in ("scalar", "array", "list"):
                for kind in ("float", "vec3", "struct", "list"):
                    if kind == "struct" and vk == "list":
                        continue
                    cases += [(kind, s, "list", k, kf, vk) for kf in (("list", "tuple") if k[0] == "list" and kind == "float" else ("list",))]
    run.cases("writes", cases, write)
    many = [(40000, 1, 2), (1, 70000, 5), (300,) * 300, (1, 2) * 200, (127, 128, 129), (255, 1, 256), (0, 33000, 0, 33000), (100000,), (200, 100, 100), (100,) * 3, (127, 1, 0, 127)]
    cases = [(t, f, h) for n in run.q((2, 3), (2, 3, 4)) for t in itertools.product(MIXED, repeat=n) for f in ("array", "tracked", "list") for h in ("list", "tuple", "List") if n < 3 or f == "array" and h == "list"]
    run.bounds["mixed"] = "items of all pairs and triples of %d element types" % len(MIXED)
    run.cases("mixed", cases, mixed)
    run.cases("large", [(k, s, f) for k in ("float", "rows", "vec3") for s in many for f in ("list", "array", "nplist", "int", "npint", "npubyte") + TYPES], large)
    cases = []
    for kind in ("float", "rows", "vec3"):
        for n in range(0, 6):
            for m in (1, 2, 3):
                for s in itertools.product(range(-2, 5), repeat=m):
                    if sum(s) != n or min(s) < 0:
                        cases += [(kind, n, s, f) for f in ("list", "array", "uint8") if f != "uint8" or min(s) >= 0]
            for k in range(-3, 8):
                if k <= 0 or n % k:
                    cases.append((kind, n, k, "int"))
    run.bounds["invalid"] = "all size lists of length <= 3 over -2..4 and all integers -3..7 that do not partition 0..5 elements"
    run.cases("invalid", cases, invalid)
    for kind in ("float", "vec3", "struct", "list"):
        for s in ((1, 2, 0, 3), (2, 2, 2, 2), (0, 1, 1, 0)):
            cls = type("Writes", (Writes,), {"kind": kind, "sizes": s})
            run.explore("histories-%s-%s" % (kind, "".join(map(str, s))), cls, run.q(2, 3))
    cases = [(kind, s, d, f, nst) for kind in ("float", "int", "rows", "vec3", "struct") for s in parts for d in ("array", "list") for f in ("int", "list", "tuple", "array")
             for nst in (False, True) if not (nst and (f != "list" or d != "array" or kind == "struct")) and not (kind == "struct" and d == "list")]
    run.cases("protocol", cases, protocol)
    run.cases("protocol-large", [(k, s, "array", f, False) for k in ("float", "rows", "vec3") for s in many[:1] + many[4:] for f in ("list", "array") + TYPES if f not in TYPES or max(s) <= np.iinfo(f).max], protocol)
