"""C13: dirty regions cover every modification until cleared; copies are independent."""
import copy, itertools
import numpy as np
from mc import arrays
from mc.arrays import KEYS, Mirror, Refused, chain, getkey, tracking
from mc.core import System, expect


def marker(kind):
    """A plain array of the same layout, all bytes zero."""
    with tracking(None):
        m = np.ndarray.view(arrays.make(kind), np.ndarray)
    if m.base is not None and m.ndim and not m.flags.owndata:
        pass
    m[...] = np.frombuffer(b"\0" * m.dtype.itemsize, m.dtype)[0] if m.dtype.itemsize else 0
    return m


def ones(dt):
    return np.frombuffer(b"\x01" * dt.itemsize, dt)[0]


def touched(kind, names, key):
    """Bytes (first, last+1) of the array written by an assignment, None when nothing is."""
    m = marker(kind)
    v = chain(m, names, True)
    if not np.shares_memory(v, m):
        return None
    if key in arrays.INPLACE:
        v[...] = ones(v.dtype)
    elif key.startswith("@"):
        for c in key[1:]:
            v[..., "xyzw".index(c)] = ones(v.dtype)
    else:
        k = getkey(key, v)
        r = v[k]
        v[k] = ones(r.dtype if hasattr(r, "dtype") else v.dtype)
    raw = np.frombuffer(m.tobytes(), np.uint8)
    idx = np.nonzero(raw)[0]
    return (int(idx[0]), int(idx[-1]) + 1) if len(idx) else None


_cache = {}


def touched_cached(kind, names, key):
    c = (kind, names, key)
    if c not in _cache:
        _cache[c] = touched(kind, names, key)
    return _cache[c]


def write(v, key):
    if key in arrays.INPLACE:
        if v.dtype.names:
            raise Refused()
        getattr(v, arrays.INPLACE[key])(2)
    elif key.startswith("@"):
        from gsp_matplotlib.glm.ndarray import swizzle
        if not isinstance(v, swizzle) or v.ndim == 0 or v.shape[-1] != {"vec2": 2, "vec3": 3, "vec4": 4}.get(type(v).__name__):
            raise Refused()
        setattr(v, key[1:], 1)
    else:
        v[getkey(key, v)] = 1


def hull(a, b):
    if b is None:
        return a
    if a is None:
        return b
    return (min(a[0], b[0]), max(a[1], b[1]))


def normal(d):
    if d is None:
        return None
    d = tuple(int(x) for x in d)
    return d if d[1] > d[0] else None


def exact(kind, key):
    """Is the region known exactly? (selections by masks are only bounded by the array, and arrays
    that are not stored contiguously are described through a contiguous copy)"""
    return kind not in ("fortran", "viewed stride", "viewed field") and key not in ("mask", "index", "list")


def verify(a, kind, region, what, is_exact):
    got = normal(a.dirty)
    if is_exact:
        expect(got == region, "%s: dirty region %r instead of %r", what, got, region)
    else:
        expect(got is not None if region else True, "%s: nothing is dirty", what)
        if region:
            expect(got[0] <= region[0] and got[1] >= region[1] and got[0] >= 0 and got[1] <= a.nbytes,
                   "%s: dirty region %r does not cover %r", what, got, region)


def single(case):
    kind, names, key = case
    names = tuple(names)
    with tracking(None):
        a = arrays.make(kind)
        n = np.ndarray.view(a, np.ndarray).nbytes
        whole = (0, n) if n else None
        verify(a, kind, whole, "new array", True)
        v = chain(a, names, False)
        try:
            write(v, key)
        except (Refused, NotImplementedError):
            return "refused"
        verify(a, kind, whole, "modified new array", True)
        a.clear()
        expect(normal(a.dirty) is None, "after a clear %r is dirty", a.dirty)
        v = chain(a, names, False)
        expect(normal(a.dirty) is None, "making a view dirties %r", a.dirty)
        write(v, key)
        r = touched_cached(kind, names, key)
        verify(a, kind, r, "after %s[%s] =" % (names, key), exact(kind, key))
        if np.shares_memory(np.ndarray.view(v, np.ndarray), np.ndarray.view(a, np.ndarray)):
            # a view reports and clears the region of the array
            expect(normal(v.dirty) == normal(a.dirty), "a view reports %r instead of %r", v.dirty, a.dirty)
            v.clear()
            expect(normal(a.dirty) is None and normal(v.dirty) is None, "clearing through a view leaves %r", a.dirty)
    return (kind, r)


DERIVED = {"copy": lambda a: a.copy(), "plus": lambda a: a + 1, "times": lambda a: 2 * a, "minus": lambda a: a - a, "negative": lambda a: -a,
           "astype": lambda a: a.astype(a.dtype), "sqrt": lambda a: np.sqrt(a), "mask": lambda a: a[np.ones(a.shape, bool)],
           "list": lambda a: a[[0]], "flatten": lambda a: a.flatten(), "copy.copy": lambda a: copy.copy(a),
           "repeat": lambda a: a.repeat(2, 0), "concatenate": lambda a: np.concatenate([a, a]), "where": lambda a: np.where(a == a, a, a),
           "array": lambda a: np.array(a, subok=True), "slice copy": lambda a: a[1:].copy(), "slice plus": lambda a: a[1:] + 1,
           "field copy": lambda a: a["p"].copy(), "component copy": lambda a: a[..., 0].copy(), "letters": lambda a: a.yx,
           "letter": lambda a: a.x, "sorted": lambda a: np.sort(a), "dot": lambda a: a @ np.eye(a.shape[-1]), "zeros_like": lambda a: np.zeros_like(a),
           "empty_like": lambda a: np.empty_like(a), "compress": lambda a: a.take([0], axis=0), "sum": lambda a: a.sum(axis=0)}
MODIFY = ("all", "0", "1:", "...,0", "p", "+=", "*=", "-=", "/=", "@x", "colon")


def derive(case):
    kind, how, mod, tracked, prepared = case
    with tracking(Mirror if tracked else None):
        del Mirror.made[:]
        a = arrays.make(kind)
        np.ndarray.view(a, np.ndarray)[...] = 1
        if prepared == "cleared":
            a.clear()
        elif prepared == "written":
            a[...] = 2
            a.clear()
            if a.ndim:
                a[:1] = 3
            else:
                a[...] = 3
        try:
            d = DERIVED[how](a)
        except (TypeError, IndexError, ValueError, AttributeError, np.exceptions.AxisError if hasattr(np, "exceptions") else ValueError):
            return "not applicable"
        if not isinstance(d, np.ndarray):
            return "not an array"
        plain = not hasattr(d, "dirty")     # numpy gives a plain array
        if np.shares_memory(np.ndarray.view(d, np.ndarray), np.ndarray.view(a, np.ndarray)):
            return "a view"
        raw, dirty = a.tobytes(), normal(a.dirty)
        ups = len(a._tracker.updates) if tracked and a._tracker else 0
        if not tracked and not plain:
            n = d.nbytes
            expect(normal(d.dirty) == ((0, n) if n else None), "%s: the new array's dirty region is %r", how, d.dirty)
        try:
            if mod in arrays.INPLACE:
                getattr(d, arrays.INPLACE[mod])(1)
            elif mod.startswith("@"):
                write(d, mod)
            else:
                d[getkey(mod, d)] = 9
        except (Refused, IndexError, ValueError, TypeError, NotImplementedError):
            pass
        if not plain:
            d.clear()
        expect(a.tobytes() == raw, "modifying the %s of an array changed the array", how)
        expect(normal(a.dirty) == dirty, "modifying the %s of an array marked %r instead of %r", how, a.dirty, dirty)
        if tracked and a._tracker:
            expect(len(a._tracker.updates) == ups, "modifying the %s of an array signalled the array", how)
            expect(getattr(d, "_tracker", None) is not a._tracker, "the %s shares the tracker of the array", how)
        # nor the other way round
        draw = d.tobytes()
        a[...] = 4
        if not tracked and not plain:
            expect(normal(d.dirty) is None, "modifying an array marked its %s: %r", how, d.dirty)
        expect(d.tobytes() == draw, "modifying an array changed its %s", how)
    return (kind, how)


class Regions(System):
    """Writes, in-place operations and clears through held views; computed results in between."""
    kind = "vec4"
    STEPS = ("1:", "::2", ":,1:", "...,0", "0", "p", "T")
    WRITES = ("all", "0", "1:", "-1", "...,0", "n", "@x", "+=")

    def __init__(self):
        self.cm = tracking(None)
        self.cm.__enter__()
        self.a = arrays.make(self.kind)
        np.ndarray.view(self.a, np.ndarray)[...] = 1
        self.whole = (0, self.a.nbytes)
        self.region = self.whole
        self.views = [((), self.a)]
        self.derived = None
        self.dregion = None

    def ops(self):
        from mc.checks.c12 import applicable
        ops = []
        m = marker(self.kind)
        if len(self.views) < 3:
            for i, (c, v) in enumerate(self.views):
                for s in self.STEPS:
                    try:
                        x = chain(m, c + (s,), True)
                        if not np.shares_memory(x, m):
                            continue
                    except Refused:
                        continue
                    ops.append(("view", i, s))
        for i, (c, v) in enumerate(self.views):
            for k in self.WRITES:
                if applicable(self.kind, c, k):
                    ops.append(("write", i, k))
            ops.append(("clear", i))
        ops.append(("derive", "copy"))
        if not m.dtype.names:
            ops.append(("derive", "plus"))
        if self.derived is not None:
            ops += [("dwrite",), ("dclear",)]
        return ops

    def do(self, op):
        k = op[0]
        if k == "view":
            c, v = self.views[op[1]]
            self.views.append((c + (op[2],), chain(v, (op[2],), False)))
        elif k == "write":
            c, v = self.views[op[1]]
            try:
                write(v, op[2])
                self.region = hull(self.region, touched_cached(self.kind, c, op[2]))
            except Refused:
                pass
        elif k == "clear":
            self.views[op[1]][1].clear()
            self.region = None
        elif k == "derive":
            self.derived = DERIVED[op[1]](self.views[-1][1])
            self.dregion = (0, self.derived.nbytes) if self.derived.nbytes else None
            self.dn = self.derived.nbytes
        elif k == "dwrite":
            d = self.derived
            if d.ndim:
                d[...] = 3
                self.dregion = (0, self.dn) if self.dn else None
        elif k == "dclear":
            self.derived.clear()
            self.dregion = None
        for c, v in self.views:
            expect(normal(v.dirty) == self.region, "after %r view %s reports %r instead of %r", op, c, v.dirty, self.region)
        if self.derived is not None:
            expect(normal(self.derived.dirty) == self.dregion, "after %r the computed array reports %r instead of %r", op,
                   self.derived.dirty, self.dregion)

    def key(self):
        return ([c for c, _ in self.views], self.region, self.dregion, None if self.derived is None else self.derived.shape)

    def close(self):
        self.cm.__exit__()


def check(run):
    from mc.checks.c12 import TARGETS, applicable
    steps = ("1:", "::2", "::-1", ":1", "0", "-1", ":,0", ":,1:", "...,0", "1:,:1", "0,...", "new", "p", "c", "n", "T", "reshape",
             "squeeze", "view", "as_vec", "swap", "ravel", "copy")
    cases = []
    depth = run.q(2, 3)
    targets = [t for t in TARGETS if t not in ("9",) and not (t.startswith("@") and not set(t[1:]) <= set("xyzw"))]
    for kind in arrays.KINDS:
        a = marker(kind)
        for names in arrays.chains(a, depth, steps):
            keys = targets + list(arrays.INPLACE)
            if len(names) >= 2:
                keys = [k for k in keys if k in ("all", "0", "-1", "1:", "::2", "...,0", "p", "n", "mask", "@x", "@yx", "+=", "/=")]
            if len(names) >= 3:
                keys = [k for k in keys if k in ("all", "0", "1:", "...,0", "p", "@x", "+=")]
            for k in keys:
                if applicable(kind, names, k):
                    v = chain(a, names, True)
                    if k == "p" and not v.dtype.names:
                        continue
                    if k.startswith("@") and (v.dtype.names or not v.ndim or max("xyzw".index(c) for c in k[1:]) >= v.shape[-1]):
                        continue
                    cases.append((kind, names, k))
    run.bounds["regions"] = ("%d array kinds; every applicable view chain of depth <= %d over %d view steps; %d targets; in-place operations"
                             % (len(arrays.KINDS), depth, len(steps), len(targets)))
    run.cases("regions", cases, single)
    run.cases("derived", list(itertools.product(arrays.KINDS, DERIVED, MODIFY, (False, True), ("new", "cleared", "written"))), derive)
    d = run.q(4, 6)
    for kind in (("vec4", "struct", "line") if not run.thorough else ("vec4", "struct", "line", "table", "viewed part", "mat2", "vec2")):
        cls = type("Regions_" + kind, (Regions,), {"kind": kind})
        run.explore("histories-" + kind, cls, d, max_states=run.q(10000, 60000))
    run.bounds["histories"] = "all histories of <= %d writes, in-place operations, clears, views and computed results (merged by region)" % d
