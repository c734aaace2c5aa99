"""C16: vector construction and conversion preserve coordinates."""
import itertools
import numpy as np
import gsp_matplotlib
from gsp_matplotlib import glm
from gsp_matplotlib.glm import ndarray as nd
from mc.arrays import tracking
from mc.core import expect

TYPES = {"b": np.uint8, "i": np.int32, "u": np.uint32, "h": np.float16, "": np.float32, "d": np.float64}
COUNTS = (None, 0, 1, 2, 3, 4, 5, (2, 3), (3,), (1, 1))


def construct(case):
    """Constructors: type, shape, class, independence."""
    kind, prefix, k, count, tracker = case
    from mc.arrays import Mirror
    with tracking(Mirror if tracker else None):
        f = getattr(glm, "%s%s%d" % (prefix, kind, k))
        a = f() if count is None else f(count)
        b = f() if count is None else f(count)
        batch = () if count is None else (count,) if isinstance(count, int) else tuple(count)
        shape = batch + ((k,) if kind == "vec" else (k, k))
        expect(a.shape == shape, "%s%s%d(%r) has shape %s", prefix, kind, k, count, a.shape)
        expect(a.dtype == TYPES[prefix], "%s%s%d has type %s", prefix, kind, k, a.dtype)
        expect(type(a) is getattr(nd, "%s%d" % (kind, k)), "%s%s%d is a %s", prefix, kind, k, type(a).__name__)
        expect(a.flags.c_contiguous and a.flags.writeable, "%s%s%d is not an ordinary array", prefix, kind, k)
        expect(not a.size or not np.may_share_memory(a, b), "two %s%s%d share their memory", prefix, kind, k)
        expect(getattr(nd, "%s%d_t" % (kind, k))(TYPES[prefix]) == np.dtype((TYPES[prefix], shape[len(batch):])), "wrong data type")
        values = (np.arange(a.size).reshape(shape) * 3 + 1).astype(a.dtype)
        a[...] = values
        expect(np.array_equal(np.asarray(a), values), "coordinates are not kept")
        # over existing memory
        if count not in (None, 0) and kind == "vec":
            raw = np.arange(a.size + 3).astype(a.dtype)
            v = getattr(nd, "%s%d" % (kind, k))(count, TYPES[prefix], raw, raw.itemsize)
            expect(np.array_equal(np.asarray(v).ravel(), raw[1:1 + a.size]), "vectors over memory have other coordinates")
            expect(np.shares_memory(np.ndarray.view(v, np.ndarray), raw), "vectors over memory are copies")
    return (kind, prefix, k, count)


def scalars(case):
    name, count = case
    f, t = {"byte": (glm.byte, np.int8), "ubyte": (glm.ubyte, np.uint8), "float": (glm.float, np.float32)}[name]
    with tracking(None):
        a = f() if count is None else f(count)
        batch = () if count is None else (count,) if isinstance(count, int) else tuple(count)
        n = int(np.prod(batch))
        expect(a.dtype == t and a.size == n, "%s(%r) has %d items of type %s", name, count, a.size, a.dtype)
        a[...] = 7
        expect(np.all(np.asarray(a) == 7), "%s does not keep values", name)
    return case


SOURCES = ("vec", "array", "list", "tuple", "rows list", "slice", "fortran", "reversed", "column", "broadcast", "read-only")
DT = ("uint8", "int32", "float16", "float32", "float64")


# whole items scaled by powers of two whose inverse is beyond the type
SCALES = {"tiny": (2.0 ** -131, 2.0 ** -18), "huge": (2.0 ** 120, 2.0 ** 8)}


def coordinates(n, k, dt, pattern):
    """Items with distinct coordinates; the last of four is a divisor."""
    a = np.zeros((n, k))
    for i in range(n):
        for j in range(k):
            a[i, j] = (i * 4 + j * 3 + 2) * 2
    if k == 4:
        w = {"ones": [1] * 8, "twos": [2] * 8, "mixed": [1, 2, 4, 8, 2, 1], "halves": [0.5, 0.25, 1, 2, 4, .5], "negative": [-1, -2, 4, -.5, -8, -1]}[{"tiny": "twos", "huge": "mixed"}.get(pattern, pattern)]
        a[:, 3] = w[:n]
        if pattern in SCALES:
            a *= SCALES[pattern][dt == "float16"]
    return a.astype(dt)


def source(form, a):
    n, k = a.shape
    if form == "vec":
        v = getattr(nd, "vec%d" % k)(n, a.dtype)
        v[...] = a
        return v
    if form == "array":
        return a.copy()
    if form == "list":
        return a.tolist()
    if form == "tuple":
        return tuple(tuple(r) for r in a.tolist())
    if form == "rows list":
        return [a[i] for i in range(n)]
    if form == "slice":
        v = getattr(nd, "vec%d" % k)(2 * n, a.dtype)
        v[...] = 99
        v[::2] = a
        return v[::2]
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "reversed":
        return a[::-1].copy()[::-1]
    if form == "column":
        w = np.full((n, k + 2), 77, a.dtype)
        w[:, 1:1 + k] = a
        return w[:, 1:1 + k]
    if form == "broadcast":
        return np.broadcast_to(a[0], (n, k)) if n else a
    if form == "read-only":
        b = a.copy()
        b.flags.writeable = False
        return b


def convert(case):
    """to_vec2/3/4 over items of 2, 3 and 4 components."""
    n, k, target, dt, form, out, pattern = case
    if "int" in dt and pattern in ("halves", "negative", "tiny", "huge"):
        return "not applicable"
    with tracking(None):
        a = coordinates(n, k, dt, pattern)
        if form == "broadcast" and n:
            a = np.repeat(a[:1], n, axis=0)
        src = source(form, a)
        if form in ("list", "tuple") and not n:
            return "not applicable"
        keep = np.array(src)
        f = getattr(glm, "to_vec%d" % target)
        r = f(src) if out is None else f(src, out)
        common = a.astype(float)
        common = common[:, :target] if target < k or k == target else common
        if k == 4 and target < 4:
            common = common / a.astype(float)[:, 3:]
        fill = {(2, 3): [0], (2, 4): [0, 1], (3, 4): [1]}.get((k, target), [])
        want = np.concatenate([common] + [np.full((n, 1), x, float) for x in fill], axis=1) if fill else common
        want = want.astype(out or np.array(src).dtype)
        expect(isinstance(r, getattr(nd, "vec%d" % target)), "the result is a %s", type(r).__name__)
        expect(r.shape == (n, target), "the result has shape %s", r.shape)
        expect(r.dtype == want.dtype, "the result has type %s instead of %s", r.dtype, want.dtype)
        expect(np.array_equal(np.asarray(r), want), "%r gives\n%r\ninstead of\n%r", src, r, want)
        expect(np.array_equal(np.array(src), keep), "the source is modified")
        if isinstance(src, np.ndarray) and r.size:
            expect(not np.shares_memory(np.asarray(r).view(np.ndarray), np.ndarray.view(src, np.ndarray)), "the result shares the memory of its source")
            r[...] = 1
            expect(np.array_equal(np.array(src), keep), "the source changes with the copy")
    return r.tobytes() + str(case).encode()


def flat(case):
    """One-dimensional sources: consecutive coordinates."""
    size, target, dt, form, out = case
    with tracking(None):
        a = ((np.arange(size) * 3 + 2) % 100).astype(dt)
        src = {"list": a.tolist(), "tuple": tuple(a.tolist()), "array": a, "slice": np.repeat(a, 2)[::2], "reversed": a[::-1].copy()[::-1],
               "tracked": a.view(nd.tracked)}[form]
        f = getattr(glm, "to_vec%d" % target)
        try:
            r = f(src) if out is None else f(src, out)
        except TypeError:
            expect(size % target, "%d numbers are refused", size)
            return "refused"
        expect(size % target == 0, "%d numbers are accepted", size)
        want = np.array(src).astype(out or np.array(src).dtype).reshape(-1, target)
        expect(r.shape == want.shape and r.dtype == want.dtype and np.array_equal(np.asarray(r), want), "%r gives\n%r", src, r)
        expect(isinstance(r, getattr(nd, "vec%d" % target)), "the result is a %s", type(r).__name__)
        if isinstance(src, np.ndarray) and r.size:
            expect(not np.shares_memory(np.asarray(r), np.asarray(src)), "the result shares the memory of its source")
    return str(case)


def refused(case):
    """Anything else has no such conversion."""
    shape, target = case
    f = getattr(glm, "to_vec%d" % target)
    with tracking(None):
        try:
            r = f(np.ones(shape))
        except TypeError:
            return "refused"
        except Exception as e:
            expect(False, "an array of shape %s raises %r", shape, e)
        expect(False, "an array of shape %s gives %r", shape, r)


def view(case):
    """as_vec2/3/4: the same coordinates, sharing memory."""
    shape, target, dt, form, out = case
    with tracking(None):
        size = int(np.prod(shape))
        a = ((np.arange(size) * 3 + 2) % 100).astype(dt).reshape(shape)
        if form == "list":
            src = a.tolist()
        elif form == "tracked":
            src = a.copy().view(nd.tracked)
        elif form == "vec":
            if shape[-1] not in (2, 3, 4):
                return "not applicable"
            src = a.copy().view(getattr(nd, "vec%d" % shape[-1]))
        elif form == "half":
            src = np.repeat(a, 2, axis=0)[::2]
        elif form == "fortran":
            src = np.asfortranarray(a)
        elif form == "columns":
            src = np.repeat(a, 2, axis=-1)[..., :a.shape[-1]]
            src[...] = a
        elif form == "reversed":
            src = a[::-1].copy()[::-1]
        elif form == "transposed":
            src = a.T.copy().T
        else:
            src = a.copy()
        f = getattr(glm, "as_vec%d" % target)
        want = np.array(src).reshape(-1, target).astype(out or np.array(src).dtype)
        r = f(src) if out is None else f(src, out)
        expect(isinstance(r, getattr(nd, "vec%d" % target)), "the result is a %s", type(r).__name__)
        expect(r.shape == want.shape and r.dtype == want.dtype and np.array_equal(np.asarray(r), want), "%r gives\n%r\ninstead of\n%r", src, r, want)
        plain = np.ndarray.view(src, np.ndarray) if isinstance(src, np.ndarray) else None
        if plain is not None and out is None and size and np.shares_memory(plain.reshape(-1, target), plain):
            expect(np.shares_memory(np.ndarray.view(r, np.ndarray), np.ndarray.view(src, np.ndarray)), "the view is a copy")
            r[0, 0] = 55
            expect(np.ndarray.view(src, np.ndarray).flat[0] == 55, "writing through the view does not change the array")
    return str(case)


def divided(case):
    """Any last component divides the others, up to the precision of the type."""
    ws, target, dt, form = case
    with tracking(None):
        a = coordinates(len(ws), 4, "float64", "ones") * 37.5
        a[:, 3] = ws
        a = a.astype(dt)
        r = np.asarray(getattr(glm, "to_vec%d" % target)(source(form, a)), float)
        a = a.astype(float)
        want = a[:, :target] / a[:, 3:]
        expect(np.all(np.abs(r - want) <= np.abs(want) * 4 * np.finfo(dt).eps), "%r gives\n%r\ninstead of\n%r", a, r, want)
    return r.tobytes()


def chain(case):
    """Chains of conversions: what both ends have is kept, in order."""
    n, path, dt = case
    with tracking(None):
        a = coordinates(n, path[0], dt, "ones")
        v = a
        for k in path[1:]:
            v = getattr(glm, "to_vec%d" % k)(v)
        low = min(path)
        want = np.zeros((n, 4))
        want[:, 3] = 1
        cols = min(low, 3) if low < 4 else 4
        want[:, :cols] = a[:, :cols]
        expect(np.array_equal(np.asarray(v), want[:, :path[-1]].astype(dt)), "%s: %r gives\n%r", path, a, v)
    return str(case)


def check(run):
    cases = [(kind, p, k, c, t) for kind in ("vec", "mat") for p in TYPES for k in (2, 3, 4) for c in COUNTS for t in (False, True)]
    run.cases("constructors", cases, construct)
    run.cases("scalars", [(n, c) for n in ("byte", "ubyte", "float") for c in COUNTS], scalars)
    ns = run.q((0, 1, 2, 3, 4), (0, 1, 2, 3, 4, 5, 6))
    cases = [(n, k, t, dt, f, o, p) for n in ns for k in (2, 3, 4) for t in (2, 3, 4) for dt in DT for f in SOURCES
             for o in (None, "float32", "float64", "int32") for p in (("ones", "twos", "mixed", "halves", "negative", "tiny", "huge") if k == 4 else ("ones",))]
    run.bounds["conversions"] = "%s items of 2..4 components, %d types, %d source forms, forced types, homogeneous coordinates" % (ns, len(DT), len(SOURCES))
    run.cases("conversions", cases, convert)
    # divisors on both sides of one (and of others), nearer and nearer
    ws = [b * (1 + g * 2.0 ** -k) for b in (1, -1, 2, 1e-3, 250) for k in range(1, 22) for g in (1, -1)] + [1, 3, 7, .1, -.3]
    run.bounds["divisors"] = "%d divisors, down to one part in two millions from a round one, alone or several" % len(ws)
    run.cases("divisors", [(c, t, dt, f) for t in (2, 3) for dt in ("float16", "float32", "float64") for f in ("vec", "array", "list", "slice", "column", "reversed") if dt == "float64" or f != "list"
                           for c in [(w,) for w in ws] + [(1.0, w) for w in ws] + list(zip(ws, ws[7:], ws[3:])) if dt != "float16" or min(map(abs, c)) > .01], divided)
    cases = [(s, t, dt, f, o) for s in range(run.q(14, 26)) for t in (2, 3, 4) for dt in DT for f in ("list", "tuple", "array", "slice", "reversed", "tracked")
             for o in (None, "float64", "int32")]
    run.cases("flat", cases, flat)
    shapes = [(n, k) for n in (1, 2, 3) for k in (1, 5, 6)] + [(2, 2, 2), (1, 2, 3), (2, 3, 4), (1, 1, 1, 2), ()]
    run.cases("refused", [(s, t) for s in shapes for t in (2, 3, 4)], refused)
    cases = []
    for t in (2, 3, 4):
        for shape in [(n * t,) for n in range(5)] + [(n, t) for n in range(5)] + [(2, n, t) for n in (1, 2, 3)] + [(t, n) for n in (1, 2, 3)] + [(12,), (12, 2), (6, 4), (4, 3)]:
            for dt in DT:
                for f in ("array", "list", "tracked", "vec", "half", "fortran", "columns", "reversed", "transposed"):
                    for o in (None, "float64", "uint8"):
                        if f == "list" and 0 in shape:
                            continue
                        cases.append((shape, t, dt, f, o))
    run.cases("views", cases, view)
    cases = [(n, p, dt) for n in (1, 2, 3, 4) for m in (2, 3, 4) for p in itertools.product((2, 3, 4), repeat=m) for dt in ("float32", "int32")]
    run.cases("chains", cases, chain)
