"""C29: segments, paths and polygons draw exactly the partition they are given."""
import itertools
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
import gsp
from gsp import transform
from gsp.core import Color, LineCap, LineJoin, LineStyle
from gsp_matplotlib import glm
from mc import draw, scene, world
from mc.core import expect
from mc.scene import eye, visual, core, Place
from mc.checks.c28 import ORDERS, crowd, matrices, FILLS, LINES, ONE, DPI

WIDTHS = np.array([1.0, 2.5, 0.5, 4.0, 1.5, 3.0], np.float32)
FILLS = np.vstack([FILLS, [[.1, .2, .3, .9]]]).astype(np.float32)
LINES = np.vstack([LINES, [[.4, .2, .8, 1]]]).astype(np.float32)
MANY = {"line_widths": WIDTHS, "fill_colors": FILLS, "line_colors": LINES}
COLOURS = ("fill_colors", "line_colors")
ATTRIBUTES = {"Segments": ("line_colors", "line_widths"), "Paths": ("line_colors", "line_widths"), "Polygons": ("fill_colors", "line_colors", "line_widths")}

# vertices in general position, every subset has another mean depth
XYZ = np.array([[-.8, -.6, .3127], [.7, -.5, -.2239], [.1, .9, .5711], [-.3, .2, -.7193], [.9, .3, .1303], [-.6, .8, -.4567], [.4, -.9, .8341], [-.95, .1, .0521], [.2, .4, -.9237]])


def attribute(name, form, n):
    if form == "one":
        v = ONE[name]
        return v, [np.array(v) if name in COLOURS else v] * n
    if form in ("list", "tuple", "array1", "glm1"):
        v = ONE[name]
        make = {"list": list, "tuple": tuple, "array1": lambda c: np.array(c, np.float32), "glm1": lambda c: scene.tracked(np.array([list(c)], np.float32))}[form]
        return make(v), [np.array(v)] * n
    a = np.resize(MANY[name], (n,) + MANY[name].shape[1:])
    return scene.FORMS[form](name, a), list(a)


def compositions(n, low):
    """Every way of cutting n vertices into runs of at least `low`."""
    if n == 0:
        return [()]
    return [(k,) + r for k in range(low, n + 1) for r in compositions(n - k, low)]


def runs(sizes):
    s = 0
    out = []
    for k in sizes:
        out.append(tuple(range(s, s + k)))
        s += k
    return out


def spellings(items, n):
    """Every way of giving that partition of n vertices (name: indices)."""
    sizes = [len(i) for i in items]
    out = {}
    flat = [j for i in items for j in i]
    if flat == list(range(len(flat))):
        out["sizes"] = np.array(sizes)
        out["int32 sizes"] = np.array(sizes, np.int32)
        out["uint8 sizes"] = np.array(sizes, np.uint8)
        out["list of sizes"] = list(sizes)
        out["tuple of sizes"] = tuple(sizes)
        out["buffer of sizes"] = ("buffer", np.array(sizes, np.int32))
        out["tracked sizes"] = ("tracked", np.array(sizes))
        out["field of sizes"] = ("field", np.array(sizes, np.uint16))
        if len(set(sizes)) == 1 and len(flat) == n:
            out["size"] = sizes[0]
    out["lists"] = [list(i) for i in items]
    out["arrays"] = ("arrays", [list(i) for i in items])
    out["vlist"] = ("vlist", [list(i) for i in items])
    out["List"] = ("List", np.array(flat, np.int32), np.array(sizes, np.int32))
    if len(set(sizes)) == 1:
        out["List of size"] = ("List", np.array(flat, np.int32), sizes[0])
    return out


def indices(v):
    if isinstance(v, tuple) and isinstance(v[0], str):
        kind = v[0]
        if kind == "buffer":
            return scene.buffer(v[1])
        if kind == "tracked":
            return scene.tracked(v[1])
        if kind == "field":
            return scene.FORMS["field"]("sizes", v[1])
        if kind == "arrays":
            return [np.array(i) for i in v[1]]
        if kind == "vlist":
            return glm.vlist(v[1])
        if kind == "List":
            return core.List(scene.buffer(v[1]), scene.buffer(v[2]) if isinstance(v[2], np.ndarray) else v[2])
    return v


def make(kind, positions, idx, values, style=(LineStyle.solid, LineJoin.round, LineCap.round)):
    if kind == "Segments":
        return visual.Segments(positions, style[2], values["line_colors"], values["line_widths"])
    if kind == "Paths":
        return visual.Paths(positions, idx, values["line_colors"], values["line_widths"], *style)
    return visual.Polygons(positions, idx, values["fill_colors"], values["line_colors"], values["line_widths"], *style[:2])


def compare(kind, place, prims, Q, items, attrs, what):
    z = [Q[list(i), 2].mean() for i in items]
    expect(len(z) < 2 or np.diff(np.sort(z)).min() > 1e-5, "harness: items at the same depth %s", what)
    order = [i for i in scene.ordered(z)]
    C = place.px(Q)
    k = DPI / 72
    shown = [i for i in order if attrs["line_colors"][i][3] > 0 and attrs["line_widths"][i] > 0 or kind == "Polygons" and attrs["fill_colors"][i][3] > 0]
    expect(len(prims) == len(shown), "%s: %d things are drawn for %d items", what, len(prims), len(shown))
    for p, i in zip(prims, shown):
        w = "%s: item %d %s" % (what, i, items[i])
        scene.check_clip(p, place, w)
        scene.check_colors(p, attrs["fill_colors"][i] if kind == "Polygons" else None, attrs["line_colors"][i], attrs["line_widths"][i] * k, w)
        want = C[list(items[i])]
        got = p.points()
        if kind == "Polygons":
            expect((p.codes is not None and p.codes[-1] == 79) or np.abs(got[-1] - got[0]).max() < .02, "%s is not closed", w)
            if len(got) == len(want) + 1:
                expect(np.abs(got[-1] - got[0]).max() < .02, "%s goes through %s", w, got.tolist())
                got = got[:-1]
        else:
            expect(p.codes is None or 79 not in p.codes, "%s is closed", w)
        expect(p.codes is None or (1 not in p.codes[1:]), "%s is in several pieces", w)
        expect(len(got) == len(want) and np.abs(got - want).max() < .02, "%s goes through %s instead of %s", w, np.round(got, 2).tolist(), np.round(want, 2).tolist())


def positions(form, P):
    P = np.asarray(P, np.float32)
    if form == "pairs":
        return scene.tracked(P).reshape(-1, 2, 3), P
    if form == "glm pairs":
        v = glm.vec3((len(P) // 2, 2))
        v[...] = P.reshape(-1, 2, 3)
        return v, P
    if form == "array pairs":
        return P.reshape(-1, 2, 3).copy(), P
    if form == "buffer pairs":
        return scene.buffer(P.reshape(-1, 2, 3)), P
    if form == "field pairs":
        return scene.FORMS["field"]("p", P.reshape(-1, 2, 3)), P
    if form in ("vec2", "vec2 pairs"):
        v = scene.tracked(P[:, :2])
        return (v.reshape(-1, 2, 2) if form == "vec2 pairs" else v), np.c_[P[:, :2], np.zeros(len(P))]
    if form == "doubled":
        return scene.buffer_expr(P / 2) * 2, P
    return scene.FORMS[form]("positions", P), P


def run(kind, P, posform, items, idx, forms, mats, recorded, rect=(10, 5, 90, 60), style=None, replay=False):
    world.restart()
    plt.close("all")
    try:
        gsp.io.record(recorded)
        place = Place(rect=rect, dpi=DPI)
        value, P = positions(posform, P) if posform != "pixels" else (None, P)
        if posform == "pixels":
            value = scene.tracked(np.asarray(P, np.float32)) + (6, -4, 0) * transform.Pixel()
            P = P + [6 * 2 * place.rx / place.w, -4 * 2 * place.ry / place.h, 0]
        values, attrs = {}, {}
        for name, form in forms.items():
            values[name], attrs[name] = attribute(name, form, len(items))
        v = make(kind, value, indices(idx), values, *([style] if style else []))
        m = matrices()[mats]
        v.render(place.viewport, *m)
        q = gsp.io.queue("active") if recorded else None
        gsp.io.record(False)
        Q = scene.project(P, m[2] @ m[1] @ m[0])
        prims = draw.shot(place.figure)[1:]
        compare(kind, place, prims, Q, items, attrs, "%s %s %s" % (kind, mats, forms))
        if style:
            cap = {LineCap.butt: "butt", LineCap.round: "round", LineCap.cap: "projecting"}[style[2]]
            expect(kind != "Paths" or all(p.cap == cap for p in prims), "%s: caps are %s instead of %s", kind, prims and prims[0].cap, cap)
        if replay:
            plt.close("all")
            q.run(scene.gsp_matplotlib)
            compare(kind, place, draw.shot()[1:], Q, items, attrs, "replayed %s %s %s" % (kind, mats, forms))
        return np.round(Q, 6).tobytes(), tuple(items)
    finally:
        gsp.io.record(False)
        plt.close("all")


def partitions(case):
    """A partition in every spelling."""
    kind, n, items, mats, many, shift = case
    P = np.roll(XYZ, shift, axis=0)[:n]
    out = None
    for name, idx in spellings(items, n).items():
        try:
            forms = {a: "array" if many else "one" for a in ATTRIBUTES[kind]}
            out = run(kind, P, "tracked", items, idx, forms, mats, False)
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise type(e)("%s given as %s: %s" % (items, name, e))
            raise
    return out


def recorded(case):
    """Recorded and replayed in the same process."""
    kind, n, items, name, many = case
    forms = {a: "tracked" if many else "one" for a in ATTRIBUTES[kind]}
    return run(kind, XYZ[:n], "tracked", items, spellings(items, n)[name], forms, "identity", True, replay=True)


def attributes(case):
    kind, items, forms, rec, mats = case
    n = 1 + max(j for i in items for j in i)
    return run(kind, XYZ[:n], "tracked", items, [list(i) for i in items], dict(forms), mats, rec)


def stacking(case):
    """Every order of mean depths, segments of every count."""
    kind, perm, many, mats = case
    n = len(perm)
    P = np.zeros((2 * n, 3)) if kind == "Segments" else np.zeros((3 * n, 3))
    k = len(P) // n
    for i, p in enumerate(perm):
        P[k * i:k * i + k] = XYZ[[(i + j) % 9 for j in range(k)]]
        P[k * i:k * i + k, 2] = (np.array([-.8, .8, .1])[:k] * (.1 + .05 * p)) + p * .11 - .2
    items = runs([k] * n)
    forms = {a: "array" if many else "one" for a in ATTRIBUTES[kind]}
    return run(kind, P, "tracked", items, k, forms, mats, False)


def places(case):
    kind, form, mats, rect, rec, many = case
    items = runs([2, 2, 2]) if kind == "Segments" else runs([3, 3])
    P = XYZ[:6]
    if form.startswith("vec2") and mats not in ("perspective", "all", "float32"):
        P, items = P[:len(items[0])], items[:1]      # depths have to differ
    forms = {a: "array" if many else "one" for a in ATTRIBUTES[kind]}
    return run(kind, P, form, items, len(items[0]), forms, mats, rec, rect)


def styles(case):
    kind, cap, join, rec = case
    items = runs([2, 3])
    return run(kind, XYZ[:5], "tracked", items, [2, 3], {a: "one" for a in ATTRIBUTES[kind]}, "identity", rec, style=(LineStyle.solid, LineJoin[join], LineCap[cap]), replay=rec)


def wide(case):
    """Sizes of every integer type whose sum is more than that type can hold."""
    kind, dtype, form, items = case
    n = sum(items)
    t = np.arange(n) / n
    P = np.c_[1.6 * t - .8, .8 * np.cos(50 * t), np.zeros(n)]
    R = runs(items)
    for k, i in enumerate(R):
        P[list(i), 2] = .2 * (k + 1) * (-1) ** k
    if form == "List":
        idx = ("List", np.arange(n, dtype=np.int32), np.array(items, dtype))
    elif form == "list":
        idx = [np.dtype(dtype).type(k) for k in items]
    else:
        idx = {"array": lambda v: v, "buffer": lambda v: ("buffer", v), "tracked": lambda v: ("tracked", v)}[form](np.array(items, dtype))
    out = run(kind, P, "tracked", R, idx, {a: "array" for a in ATTRIBUTES[kind]}, "identity", False)
    return dtype, out[1] and len(R)


def counts(case):
    """As many items as vertices, fewer, or more: each with its own colours and width."""
    kind, n, m, form, colours, mats = case
    k = 2 if kind == "Paths" else 3
    items = list(itertools.islice(itertools.combinations(range(n), k), m))
    idx = [list(i) for i in items] if form == "lists" else ("List", np.array(items, np.int32).ravel(), k)
    return run(kind, XYZ[:n], "tracked", items, idx, {a: colours for a in ATTRIBUTES[kind]}, mats, False)


def crowds(case):
    """Many items."""
    kind, n, order, form, mats = case
    k = 2 if kind == "Segments" else 3
    P = np.repeat(crowd(n, order), k, axis=0)
    P[:, :2] += np.resize([[-.05, 0], [.05, .02], [0, .1]][:k], (n * k, 2))
    return run(kind, P, "tracked", runs([k] * n), k, {a: form for a in ATTRIBUTES[kind]}, mats, False)


def far(case):
    """Vertices well outside of the viewport, or very close to one another."""
    kind, scale, shift, mats, many = case
    items = runs([2, 2, 2]) if kind == "Segments" else runs([3, 3])
    P = XYZ[:6] * scale + shift
    return run(kind, P, "tracked", items, len(items[0]), {a: "array" if many else "one" for a in ATTRIBUTES[kind]}, mats, False)


def check(run_):
    N = run_.q(6, 8)
    todo = []
    for kind, low in (("Paths", 2), ("Polygons", 3)):
        for n in range(low, N + 1):
            for sizes in compositions(n, low):
                for shift in run_.q((0,), (0, 4)):
                    todo += [(kind, n, runs(sizes), m, many, shift) for m in ("identity", "perspective") for many in (True, False)]
        # some vertices left out at the end
        todo += [(kind, n + e, runs(s), "identity", True, 0) for n in range(low, 6) for s in compositions(n, low) for e in (1, 2)]
        # indirect vertices: every sequence of indices, every pair of short ones
        k = run_.q(4, 5)
        seqs = [s for r in range(low, 4 if not run_.thorough else 5) for s in itertools.permutations(range(k), r)]
        todo += [(kind, k, [s], "identity", True, 0) for s in seqs]
        rep = [(0, 1, 0), (2, 2, 1), (0, 1, 2, 0), (3, 1, 3, 1)]
        todo += [(kind, 4, [s], "perspective", False, 0) for s in rep]
        pairs = [(a, b) for a in seqs for b in seqs if sorted(a) != sorted(b)]
        todo += [(kind, k, list(p), "identity", True, 0) for p in pairs[::run_.q(7 if low == 2 else 3, 1)][:run_.q(300, 4000)]]
        todo += [(kind, 9, [(8, 0, 4), (1, 7, 3), (2, 3, 5), (6, 8, 1)], m, True, 0) for m in ("identity", "perspective", "all")]
        todo += [(kind, 9, [(0, 1, 2, 3), (4, 5, 6), (3, 1, 7, 8, 2)], m, many, 0) for m in matrices() for many in (True, False)]
    run_.cases("partitions", todo, partitions)
    rec = []
    for kind in ("Paths", "Polygons"):
        for n, items in ((6, runs([3, 3])), (7, runs([3, 4])), (6, [(0, 1, 2), (5, 3, 4)]), (4, [(3, 1, 2)]), (9, [(8, 0, 4), (1, 7, 3, 2), (2, 3, 5), (6, 8, 1)])):
            rec += [(kind, n, items, name, many) for name in spellings(items, n) if name not in ("vlist",) for many in (True, False)]
    run_.cases("recorded", rec, recorded)
    run_.cases("stacking", [(k, p, many, m) for k in ATTRIBUTES for n in range(1, run_.q(5, 6)) for p in itertools.permutations(range(n)) for many in (True, False) for m in ("identity", "perspective")], stacking)
    todo = []
    for k in ATTRIBUTES:
        names = ATTRIBUTES[k]
        forms = {a: ["one"] + [f for f in scene.FORMS if f != "array*1" or True] + (["list", "tuple", "array1", "glm1"] if a in COLOURS else []) for a in names}
        for items in ([(0, 1)], [(0, 1), (2, 3), (4, 5)], [(0, 1), (2, 3), (4, 5), (6, 7)]) if k == "Segments" else ([(0, 1, 2)], [(0, 1, 2), (3, 4, 5)], [(0, 1, 2), (2, 3, 4), (4, 5, 6), (6, 7, 8, 1)]):
            for combo in itertools.product(*[forms[a] for a in names]) if len(names) == 2 or run_.thorough else [tuple(f if b == a else o for b in names) for a in names for f in forms[a] for o in ("one", "array")]:
                for rec in (False, True):
                    if not (rec and any(f in ("array1", "glm1") for f in combo)):
                        todo.append((k, items, tuple(zip(names, combo)), rec, "identity"))
    run_.cases("attributes", todo if run_.thorough else [t for i, t in enumerate(todo)], attributes)
    rects = [(10, 5, 90, 60), (20, 10, 30, 70)] + run_.q([], [(0, 0, 120, 80), (-20, -10, 60, 60)])
    forms = {"Segments": list(scene.FORMS) + ["pairs", "glm pairs", "array pairs", "buffer pairs", "field pairs", "vec2", "vec2 pairs", "doubled", "pixels"],
             "Paths": list(scene.FORMS) + ["glm pairs", "doubled", "pixels"], "Polygons": list(scene.FORMS) + ["glm pairs", "doubled", "pixels"]}
    run_.cases("places", [(k, f, m, r, rec, many) for k in ATTRIBUTES for f in forms[k] for m in matrices() for r in rects for rec in run_.q((False,), (False, True)) for many in run_.q((True,), (True, False))], places)
    run_.cases("styles", [(k, c, j, rec) for k in ("Paths", "Polygons") for c in ("butt", "round", "cap") for j in ("miter", "round", "bevel") for rec in (False, True)], styles)
    todo = [(k, n, m, f, c, w) for k in ("Paths", "Polygons") for n in range(3, run_.q(6, 8)) for m in range(1, n + 4) for f in ("lists", "List") for c in ("array", "tracked", "buffer", "one") for w in ("identity", "perspective")
            if m <= len(list(itertools.combinations(range(n), 2 if k == "Paths" else 3)))]
    run_.bounds["counts"] = "1..n+3 items over n = 3..%d vertices" % run_.q(5, 7)
    run_.cases("counts", todo, counts)
    ns = run_.q((62, 257, 509), (31, 62, 127, 257, 509, 1009, 2053))
    run_.bounds["crowds"] = "%s items in %d orders of depth" % (ns, len(ORDERS))
    run_.cases("crowds", [(k, n, o, f, m) for k in ATTRIBUTES for n in ns for o in ORDERS for f in (("array", "one") if n < 300 or run_.thorough else ("array",)) for m in (("identity", "moved") if n < 300 or run_.thorough else ("moved",)) if n < 500 or run_.thorough or o in ("nearest first", "interleaved")], crowds)
    run_.cases("far", [(k, s, (d, e, 0), m, many) for k in ATTRIBUTES for s in (.05, 1, 3, 20, 300) for d in (0, -7, 90) for e in (0, 5) for m in ("identity", "all", "scaled") for many in (True, False)], far)
    run_.bounds["far"] = "vertices up to 300 viewports away, or in a twentieth of it"
    sums = {"i1": [(100, 100, 100), (127, 3), (60, 60, 60, 60)], "u1": [(200, 200), (250, 10, 250), (255, 3)], "i2": [(20000, 20000)], "u2": [(40000, 40000)], "i4": [(100, 100, 100)], "u4": [(200, 200)], "i8": [(200, 200)], "u8": [(200, 200)]}
    run_.cases("wide", [(k, d, f, i) for k in ("Paths", "Polygons") for d in sums for i in sums[d] for f in ("array", "buffer", "tracked", "list", "List")
                        if run_.thorough or sum(i) < 1000 or f == "array"], wide)
    run_.bounds["wide"] = "runs whose sizes are held on 1 to 8 bytes, signed or not, and sum to more than the type can hold"
