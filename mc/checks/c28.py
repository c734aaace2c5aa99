"""C28: points, markers and pixels are drawn where projected, nearest last."""
import itertools
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from gsp.core import Color, Marker
from gsp_matplotlib import glm
from mc import draw, scene, world
from mc.core import expect
from mc.scene import eye, visual, Place

DPI = 50.0
# item attributes (never more than five items)
SIZES = np.array([100.0, 36.0, 64.0, 225.0, 16.0], np.float32)
WIDTHS = np.array([1.0, 2.5, 0.0, 4.0, 1.5], np.float32)
FILLS = np.array([[1, 0, 0, 1], [0, 1, 0, .5], [0, 0, 1, 1], [.2, .4, .6, 0], [.9, .8, .1, 1]], np.float32)
LINES = np.array([[0, 0, 0, 1], [1, 1, 0, 1], [0, .5, 1, .25], [1, 0, 1, 1], [.3, .3, .3, 1]], np.float32)
TYPES = np.array([int(Marker.star), int(Marker.arrow), int(Marker.square), int(Marker.heart), int(Marker.point)])
ANGLES = np.array([0.0, 30.0, -45.0, 90.0, 200.0], np.float32)
XY = np.array([[0, 0], [.5, .25], [-.75, .5], [.25, -.5], [-.5, -.875]])
DEPTHS = np.array([-.5, .75, .25, -.25, 0.5])
ONE = {"sizes": 49.0, "line_widths": 1.25, "fill_colors": Color(.1, .2, .3, .4), "line_colors": Color(.9, .8, .7, .6), "colors": Color(.5, .25, .75, 1), "types": Marker.cross, "angles": 15.0}
MANY = {"sizes": SIZES, "line_widths": WIDTHS, "fill_colors": FILLS, "line_colors": LINES, "colors": FILLS, "types": TYPES, "angles": ANGLES}
ATTRIBUTES = {"Points": ("sizes", "fill_colors", "line_colors", "line_widths"), "Markers": ("types", "sizes", "angles", "fill_colors", "line_colors", "line_widths"), "Pixels": ("colors",)}
COLOURS = ("fill_colors", "line_colors", "colors")

P3 = lambda a, b, c, d: np.array([[a, 0, 0, 0], [0, b, 0, 0], [0, 0, c, d], [0, 0, 0, 1.0]])


def matrices():
    r = np.radians(30)
    R = np.array([[np.cos(r), -np.sin(r), 0, 0], [np.sin(r), np.cos(r), 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])
    Y = np.array([[np.cos(r), 0, np.sin(r), 0], [0, 1, 0, 0], [-np.sin(r), 0, np.cos(r), 0], [0, 0, 0, 1]])
    T = np.array([[1, 0, 0, .1], [0, 1, 0, -.2], [0, 0, 1, -4], [0, 0, 0, 1.0]])
    S = np.diag([.5, 2.0, .75, 1])
    n, f, d = 1.0, 10.0, 3.0
    Q = np.array([[d, 0, 0, 0], [0, d, 0, 0], [0, 0, -(f + n) / (f - n), -2 * f * n / (f - n)], [0, 0, -1, 0]])
    return {"identity": (eye, eye, eye), "turned": (R, eye, eye), "moved": (eye, np.array([[1, 0, 0, .1], [0, 1, 0, -.2], [0, 0, 1, .3], [0, 0, 0, 1.0]]), eye), "scaled": (S, eye, eye), "ortho": (eye, eye, np.diag([.5, .5, -1, 1])),
            "perspective": (Y @ S, T, Q), "perspective only": (eye, T, Q), "all": (R, Y, np.diag([.8, .6, .5, 1])), "float32": (R.astype(np.float32), Y.astype(np.float32), np.eye(4, dtype=np.float32)), "ints": (np.eye(4, dtype=int),) * 3, "w": (eye, eye, np.diag([1, 1, 1, 2.0]))}


# unusual values of the attributes
ODD = {"sizes": (0.01, .04, .1, .25, 1.0, 2.0, 1e4), "line_widths": (0.0, .001, .01, .1, .25, .5, 30.0), "angles": (0.0, 1e-3, -.5, 180.0, -180.0, 359.0, 360.0, 361.0, 725.0, -1080.0),
       "types": tuple(int(t) for t in Marker), "fill_colors": ((0, 0, 0, 0), (0, 0, 0, 1), (1, 1, 1, 1), (1, 1, 1, 0), (0, 0, 0, .004), (.001, .002, .998, .999), (.5, .5, .5, .5))}
ODD["line_colors"] = ODD["colors"] = ODD["fill_colors"]


def attribute(name, form, n):
    """An attribute given in some form: (value, what it is for each item)."""
    if form.startswith("odd"):
        k, form = int(form.split(" ")[1]), form.split(" ")[2]
        v = ODD[name]
        if form == "one":
            v = v[k % len(v)]
            return Color(*v) if name in COLOURS else Marker(v) if name == "types" else v, [np.array(v, float) if name in COLOURS else v] * n
        a = np.array([v[(k + i) % len(v)] for i in range(n)], MANY[name].dtype)
        return scene.FORMS[form](name, a), list(a)
    if form == "one":
        v = ONE[name]
        return v, [np.array(v) if name in COLOURS else v] * n
    if form in ("list", "tuple", "array1", "glm1", "array2d"):      # a constant colour
        v = ONE[name]
        make = {"list": list, "tuple": tuple, "array1": lambda c: np.array(c, np.float32), "glm1": lambda c: scene.tracked(np.array([list(c)], np.float32)), "array2d": lambda c: np.array([list(c)])}[form]
        return make(v), [np.array(v)] * n
    if form == "np scalar":
        return np.float64(ONE[name]), [ONE[name]] * n
    if form.startswith("tiled"):
        a = np.resize(MANY[name], (n,) + MANY[name].shape[1:])
        return scene.FORMS[form.split(" ")[1]](name, a), list(a)
    a = MANY[name][:n]
    return scene.FORMS[form](name, a), list(a)


def expected(kind, place, Q, order, attrs):
    """What should be drawn, in order."""
    C = place.px(Q)
    k = place.dpi / 72
    for i in order:
        yield i, C[i], {n: v[i] for n, v in attrs.items()}, k


def compare(kind, place, prims, Q, attrs, what):
    z = np.round(Q[:, 2], 9)
    order = scene.ordered(Q[:, 2])
    expect(len(prims) == len([i for i in order if visible(kind, {n: v[i] for n, v in attrs.items()})]), "%s: %d things are drawn for %d items: %s", what, len(prims), len(order), prims[:8])
    it = iter(prims)
    for i, c, a, k in expected(kind, place, Q, order, attrs):
        if not visible(kind, a):
            continue
        p = next(it)
        w = "%s: item %d (drawn after %s)" % (what, i, order[:order.index(i)][-5:])
        scene.check_clip(p, place, w)
        if kind == "Pixels":
            scene.check_colors(p, a["colors"], None, 0, w)
            expect(np.abs(np.array(p.centre()) - c).max() < .02, "%s is at %s instead of %s", w, p.centre(), c)
            expect(0 < max(p.size()) <= 1.01, "%s covers %s pixels", w, p.size())
            continue
        scene.check_colors(p, a["fill_colors"], a["line_colors"], a["line_widths"] * k, w)
        d = np.sqrt(a["sizes"]) * k
        if kind == "Points":
            expect(np.abs(np.array(p.centre()) - c).max() < .02, "%s is at %s instead of %s", w, p.centre(), c)
            r = np.hypot(*(p.points() - c).T)
            expect(np.abs(np.array(p.size()) - d).max() < .02 and r.max() < d / 2 * 1.2, "%s has size %s instead of %s pixels", w, p.size(), d)
        else:
            path = scene.outline(a["types"], a["angles"])
            want = np.asarray(path.vertices) * (.5 / np.abs(scene_norm(a["types"])).max()) * d + c
            expect(len(p.vertices) == len(want), "%s: another outline", w)
            use = path.codes != 79
            err = np.abs(p.vertices - want)[use].max()
            expect(err < .02, "%s (%s, %s degrees, size %s) is drawn through %s instead of %s", w, Marker(int(a["types"])).name, a["angles"], a["sizes"], p.vertices[use][:4].tolist(), want[use][:4].tolist())


def scene_norm(t):
    return np.asarray(Marker.path(Marker(int(t))).vertices)


def visible(kind, a):
    """Items without fill nor outline may be left out."""
    if kind == "Pixels":
        return a["colors"][3] > 0
    return a["fill_colors"][3] > 0 or (a["line_colors"][3] > 0 and a["line_widths"] > 0)


def make(kind, positions, values):
    if kind == "Markers":
        return visual.Markers(positions, values["types"], values["sizes"], None, values["angles"], values["fill_colors"], values["line_colors"], values["line_widths"])
    if kind == "Points":
        return visual.Points(positions, values["sizes"], values["fill_colors"], values["line_colors"], values["line_widths"])
    return visual.Pixels(positions, values["colors"])


def positions(form, P):
    """Positions in some form: (value, coordinates)."""
    n = len(P)
    P = np.asarray(P, np.float32)
    if form == "vec2":
        return scene.tracked(P[:, :2]), np.c_[P[:, :2], np.zeros(n)]
    if form == "array2":
        return P[:, :2].copy(), np.c_[P[:, :2], np.zeros(n)]
    if form == "buffer2":
        return scene.buffer(P[:, :2]), np.c_[P[:, :2], np.zeros(n)]
    if form == "vec4":
        return scene.tracked(np.c_[P * 2, np.full(n, 2, np.float32)]), P
    if form == "grid":
        return P.reshape(2, -1, 3).copy(), P
    if form == "doubled":
        return scene.buffer_expr(P / 2) * 2, P
    if form == "pixels":
        return None, P           # see below
    return scene.FORMS[form]("positions", P), P


def run(kind, P, posform, forms, mats, recorded, rect=(10, 5, 90, 60), first=None):
    """Draws one visual; forms maps attribute names to forms."""
    world.restart()
    plt.close("all")
    try:
        gsp.io.record(recorded)
        place = Place(rect=rect, dpi=DPI)
        n = len(P)
        value, P = positions(posform, P)
        if posform == "pixels":         # a few pixels away from the places
            px = transform.Pixel()
            value = scene.tracked(P.astype(np.float32)) + (6, -4, 0) * px
            P = P + [6 * 2 * place.rx / place.w, -4 * 2 * place.ry / place.h, 0]
        values, attrs = {}, {}
        for name, form in forms.items():
            values[name], attrs[name] = attribute(name, form, n)
        v = make(kind, value, values)
        m = matrices()[mats]
        if first:
            v.render(place.viewport, *matrices()[first])
        v.render(place.viewport, *m)
        gsp.io.record(False)
        prims = draw.shot(place.figure)
        expect(len(prims) >= 1 and prims[0].fill == (1, 1, 1, 1), "no background")
        Q = scene.project(P, m[2] @ m[1] @ m[0])
        compare(kind, place, prims[1:], Q, attrs, "%s, %s" % (kind, forms))
        return np.round(Q, 6).tobytes(), tuple(sorted(forms.items()))
    finally:
        gsp.io.record(False)
        plt.close("all")


def stacking(case):
    """Every order of depths."""
    kind, n, perm, many, mats = case
    P = np.c_[XY[:n], DEPTHS[list(perm)]]
    return run(kind, P, "tracked", {a: ("tracked" if many else "one") for a in ATTRIBUTES[kind]}, mats, False)


def close(case):
    """Items whose depths hardly differ."""
    kind, perm, gap, base, mats, form = case
    P = np.c_[XY[:len(perm)], base + gap * np.array(perm)]
    m = matrices()[mats]
    Q = scene.project(np.asarray(P, np.float32), m[2] @ m[1] @ m[0])
    z = np.sort(Q[:, 2])
    if np.diff(z).min() < 1e-6:
        return "too close"
    return run(kind, P, form, {a: "tracked" for a in ATTRIBUTES[kind]}, mats, False)


def attributes(case):
    """Every attribute in every form."""
    kind, n, forms, recorded = case
    P = np.c_[XY[:n], DEPTHS[:n]]
    return run(kind, P, "tracked", dict(forms), "identity", recorded)


def places(case):
    """Positions in every form under every matrices, in several viewports."""
    kind, form, mats, n, rect, many, recorded = case
    P = np.c_[XY[:n], DEPTHS[:n]]
    if form in ("vec2", "array2", "buffer2"):
        n = 1 if mats not in ("perspective", "all", "float32") else n     # depths have to differ
        P = P[:n]
    return run(kind, P, form, {a: ("array" if many else "one") for a in ATTRIBUTES[kind]}, mats, recorded, rect)


def depth_colours(case):
    """Colours and sizes taken from what is drawn."""
    kind, n, perm, what, mats = case
    world.restart()
    plt.close("all")
    try:
        gsp.io.record(False)
        place = Place(dpi=DPI)
        P = np.c_[XY[:n], DEPTHS[list(perm)]]
        m = matrices()[mats]
        Q = scene.project(P, m[2] @ m[1] @ m[0])
        component, variable = what
        s = np.c_[Q[:, :2], Q[:, 2] if kind == "Pixels" else 1 - Q[:, 2]][:, "xyz".index(component)]
        out = transform.Out("screen[positions]." + component)
        values, attrs = {}, {}
        for a in ATTRIBUTES[kind]:
            values[a], attrs[a] = attribute(a, "one", n)
        for a in variable:
            if a in COLOURS:
                values[a] = transform.Colormap("gray")(transform.Out("screen[positions]." + component))
                v = (s - s.min()) / (s.max() - s.min())
                attrs[a] = [np.array(matplotlib.colormaps["gray"](x)) for x in v]
            elif a in ("sizes", "line_widths"):
                values[a] = transform.Out("screen[positions]." + component) * 2 + 4
                attrs[a] = list(s * 2 + 4)
            elif a == "angles":
                values[a] = transform.Out("screen[positions]." + component) * 45
                attrs[a] = list(s * 45)
        v = make(kind, scene.tracked(P.astype(np.float32)), values)
        v.render(place.viewport, *m)
        prims = draw.shot(place.figure)[1:]
        for a in variable:
            if a in COLOURS:      # maps have 256 entries
                for p, i in zip(prims, scene.ordered(Q[:, 2])):
                    c = p.stroke if a == "line_colors" else p.fill
                    expect(c is not None and draw.near(c, attrs[a][i], .006), "%s %s: item %d is %s instead of %s", kind, case, i, c, attrs[a][i])
                    attrs[a][i] = np.array(c)
        compare(kind, place, prims, Q, attrs, "%s %s" % (kind, what))
        return np.round(s, 5).tobytes()
    finally:
        plt.close("all")


ORDERS = {"nearest last": lambda n: np.arange(n), "nearest first": lambda n: np.arange(n)[::-1], "interleaved": lambda n: (np.arange(n) * 7 + 3) % n, "rotated": lambda n: np.roll(np.arange(n), n // 3), "halves": lambda n: np.r_[np.arange(0, n, 2), np.arange(1, n, 2)]}


def crowd(n, order):
    """Many places on a spiral, in some order of depths."""
    t = np.arange(n) / n
    return np.c_[.9 * t * np.cos(40 * t), .9 * t * np.sin(40 * t), (ORDERS[order](n) / n - .5) * 1.8]


def crowds(case):
    """Many items."""
    kind, n, order, form, mats = case
    return run(kind, crowd(n, order), "tracked", {a: form for a in ATTRIBUTES[kind]}, mats, False)


def far(case):
    """Items well outside of the viewport, or very close to one another."""
    kind, scale, shift, form, mats, many = case
    P = np.c_[XY[:4], DEPTHS[:4]] * scale + shift
    return run(kind, P, form, {a: ("array" if many else "one") for a in ATTRIBUTES[kind]}, mats, False)


RESOLUTIONS = (30.0, 50.0, 72.0, 92.5, 100.0, 144.0, 200.0, 400.0, 1000.0)


def resolutions(case):
    """Pixels are pixels of the canvas, whatever its resolution: the same picture for all."""
    w, h, rect, form, mats = case
    world.restart()
    gsp.io.record(False)
    try:
        x, y, a, b = rect or (0, 0, w, h)
        pts = sorted({(i, j) for i in (1, 4, a // 2, a - 2) for j in (2, b // 2, b - 3)})
        P = np.array([(((2 * i + 1.14) / a - 1) * a / min(a, b), ((2 * j + 1.14) / b - 1) * b / min(a, b), k / 100) for k, (i, j) in enumerate(pts)])
        m = {"identity": (eye, eye, eye), "scaled": (np.diag([2.0, 2, 1, 1]), eye, np.diag([.5, .5, 1, 1]))}[mats]
        first = None
        for dpi in RESOLUTIONS:
            plt.close("all")
            canvas = gsp_matplotlib.Canvas(w, h, dpi)
            v = gsp_matplotlib.Viewport(canvas, x, y, a, b, Color(1, 1, 1, 1))
            visual.Pixels(scene.FORMS[form]("positions", P), Color(0, 0, 0, 1)).render(v, *m)
            im = canvas.render(None).astype(int)
            ink = (255 - im[..., 0]).sum() / 255 / len(pts)
            expect(im.shape == (h, w, 4) and .2 < ink < 1.5, "%s: at %s dpi the picture (%s) has %s dark pixels for each", case, dpi, im.shape, ink)
            if first is None:
                first = im
            diff = np.abs(im - first).max()
            expect(diff <= 8, "%s: at %s dpi the picture differs (by %s) from that at %s dpi", case, dpi, diff, RESOLUTIONS[0])
        return first.tobytes()
    finally:
        plt.close("all")


def check(run_):
    kinds = ("Points", "Markers", "Pixels")
    N = run_.q(4, 5)
    run_.bounds.update(items=N, matrices=len(matrices()), forms=len(scene.FORMS))
    run_.cases("stacking", [(k, n, p, many, m) for k in kinds for n in range(1, N + 1) for p in itertools.permutations(range(n)) for many in (True, False) for m in (("identity", "perspective") if n < 5 or run_.thorough else ("identity",))], stacking)
    gaps = run_.q((1e-2, 1e-3, 2e-4, 2e-5), (1e-1, 1e-2, 1e-3, 2e-4, 1e-4, 2e-5))
    run_.bounds.update(closest="depths that differ by %s" % (gaps,))
    run_.cases("close", [(k, p, g, b, m, f) for k in kinds for n in (2, 3) for p in itertools.permutations(range(n)) for g in gaps for b in (0.0, -.5, .5) for m in ("identity", "perspective", "ortho") for f in run_.q(("tracked",), ("tracked", "array", "buffer"))], close)
    todo = []
    for k in kinds:
        names = ATTRIBUTES[k]
        forms = {a: ["one"] + list(scene.FORMS) + (["list", "tuple", "array1", "glm1", "array2d"] if a in COLOURS else ["np scalar"] if a in ("sizes", "line_widths") else []) for a in names}
        for n in (1, 3, 4):
            for rec in (False, True):
                # each form of each attribute, the others constant or given per item
                for a in names:
                    for f in forms[a]:
                        if rec and f in ("np scalar", "array1", "glm1", "array2d"):
                            continue
                        for other in ("one", "array"):
                            todo.append((k, n, tuple((b, f if b == a else other) for b in names), rec))
        # every mix of constants and items
        for n in range(1, N + 1):
            for mix in itertools.product(("one", "buffer"), repeat=len(names)):
                todo.append((k, n, tuple(zip(names, mix)), False))
        if run_.thorough:
            for a, b in itertools.combinations(names, 2):
                for f, g in itertools.product(forms[a], forms[b]):
                    for n in (2, 4):
                        todo.append((k, n, tuple((c, f if c == a else g if c == b else "one") for c in names), False))
    run_.bounds["odd values"] = "every unusual value of each attribute (no, tiny and large sizes, no colour, full turns, every kind of marker), constant or per item, others usual or unusual too"
    run_.cases("odd values", [(k, n, tuple((b, "odd %d %s" % (i, f) if b == a or other == "odd" else other) for b in ATTRIBUTES[k]), rec)
                              for k in kinds for a in ATTRIBUTES[k] for i in range(len(ODD[a])) for f in ("one", "array", "buffer") for n in (1, 3)
                              for other in ("one", "array", "odd") for rec in (False, True)], attributes)
    run_.cases("attributes", sorted(set(todo)), attributes)
    pf = list(scene.FORMS) + ["vec2", "array2", "buffer2", "vec4", "grid", "doubled", "pixels"]
    rects = run_.q([(10, 5, 90, 60), (20, 10, 30, 70)], [(10, 5, 90, 60), (20, 10, 30, 70), (0, 0, 120, 80), (-20, -10, 60, 60), (100, 60, 40, 40)])
    run_.cases("places", [(k, f, m, n, r, many, rec) for k in kinds for f in pf for m in matrices() for n in run_.q((4,), (2, 4)) for r in rects for many in run_.q((True,), (True, False)) for rec in run_.q((False,), (False, True))], places)
    ns = run_.q((62, 257, 1009), (31, 62, 127, 257, 509, 1009, 2053))
    run_.bounds["crowds"] = "%s items in %d orders of depth" % (ns, len(ORDERS))
    run_.cases("crowds", [(k, n, o, f, m) for k in kinds for n in ns for o in ORDERS for f in (("tiled array", "tiled tracked", "one") if n < 300 or run_.thorough else ("tiled array",)) for m in (("identity", "perspective") if n < 300 or run_.thorough else ("perspective",)) if n < 500 or run_.thorough or o in ("nearest first", "interleaved")], crowds)
    run_.cases("far", [(k, s, (d, e, 0), f, m, many) for k in kinds for s in (.05, 1, 3, 20, 300) for d in (0, -7, 90) for e in (0, 5) for f in ("tracked", "array") for m in ("identity", "all", "scaled") for many in (True, False)], far)
    run_.bounds["far"] = "items up to 300 viewports away, or in a twentieth of it"
    run_.cases("depths", [(k, n, p, (c, v), m) for k in kinds for n in range(2, N) for p in itertools.permutations(range(n)) for c in "xyz"
                          for v in {"Points": [("fill_colors",), ("line_colors",), ("sizes",), ("line_widths", "fill_colors")], "Markers": [("fill_colors",), ("line_colors", "sizes"), ("angles",), ("line_widths",)], "Pixels": [("colors",)]}[k]
                          for m in ("identity", "perspective")], depth_colours)
    run_.bounds["resolutions"] = "pixels on canvases of %d resolutions from %g to %g dots per inch" % (len(RESOLUTIONS), RESOLUTIONS[0], RESOLUTIONS[-1])
    run_.cases("resolutions", [(w, h, r, f, m) for w, h in run_.q(((60, 60), (61, 40), (33, 50)), ((60, 60), (61, 40), (33, 50), (200, 100), (40, 37)))
                               for r in (None, (5, 3, 20, 15), (1, 0, 11, 12)) for f in ("tracked", "array", "buffer") for m in ("identity", "scaled")], resolutions)
