"""C27: named colours, markers and simple value types keep their documented meaning."""
import itertools
import numpy as np
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp.core import Color, Marker
from gsp.core.types import Matrix, Vec2, Vec3, Vec4
from mc import svgref, world
from mc.core import System, expect

# Outlines of the icons the documentation refers to (letters and parameters)
A10 = (10, 10, 0, 0, 0)
ICONS = {
    "point": [("M", (12, 2)), ("A", A10 + (2, 12)), ("A", A10 + (12, 22)), ("A", A10 + (22, 12)), ("A", A10 + (12, 2)), ("Z", ())],
    "triangle": [("M", (1, 21)), ("H", (23,)), ("L", (12, 2)), ("Z", ())],
    "square": [("M", (3, 3)), ("V", (21,)), ("H", (21,)), ("V", (3,)), ("Z", ())],
    "minus": [("M", (20, 14)), ("H", (4,)), ("V", (10,)), ("H", (20,)), ("Z", ())],
    "plus": [("M", (20, 14)), ("H", (14,)), ("V", (20,)), ("H", (10,)), ("V", (14,)), ("H", (4,)), ("V", (10,)), ("H", (10,)), ("V", (4,)), ("H", (14,)), ("V", (10,)), ("H", (20,)), ("V", (14,)), ("Z", ())],
    "cross": [("M", (20, 6.91))] + [("L", p) for p in ((17.09, 4), (12, 9.09), (6.91, 4), (4, 6.91), (9.09, 12), (4, 17.09), (6.91, 20), (12, 14.91), (17.09, 20), (20, 17.09), (14.91, 12), (20, 6.91))] + [("Z", ())],
    "star": [("M", (12, 17.27))] + [("L", p) for p in ((18.18, 21), (16.54, 13.97), (22, 9.24), (14.81, 8.62), (12, 2), (9.19, 8.62), (2, 9.24), (7.45, 13.97), (5.82, 21), (12, 17.27))] + [("Z", ())],
    "diamond": [("M", (19, 12)), ("L", (12, 22)), ("L", (5, 12)), ("L", (12, 2)), ("Z", ())],
    "arrow": [("M", (14, 20)), ("H", (10,)), ("V", (11,)), ("L", (6.5, 14.5)), ("L", (4.08, 12.08)), ("L", (12, 4.16)), ("L", (19.92, 12.08)), ("L", (17.5, 14.5)), ("L", (14, 11)), ("V", (20,)), ("Z", ())],
}
NUMBERS = dict(point=1, triangle=2, square=3, minus=4, plus=5, cross=6, star=7, club=8, heart=9, spade=10, diamond=11, arrow=12)


def polyline(path):
    """Places along an outline (curves included)."""
    out = []
    for s in svgref.decode(path):
        P = s[1:]
        if s[0] == "move":
            out.append(P[0])
        elif s[0] in ("line", "close"):
            out += [P[0] + (P[1] - P[0]) * t for t in np.linspace(0, 1, 17)[1:]]
        elif s[0] == "quad":
            out += [(1 - t) ** 2 * P[0] + 2 * t * (1 - t) * P[1] + t * t * P[2] for t in np.linspace(0, 1, 17)[1:]]
        else:
            out += [(1 - t) ** 3 * P[0] + 3 * t * (1 - t) ** 2 * P[1] + 3 * t * t * (1 - t) * P[2] + t ** 3 * P[3] for t in np.linspace(0, 1, 17)[1:]]
    return np.array(out)


def inside(q, p):
    """Even-odd test of points against a closed polyline."""
    x, y = q[:, 0][:, None], q[:, 1][:, None]
    x1, y1 = p[:, 0], p[:, 1]
    x2, y2 = np.roll(x1, -1), np.roll(y1, -1)
    cross = ((y1 > y) != (y2 > y)) & (x < (x2 - x1) * (y - y1) / np.where(y2 == y1, 1, y2 - y1) + x1)
    return cross.sum(axis=1) % 2 == 1


def outline(name):
    """One marker: documented number, closed outline in the unit square, shape of its icon."""
    m = Marker[name]
    expect(int(m) == NUMBERS[name] and len(Marker) == len(NUMBERS), "%s is number %d", name, m)
    path = Marker.path(m)
    for other in (int(m), np.int64(m), np.uint8(m), Marker(int(m))):
        p = Marker.path(other)
        expect(np.array_equal(p.vertices, path.vertices) and np.array_equal(p.codes, path.codes), "%s given as %r", name, other)
    V = np.asarray(path.vertices)
    expect(np.abs(V).max() <= .5 + 1e-9 and np.all(np.isfinite(V)), "%s leaves the unit square", name)
    S = svgref.decode(path)
    expect([s[0] for s in S].count("move") == 1 and S[-1][0] == "close", "%s is not one closed outline", name)
    P = polyline(path)
    size = P.max(axis=0) - P.min(axis=0)
    expect(size.max() > .7, "%s is %s wide and high", name, size)
    # every symbol is symmetrical about a vertical axis
    mid = (P[:, 0].max() + P[:, 0].min()) / 2
    g = np.stack(np.meshgrid(np.linspace(-.5, .5, 61), np.linspace(-.5, .5, 61)), axis=-1).reshape(-1, 2) + 1e-4
    I = inside(g, P)
    J = inside(g * (-1, 1) + (2 * mid, 0), P)
    expect((I != J).mean() < .01, "%s is not symmetrical", name)
    expect(.02 < I.mean() <= 1, "%s covers %s of its square", name, I.mean())
    if name in ICONS:
        W = ICONS[name]
        ref = svgref.segments(W)
        pts = np.array([p for s in ref for p in s[1:] if not isinstance(p, tuple)])
        if name != "point":
            svgref.compare(path, W, name)
        else:
            r = np.linalg.norm(P - (P.max(axis=0) + P.min(axis=0)) / 2, axis=1)
            expect(r.max() - r.min() < .02 and abs(r.mean() - .5) < .01, "point is not a disc: radius %s..%s", r.min(), r.max())
    else:
        # playing card symbols: which way is up, and where they are wide
        w = lambda y: np.ptp(g[I & (np.abs(g[:, 1] - y) < .02)][:, 0]) if (I & (np.abs(g[:, 1] - y) < .02)).any() else 0
        top, bottom = P[:, 1].max(), P[:, 1].min()
        h = top - bottom
        rows = [w(bottom + h * t) for t in (.04, .5, .7, .93)]
        if name == "heart":
            expect(rows[0] < .12 and rows[2] > .7, "heart: widths %s", rows)
            c = I & (np.abs(g[:, 0] - mid) < .01)
            expect(g[c][:, 1].max() < top - .04, "heart: no notch at the top")
        if name == "spade":
            expect(rows[3] < .2 and rows[1] > .4 and .1 < rows[0] < .5, "spade: widths %s", rows)
        if name == "club":
            expect(.2 < rows[3] < .5 and rows[1] > .6 and .1 < rows[0] < .5, "club: widths %s", rows)
    return (name, np.round(P, 5).tobytes())


def distinct(case):
    a, b = (polyline(Marker.path(Marker[n])) for n in case)
    g = np.stack(np.meshgrid(np.linspace(-.5, .5, 41), np.linspace(-.5, .5, 41)), axis=-1).reshape(-1, 2) + 1e-4
    d = (inside(g, a) != inside(g, b)).mean()
    expect(d > .02, "%s and %s look alike", *case)
    return round(float(d), 4)


REF = {}


class Requests(System):
    """Requests and drawings in any order, in a fresh process."""
    isolate = True
    names = ("star", "square", "point", "arrow")

    def __init__(self):
        world.restart()
        plt.close("all")
        self.held = {}
        self.canvas = self.viewport = None

    def ops(self):
        return [("get", n) for n in self.names] + [("draw", n) for n in self.names] + [("turned", self.names[0]), ("drawn per item",), ("new",)]

    def draw(self, types, angles):
        if self.viewport is None:
            self.canvas = gsp_matplotlib.core.Canvas(100, 100, 50.0)
            self.viewport = gsp_matplotlib.core.Viewport(self.canvas, 0, 0, 100, 100, (1, 1, 1, 1))
        from gsp_matplotlib import glm
        P = glm.vec3(3)
        P[:] = [[0, 0, 0], [.5, .5, .1], [-.5, .25, .2]]
        m = gsp_matplotlib.visual.Markers(P, types, 100.0, None, angles, Color(1, 0, 0, 1), Color(0, 0, 0, 1), 1.0)
        m.render(self.viewport, np.eye(4), np.eye(4), np.eye(4))
        self.canvas.render(None)

    def do(self, op):
        if op[0] == "get":
            p = Marker.path(Marker[op[1]])
            self.held.setdefault(op[1], []).append((p, np.array(p.vertices), np.array(p.codes)))
        elif op[0] == "draw":
            self.draw(Marker[op[1]], 0.0)
        elif op[0] == "turned":
            self.draw(Marker[op[1]], 35.0)
        elif op[0] == "drawn per item":
            self.draw(np.array([int(Marker[n]) for n in self.names[:3]]), 0.0)
        elif op[0] == "new":
            self.canvas = self.viewport = None

    def finish(self):
        for n in NUMBERS:
            p = Marker.path(Marker[n])
            key = (np.asarray(p.vertices).tobytes(), np.asarray(p.codes).tobytes())
            expect(REF[n] == key, "the outline of %s depends on what was requested and drawn before", n)
        for n, held in self.held.items():
            for p, v, c in held:
                expect(np.array_equal(p.vertices, v) and np.array_equal(p.codes, c), "an outline of %s obtained earlier has changed", n)

    def close(self):
        plt.close("all")


# ---------------------------------------------------------------- value types
def colors(case):
    """Conversions between colour, list and tuple."""
    from gsp.io import convert
    c = Color(*case)
    expect((c.r, c.g, c.b, c.a) == tuple(case) and tuple(c) == tuple(case) and Color(a=case[3], b=case[2], g=case[1], r=case[0]) == c, "Color%s is %s", case, c)
    for form, make in (("list", list), ("tuple", tuple)):
        v = convert(c, form)
        expect(type(v) is make and v == make(case), "%s as a %s: %r", c, form, v)
        b = convert(make(case), "Color")
        expect(isinstance(b, Color) and b == c, "%s %s as a colour: %r", form, case, b)
        expect(convert(convert(v, "Color"), form) == make(case), "%s through %s", c, form)
    expect(convert(list(case), "tuple") == tuple(case) and type(convert(list(case), "tuple")) is tuple, "list as tuple")
    expect(convert(tuple(case), "list") == list(case) and type(convert(tuple(case), "list")) is list, "tuple as list")
    return case


def wrong(case):
    """A colour has four channels."""
    from gsp.io import convert
    n, form = case
    v = [0.5] * n if form == "list" else (0.5,) * n
    try:
        c = convert(v, "Color")
    except ValueError:
        return "refused"
    expect(False, "%s is a colour: %s", v, c)


def constants(case):
    want = dict(black=[0, 0, 0, 1], grey=[.5, .5, .5, 1], white=[1, 1, 1, 1])[case]
    expect(list(getattr(gsp, case)) == want, "gsp.%s is %s", case, getattr(gsp, case))
    from gsp.io import convert
    expect(tuple(convert(getattr(gsp, case), "Color")) == tuple(want), "gsp.%s as a colour", case)
    return case


def fresh(case):
    """What a conversion gives is the caller's: modifying it changes nothing else."""
    from gsp.io import convert
    channels, src, dst, shared = case
    named = {"black": [0, 0, 0, 1], "grey": [.5, .5, .5, 1], "white": [1, 1, 1, 1]}

    def value():
        if shared:
            return getattr(gsp, shared)
        return {"list": list, "tuple": tuple, "Color": lambda c: Color(*c)}[src](channels)
    want = list(channels)
    v = value()
    if src == dst or type(v).__name__ == dst:
        return "same"
    for n in range(2):
        r = convert(v, dst)
        expect(type(r).__name__ == dst and list(r) == want, "%r as a %s: %r", v, dst, r)
        if isinstance(r, list):
            r[0] = 9
            r.append(3)
        elif isinstance(r, Color):
            try:
                r[0] = 9
            except TypeError:
                pass
        for name, c in named.items():
            expect(list(getattr(gsp, name)) == c, "gsp.%s has become %r", name, getattr(gsp, name))
        expect(list(v) == want, "the value has become %r", v)
        expect(list(convert(value(), dst)) == want, "the next conversion gives %r", convert(value(), dst))
    return case


def vectors(case):
    for cls, names in ((Vec2, "xy"), (Vec3, "xyz"), (Vec4, "xyzw")):
        v = cls(*case[:len(names)])
        expect(tuple(v) == tuple(case[:len(names)]) and all(getattr(v, n) == c for n, c in zip(names, case)), "%s%s is %s", cls, case, v)
    return case


def matrices(case):
    """Sixteen values in any form, row by row."""
    form, perm = case
    v = np.arange(16.0)[::-1] if perm else np.arange(16.0) / 4
    data = {"flat list": v.tolist(), "flat tuple": tuple(v.tolist()), "array": v, "square": v.reshape(4, 4), "nested": v.reshape(4, 4).tolist(), "float32": v.reshape(4, 4).astype(np.float32), "ints": (v * 4).astype(int), "matrix": Matrix(v),
            "transposed": v.reshape(4, 4).T}[form]
    want = v.reshape(4, 4) * (4 if form == "ints" else 1)
    if form == "transposed":
        want = want.T
    M = np.asarray(Matrix(np.asarray(data) if form == "matrix" else data))
    expect(M.shape == (4, 4) and np.array_equal(M, want), "Matrix from %s: %s", form, M)
    if isinstance(data, np.ndarray):
        data[...] = -1
        expect(np.array_equal(np.asarray(Matrix(want)), want) and np.array_equal(M, want), "Matrix shares the memory of its data")
    for n in (15, 17, 4):
        try:
            Matrix(list(range(n)))
        except ValueError:
            continue
        expect(False, "a matrix of %d values", n)
    return case


def check(run):
    from mc.core import isolated

    def ref():
        return {n: (np.asarray(Marker.path(Marker[n]).vertices).tobytes(), np.asarray(Marker.path(Marker[n]).codes).tobytes()) for n in NUMBERS}
    REF.update(isolated(ref))
    run.explore("requests", Requests, run.q(2, 3))
    run.cases("outlines", sorted(NUMBERS), outline)
    run.cases("distinct", list(itertools.combinations(sorted(NUMBERS), 2)), distinct)
    g = (0, .25, 1.0, 1.5, -.5) if not run.thorough else (0, .1, .25, .5, 1, 1.0, 1.5, -.5, 255)
    run.bounds["colours"] = "all colours of channels %s, out of range ones included" % (g,)
    run.cases("colours", list(itertools.product(g, repeat=4)), colors)
    run.cases("not colours", [(n, f) for n in (0, 1, 2, 3, 5) for f in ("list", "tuple")], wrong)
    run.cases("named colours", ["black", "grey", "white"], constants)
    g = (0, 1, 1.0, .5) if not run.thorough else (0, 1, 0.0, 1.0, .5, -1)
    run.bounds["fresh"] = "every conversion of every colour of %s, twice, its results modified; the named colours" % (g,)
    run.cases("fresh", [(c, s, d, None) for c in itertools.product(g, repeat=4) for s in ("list", "tuple", "Color") for d in ("list", "tuple", "Color")] +
              [(c, type(getattr(gsp, n)).__name__, d, n) for n, c in (("black", (0, 0, 0, 1)), ("grey", (.5, .5, .5, 1)), ("white", (1, 1, 1, 1))) for d in ("list", "tuple", "Color")], fresh)
    run.cases("vectors", list(itertools.product((-1.5, 0, 2), repeat=4)), vectors)
    run.cases("matrices", [(f, p) for f in ("flat list", "flat tuple", "array", "square", "nested", "float32", "ints", "matrix", "transposed") for p in (0, 1)], matrices)
