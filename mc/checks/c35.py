"""C35: visual variables: what is set is what is read, evaluated and drawn."""
import itertools
import numpy as np
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from gsp.core import Buffer, Color, LineCap, LineJoin, LineStyle, Marker
from gsp_matplotlib import glm
from mc import draw, scene, world
from mc.core import System, expect
from mc.scene import visual
from mc.checks.c32 import C0, MATS, P0, S0, Scene

BLUE, RED = Color(0, 0, 1, 1), Color(1, 0, 0, 1)
LINE = (LineStyle.solid, LineJoin.round)

# variables of the visuals, with values they are created with
VARIABLES = {
    "Points": dict(positions=lambda: np.array(P0), sizes=lambda: 30.0, fill_colors=lambda: RED, line_colors=lambda: BLUE, line_widths=lambda: 1.0),
    "Markers": dict(positions=lambda: np.array(P0), types=lambda: Marker.star, sizes=lambda: 60.0, axis=lambda: None, angles=lambda: 10.0, fill_colors=lambda: RED, line_colors=lambda: BLUE, line_widths=lambda: 1.0),
    "Pixels": dict(positions=lambda: np.array(P0), colors=lambda: np.array(C0)),
    "Segments": dict(positions=lambda: np.array(P0), line_caps=lambda: LineCap.round, line_colors=lambda: RED, line_widths=lambda: 2.0),
    "Paths": dict(positions=lambda: np.array(P0), indices=lambda: 2, line_colors=lambda: RED, line_widths=lambda: 2.0, line_styles=lambda: LineStyle.solid, line_joins=lambda: LineJoin.round, line_caps=lambda: LineCap.round),
    "Polygons": dict(positions=lambda: np.array(P0), indices=lambda: [4], fill_colors=lambda: RED, line_colors=lambda: BLUE, line_widths=lambda: 1.0, line_styles=lambda: LineStyle.solid, line_joins=lambda: LineJoin.round),
}
NAMES = sorted({n for v in VARIABLES.values() for n in v})


def make(kind, values=None):
    v = {n: f() for n, f in VARIABLES[kind].items()}
    v.update(values or {})
    return getattr(visual, kind)(**v), v


# values of all sorts: what evaluating gives for it (None: whatever it is)
SCREEN = np.arange(12, dtype=np.float32).reshape(4, 3) / 8
REC = np.zeros(4, [("a", "<f4"), ("c", "<f4", 4)])
REC["a"], REC["c"] = (1, 2, 3, 4), C0


def structured():
    return gsp_matplotlib.core.Buffer(4, REC.dtype, REC.tobytes())


VALUES = {
    "array": lambda: (np.array(S0), S0),
    "table": lambda: (np.array(C0), C0),
    "integers": lambda: (np.array([3, 1, 2, 0]), np.array([3, 1, 2, 0])),
    "tracked": lambda: (scene.tracked(P0), P0),
    "tracked line": lambda: (scene.tracked(S0), S0),
    "buffer": lambda: (scene.buffer(C0), C0),
    "no item": lambda: (np.zeros((0, 3)), np.zeros((0, 3))),
    "float": lambda: (2.5, 2.5),
    "zero": lambda: (0.0, 0.0),
    "int": lambda: (7, 7),
    "false": lambda: (0, 0),
    "string": lambda: ("red", "red"),
    "empty string": lambda: ("", ""),
    "none": lambda: (None, None),
    "colour": lambda: (Color(.5, .25, 1, .5), np.array([.5, .25, 1, .5])),
    "marker": lambda: (Marker.heart, int(Marker.heart)),
    "list": lambda: ([[0, 1], [2, 3]], [[0, 1], [2, 3]]),
    "empty list": lambda: ([], []),
    "List": lambda: (gsp_matplotlib.core.List(scene.buffer(np.array([0, 1, 2])), scene.buffer(np.array([2, 1]))), "itself"),
    "field": lambda: (transform.Accessor(structured(), "a"), REC["a"]),
    "colour field": lambda: (transform.Accessor(structured(), "c"), REC["c"]),
    "expression": lambda: (transform.Accessor(structured(), "a") * 2 + 1, REC["a"] * 2 + 1),
    "output": lambda: (transform.Out("screen[positions]"), SCREEN),
    "output component": lambda: (transform.Out("screen[positions].y") * 4, SCREEN[:, 1:2] * 4),
    "output expression": lambda: (transform.Out("screen[positions].x") + transform.Out("screen[positions].z"), SCREEN[:, :1] + SCREEN[:, 2:]),
    "colormap": lambda: (transform.Colormap("gray")(transform.Out("screen[positions].y")), None),
}


def agrees(got, want, what):
    if isinstance(want, str) and want == "itself":
        return
    if want is None:
        expect(got is None, "%s evaluates to %s instead of None", what, got)
    elif isinstance(want, str):
        expect(isinstance(got, str) and got == want, "%s evaluates to %r instead of %r", what, got, want)
    elif isinstance(want, list):
        expect([list(x) for x in got] == want, "%s evaluates to %s instead of %s", what, got, want)
    else:
        a, b = np.atleast_1d(np.asarray(got)), np.atleast_1d(np.asarray(want))
        expect(a.shape == b.shape and np.allclose(a, b, atol=1e-6), "%s evaluates to %s instead of %s", what, a.tolist(), b.tolist())


def everything(v, kind):
    return {n: v.get_variable(n) for n in VARIABLES[kind]}


def unchanged(v, kind, before, but, what):
    for n, x in before.items():
        if n != but:
            expect(v.get_variable(n) is x, "%s: variable %s changed to %s", what, n, v.get_variable(n))


def values(case):
    """Any value of any variable, read back and evaluated; others stay."""
    kind, name, value, recorded = case
    world.restart()
    s = Scene(1)
    try:
        gsp.io.record(recorded)
        v, given = make(kind)
        w, _ = make(kind)
        others = [(x, *make(x)) for x in VARIABLES if x != kind]
        if not recorded:
            for n, x in given.items():
                expect(v.get_variable(n) is x, "%s: created with %s = %s, it is %s", case, n, x, v.get_variable(n))
        for n in given:
            v.eval_variable(n)
        before, beside = everything(v, kind), everything(w, kind)
        x, want = VALUES[value]()
        for u in (v, w) if kind != "Segments" else ():
            u.set_variable("screen[positions]", np.array(SCREEN))
            expect(np.array_equal(np.asarray(u.get_variable("screen[positions]")).reshape(-1, 3), SCREEN), "%s: screen[positions] is %s", case, u.get_variable("screen[positions]"))
        v.set_variable(name, x)
        expect(v.get_variable(name) is x, "%s: what is read is %s", case, v.get_variable(name))
        if value == "colormap":
            got = np.asarray(v.eval_variable(name))
            t = (SCREEN[:, 1] - SCREEN[:, 1].min()) / np.ptp(SCREEN[:, 1])
            expect(got.shape[0] == 4 and np.allclose(got.reshape(4, -1)[:, 0], t, atol=.01), "%s evaluates to %s", case, got)
        else:
            agrees(v.eval_variable(name), want, str(case))
            agrees(v.eval_variable(name), want, str(case))
        expect(v.get_variable(name) is x, "%s: evaluating changed it to %s", case, v.get_variable(name))
        unchanged(v, kind, before, name, "%s" % (case,))
        unchanged(w, kind, beside, None, "%s, another visual" % (case,))
        expect(kind == "Segments" or np.array_equal(np.asarray(v.get_variable("screen[positions]")).reshape(-1, 3), SCREEN), "%s: output changed", case)
        # a following value replaces it
        v.set_variable(name, 3.5)
        expect(v.get_variable(name) == 3.5 and v.eval_variable(name) == 3.5, "%s: then 3.5, it is %s", case, v.get_variable(name))
        v.set_variable(name, before[name])
        expect(v.get_variable(name) is before[name], "%s: put back, it is %s", case, v.get_variable(name))
        return value
    finally:
        gsp.io.record(False)
        plt.close("all")


UNKNOWN = ("", "position", "Positions", "positions ", "screen", "screen[position]", "screen[positions].x", "colour", "id", "_in_variables", "name", None, 3, ("positions",), "transform")


def equal(case):
    """A variable set to a value that equals the one it holds holds the new one."""
    kind, name, value, recorded, evaluated = case
    world.restart()
    s = Scene(1)
    try:
        gsp.io.record(recorded)
        x, _ = VALUES[value]()
        v, _ = make(kind)
        w, _ = make(kind)
        v.set_variable(name, x)
        if kind != "Segments":
            v.set_variable("screen[positions]", np.array(SCREEN))
        if evaluated:
            v.eval_variable(name)
        for turn in range(2):
            y, want = VALUES[value]()
            v.set_variable(name, y)
            expect(v.get_variable(name) is y, "%s: set again to an equal value, the variable holds the previous one", case)
        w.set_variable(name, y)
        if isinstance(y, np.ndarray) and y.size:
            y[...] = y[::-1].copy()
            want = np.array(y)
        elif isinstance(y, list) and y:
            y.append(y.pop(0))
            want = list(y)
        if value != "colormap":
            for u in (v, w) if not value.startswith("output") else (v,):
                agrees(u.eval_variable(name), want, str(case))
        return kind, name, value
    finally:
        gsp.io.record(False)
        plt.close("all")


def unknown(case):
    """Names that are not variables."""
    kind, name, recorded, rendered = case
    if name in VARIABLES[kind] or (kind, name) == ("Polygons", "line_caps"):      # an output
        return "known"
    world.restart()
    s = Scene(1)
    try:
        gsp.io.record(recorded)
        v, _ = make(kind)
        if rendered:
            v.render(s.viewports[0], *MATS["perspective"])
            shot = draw.shot(s.fig)
        before = everything(v, kind)
        attributes = set(vars(v))
        for what, call in (("get", lambda: v.get_variable(name)), ("eval", lambda: v.eval_variable(name)), ("set", lambda: v.set_variable(name, 3.0)), ("get again", lambda: v.get_variable(name))):
            try:
                r = call()
            except IndexError as e:
                continue
            except Exception as e:
                expect(False, "%s: %s raises %r", case, what, e)
            expect(False, "%s: %s gives %s", case, what, r)
        unchanged(v, kind, before, None, "%s" % (case,))
        expect(set(vars(v)) == attributes, "%s: new attributes", case)
        if rendered:
            v.render(s.viewports[0], *MATS["perspective"])
            draw.same_pictures(draw.shot(s.fig), shot, "%s" % (case,))
        return kind
    finally:
        gsp.io.record(False)
        plt.close("all")


def outputs(case):
    """Output variables: set by hand or by a render, and the transforms that read them."""
    kind, n, twice, recorded = case
    world.restart()
    s = Scene(1)
    try:
        gsp.io.record(recorded)
        v, _ = make(kind)
        before = everything(v, kind)
        t = transform.Out("screen[positions].x") * 2
        v.set_variable("line_colors" if "line_colors" in VARIABLES[kind] else "colors", t)
        name = "line_colors" if "line_colors" in VARIABLES[kind] else "colors"
        for k in ((n, twice) if twice else (n,)):
            a = np.arange(3.0 * k).reshape(k, 3) + k
            v.set_variable("screen[positions]", a)
            got = np.asarray(v.get_variable("screen[positions]")).reshape(-1, 3)
            expect(np.allclose(got, a), "%s: is %s instead of %s", case, got.tolist(), a.tolist())
            agrees(np.asarray(v.eval_variable("screen[positions]")).reshape(-1, 3), a, "%s" % (case,))
            agrees(np.asarray(v.eval_variable(name)).reshape(-1, 1), a[:, :1] * 2, "%s, twice its x" % (case,))
            unchanged(v, kind, before, name, "%s" % (case,))
        v.set_variable(name, before[name])
        v.render(s.viewports[0], *MATS["scaled"])
        expect(v.get_variable("viewport") is s.viewports[0], "%s: the viewport is %s", case, v.get_variable("viewport"))
        want = scene.project(P0, MATS["scaled"][2] @ MATS["scaled"][1] @ MATS["scaled"][0])
        got = np.asarray(v.get_variable("screen[positions]")).reshape(-1, 3)
        expect(np.allclose(got[:, :2], want[:, :2], atol=1e-5), "%s: after a render, it is %s instead of %s", case, got.tolist(), want.tolist())
        unchanged(v, kind, before, None, "%s: render" % (case,))
        return kind, n
    finally:
        gsp.io.record(False)
        plt.close("all")


# ------------------------------------------------------------------ what is drawn
P1 = P0[::-1] * np.float32(.8)
P2 = np.array([[0, 0, .2], [.4, .3, -.5]], np.float32)


def measured():
    return np.array(P0) + (6, -3, 0) * transform.Pixel()


DRAWN = {
    "positions": {"other": lambda: np.array(P1), "buffer": lambda: scene.buffer(P1), "measured": measured, "two": lambda: np.array(P2), "flat": lambda: np.array(P1[:, :2])},
    "sizes": {"number": lambda: 90.0, "each": lambda: np.array(S0), "buffer": lambda: scene.buffer(S0), "depth": lambda: transform.Out("screen[positions].z") * 20 + 30},
    "types": {"heart": lambda: Marker.heart, "each": lambda: np.array([int(Marker.arrow), int(Marker.star), int(Marker.heart), int(Marker.club)])},
    "angles": {"number": lambda: 70.0, "each": lambda: np.array([10.0, 20, 30, 40]), "output": lambda: transform.Out("screen[positions].y") * 90},
    "fill_colors": {"colour": lambda: Color(0, 1, 0, .5), "each": lambda: np.array(C0), "depth": lambda: transform.Colormap("viridis")(transform.Out("screen[positions].x")), "field": lambda: transform.Accessor(structured(), "c")},
    "line_colors": {"colour": lambda: Color(1, 1, 0, 1), "each": lambda: np.array(C0), "tracked": lambda: scene.tracked(C0[:1])},
    "colors": {"other": lambda: np.array(C0[::-1]), "one": lambda: np.array(C0[2:3]), "depth": lambda: transform.Colormap("magma")(transform.Out("screen[positions].z")), "field": lambda: transform.Accessor(structured(), "c")},
    "line_widths": {"number": lambda: 3.0, "none": lambda: 0.0, "each": lambda: np.array([1.0, 2, 3, 4], np.float32), "field": lambda: transform.Accessor(structured(), "a") / 2},
    "indices": {"four": lambda: 4, "sizes": lambda: np.array([2, 2]), "lists": lambda: [[0, 1, 2], [3, 1]], "uneven": lambda: [1, 3]},
    "line_caps": {"butt": lambda: LineCap.butt, "cap": lambda: LineCap.cap},
}
# what goes with fewer positions, or other numbers of items, than the rest may have
LINES = ("Segments", "Paths", "Polygons")


def fits(kind, name, value):
    if name == "positions" and kind in LINES and value == "flat":
        return False
    if name == "positions" and value == "two" and kind == "Polygons":
        return False
    if kind in LINES and value in ("each", "field", "depth"):
        return False
    if kind == "Segments" and name == "line_caps":
        return False
    return True


def choices(kind):
    return [(n, x) for n in VARIABLES[kind] if n in DRAWN for x in DRAWN[n] if fits(kind, n, x)]


class Histories(System):
    """Values given to variables of two visuals, renders, resizes and modifications of arrays, in any order.

    What is drawn is what new visuals, created with these values, draw.
    """
    kinds = ("Points", "Paths")
    only = None
    recorded = False
    resizes = True

    def __init__(self):
        world.restart()
        self.s = Scene(2)
        gsp.io.record(self.recorded)
        self.v, self.values, self.spec = [], [], []
        for k in self.kinds:
            v, x = make(k)
            self.v.append(v)
            self.values.append(x if not self.recorded else everything(v, k))
            self.spec.append({})
        self.last = {}
        self.hist = []
        self.size = (120, 80)

    def ops(self):
        out = []
        for i, k in enumerate(self.kinds):
            c = self.only[i] if self.only else choices(k)
            out += [("set", i, n, x) for n, x in c if self.spec[i].get(n) != x]
            out += [("render", i, p) for p in range(2 if i == 0 else 1)]
        if self.resizes:
            out.append(("resize",))
        return out

    def do(self, op):
        self.hist.append(op)
        if op[0] == "set":
            _, i, n, x = op
            value = DRAWN[n][x]()
            self.v[i].set_variable(n, value)
            self.values[i][n] = value
            self.spec[i][n] = x
        elif op[0] == "render":
            _, i, p = op
            m = "perspective" if (i + p) % 2 else "identity"
            self.v[i].render(self.s.viewports[p], *MATS[m])
            self.last.pop((i, p), None)
            self.last[i, p] = m, dict(self.spec[i])
        elif op[0] == "resize":
            self.size = (90, 100) if self.size == (120, 80) else (120, 80)
            draw.resize(self.s.fig, *self.size)
            # visuals are rendered again
            for (i, p), (m, _) in list(self.last.items()):
                self.last[i, p] = m, dict(self.spec[i])
        for i, k in enumerate(self.kinds):
            for n, x in self.values[i].items():
                expect(self.v[i].get_variable(n) is x, "%s: %s of the %s is %s instead of %s", self.hist, n, k, self.v[i].get_variable(n), x)

    def key(self):
        return tuple(self.hist)

    def finish(self):
        got = draw.shot(self.s.fig)
        gsp.io.record(False)
        other = Scene(2, self.size)
        for (i, p), (m, spec) in self.last.items():
            v, _ = make(self.kinds[i], {n: DRAWN[n][x]() for n, x in spec.items()})
            v.render(other.viewports[p], *MATS[m])
        want = draw.shot(other.fig)
        a, b = (sorted(s, key=lambda p: repr(p.key(2))) for s in (got, want))
        draw.same_pictures(a, b, "%s of %s" % (self.hist, self.kinds))

    def close(self):
        gsp.io.record(False)
        plt.close("all")


def drawn(case):
    """A value given to a variable, before or after renders: the picture of a visual created with it."""
    kind, (name, x), when, recorded = case
    world.restart()
    s = Scene(2)
    try:
        gsp.io.record(recorded)
        v, _ = make(kind)
        if when in ("after", "between"):
            v.render(s.viewports[0], *MATS["perspective"])
        if when == "between":
            v.render(s.viewports[1], *MATS["identity"])
        v.set_variable(name, DRAWN[name][x]())
        v.render(s.viewports[0], *MATS["turned"])
        if when == "put back":
            v.set_variable(name, VARIABLES[kind][name]())
            v.render(s.viewports[0], *MATS["turned"])
        got = draw.shot(s.fig)
        gsp.io.record(False)
        o = Scene(2)
        w, _ = make(kind, {name: DRAWN[name][x]()} if when != "put back" else {})
        w.render(o.viewports[0], *MATS["turned"])
        if when == "between":
            u, _ = make(kind)
            u.render(o.viewports[1], *MATS["identity"])
        draw.same_pictures(got, draw.shot(o.fig), "%s" % (case,))
        return kind, name, len(got)
    finally:
        gsp.io.record(False)
        plt.close("all")


def check(run):
    run.bounds.update(visuals=list(VARIABLES), values=len(VALUES))
    run.cases("values", [(k, n, x, r) for k in VARIABLES for n in VARIABLES[k] for x in VALUES if k != "Segments" or not x.startswith(("output", "colormap")) for r in (False, True)], values)
    run.cases("equal", [(k, n, x, r, e) for k in VARIABLES for n in VARIABLES[k] for x in VALUES if k != "Segments" or not x.startswith(("output", "colormap")) for r in (False, True) for e in (False, True)], equal)
    run.bounds["equal"] = "every value of every variable, set again to an equal value, evaluated in between or not"
    run.cases("unknown names", [(k, n, r, d) for k in VARIABLES for n in UNKNOWN + tuple(NAMES) for r in (False, True) for d in (False, True)], unknown)
    run.cases("outputs", [(k, n, t, r) for k in VARIABLES if k != "Segments" for n in (4, 1, 2, 7) for t in (0, 3, 4, 9) for r in (False, True)], outputs)
    run.cases("drawn", [(k, c, w, r) for k in VARIABLES for c in choices(k) for w in ("before", "after", "between", "put back") for r in (False, True)], drawn)
    run.explore("points and paths", Histories, 2)
    few = {"Points": [("positions", "other"), ("fill_colors", "depth"), ("sizes", "each")], "Paths": [("indices", "four"), ("line_caps", "butt"), ("positions", "measured")],
           "Markers": [("types", "heart"), ("angles", "output"), ("positions", "two")], "Polygons": [("indices", "lists"), ("fill_colors", "colour")],
           "Pixels": [("positions", "two"), ("colors", "one"), ("colors", "depth")], "Segments": [("positions", "two"), ("line_colors", "colour")]}
    for a, b in itertools.product(few, few) if run.thorough else (("Points", "Paths"), ("Markers", "Pixels")):
        if a <= b or not run.thorough:
            run.explore("%s, %s" % (a, b), type("Histories", (Histories,), dict(kinds=(a, b), only=(few[a], few[b]))), run.q(3, 3))
    if run.thorough:
        run.explore("recorded", type("Histories", (Histories,), dict(recorded=True)), 2)
        for a, b in itertools.combinations(VARIABLES, 2):
            run.explore("all of %s, %s" % (a, b), type("Histories", (Histories,), dict(kinds=(a, b))), 2)
        run.explore("long", type("Histories", (Histories,), dict(kinds=("Points", "Paths"), only=(few["Points"][:2], few["Paths"][:2]))), 4)
