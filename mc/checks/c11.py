"""C11: a saved scene, loaded and replayed elsewhere, draws the same picture."""
import itertools
import json
import os
import shutil
import tempfile
import numpy as np
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from gsp.core import Buffer, Color, LineCap, LineJoin, LineStyle, Marker, Matrix
from gsp.io.command import CommandQueue
from gsp_matplotlib import glm
from mc import draw, scene, world
from mc.core import System, expect
from mc.player import pictures, player
from mc.scene import core, visual
from mc.checks.c28 import matrices

P = np.array([[-.5, -.5, .1], [.5, -.25, -.3], [.25, .5, .6], [-.75, .25, -.8]], np.float32)
C = np.array([[1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, .5], [1, 1, 0, 1]], np.float32)
S = np.array([40, 90, 20, 60], np.float32)
W = np.array([1, 2, .5, 3], np.float32)
A = np.array([0, 30, 60, 90], np.float32)
T = np.array([int(Marker.arrow), int(Marker.star), int(Marker.heart), int(Marker.club)], np.int32)
MATS = matrices()
px, mm = transform.Pixel, transform.Millimeter


class Own:
    """The arrays of a program, by name; they can be modified later."""

    def __init__(self):
        self.arrays = {}

    def keep(self, name, a):
        self.arrays[name] = a
        return a


def struct(a, n, extra=.25):
    r = np.zeros(len(a), [("k", "<i2"), (n, a.dtype, a.shape[1:]), ("m", "<f4", 2)])
    r["k"], r[n], r["m"] = np.arange(len(a)), a, extra
    return core.Buffer(len(a), r.dtype, r.tobytes())


def tracked(a, own, name):
    return own.keep(name, scene.tracked(a))


def view(a, own, name):
    """Part of a larger array."""
    big = own.keep(name, scene.tracked(np.concatenate([a, a[::-1]])))
    return big[:len(a)]


def bufferized(a, own, name):
    """A buffer, later updated."""
    return own.keep(name, scene.buffer(a))


def frozen(a, own, name):
    a = np.array(a)
    a.flags.writeable = False
    return a


EACH = {        # per item values
    "array": lambda a, own, n: np.array(a),
    "float64": lambda a, own, n: np.array(a, float),
    "strided": lambda a, own, n: np.repeat(a, 2, axis=0)[::2],
    "backwards": lambda a, own, n: np.array(a[::-1])[::-1],
    "by columns": lambda a, own, n: np.asfortranarray(a),
    "swapped": lambda a, own, n: np.array(a, np.asarray(a).dtype.newbyteorder(">")),
    "swapped tracked": lambda a, own, n: own.keep(n, np.array(a, ">f8" if np.asarray(a).dtype.kind == "f" else ">i4").view(glm.ndarray.tracked)),
    "swapped field": lambda a, own, n: transform.Accessor(struct(np.array(a, np.asarray(a).dtype.newbyteorder(">")), "v"), "v"),
    "frozen": frozen,
    "tracked": tracked,
    "view": view,
    "buffer": bufferized,
    "field": lambda a, own, n: transform.Accessor(struct(a, "v"), "v"),
    "chained": lambda a, own, n: transform.Accessor(key="v")(struct(a, "v")),
    "expression": lambda a, own, n: transform.Accessor(struct(a, "v"), "v") * 0.5 + transform.Accessor(struct(a, "w"), "w") / 2,
    "shared": lambda a, own, n: (lambda t: t - t * 0.25 + t.copy() * 0.25)(transform.Accessor(struct(a, "v"), "v")),
}
MEASURED = {
    "pixels": lambda a, own, n: tracked(a, own, n) + (6, -4, 0) * px(),
    "millimetres": lambda a, own, n: np.array(a) + mm() * np.array([[1.0, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0]]),
    "centre": lambda a, own, n: transform.Centimeter()(np.array(a)),
    "inches": lambda a, own, n: (np.array(a) - 0.25) + transform.Inch() * 0.125 * np.ones(np.shape(a)),
    "flat": lambda a, own, n: np.array(a)[:, :2],
    "measured field": lambda a, own, n: 8 * px()(transform.Accessor(key="v")(struct(a, "v"))),
}
OUT = transform.Out
COLORS = {
    "colour": lambda a, own, n: Color(.25, .5, .75, .5),
    "list of four": lambda a, own, n: [0.0, 0.5, 1.0, 1.0],
    "tuple": lambda a, own, n: (0.0, 0.5, 1.0, 1.0),
    "one": lambda a, own, n: tracked(a[:1], own, n),
    "by depth": lambda a, own, n: transform.Colormap("viridis")(OUT("screen[positions].z")),
    "by value": lambda a, own, n: transform.Colormap("magma", -1.0, 100.0)(transform.Accessor(struct(S, "v"), "v")),
    "by x + y": lambda a, own, n: transform.Colormap("gray")(OUT("screen[positions].x") + OUT("screen[positions].y") * 2),
}
NUMBERS = {
    "float": lambda a, own, n: 12.5,
    "whole": lambda a, own, n: 12.0,
    "numpy float": lambda a, own, n: np.float64(7.5),
    "by depth": lambda a, own, n: OUT("screen[positions].z") * 20 + 5,
    "component": lambda a, own, n: transform.Accessor(np.array(P), "x") * 4 + 10,
    "component of measures": lambda a, own, n: transform.X()(px()(np.array(P) + 2)) * 100,
    "component of measured field": lambda a, own, n: transform.Y()(mm()(transform.Accessor(key="v")(struct(P + 2, "v")))) * 50,
}
TYPES = {
    "marker": lambda a, own, n: Marker.heart,
    "int": lambda a, own, n: int(Marker.club),
    "bytes": lambda a, own, n: np.array(a, np.uint8),
}
INDICES = {
    "size": lambda a, own, n: 2,
    "sizes": lambda a, own, n: [1, 3],
    "array of sizes": lambda a, own, n: np.array([3, 1]),
    "tracked sizes": lambda a, own, n: tracked(np.array([3, 1]), own, n),
    "buffer of sizes": lambda a, own, n: scene.buffer(np.array([2, 2], np.int32)),
    "lists": lambda a, own, n: [[0, 1, 2], [3, 1]],
    "List": lambda a, own, n: core.List(scene.buffer(np.array([2, 1, 0, 3])), scene.buffer(np.array([1, 3]))),
    "List of size": lambda a, own, n: core.List(scene.buffer(np.array([2, 1, 0, 3])), 2),
    "field": lambda a, own, n: transform.Accessor(struct(np.array([3, 1]), "v"), "v"),
}
CAPS = {c.name: (lambda c: lambda a, own, n: c)(c) for c in LineCap if c.name in ("butt", "round", "cap")}
ATTRIBUTES = {
    "positions": (P, EACH | MEASURED), "fill_colors": (C, EACH | COLORS), "line_colors": (C, EACH | COLORS), "colors": (C, EACH | COLORS), "sizes": (S, EACH | NUMBERS), "line_widths": (W, EACH | NUMBERS),
    "angles": (A, EACH | NUMBERS), "types": (T, TYPES | {k: EACH[k] for k in ("array", "tracked", "buffer", "field", "swapped", "backwards", "frozen")}), "indices": (None, INDICES), "line_caps": (None, CAPS)}
DEFAULT = {"positions": "tracked", "fill_colors": "array", "line_colors": "colour", "colors": "tracked", "sizes": "tracked", "line_widths": "float", "angles": "float", "types": "marker", "indices": "lists", "line_caps": "round"}
KINDS = {"Points": ("positions", "sizes", "fill_colors", "line_colors", "line_widths"), "Markers": ("positions", "types", "sizes", "angles", "fill_colors", "line_colors", "line_widths"), "Pixels": ("positions", "colors"),
         "Segments": ("positions", "line_caps", "line_colors", "line_widths"), "Paths": ("positions", "indices", "line_colors", "line_widths", "line_caps"), "Polygons": ("positions", "indices", "fill_colors", "line_colors", "line_widths")}
LINES = ("Segments", "Paths", "Polygons")
ORDER = {"Points": "positions sizes fill_colors line_colors line_widths", "Markers": "positions types sizes axis angles fill_colors line_colors line_widths", "Pixels": "positions colors",
         "Segments": "positions line_caps line_colors line_widths", "Paths": "positions indices line_colors line_widths line_styles line_joins line_caps", "Polygons": "positions indices fill_colors line_colors line_widths line_styles line_joins"}


def forms(kind, name):
    """Forms of an attribute that visual accepts."""
    out = []
    for f in ATTRIBUTES[name][1]:
        if kind in LINES and name in ("line_colors", "fill_colors", "line_widths") and f in ("by depth", "by value", "by x + y", "component", "component of measures", "component of measured field"):
            continue          # per position
        if name == "positions" and kind in LINES and f == "flat":
            continue
        out.append(f)
    return out


def build(kind, chosen, own, prefix="", keywords=False):
    values = {"axis": None, "line_styles": LineStyle.solid, "line_joins": LineJoin.round}
    for name in KINDS[kind]:
        a, table = ATTRIBUTES[name]
        if a is not None and kind in LINES and name != "positions":
            a = a[:2]
        values[name] = table[chosen.get(name, DEFAULT[name])](a, own, prefix + name)
    args = {n: values[n] for n in ORDER[kind].split()}
    return getattr(visual, kind)(**args) if keywords else getattr(visual, kind)(*args.values())


def edit(own, how):
    """Modifies every array of the program."""
    for name, a in own.arrays.items():
        if isinstance(a, Buffer):
            b = np.array(np.asarray(a))
            if b.dtype.kind == "f":
                b[1] = b[1] * .5 + b[0] * .25
                a.set_data(b.dtype.itemsize * int(np.prod(b.shape[1:])), b[1].tobytes())
            continue
        if a.dtype.kind != "f":
            if len(a) == 2:
                a[:] = a[::-1].copy()
            else:
                a[0] = a[-1]
            continue
        if how == "item":
            a[1 if len(a) > 1 else 0] = np.asarray(a[0]) * .5
        elif how == "whole":
            a[...] = np.asarray(a)[::-1] * .75
        elif how == "scaled":
            a *= .75
        elif how == "components" and a.ndim == 2:
            a.x = a.x * .5
        elif how == "slice":
            a[1:3] *= .5
        else:
            a[-1] = a[0]


class Program:
    """A recorded program and its picture."""

    def __init__(self, size=(120, 80), dpi=50.0):
        world.restart()
        plt.close("all")
        self.own = Own()
        self.canvas = core.Canvas(*size, dpi)
        self.viewports = [core.Viewport(self.canvas, 0, 0, 60, 80, (1, 1, 1, 1)), core.Viewport(self.canvas, 60, 10, .5, 50 * px(), Color(.75, .75, .5, 1))]

    def check(self, what, twice=False, raster=True, keep=False):
        folder = tempfile.mkdtemp(prefix="verif-c11-")
        try:
            name = os.path.join(folder, "scene.json")
            gsp.io.json.save(name)
            queue = list(CommandQueue("active").commands)
            gsp.io.record(False)
            mine = pictures(raster)
            gsp.io.record(True)
            theirs = player().play(name, raster=raster)
            compare(theirs, mine, what)
            if twice:     # what was loaded is saved again
                q = gsp.io.json.load(name, gsp.io.queue("again"))
                gsp.io.json.save(os.path.join(folder, "again.json"), q)
                compare(player().play(os.path.join(folder, "again.json"), raster=raster), mine, what + ", saved again")
            return len(queue), sum(len(m[0]) for m in mine), json.dumps([[c.classname, c.methodname] for c in queue])
        finally:
            shutil.rmtree(folder)

    def close(self):
        gsp.io.record(False)
        plt.close("all")


def compare(theirs, mine, what):
    expect(len(theirs) == len(mine), "%s: %d canvases instead of %d", what, len(theirs), len(mine))
    for i, ((a, r), (b, q)) in enumerate(zip(theirs, mine)):
        draw.same_pictures(a, b, "%s: canvas %d" % (what, i + 1))
        if q is not None:
            expect(r.shape == q.shape, "%s: canvas %d has size %s instead of %s", what, i + 1, r.shape, q.shape)
            d = np.abs(r.astype(int) - q.astype(int))
            expect(d.max() <= 2, "%s: canvas %d has other pixels (%d of them)", what, i + 1, (d.max(axis=2) > 2).sum())


def attribute(case):
    """One attribute in one form, arrays modified at some moment."""
    kind, name, form, when, how = case
    p = Program()
    try:
        v = build(kind, {name: form}, p.own)
        m = [np.array(x) for x in MATS["perspective"]]
        if when == "before":
            edit(p.own, how)
        elif when == "again":
            v.render(p.viewports[0], *m)
            edit(p.own, how)
        elif when == "twice":
            edit(p.own, how)
            edit(p.own, "last")
        if when == "after":
            v.render(p.viewports[0], *m)
            edit(p.own, how)
        else:
            v.render(p.viewports[0], *m)
        if when == "elsewhere":
            edit(p.own, how)
            v.render(p.viewports[1], *[np.array(x) for x in MATS["turned"]])
        return p.check("%s" % (case,), raster=when == "before")[1:]
    finally:
        p.close()


def pair(case):
    """Two attributes in any forms."""
    kind, chosen, how = case
    p = Program()
    try:
        v = build(kind, dict(chosen), p.own, keywords=True)
        edit(p.own, how)
        v.render(p.viewports[1], *MATS["turned"])
        return p.check("%s" % (case,), raster=False)[1:]
    finally:
        p.close()


MATRIX = {
    "arrays": lambda m: np.array(m), "float32": lambda m: np.array(m, np.float32), "lists": lambda m: np.asarray(m).tolist(), "Matrix": lambda m: Matrix(m), "fortran": lambda m: np.asfortranarray(m),
    "tracked": lambda m: scene_mat(m), "transposed": lambda m: np.ascontiguousarray(np.asarray(m).T).T,
}


def scene_mat(m):
    t = glm.mat4()
    t[...] = m
    return t


def rendered(case):
    """Matrices of every form, given or not, modified after the call; renders repeated."""
    kind, form, mats, then, named = case
    p = Program()
    try:
        v = build(kind, {}, p.own)
        given = [MATRIX[form](x) for x in MATS[mats]]
        if named:
            v.render(viewport=p.viewports[0], proj=given[2], model=given[0], view=given[1])
        else:
            v.render(p.viewports[0], *given)
        if then == "modified":
            for x in given:
                if isinstance(x, np.ndarray):
                    x[...] = np.eye(4)
                elif isinstance(x, list):
                    x[:] = np.eye(4).tolist()
        elif then == "again":
            v.render(p.viewports[0])
        elif then == "elsewhere":
            v.render(p.viewports[1], given[0])
        elif then == "changed":
            edit(p.own, "whole")
            v.render(p.viewports[0], None, MATRIX[form](MATS["turned"][1]))
        elif then == "resized":
            edit(p.own, "item")
            v.render(p.viewports[0])
        return p.check("%s" % (case,), raster=False, twice=then == "again")[1:]
    finally:
        p.close()


WRITES = {      # writes of constants, possibly the same ones, possibly over one another
    "one": lambda a: a.__setitem__(1, .5), "one zero": lambda a: a.__setitem__(1, 0), "first two": lambda a: a.__setitem__(slice(0, 2), 0), "last": lambda a: a.__setitem__(slice(1, None), .25),
    "all": lambda a: a.__setitem__(Ellipsis, -.25), "component": lambda a: a.__setitem__((1, 0), -.5), "column": lambda a: a.__setitem__((slice(None), 1), .75), "item": lambda a: a.__setitem__(0, [-.75, .5, 0]),
}


def writes(case):
    """A sequence of writes in the array (or in the buffer) of a visual."""
    form, seq, at = case
    p = Program()
    try:
        a = scene.tracked(P[:3])
        if form == "buffer":
            a = np.array(P[:3])
            b = scene.buffer(a)
            positions = b
        elif form == "view":
            positions = scene.tracked(np.concatenate([P[:3], P[1:3]]))
            positions, a = positions[:3], positions
        elif form == "shared":
            positions = a
            visual.Points(a, 30.0, Color(0, 0, 1, 1), Color(1, 0, 0, 1), 1.0)
        else:
            positions = a
        v = visual.Points(positions, 20.0, (0., 0., 1., .5), (0., 0., 0., 1.), 1.0)
        for i, w in enumerate(seq):
            if i == at:
                v.render(p.viewports[0], *MATS["identity"])
            before = np.array(a)
            WRITES[w](a)
            if form == "buffer":
                size = a[0].nbytes       # only what a program would send
                rows = {"one": (1, 2), "one zero": (1, 2), "first two": (0, 2), "last": (1, 3), "component": (1, 2), "item": (0, 1)}.get(w, (0, 3))
                expect(np.array_equal(np.delete(before, range(*rows), 0), np.delete(a, range(*rows), 0)), "wrong harness %s", w)
                b.set_data(rows[0] * size, a[rows[0]:rows[1]].tobytes())
        v.render(p.viewports[0], *MATS["identity"])
        return p.check("%s" % (case,), raster=False)[1:]
    finally:
        p.close()


REUSED = {      # ways to give (part of) the same memory again
    "array": lambda a: a, "slice": lambda a: a[:], "backwards": lambda a: a[::-1], "transposed twice": lambda a: a.T.T, "other type": lambda a: a.view(np.int32).view(np.float32), 
    "new array": lambda a: a.copy(), "buffer": lambda a: core.Buffer(len(a), np.dtype((a.dtype, a.shape[1:])), a.data), "added": lambda a: a + 1 * px(),
}


def reused(case):
    """An ordinary array used for several visuals, modified after each was rendered."""
    kind, name, forms, how = case
    p = Program()
    try:
        base = np.array(ATTRIBUTES[name][0])
        if kind in LINES and name != "positions":
            base = base[:2].copy()
        for i, form in enumerate(forms):
            own = Own()
            values = {"axis": None, "line_styles": LineStyle.solid, "line_joins": LineJoin.round}
            for n in KINDS[kind]:
                a, forms_ = ATTRIBUTES[n]
                if a is not None and kind in LINES and n != "positions":
                    a = a[:2]
                values[n] = REUSED[form](base) if n == name else forms_["buffer" if n == "sizes" else DEFAULT[n]](a, own, n)
            v = getattr(visual, kind)(**{n: values[n] for n in ORDER[kind].split()})
            v.render(p.viewports[i % 2], *MATS["turned"])
            if how == "whole":
                base *= .5
            elif how == "item":
                base[0] = base[1]
            else:
                base[...] = base[::-1].copy()
        return p.check("%s" % (case,), raster=False)[1:]
    finally:
        p.close()


PLACES = {"pixels": (5, 6, 40, 30), "fractions": (.25, .5, .5, .25), "mixed": (10, .25, .5, 30), "whole": (0, 0, None, None), "unit": (0.0, 0.0, 1.0, 1.0), "half": (.5, 0, .5, 1.0), "outside": (-1.0, .25, 2.0, .5), "one pixel": (0.0, 1, 1.0, 1), "measures": "measures", "margins": "margins", "expression": "expression"}
BACK = {"tuple": (1, 1, .5, 1), "colour": Color(.5, 1, 1, 1), "list": [.5, .5, 1, .5], "transparent": (0, 0, 0, 0)}


def place(name):
    v = PLACES[name]
    if v == "measures":
        v = 5 * px(), 2 * mm(), .75 * transform.Inch(), 30 * transform.Point()
    elif v == "margins":
        v = 10 * px(), 10 * px(), 1.0 - 2 * 10 * px(), 1.0 - 20 * px()
    elif v == "expression":
        v = (0.5 + 4 * px()) / 2, 1 * mm() + 3 * px(), 0.25 + 2 * mm(), 0.5 * transform.Centimeter()
    return v


def canvases(case):
    """Canvases and viewports in every form."""
    size, dpi, where, back, second = case
    p = Program(size, dpi)
    try:
        if second:
            other = core.Canvas(64, 96, 72.0)
        c = other if second else p.canvas
        b = BACK[back]
        vp = core.Viewport(c, *place(where), b)
        v = build("Points", {"positions": "pixels"}, p.own)
        v.render(vp, *MATS["identity"])
        v.render(p.viewports[1], *MATS["turned"])
        return p.check("%s" % (case,))[1:]
    finally:
        p.close()


def clock(case):
    """The clock of the program goes anyhow: the order of the commands is that they were recorded in."""
    kind, how, last = case
    p = Program()
    try:
        v = build(kind, {}, p.own)
        v.render(p.viewports[0], *MATS["perspective"])
        edit(p.own, "item")
        v.render(p.viewports[1], *MATS["turned"])
        cs = CommandQueue("active").commands
        for i, c in enumerate(cs):
            c.timestamp = {"backwards": 1e9 - i, "stopped": 1e9, "set back": 1e9 + i - 100 * (i > len(cs) // 2), "set back at the end": 1e9 + i - 100 * (i == len(cs) - 1), "from zero": i * 1e-3}[how]
        return p.check("%s" % (case,), raster=last)[1:]
    finally:
        p.close()


class Histories(System):
    """Any order of creations, modifications and renders; the file is played by another process."""
    depth_limit = 9

    def __init__(self):
        self.p = Program()
        self.hist = []
        self.positions, self.colors = scene.tracked(P), scene.tracked(C)
        self.buffer = scene.buffer(S)
        self.visuals = []
        self.rendered = set()

    MAKES = {
        "points": lambda s: visual.Points(s.positions, s.buffer, s.colors, Color(0, 0, 1, 1), 1.0),
        "markers": lambda s: visual.Markers(s.positions + (6, 0, 0) * px(), Marker.star, s.buffer, None, 20.0, transform.Colormap("viridis")(OUT("screen[positions].x")), Color(0, 0, 1, 1), 1.0),
        "paths": lambda s: visual.Paths(s.positions, [[0, 1, 2], [2, 3]], s.colors[:2], 1.5, *(LineStyle.solid, LineJoin.round, LineCap.round)),
        "pixels": lambda s: visual.Pixels(s.positions, transform.Accessor(s.colors, "rgba")),
    }

    def ops(self):
        out = []
        for k in self.MAKES:
            if k not in [x[0] for x in self.visuals]:
                out.append(("make", k))
        for i in range(len(self.visuals)):
            out += [("render", i, 0, "perspective"), ("render", i, 1, "turned")]
            if self.rendered:
                out.append(("render", i, 0, None))
        out += [("edit", "positions"), ("edit", "x"), ("edit", "colors"), ("edit", "buffer")]
        return out

    def do(self, op):
        self.hist.append(op)
        if op[0] == "make":
            self.visuals.append((op[1], self.MAKES[op[1]](self)))
        elif op[0] == "render":
            _, i, vp, m = op
            self.visuals[i][1].render(self.p.viewports[vp], *(MATS[m] if m else ()))
            self.rendered.add((i, vp))
        elif op[1] == "positions":
            self.positions[1] = np.asarray(self.positions[0]) * .5 + .25
        elif op[1] == "x":
            self.positions.xz = self.positions.zx
        elif op[1] == "colors":
            self.colors[1:3] *= .75
        elif op[1] == "buffer":
            self.buffer.set_data(4, np.array([70 + len(self.hist)], np.float32).tobytes())

    def key(self):
        return tuple(self.hist)

    def finish(self):
        if self.rendered:
            self.p.check("%s" % self.hist, raster=False)

    def close(self):
        self.p.close()


def check(run):
    run.bounds.update(visuals=list(KINDS), forms={n: len(t[1]) for n, t in ATTRIBUTES.items()})
    whens = [("before", "item"), ("again", "whole"), ("elsewhere", "slice"), ("after", "item")]
    if run.thorough:
        whens = [(w, h) for w in ("before", "again", "twice", "after", "elsewhere") for h in ("item", "whole", "scaled", "components", "slice", "last")]
    run.cases("attributes", [(k, n, f, w, h) for k in KINDS for n in KINDS[k] for f in forms(k, n) for w, h in (whens if run.thorough or f in ("tracked", "view", "buffer", "by depth", "pixels") else whens[:1])], attribute)
    run.bounds["clock"] = "scenes recorded while the clock goes backwards, is stopped or set back"
    run.cases("clock", [(k, h, False) for k in KINDS for h in ("backwards", "stopped", "set back", "set back at the end", "from zero")], clock)
    few = ("view", "expression", "pixels", "by depth", "by x + y", "List")     # in quick runs
    pairs = []
    for k in KINDS:
        for a, b in itertools.combinations(KINDS[k], 2):
            pairs += [(k, ((a, f), (b, g)), "slice") for f in forms(k, a) for g in forms(k, b) if run.thorough or f in few and g in few]
    run.cases("pairs", pairs, pair)
    run.cases("renders", [(k, f, m, t, n) for k in run.q(("Points", "Paths"), KINDS) for f in MATRIX for m in ("perspective", "turned") for t in ("nothing", "modified", "again", "elsewhere", "changed", "resized") for n in (False, True)], rendered)
    run.cases("canvases", [(s, d, w, b, t) for s in ((120, 80), (80, 140)) for d in run.q((50.0,), (50.0, 100.0)) for w in PLACES for b in BACK for t in (False, True)], canvases)
    few = run.q(("one", "one zero", "first two", "column"), tuple(WRITES))
    run.cases("writes", [(f, s, a) for f in ("tracked", "buffer", "view", "shared") for n in (1, 2, 3) for s in itertools.product(WRITES if n < 3 else few, repeat=n) for a in ((0, n - 1) if f == "tracked" else (n - 1,))], writes)
    cases = []
    for k in KINDS:
        for n in KINDS[k]:
            if n not in ("positions", "fill_colors", "colors", "sizes", "line_widths"):
                continue
            of = [f for f in REUSED if not (f == "added" and n != "positions")]
            cases += [(k, n, f, h) for f in itertools.product(of, repeat=2) if k in ("Points", "Paths") or run.thorough or f[0] == f[1] for h in run.q(("whole",), ("whole", "item", "backwards"))]
            cases += [(k, n, (f,) * 3, h) for f in of for h in ("item", "backwards")]
    run.bounds["reused"] = "%d programs that use the memory of an ordinary array for two or three visuals" % len(cases)
    run.cases("reused", cases, reused)
    run.explore("histories", Histories, run.q(3, 4))
