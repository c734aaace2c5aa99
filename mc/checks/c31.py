"""C31: the picture depends on the current size of the canvas, not on how it was reached."""
import itertools
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from gsp.core import Color, LineCap, LineJoin, LineStyle, Marker
from gsp_matplotlib import glm
from mc import draw, scene, world
from mc.core import System, expect
from mc.scene import eye, visual
from mc.checks.c28 import matrices
from mc.checks.c30 import PLACES, SIZES as SIDES

core = gsp_matplotlib.core
SIZES = ((120, 80), (80, 120), (120, 160), (61, 61), (240, 160))      # some differ by one side only
LAYOUTS = {"pixels": ("10", "1", "40", "20 px"), "whole": ("0", "0", "none", "none"), "fractions": ("0.25", "0.0", "0.5", "0.5"), "margins": ("10 px", "10 px", "1.0 - 20 px", "1.0 - 20 px"), "mixed": ("half inch", "0.25", "(half)", "1 cm")}
P = np.array([[0, 0, 0], [.5, .25, .3], [-.75, .5, -.2], [.25, -.5, .6]], np.float32)
RED, BLUE, VEIL = Color(1, 0, 0, 1), Color(0, 0, 1, 1), Color(0, 1, 0, .5)


def measured(P):
    """Places of which some coordinates are in physical units."""
    return scene.tracked(P) + scene.tracked(np.array([[0, 0, 0], [10, 5, 0], [-4, 8, 0], [3, 3, 0]], np.float32)[:len(P)]) * transform.Pixel() + 2 * transform.Millimeter()


VISUALS = {
    "points": lambda: visual.Points(scene.tracked(P), 30.0, RED, BLUE, 1.0),
    "measured points": lambda: visual.Points(measured(P), np.array([10, 20, 30, 40.0]), RED, BLUE, 1.0),
    "markers": lambda: visual.Markers(measured(P), Marker.star, 60.0, None, 10.0, VEIL, BLUE, 0.5),
    "pixels": lambda: visual.Pixels(scene.tracked(P) * transform.Point() * 20, scene.tracked(np.array([RED, BLUE, VEIL, RED], np.float32))),
    "segments": lambda: visual.Segments(measured(P), LineCap.round, RED, 2.0),
    "paths": lambda: visual.Paths((20, 15, 0) * transform.Pixel() - scene.tracked(P), [[0, 1, 2], [3, 2]], BLUE, 1.5, LineStyle.solid, LineJoin.round, LineCap.butt),
    "polygons": lambda: visual.Polygons(transform.Centimeter()(scene.tracked(P)), [4], VEIL, RED, 1.0, LineStyle.solid, LineJoin.round),
    "by depth": lambda: visual.Points(scene.tracked(P), 30.0, transform.Colormap("viridis")(transform.Out("screen[positions].x")), BLUE, transform.Out("screen[positions].y") * 2 + 3),
}
MATS = ("identity", "perspective", "turned")


class World:
    """A scene: canvases, viewports, visuals."""

    def __init__(self, sizes):
        world.restart()
        gsp.io.record(False)
        plt.close("all")
        self.canvas, self.fig, self.viewports = [], [], {}
        for s in sizes:
            self.canvas.append(core.Canvas(*s, 50.0))
            self.fig.append(plt.gcf())
        self.visuals = {}

    def viewport(self, name):
        if name not in self.viewports:
            c, layout = name
            x, y, a, b = LAYOUTS[layout]
            self.viewports[name] = core.Viewport(self.canvas[c], PLACES[x][0](), PLACES[y][0](), SIDES[a][0](), SIDES[b][0](), (1, 1, .5, 1))
        return self.viewports[name]

    def render(self, what, name, mats):
        if what not in self.visuals:
            self.visuals[what] = VISUALS[what]()
        m = matrices()[mats]
        self.visuals[what].render(self.viewport(name), *m)


class Resizes(System):
    """Resizes, renders and new viewports in any order; compared with the scene created at the final sizes."""
    visuals = ("points", "measured points", "paths")
    layouts = ((0, "pixels"), (0, "margins"), (1, "fractions"))
    ncanvas = 2
    sizes = SIZES[:3]
    mats = ("identity", "perspective")

    def __init__(self):
        self.size = [self.sizes[0]] * self.ncanvas
        self.w = World(self.size)
        self.made, self.rendered, self.hist = [], {}, []
        self.first = {}

    def ops(self):
        out = []
        for c in range(self.ncanvas):
            out += [("resize", c, s) for s in self.sizes if s != self.size[c]]
        for l in self.layouts:
            if l not in self.made:
                out.append(("viewport", l))
            else:
                for v in self.visuals:
                    for m in self.mats:
                        if self.rendered.get((v, l)) != m:
                            out.append(("render", v, l, m))
        return out

    def do(self, op):
        self.hist.append(op)
        if op[0] == "resize":
            draw.resize(self.w.fig[op[1]], *op[2])
            self.size[op[1]] = op[2]
        elif op[0] == "viewport":
            self.w.viewport(op[1])
            self.made.append(op[1])
        elif op[0] == "render":
            self.w.render(*op[1:])
            self.rendered[op[1:3]] = op[3]
        elif op[0] == "draw":
            self.w.canvas[op[1]].render(None)

    def key(self):
        return tuple(self.hist)

    def finish(self):
        a = [draw.shot(f) for f in self.w.fig]
        limits = {l: (tuple(v.size), tuple(v.xlim), tuple(v.ylim)) for l, v in self.w.viewports.items()}
        sizes = [tuple(c.size) for c in self.w.canvas]
        other = World(self.size)
        for l in self.made:
            other.viewport(l)
        for (v, l), m in self.rendered.items():        # in the order they were first rendered
            other.render(v, l, m)
        for c, (f, p) in enumerate(zip(other.fig, a)):
            draw.same_pictures(p, draw.shot(f), "%s: canvas %d differs from one created at this size" % (self.hist, c), tol=.02)
            expect(np.allclose(sizes[c], other.canvas[c].size), "%s: canvas of size %s", self.hist, sizes[c])
        for l, v in other.viewports.items():
            expect(np.allclose(np.concatenate(limits[l]), np.concatenate([v.size, v.xlim, v.ylim]), atol=1e-3), "%s: viewport %s has size and ranges %s instead of %s", self.hist, l, limits[l], (v.size, v.xlim, v.ylim))

    def close(self):
        plt.close("all")


class Started(Resizes):
    """Histories that start from a canvas with a viewport and a visual."""
    ncanvas = 1
    layouts = ((0, "mixed"), (0, "whole"))
    visuals = ("measured points", "by depth")
    sizes = SIZES

    def __init__(self):
        super().__init__()
        for op in (("viewport", (0, "mixed")), ("render", "measured points", (0, "mixed"), "perspective")):
            self.do(op)
        self.hist = []


class Twice(Resizes):
    """One visual rendered in two viewports with different matrices, then resizes and renders."""
    ncanvas = 1
    sizes = SIZES[:2] + SIZES[-1:]
    kind = "points"
    layouts = ((0, "pixels"), (0, "mixed"))

    def __init__(self):
        self.visuals = (self.kind,)
        super().__init__()
        for l, m in zip(self.layouts, ("perspective", "turned")):
            self.do(("viewport", l))
            self.do(("render", self.kind, l, m))
        self.hist = []


def paths(case):
    """One visual in one viewport through a sequence of sizes, with intermediate renders."""
    what, layout, mats, sizes, drawn, early = case
    w = World([sizes[0]])
    try:
        name = (0, layout)
        w.viewport(name)
        if early:
            w.render(what, name, mats)
        pictures = []
        if early:
            pictures.append((sizes[0], draw.shot(w.fig[0])))
        for s in sizes[1:]:
            draw.resize(w.fig[0], *s)
            if drawn:
                w.canvas[0].render(None)
            if early:
                pictures.append((s, draw.shot(w.fig[0])))
        if not early:
            w.render(what, name, mats)
            pictures.append((sizes[-1], draw.shot(w.fig[0])))
        raster = w.canvas[0].render(None)
        expect(raster.shape == (sizes[-1][1], sizes[-1][0], 4), "%s: raster %s", case, raster.shape)
        for s, p in pictures:
            o = World([s])
            o.render(what, name, mats)
            draw.same_pictures(p, draw.shot(o.fig[0]), "%s: at size %s" % (case, s), tol=.02)
        expect(np.abs(o.canvas[0].render(None).astype(int) - raster).max() <= 2, "%s: rasters differ", case)
        # same through the eyes of the oracle: the rectangle asked for
        x, y, a, b = LAYOUTS[layout]
        W, H = sizes[-1]
        rect = np.array([PLACES[x][1](W, 50.0), PLACES[y][1](H, 50.0), SIDES[a][1](W, 50.0), SIDES[b][1](H, 50.0)])
        got = np.array(pictures[-1][1][0].bbox())
        expect(np.abs(got - np.r_[rect[:2], rect[:2] + rect[2:]]).max() < .02, "%s: viewport at %s instead of %s", case, got, rect)
        return tuple(np.round(got, 3))
    finally:
        plt.close("all")


def check(run):
    seqs = [s for n in (2, 3) for s in itertools.product(SIZES, repeat=n) if all(a != b for a, b in zip(s, s[1:]))]
    if run.thorough:
        seqs += [s for s in itertools.product(SIZES, repeat=4) if all(a != b for a, b in zip(s, s[1:]))]
    seqs += [((120, 80), (121, 80)), ((120, 80), (119, 81)), ((120, 80), (120, 79)), ((120, 80), (122, 82), (123, 83)), ((120, 80), (121, 81), (120, 80))]      # by one pixel or two
    run.bounds.update(sizes=len(SIZES), sequences=len(seqs), visuals=len(VISUALS), layouts=len(LAYOUTS))
    run.cases("sequences", [(v, l, m, s, d, e) for v in VISUALS for l in LAYOUTS for m in run.q(MATS[:2], MATS) for s in (seqs if run.thorough else [s for s in seqs if len(s) == 2] + [s for s in seqs if len(s) == 3][:-2:8] + seqs[-2:]) for d in run.q((False,), (False, True)) for e in (True, False) if e or len(s) == 2], paths)
    for v in VISUALS:
        run.explore("twice-" + v.replace(" ", "-"), type("Twice", (Twice,), {"kind": v}), run.q(2, 4))
    run.explore("histories", Resizes, run.q(3, 4))
    run.explore("rendered", Started, run.q(3, 4))
