"""C32: rendering is repeatable and independent across visuals and viewports."""
import itertools
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from gsp.core import Color, LineCap, LineJoin, LineStyle, Marker
from gsp_matplotlib import glm
from mc import draw, scene, world
from mc.core import System, expect
from mc.scene import eye, visual
from mc.checks.c28 import matrices

core = gsp_matplotlib.core
P0 = np.array([[-.5, -.5, .1], [.5, -.25, -.3], [.25, .5, .6], [-.75, .25, -.8]], np.float32)
C0 = np.array([[1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, .5], [1, 1, 0, 1]], np.float32)
S0 = np.array([40, 90, 20, 60], np.float32)
MATS = matrices()


class Data:
    """Arrays that visuals are given."""

    def __init__(self, positions=P0, colors=C0, sizes=S0, tracked=True):
        make = scene.tracked if tracked else (lambda a: np.array(a))
        self.positions, self.colors, self.sizes = make(positions), make(colors), make(sizes)

    def snapshot(self):
        return np.array(self.positions), np.array(self.colors), np.array(self.sizes)


BLUE = Color(0, 0, 1, 1)
KINDS = {
    "points": lambda d: visual.Points(d.positions, d.sizes, d.colors, BLUE, 1.0),
    "constant points": lambda d: visual.Points(d.positions, 25.0, [0, 1, 0, 1], BLUE, 0.5),
    "markers": lambda d: visual.Markers(d.positions, Marker.star, d.sizes, None, 20.0, d.colors, BLUE, 1.0),
    "pixels": lambda d: visual.Pixels(d.positions, d.colors),
    "segments": lambda d: visual.Segments(d.positions, LineCap.round, d.colors[:2], 2.0),
    "paths": lambda d: visual.Paths(d.positions, [[0, 1, 2], [2, 3]], BLUE, 1.5, LineStyle.solid, LineJoin.round, LineCap.round),
    "polygons": lambda d: visual.Polygons(d.positions, [[0, 1, 2], [3, 2, 1]], [1, .5, 0, 1], BLUE, 1.0, LineStyle.solid, LineJoin.round),
    "depth": lambda d: visual.Points(d.positions, 30.0, transform.Colormap("viridis")(transform.Out("screen[positions].z")), BLUE, 1.0),
    "along x": lambda d: visual.Markers(d.positions, Marker.arrow, transform.Out("screen[positions].x") * 10 + 40, None, transform.Out("screen[positions].y") * 90, d.colors, BLUE, 1.0),
    "measured": lambda d: visual.Points(d.positions + (5, 5, 0) * transform.Pixel(), d.sizes, d.colors, BLUE, 1.0),
    "accessed": lambda d: visual.Points(d.positions, transform.Accessor(d.positions, "x") * 20 + 30, d.colors, BLUE, 1.0),
    "measured paths": lambda d: visual.Paths(d.positions + (3, -8, 0) * transform.Pixel(), 2, d.colors[:2], 3.0, LineStyle.solid, LineJoin.round, LineCap.butt),
}
RECTS = ((0, 0, 60, 60), (60, 0, 60, 40), (30, 40, 50, 40))


class Scene:
    def __init__(self, nviewports=2, size=(120, 80)):
        gsp.io.record(False)
        plt.close("all")
        self.canvas = core.Canvas(*size, 50.0)
        self.fig = plt.gcf()
        self.viewports = [core.Viewport(self.canvas, *r, (1, 1, 1, 1)) for r in RECTS[:nviewports]]


class Renders(System):
    """Renders of visuals in viewports and modifications of their data, in any order.

    Each picture is compared with the one of a new scene, where for each viewport and each visual
    another visual, given the data of the last render, is rendered once with the last matrices.
    """
    kinds = ("points", "markers")
    viewports = 2
    mats = ("identity", "perspective")
    edits = ("move", "color")
    shared = True
    again = True
    sizes = ((120, 80), (150, 90))

    def __init__(self):
        world.restart()
        self.s = Scene(self.viewports)
        self.size = self.sizes[0]
        d = Data()
        self.data = [d if self.shared else Data() for k in self.kinds]
        self.visuals = [KINDS[k](x) for k, x in zip(self.kinds, self.data)]
        self.last = {}         # (visual, viewport) -> matrices, data of the last render
        self.hist = []
        self.nedits = 0

    def ops(self):
        out = [("render", v, p, m) for v in range(len(self.kinds)) for p in range(self.viewports) for m in self.mats]
        if self.again:
            out += [("render", v, p, None) for v, p in self.last]
        if self.last:
            out += [("resize", s) for s in self.sizes if s != self.size]
        if self.nedits < 2:
            out += [("edit", e) for e in self.edits]
        return out

    def do(self, op):
        self.hist.append(op)
        if op[0] == "render":
            _, v, p, m = op
            if m is None:
                self.visuals[v].render(self.s.viewports[p])
                m = self.last[v, p][0]
            else:
                M = [np.array(x) for x in MATS[m]]
                self.visuals[v].render(self.s.viewports[p], *M)
                for x in M:              # the matrices belong to the caller
                    x[...] = np.diag([.1, .2, .3, 1])
            old = self.last.get((v, p))
            self.last[v, p] = (m, self.data[v].snapshot())
        elif op[0] == "resize":
            draw.resize(self.s.fig, *op[1])
            self.size = op[1]
            # every visual is drawn again, with its current data
            for (v, p), (m, snap) in list(self.last.items()):
                self.last[v, p] = m, self.data[v].snapshot()
        elif op[0] == "edit":
            self.nedits += 1
            for d in {id(d): d for d in self.data}.values():
                if op[1] == "move":
                    d.positions[1] += (.25, .125, .5)
                elif op[1] == "color":
                    d.colors[0] = d.colors[0] * .5 + .25
                elif op[1] == "size":
                    d.sizes[:] = d.sizes[::-1] + 1

    def key(self):
        return tuple(self.hist)

    def finish(self):
        got = draw.shot(self.s.fig)
        again = draw.shot(self.s.fig)
        expect([p.key() for p in got] == [p.key() for p in again], "%s: drawing twice gives two pictures", self.hist)
        other = Scene(self.viewports, self.size)
        for (v, p), (m, snap) in self.last.items():
            KINDS[self.kinds[v]](Data(*snap)).render(other.viewports[p], *MATS[m])
        draw.same_pictures(got, draw.shot(other.fig), "%s of %s" % (self.hist, self.kinds))

    def close(self):
        plt.close("all")


def family(kinds_, **kw):
    return type("Renders", (Renders,), dict(kinds=kinds_, **kw))


def repeated(case):
    """One visual: repeated, moved, back again, in one or two viewports, with a raster in between."""
    kind, m, n, tracked, recorded = case
    world.restart()
    s = Scene(3)
    try:
        gsp.io.record(recorded)
        d = Data(tracked=tracked)
        v = KINDS[kind](d)
        before = d.snapshot()
        v.render(s.viewports[0], *MATS[m])
        a = draw.shot(s.fig)
        raster = s.canvas.render(None).copy()
        for i in range(2):
            v.render(s.viewports[0], *MATS[m])
            draw.same_pictures(draw.shot(s.fig), a, "%s: rendered again" % (case,))
        v.render(s.viewports[0], *MATS[n])
        b = draw.shot(s.fig)
        v.render(s.viewports[1], *MATS[m])
        c = draw.shot(s.fig)
        # backgrounds and items are drawn viewport after viewport
        clip0 = tuple(float(x) for x in (0, 0, 60, 60))
        mine = lambda shot: [p.key() for p in shot if p.clip is not None and np.allclose(p.clip, clip0)]
        expect(mine(b) == mine(c), "%s: rendering in another viewport changed the first one", case)
        v.render(s.viewports[0], *MATS[m])
        v.render(s.viewports[1], *MATS[n])
        v.render(s.viewports[0], *MATS[m])
        expect(mine(draw.shot(s.fig)) == mine(a), "%s: rendering back does not give the first picture", case)
        for x, y in zip(before, d.snapshot()):
            expect(np.array_equal(x, y), "%s: rendering modified the data", case)
        gsp.io.record(False)
        other = Scene(3)
        KINDS[kind](Data()).render(other.viewports[0], *MATS[m])
        KINDS[kind](Data()).render(other.viewports[1], *MATS[n])
        draw.same_pictures(draw.shot(s.fig), draw.shot(other.fig), "%s: after renders in two viewports" % (case,))
        for size in ((240, 160), (130, 90)):
            gsp.io.record(recorded)
            draw.resize(s.fig, *size)
            gsp.io.record(False)
            draw.resize(other.fig, *size)
            draw.same_pictures(draw.shot(s.fig), draw.shot(other.fig), "%s: after renders in two viewports and a resize" % (case,))
        expect(raster.shape == (80, 120, 4), "raster")
        return (case[0], len(a), tuple(a[-1].centre()))
    finally:
        gsp.io.record(False)
        plt.close("all")


def pairs(case):
    """Two visuals in the same viewport: rendering one again, elsewhere, leaves the other."""
    k1, k2, shared, m, n = case
    world.restart()
    s = Scene(1)
    try:
        d = Data()
        a = KINDS[k1](d)
        b = KINDS[k2](d if shared else Data())
        a.render(s.viewports[0], *MATS[m])
        b.render(s.viewports[0], *MATS[n])
        got = draw.shot(s.fig)
        a.render(s.viewports[0], *MATS[n])
        a.render(s.viewports[0], *MATS[m])
        draw.same_pictures(draw.shot(s.fig), got, "%s: rendering the first again" % (case,))
        other = Scene(1)
        KINDS[k1](Data()).render(other.viewports[0], *MATS[m])
        first = draw.shot(other.fig)[1:]
        alone = Scene(1)
        KINDS[k2](Data()).render(alone.viewports[0], *MATS[n])
        second = draw.shot(alone.fig)[1:]
        expect(sorted(map(repr, (p.key() for p in got[1:]))) == sorted(map(repr, (p.key() for p in first + second))), "%s: two visuals together are not both of them alone", case)
        return case
    finally:
        plt.close("all")


def check(run):
    K = list(KINDS)
    ms = ("identity", "perspective", "turned", "scaled")
    run.bounds.update(visuals=len(K), matrices=len(ms))
    run.cases("repeated", [(k, m, n, t, r) for k in K for m, n in run.q(list(zip(ms, ms[1:] + ms[:1])), list(itertools.permutations(ms, 2))) for t, r in ((True, False), (False, False), (True, True))], repeated)
    run.cases("pairs", [(a, b, sh, "identity", n) for a in K for b in K for sh in run.q((True,), (True, False)) for n in run.q(("perspective",), ("perspective", "turned", "identity"))], pairs)
    depth = run.q(3, 4)
    run.explore("points and markers", family(("points", "markers")), depth)
    run.explore("depth and paths", family(("depth", "paths"), edits=("move",)), depth)
    run.explore("three viewports", family(("along x",), viewports=3, edits=("move", "size", "color")), depth)
    run.explore("apart", family(("measured", "pixels"), shared=False, edits=("move", "color")), run.q(2, 4))
    run.explore("lines", family(("segments", "polygons"), edits=("move", "color")), run.q(2, 4))
    if run.thorough:
        for a, b in itertools.combinations(K, 2):
            run.explore("%s, %s" % (a, b), family((a, b), edits=("move", "color")), 3)
