"""C30: viewports occupy the requested rectangle of their canvas."""
import itertools
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from gsp.core import Color
from mc import draw, scene, world
from mc.core import System, expect

core = gsp_matplotlib.core

U = lambda name: getattr(transform, name)
# name: (how it is asked for, how many pixels it is on a side of s pixels at a resolution)
PLACES = {
    "10": (lambda: 10, lambda s, d: 10), "0": (lambda: 0, lambda s, d: 0), "-7": (lambda: -7, lambda s, d: -7), "1": (lambda: 1, lambda s, d: 1), "0.25": (lambda: 0.25, lambda s, d: .25 * s), "0.0": (lambda: 0.0, lambda s, d: 0),
    "1.0": (lambda: 1.0, lambda s, d: s), "10 px": (lambda: 10 * U("Pixel")(), lambda s, d: 10), "half inch": (lambda: 0.5 * U("Inch")(), lambda s, d: d / 2), "1.0 - 30 px": (lambda: 1.0 - 30 * U("Pixel")(), lambda s, d: s - 30),
    "px": (lambda: U("Pixel")()(15), lambda s, d: 15), "0.5 + 12 pt": (lambda: 0.5 + U("Point")()(12), lambda s, d: s / 2 + 12 / 72 * d),
}
SIZES = {
    "40": (lambda: 40, lambda s, d: 40), "1": (lambda: 1, lambda s, d: 1), "0.5": (lambda: 0.5, lambda s, d: s / 2), "1.0": (lambda: 1.0, lambda s, d: s), "none": (lambda: None, lambda s, d: s), "200": (lambda: 200, lambda s, d: 200),
    "20 px": (lambda: 20 * U("Pixel")(), lambda s, d: 20), "1 cm": (lambda: 1 * U("Centimeter")(), lambda s, d: d / 2.54), "1.0 - 20 px": (lambda: 1.0 - 20 * U("Pixel")(), lambda s, d: s - 20), "15 mm": (lambda: U("Millimeter")()(15.0), lambda s, d: 15 / 25.4 * d),
    "0.5 - 3 pt": (lambda: 0.5 - 3 * U("Point")(), lambda s, d: s / 2 - 3 / 72 * d), "px + px": (lambda: 12 * U("Pixel")() + 9 * U("Pixel")(), lambda s, d: 21), "(half)": (lambda: (1.0 - 10 * U("Pixel")()) / 2, lambda s, d: (s - 10) / 2),
}


def verify(viewport, prim, rect, color, what):
    x, y, w, h = rect
    sw, sh = viewport.size
    expect(abs(sw - w) < .01 and abs(sh - h) < .01, "%s: reports a size of %s x %s pixels instead of %s x %s", what, sw, sh, w, h)
    b = np.array(prim.bbox())
    expect(np.abs(b - (x, y, x + w, y + h)).max() < .01, "%s: occupies %s instead of %s", what, b, (x, y, x + w, y + h))
    expect(draw.near(prim.fill, color, 1e-3), "%s: background %s instead of %s", what, prim.fill, color)
    expect(prim.stroke is None or prim.stroke == prim.fill, "%s: has a frame", what)
    s = min(w, h)
    for lim, side, name in ((viewport.xlim, w, "x"), (viewport.ylim, h, "y")):
        expect(np.abs(np.array(lim) - (-side / s, side / s)).max() < 1e-3, "%s: shows %s along %s instead of %s", what, tuple(lim), name, (-side / s, side / s))


COLORS = {"Color": Color(.2, .4, .6, 1), "list": [1, 0, 0, 1], "tuple": (0, .5, 0, 1), "alpha": Color(.1, .2, .3, .5)}


def form(known, name):
    """A form by its name, or a number of pixels."""
    return known[name] if isinstance(name, str) else (lambda: name, lambda s, d: name)


def rectangle(case):
    """One viewport, alone or after others."""
    (w, h, dpi), (x, y, a, b), color, recorded, named = case
    world.restart()
    plt.close("all")
    try:
        gsp.io.record(recorded)
        canvas = core.Canvas(w, h, dpi)
        fig = plt.gcf()
        forms = [form(*f) for f in ((PLACES, x), (PLACES, y), (SIZES, a), (SIZES, b))]
        args = [f[0]() for f in forms]
        c = COLORS[color]
        if named:
            v = core.Viewport(color=c, height=args[3], width=args[2], y=args[1], x=args[0], canvas=canvas)
        else:
            v = core.Viewport(canvas, *args, c)
        q = gsp.io.queue("active") if recorded else None
        gsp.io.record(False)
        rect = tuple(f[1](s, dpi) for f, s in zip(forms, (w, h, w, h)))
        prims = draw.shot(fig)
        expect(len(prims) == 1, "%s: %d backgrounds", case, len(prims))
        verify(v, prims[0], rect, tuple(c), str(case))
        if recorded:
            from gsp.object import Object
            vid = v.id
            plt.close("all")
            Object.objects = {}
            q.run(gsp_matplotlib)
            prims = draw.shot(plt.gcf())
            expect(len(prims) == 1, "%s replayed: %d backgrounds", case, len(prims))
            verify(Object.objects[vid], prims[0], rect, tuple(c), "replayed %s" % (case,))
        return tuple(round(float(r), 4) for r in rect)
    finally:
        gsp.io.record(False)
        plt.close("all")


FEW = {"whole": (("0", "0", "none", "none"), "list"), "pixels": (("10", "1", "40", "20 px"), "Color"), "fractions": (("0.25", "0.0", "0.5", "0.5"), "alpha"), "margins": (("10 px", "10 px", "1.0 - 20 px", "1.0 - 20 px"), "tuple"), "half": (("half inch", "10", "(half)", "1 cm"), "Color")}


class Several(System):
    """Several viewports on several canvases, created in any order: each keeps its own rectangle."""
    sizes = ((120, 80, 50.0), (90, 150, 72.0))

    def __init__(self):
        world.restart()
        gsp.io.record(False)
        plt.close("all")
        self.canvases, self.figures = [], []
        for s in self.sizes:
            self.canvases.append(core.Canvas(*s))
            self.figures.append(plt.gcf())
        self.made = [[], []]
        self.hist = []

    def ops(self):
        return [("new", c, f) for c in range(2) for f in FEW] + [("draw", c) for c in range(2)]

    def do(self, op):
        self.hist.append(op)
        if op[0] == "new":
            (x, y, a, b), color = FEW[op[2]]
            v = core.Viewport(self.canvases[op[1]], PLACES[x][0](), PLACES[y][0](), SIZES[a][0](), SIZES[b][0](), COLORS[color])
            w, h, dpi = self.sizes[op[1]]
            self.made[op[1]].append((v, (PLACES[x][1](w, dpi), PLACES[y][1](h, dpi), SIZES[a][1](w, dpi), SIZES[b][1](h, dpi)), tuple(COLORS[color]), op))
        else:
            self.canvases[op[1]].render(None)

    def key(self):
        return tuple(self.hist)

    def finish(self):
        for fig, made in zip(self.figures, self.made):
            prims = draw.shot(fig)
            expect(len(prims) == len(made), "%d backgrounds for %d viewports", len(prims), len(made))
            for p, (v, rect, color, op) in zip(prims, made):
                verify(v, p, rect, color, "%s among %s" % (op, self.hist))

    def close(self):
        plt.close("all")


def check(run):
    canvases = [(120, 80, 50.0), (100, 200, 100.0), (333, 127, 72.0)] + run.q([], [(64, 64, 30.0), (257, 101, 33.3), (512, 512, 100.0)])
    pk, sk = list(PLACES), list(SIZES)
    todo = []
    for c in canvases[:run.q(1, 3)]:
        todo += [(c, r, "Color", False, False) for r in itertools.product(pk, pk[::run.q(3, 1)], sk, sk[::run.q(3, 1)])]
    for c in canvases:
        # each side in every form, the others in some
        todo += [(c, (x, "10", a, "40"), "list", False, False) for x in pk for a in sk] + [(c, ("0.25", y, "0.5", b), "tuple", False, True) for y in pk for b in sk]
        todo += [(c, r, col, False, nm) for r in [("10", "1", "40", "200"), ("0.25", "0.25", "0.5", "1.0"), ("10 px", "half inch", "1.0 - 20 px", "1 cm")] for col in COLORS for nm in (False, True)]
    c = canvases[0]
    todo += [(c, (x, "1", a, "40"), "list", True, False) for x in pk for a in sk] + [(c, ("0.25", y, "0.5", b), "Color", True, True) for y in pk for b in sk]
    todo += [(c, ("10", "1", "40", "none"), col, True, nm) for col in COLORS for nm in (False, True)]
    # sides that are almost the same
    for d in run.q((100, 400), (50, 100, 257, 400, 1000)):
        for e in (-2, -1, 0, 1, 2, 5):
            todo += [((d + e, d, 50.0), r, "Color", False, False) for r in (("0", "0", "none", "none"), ("0.25", "10", "0.5", "0.5"), ("0", "0", "1.0 - 20 px", "1.0 - 20 px"))]
            todo += [((3 * d, 2 * d, 50.0), (10, 20, d + e, d), "Color", False, False)]
    run.bounds.update(canvases=len(canvases), near="sides that differ by one pixel or two", forms="%d x %d" % (len(pk), len(sk)))
    run.cases("rectangles", todo, rectangle)
    run.explore("several", Several, run.q(3, 4))
