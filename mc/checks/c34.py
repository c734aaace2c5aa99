"""C34: a canvas rasterises to its size, background and viewports."""
import itertools, os, shutil, tempfile
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from gsp.core import Color
from mc import draw, scene, world
from mc.core import System, expect
from mc.scene import eye, visual

core = gsp_matplotlib.core
COLORS = {"red": (1, 0, 0, 1), "green": (0, 1, 0, 1), "blue": (0, 0, 1, 1), "white": (1, 1, 1, 1), "veil": (1, 1, 0, .5), "clear": (0, 1, 1, 0), "grey": (.5, .5, .5, 1), "dim": (.2, .4, .8, .25)}


def composite(w, h, layers):
    """Image (top row first) of rectangles of colour over nothing, RGBA in [0,1]."""
    rgb, a = np.zeros((h, w, 3)), np.zeros((h, w))
    for (x, y, ww, hh), c in layers:
        x0, y0, x1, y1 = max(0, x), max(0, y), min(w, x + ww), min(h, y + hh)
        if x1 <= x0 or y1 <= y0 or c[3] == 0:
            continue
        s = np.s_[h - y1:h - y0, x0:x1]
        out = c[3] + a[s] * (1 - c[3])
        rgb[s] = (np.array(c[:3]) * c[3] + rgb[s] * (a[s] * (1 - c[3]))[..., None]) / np.maximum(out, 1e-9)[..., None]
        a[s] = out
    return np.dstack([rgb, a])


def compare(image, want, what, exclude=None):
    h, w = want.shape[:2]
    image = np.asarray(image)
    expect(image.shape == (h, w, 4) and image.dtype == np.uint8, "%s: image %s %s instead of %s", what, image.shape, image.dtype, (h, w, 4))
    alpha = image[..., 3] / 255
    bad = np.abs(alpha - want[..., 3]) > 2.5 / 255
    bad |= (np.abs(image[..., :3] / 255 - want[..., :3]).max(axis=-1) > 4 / 255 / np.maximum(want[..., 3], .2)) & (want[..., 3] > 0)
    if exclude is not None:
        bad &= ~exclude
    if bad.any():
        y, x = np.argwhere(bad)[0]
        expect(False, "%s: %d wrong pixels, e.g. column %d, row %d from the top is %s instead of %s", what, bad.sum(), x, y, image[y, x], np.round(want[y, x] * 255))


def raster(case):
    """One canvas with some viewports, rendered several ways."""
    (w, h, dpi), layers, how = case
    world.restart()
    plt.close("all")
    gsp.io.record(False)
    d = tempfile.mkdtemp(prefix="gsp-c34-")
    try:
        if how == "measured":
            canvas = core.Canvas((w / dpi) * transform.Inch(), h * transform.Pixel(), dpi)
        else:
            canvas = core.Canvas(w, h, dpi)
        fig = plt.gcf()
        for rect, color in layers:
            core.Viewport(canvas, *rect, COLORS[color])
        want = composite(w, h, [(r, COLORS[c]) for r, c in layers])
        size = tuple(np.round(canvas.size, 6))
        expect(size == (w, h), "%s: canvas of size %s", case, size)
        if how == "recorded":
            gsp.io.record(True)
        image = canvas.render(None)
        gsp.io.record(False)
        compare(image, want, str(case))
        if how in ("saved", "saved first"):
            path = os.path.join(d, "a.png")
            expect(canvas.render(path) is None, "%s: something returned", case)
            expect(os.listdir(d) == ["a.png"], "%s: files %s", case, os.listdir(d))
            saved = plt.imread(path)
            expect(saved.shape == image.shape and np.array_equal(np.round(saved * 255).astype(np.uint8), image), "%s: the saved image (%s) differs from the rendered one (%s)", case, saved.shape, image.shape)
        again = canvas.render(None)
        expect(np.array_equal(again, image), "%s: rendering again gives something else", case)
        expect(tuple(np.round(canvas.size, 6)) == size, "%s: rendering changed the size", case)
        image2 = np.array(image)
        image2[:] = 7                     # the image belongs to the caller
        expect(np.array_equal(canvas.render(None), image), "%s: rendering once more gives something else", case)
        return image.tobytes()
    finally:
        gsp.io.record(False)
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)


SIZES = ((50, 40), (33, 71), (40, 50))
RECTS = {"a": ((5, 10, 20, 15), "red"), "b": ((15, 0, 100, 20), "veil"), "c": ((0, 25, 12, 30), "white")}


class Session(System):
    """Rendering, saving, resizing and adding viewports and points in any order, on two canvases."""

    def __init__(self):
        world.restart()
        gsp.io.record(False)
        plt.close("all")
        self.dir = tempfile.mkdtemp(prefix="gsp-c34-")
        self.canvas, self.fig, self.layers, self.sizes, self.points, self.viewports = [], [], [], [], [], []
        for s in SIZES[:2]:
            self.canvas.append(core.Canvas(*s, 50.0))
            self.fig.append(plt.gcf())
            self.layers.append([])
            self.points.append([])
            self.viewports.append([])
            self.sizes.append(s)
        self.files = {}
        self.hist = []

    def ops(self):
        out = []
        for c in range(2):
            out += [("render", c), ("save", c, "x"), ("save", c, "y")]
            out += [("resize", c, s) for s in SIZES if s != self.sizes[c]]
            out += [("viewport", c, r) for r in RECTS if (RECTS[r]) not in self.layers[c]]
            if self.viewports[c] and not self.points[c]:
                out.append(("point", c))
        return out

    def do(self, op):
        self.hist.append(op)
        c = op[1]
        canvas = self.canvas[c]
        if op[0] == "render":
            self.verify(c, canvas.render(None))
        elif op[0] == "save":
            path = os.path.join(self.dir, op[2] + ".png")
            canvas.render(path)
            im = np.round(plt.imread(path) * 255).astype(np.uint8)
            self.verify(c, im)
            self.files[op[2]] = im
        elif op[0] == "resize":
            draw.resize(self.fig[c], *op[2])
            self.sizes[c] = op[2]
        elif op[0] == "viewport":
            rect, color = RECTS[op[2]]
            self.viewports[c].append(core.Viewport(canvas, *rect, COLORS[color]))
            self.layers[c].append(RECTS[op[2]])
        elif op[0] == "point":
            # one black pixel at the centre of the first viewport
            p = visual.Pixels(np.zeros((1, 3), np.float32), Color(0, 0, 0, 1))
            p.render(self.viewports[c][0], eye, eye, eye)
            self.points[c].append(self.layers[c][0][0])

    def verify(self, c, image):
        w, h = self.sizes[c]
        want = composite(w, h, [(r, COLORS[k]) for r, k in self.layers[c]])
        exclude = np.zeros((h, w), bool)
        for x, y, ww, hh in self.points[c]:
            cx, cy = int(x + ww / 2), int(y + hh / 2)
            e = np.s_[max(0, h - 1 - cy - 1):max(0, h - cy + 1), max(0, cx - 1):cx + 2]
            exclude[e] = True
        compare(image, want, "%s" % (self.hist,), exclude)
        if self.points[c]:
            x, y, ww, hh = self.points[c][0]
            over = any(max(r[0], 0) <= x + ww / 2 < r[0] + r[2] and r[1] <= y + hh / 2 < r[1] + r[3] for r, k in self.layers[c][1:])
            inside = 0 < x + ww / 2 < w and 0 < y + hh / 2 < h
            if inside and not over:
                near = image[exclude]
                bg = np.round(np.array(COLORS[self.layers[c][0][1]]) * 255)
                expect((np.abs(near.astype(float) - bg).max(axis=-1) > 20).any(), "%s: the pixel is not drawn", self.hist)

    def key(self):
        return tuple(self.hist)

    def finish(self):
        for c in range(2):
            self.verify(c, self.canvas[c].render(None))
        for k, im in self.files.items():
            expect(np.array_equal(np.round(plt.imread(os.path.join(self.dir, k + ".png")) * 255).astype(np.uint8), im), "%s: a saved file has changed", self.hist)

    def close(self):
        plt.close("all")
        shutil.rmtree(self.dir, ignore_errors=True)


def several(case):
    """Several canvases alive, some of the same size: each keeps its own size and content."""
    spec, when = case
    world.restart()
    plt.close("all")
    gsp.io.record(False)
    try:
        made = []
        for n, (w, h, dpi) in enumerate(spec):
            layers = [((n, 2 * n, 10 + n, 8), ("red", "green", "veil")[n])]
            c = core.Canvas(w, h, dpi)
            made.append((c, w, h, layers))
            if when == "interleaved":
                core.Viewport(c, *layers[0][0], COLORS[layers[0][1]])
                compare(c.render(None), composite(w, h, [(r, COLORS[k]) for r, k in layers]), "%s, canvas %d just created" % (case, n))
        if when == "after":
            for n, (c, w, h, layers) in reversed(list(enumerate(made))):
                compare(c.render(None), composite(w, h, []), "%s, canvas %d, empty" % (case, n))
                core.Viewport(c, *layers[0][0], COLORS[layers[0][1]])
        images = [c.render(None) for c, *_ in made]
        for n, (c, w, h, layers) in enumerate(made):
            expect(tuple(np.round(c.size, 6)) == (w, h), "%s: canvas %d has size %s", case, n, c.size)
            compare(images[n], composite(w, h, [(r, COLORS[k]) for r, k in layers]), "%s, canvas %d" % (case, n))
            compare(c.render(None), composite(w, h, [(r, COLORS[k]) for r, k in layers]), "%s, canvas %d again" % (case, n))
    finally:
        plt.close("all")
    return case


def check(run):
    specs = [(50, 40, 100.0), (50, 40, 50.0), (33, 71, 100.0)]
    run.bounds["several"] = "all groups of two and three canvases of two sizes and two resolutions, equal ones included, filled at once or later"
    run.cases("several", [(s, when) for k in (2, 3) for s in itertools.product(specs, repeat=k) for when in ("interleaved", "after")], several)
    dpis = run.q((100.0, 72.0, 50.0, 33.3, 96.0, 100), (100.0, 72.0, 50.0, 33.3, 96.0, 100, 30.0, 144.0, 301.5, 10.0, 66.7))
    dpis += (200.0, 300.0, 400.0, 600.0, 1200.0, 1.0)
    dims = run.q(((64, 48), (1, 1), (101, 37), (7, 90), (333, 127)), ((64, 48), (1, 1), (2, 1), (101, 37), (7, 90), (333, 127), (127, 333), (257, 255), (640, 480), (49, 98)))
    L = {"none": [], "whole": [((0, 0, 2000, 2000), "grey")], "one": [((3, 2, 20, 10), "red")], "clear": [((3, 2, 20, 10), "clear"), ((1, 1, 3, 3), "white")], "corner": [((0, 0, 1, 1), "blue"), ((5, 5, 2, 1), "green")],
         "overlap": [((2, 2, 30, 20), "red"), ((10, 5, 15, 30), "green"), ((12, 0, 4, 12), "blue")], "veils": [((2, 2, 30, 20), "red"), ((10, 5, 15, 30), "veil"), ((0, 0, 64, 8), "dim")], "veil": [((4, 4, 10, 10), "veil"), ((8, 8, 10, 10), "dim")], "out": [((-5, -5, 20, 20), "blue"), ((40, 30, 100, 100), "green")]}
    run.cases("sizes", [((w, h, d), l, how) for w, h in dims for d in dpis for l in (L["none"], L["one"], L["veils"]) for how in ("plain", "saved")], raster)
    rects = [(0, 0, 10, 10), (5, 5, 10, 10), (0, 7, 30, 6), (11, 0, 6, 20), (3, 3, 4, 4)]
    cols = ("red", "green", "veil", "clear")
    layers = [[(r, c), (s, k)] for r in rects for s in rects for c in cols for k in cols]
    if run.thorough:
        layers += [[(r, a), (s, b), (t, c)] for r in rects for s in rects for t in rects for a, b, c in itertools.product(("red", "veil", "dim"), repeat=3)]
    run.cases("layers", [((30, 20, 100.0), l, "plain") for l in layers], raster)
    run.cases("forms", [((w, h, 50.0), l, how) for w, h in dims for l in L.values() for how in ("measured", "recorded", "saved", "plain")], raster)
    run.explore("sessions", Session, run.q(3, 4), max_states=run.q(None, 25000))
