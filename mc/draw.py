"""What a canvas draws, as a list of primitives in display coordinates (pixels, bottom-left origin).

The figure is drawn with a renderer that records every path it is asked to draw, so what is
observed is the geometry, colour, width, clipping and order of what reaches the screen, whatever
kinds of artists the implementation uses.
"""
import numpy as np
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
from matplotlib.backend_bases import RendererBase, ResizeEvent
from mc.core import expect

plt.rcParams["figure.max_open_warning"] = 0


class Prim:
    """One drawn path."""
    __slots__ = ("vertices", "codes", "fill", "stroke", "width", "clip", "cap", "join", "dash", "alias")

    def bbox(self):
        # extent of the outline (curves included)
        v = self.vertices
        if self.codes is not None:
            if (self.codes == 3).any() or (self.codes == 4).any():
                from matplotlib.path import Path
                b = Path(v, self.codes).get_extents()
                return b.x0, b.y0, b.x1, b.y1
            v = v[self.codes != 79]
        return v[:, 0].min(), v[:, 1].min(), v[:, 0].max(), v[:, 1].max()

    def points(self):
        """Places the outline goes through, closing point left out."""
        v = self.vertices
        if self.codes is not None:
            v = v[self.codes != 79]
        return v

    def centre(self):
        x0, y0, x1, y1 = self.bbox()
        return (x0 + x1) / 2, (y0 + y1) / 2

    def size(self):
        x0, y0, x1, y1 = self.bbox()
        return x1 - x0, y1 - y0

    def key(self, digits=3):
        """Comparable description (what cannot be seen left out)."""
        r = lambda v: tuple(np.round(np.asarray(v, float).ravel() + 0.0, digits) + 0.0)
        stroke = None if self.stroke is None else (r(self.stroke), round(self.width, digits), self.cap, self.join, self.dash)
        return (r(self.vertices), None if self.codes is None else tuple(int(c) for c in self.codes),
                None if self.fill is None else r(self.fill), stroke, None if self.clip is None else r(self.clip))

    def __repr__(self):
        return "<%s pts at %s size %s fill %s stroke %s width %s>" % (len(self.vertices), np.round(self.centre(), 3), np.round(self.size(), 3), self.fill and tuple(np.round(self.fill, 3)), self.stroke and tuple(np.round(self.stroke, 3)), round(self.width, 3))


class Recorder(RendererBase):
    def __init__(self, width, height, dpi):
        super().__init__()
        self.width, self.height, self.dpi = width, height, dpi
        self.prims = []

    def points_to_pixels(self, points):
        return points * self.dpi / 72

    def get_canvas_width_height(self):
        return self.width, self.height

    def flipy(self):
        return False

    def draw_path(self, gc, path, transform, rgbFace=None):
        p = Prim()
        path = path.transformed(transform)
        p.vertices = np.array(path.vertices, float)
        p.codes = None if path.codes is None else np.array(path.codes)
        alpha = gc.get_alpha()
        p.fill = None
        if rgbFace is not None:
            f = tuple(float(c) for c in rgbFace)
            if len(f) == 3 or gc.get_forced_alpha():
                f = f[:3] + (float(alpha),)
            if f[3] > 0:
                p.fill = f
        p.width = float(self.points_to_pixels(gc.get_linewidth()))
        rgb = tuple(float(c) for c in gc.get_rgb())
        if gc.get_forced_alpha():
            rgb = rgb[:3] + (float(alpha),)
        p.stroke = rgb if p.width > 0 and rgb[3] > 0 else None
        if p.stroke is None:
            p.width = 0.0
        clip = gc.get_clip_rectangle()
        p.clip = None if clip is None else tuple(float(c) for c in clip.extents)
        p.cap, p.join = str(getattr(gc.get_capstyle(), "name", gc.get_capstyle())), str(getattr(gc.get_joinstyle(), "name", gc.get_joinstyle()))
        off, seq = gc.get_dashes()
        p.dash = None if seq is None else (float(off), tuple(float(s) for s in seq))
        p.alias = bool(gc.get_antialiased())
        if len(p.vertices) and (p.fill is not None or p.stroke is not None):
            self.prims.append(p)

    def draw_text(self, *args, **kwargs):
        raise AssertionError("text is drawn")

    def draw_image(self, gc, x, y, im, transform=None):
        raise AssertionError("an image is drawn")


def shot(figure=None):
    """Everything a figure draws, in order."""
    figure = figure or plt.gcf()
    w, h = figure.get_size_inches() * figure.dpi
    r = Recorder(w, h, figure.dpi)
    figure.draw(r)
    return r.prims


def items(figure=None, backgrounds=1):
    """What is drawn over the viewports' backgrounds (the first primitive of each viewport).

    Backgrounds are recognised as unclipped-or-not rectangles drawn first in each viewport.
    """
    return shot(figure)[backgrounds:]


def resize(figure, width, height):
    """As the window system does: new size in pixels, then the event."""
    figure.set_size_inches(width / figure.dpi, height / figure.dpi)
    event = ResizeEvent("resize_event", figure.canvas)
    event._process()


def same_pictures(a, b, what, *args, tol=2e-3):
    """Two lists of primitives draw the same."""
    what = what % args if args else what
    expect(len(a) == len(b), "%s: %d things are drawn instead of %d: %s instead of %s", what, len(a), len(b), a[:6], b[:6])
    for i, (p, q) in enumerate(zip(a, b)):
        same_prim(p, q, "%s: item %d" % (what, i), tol)


def near(a, b, tol):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def same_prim(p, q, what, tol=2e-3):
    expect(near(p.vertices, q.vertices, tol), "%s goes through %s instead of %s", what, p.vertices[:5].tolist(), q.vertices[:5].tolist())
    expect(near(p.fill, q.fill, 1e-5), "%s is filled with %s instead of %s", what, p.fill, q.fill)
    expect(near(p.stroke, q.stroke, 1e-5), "%s is stroked with %s instead of %s", what, p.stroke, q.stroke)
    expect(abs(p.width - q.width) <= tol, "%s has width %s instead of %s", what, p.width, q.width)
    expect(near(p.clip, q.clip, tol), "%s is clipped to %s instead of %s", what, p.clip, q.clip)
    if p.stroke is not None:
        expect((p.cap, p.join) == (q.cap, q.join) and (p.dash is None) == (q.dash is None) and (p.dash is None or near(p.dash[1], q.dash[1], tol)), "%s has caps, joins and dashes %s instead of %s", what, (p.cap, p.join, p.dash), (q.cap, q.join, q.dash))
