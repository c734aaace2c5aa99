"""Scenes for the rendering checks: data in every form the visuals accept, and what they should draw."""
import itertools
import numpy as np
import gsp
import gsp_matplotlib
import matplotlib
import matplotlib.pyplot as plt
from gsp import transform
from gsp.core import Color, Marker
from gsp_matplotlib import glm
from mc import draw, svgref
from mc.core import expect

core, visual = gsp_matplotlib.core, gsp_matplotlib.visual
eye = np.eye(4)


class Place:
    """A viewport of a canvas and how its coordinates are shown."""

    def __init__(self, width=120, height=80, dpi=50.0, rect=(10, 5, 90, 60), color=(1, 1, 1, 1), canvas=None):
        if canvas is None:
            canvas = core.Canvas(width, height, dpi)
        self.canvas, self.figure, self.dpi = canvas, plt.gcf(), dpi
        self.viewport = core.Viewport(canvas, *rect, color)
        self.set(*rect)

    def set(self, x, y, w, h):
        """Rectangle in pixels."""
        self.x, self.y, self.w, self.h = x, y, w, h
        s = min(w, h)
        self.rx, self.ry = w / s, h / s

    def px(self, p):
        """Pixels of points given in viewport coordinates."""
        p = np.asarray(p, float)
        return np.c_[self.x + (p[..., 0] / self.rx + 1) / 2 * self.w, self.y + (p[..., 1] / self.ry + 1) / 2 * self.h]

    @property
    def clip(self):
        return self.x, self.y, self.x + self.w, self.y + self.h


def project(P, M):
    """Points projected by a 4x4 matrix."""
    P = np.asarray(P, float).reshape(-1, np.shape(P)[-1])
    if P.shape[1] == 2:
        P = np.c_[P, np.zeros(len(P))]
    if P.shape[1] == 3:
        P = np.c_[P, np.ones(len(P))]
    Q = P @ np.asarray(M, float).T
    return Q[:, :3] / Q[:, 3:]


def rec(name, a):
    """A structured buffer with a field of that name among others."""
    a = np.asarray(a)
    r = np.zeros(len(a), [("other", "<i2"), (name, a.dtype, a.shape[1:]), ("more", "<f4", 2)])
    r["other"], r[name], r["more"] = np.arange(len(a)) - 7, a, .25
    return gsp_matplotlib.core.Buffer(len(a), r.dtype, r.tobytes())


def buffer(a):
    a = np.ascontiguousarray(a)
    dtype = np.dtype((a.dtype, a.shape[1:])) if a.ndim > 1 else a.dtype
    return gsp_matplotlib.core.Buffer(len(a), dtype, a.tobytes())


def tracked(a):
    """A tracked array."""
    a = np.asarray(a)
    if a.ndim == 2 and a.shape[1] in (2, 3, 4):
        t = {2: glm.vec2, 3: glm.vec3, 4: glm.vec4}[a.shape[1]](len(a))
    else:
        t = glm.ndarray.tracked(a.shape, a.dtype)
    t[...] = a
    return t


FORMS = {
    "array": lambda n, a: np.array(a),
    "float64": lambda n, a: np.array(a, float) if np.asarray(a).dtype.kind == "f" else np.array(a, np.int64),
    "buffer": lambda n, a: buffer(a),
    "tracked": lambda n, a: tracked(a),
    "field": lambda n, a: transform.Accessor(rec(n, a), n),
    "chained": lambda n, a: transform.Accessor(key=n)(rec(n, a)),
    "half+half": lambda n, a: buffer_expr(a),
    "array*1": lambda n, a: np.array(a) * transform.Accessor(rec("one", np.ones(len(a), np.float32).reshape((-1,) + (1,) * (np.ndim(a) - 1))), "one"),
}


def buffer_expr(a):
    a = np.asarray(a, np.float32)
    t = transform.Accessor(rec("a", a), "a")
    return t * 0.5 + t / 2


def ordered(z):
    """Farthest (largest depth) first."""
    return sorted(range(len(z)), key=lambda i: -z[i])


def disc(px, r):
    return ("disc", px, r)


def check_colors(p, fill, stroke, width, what):
    """Colours and width of a primitive; width in pixels. Nothing is stroked without width."""
    if fill is not None and fill[3] == 0:
        fill = None
    if stroke is not None and (width == 0 or stroke[3] == 0):
        stroke = None
    expect(draw.near(p.fill, fill, 2e-3), "%s is filled with %s instead of %s", what, p.fill, fill)
    expect(draw.near(p.stroke, stroke, 2e-3), "%s has outline %s instead of %s", what, p.stroke, stroke)
    if stroke is not None:
        expect(abs(p.width - width) < 1e-3 * max(1, width), "%s is stroked with width %s instead of %s pixels", what, p.width, width)


def check_clip(p, place, what):
    expect(p.clip is not None and draw.near(p.clip, place.clip, .01), "%s is clipped to %s instead of the viewport %s", what, p.clip, place.clip)


def outline(marker, angle):
    """Outline of a marker of size 1, turned anticlockwise (degrees)."""
    path = Marker.path(Marker(int(marker)))
    a = np.radians(angle)
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return matplotlib.path.Path(np.asarray(path.vertices) @ R.T, path.codes)


def hull(v):
    """Extent of an outline: (x0, y0, x1, y1)."""
    b = v.get_extents()
    return np.array([b.x0, b.y0, b.x1, b.y1])
