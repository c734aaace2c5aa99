"""C24: measures convert physical units consistently on every surface."""
import itertools
import numpy as np
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from mc import expr, world
from mc.core import expect
from mc.expr import same

INCH = dict(Inch=1.0, Point=1 / 72, Centimeter=1 / 2.54, Millimeter=1 / 25.4, Meter=1 / .0254, Kilometer=1 / .0000254)
UNITS = ("Pixel",) + tuple(INCH)


def pixels(unit, dpi):
    """Device pixels of one unit."""
    return 1.0 if unit == "Pixel" else INCH[unit] * dpi


VALUES = {"int": 10, "float": 2.5, "zero": 0, "negative": -3, "pair": (4, 5), "triple": (6, 7, 8), "array2": np.array([1.5, -2.0]), "array3": np.array([1.0, 2, 3]),
          "items2": np.array([[1, 2], [3, 4], [5, 6], [7, 8.5]]), "items3": np.array([[1, 2, 3], [4, 5, 6.0]]), "one": np.array([[4.0], [5.0]]), "ints": np.array([[1, 2, 3], [4, 5, 6], [7, 8, 9]]),
          "float32": np.array([[1, 2, 3], [4, 5, 6], [7, 8, 9]], np.float32)}
FORMS = {"t(v)": lambda t, v: t(v), "v*t": lambda t, v: v * t, "t*v": lambda t, v: t * v}


def rect(layout, w, h):
    """A viewport (arguments, size in pixels)."""
    return {"whole": ((), (w, h)), "pixels": ((5, 10, 40, 20), (40, 20)), "fractions": ((0.25, 0.0, 0.5, 0.75), (w * .5, h * .75)), "tall": ((0, 0, 10, 50), (10, 50))}[layout]


def surface(case):
    """A surface: variables to evaluate with, scale of a pixel along x and y, resolution."""
    kind = case[0]
    world.restart()
    plt.close("all")
    if kind == "dpi":
        return {"dpi": case[1]}, (1.0, 1.0), case[1]
    w, h, dpi = case[1:4]
    canvas = gsp_matplotlib.core.Canvas(w, h, dpi)
    if kind == "canvas":
        return {"canvas": canvas}, (1 / w, 1 / h), dpi
    if kind == "resized canvas":
        w, h = case[4]
        plt.gcf().set_size_inches(w / dpi, h / dpi)
        return {"canvas": canvas}, (1 / w, 1 / h), dpi
    if kind == "size":
        return {"canvas": canvas, "size": case[4]}, (1 / case[4][0], 1 / case[4][1]), dpi
    layout, zoom = case[4], case[5]
    args, (vw, vh) = rect(layout, w, h)
    viewport = gsp_matplotlib.core.Viewport(canvas, *(args or (0.0, 0.0, 1.0, 1.0)), (1, 1, 1, 1))
    if zoom is not None:
        plt.gcf().axes[-1].set_xlim(*zoom[0])
        plt.gcf().axes[-1].set_ylim(*zoom[1])
        rx, ry = zoom[0][1] - zoom[0][0], zoom[1][1] - zoom[1][0]
    else:
        s = min(vw, vh)
        rx, ry = 2 * vw / s, 2 * vh / s
    return {"viewport": viewport}, (rx / vw, ry / vh), dpi


def scaled(v, s, px):
    """Conversion of a value: x by the horizontal scale, y by the vertical one, z left out."""
    v = np.asanyarray(v, float)
    if v.ndim == 0 or v.shape[-1] == 1:
        return v * s[0] * px
    return v * np.array([s[0], s[1], 0.0])[:v.shape[-1]] * px


def conversions(case):
    variables, s, dpi = surface(case)
    out = []
    try:
        for unit in UNITS:
            px = pixels(unit, dpi)
            cls = getattr(transform, unit)
            same(cls().evaluate(variables), s[0] * px, "%s: one %s", case, unit)
            for name, v in VALUES.items():
                for form, f in FORMS.items():
                    t = f(cls(), v.copy() if isinstance(v, np.ndarray) else v)
                    expect(isinstance(t, transform.Transform), "%s %s %s", unit, form, type(t))
                    same(t.evaluate(variables), scaled(v, s, px), "%s: %s with %s %s", case, form, unit, name)
                    same(t.copy().evaluate(variables), scaled(v, s, px), "%s: copy of %s with %s %s", case, form, unit, name)
            out.append(round(s[0] * px, 9))
            # one measure object, bound several times, is not changed by it
            m = cls()
            a, b = 10 * m, m * (3, 4)
            same(a.evaluate(variables), 10 * s[0] * px, "%s: 10 %s next to others", case, unit)
            same(b.evaluate(variables), scaled((3, 4), s, px), "%s: (3,4) %s next to others", case, unit)
            same(m.evaluate(variables), s[0] * px, "%s: unbound %s next to others", case, unit)
            # data behind an accessor or another measure
            rec = expr.data("buf:rec")
            f = transform.Accessor(rec, "p")
            same(cls()(f).evaluate(variables), scaled(expr.REC["p"], s, px), "%s: %s of a field", case, unit)
            same((cls()(f) + 1).evaluate(variables), scaled(expr.REC["p"], s, px) + 1, "%s: %s of a field + 1", case, unit)
    finally:
        plt.close("all")
    return tuple(out)


def expressions(case):
    """Sums, differences, multiples, quotients and chains, for every pair of units."""
    variables, s, dpi = surface(case[0])
    recorded = case[1]
    gsp.io.record(recorded)
    try:
        for u1, u2 in itertools.product(UNITS, repeat=2):
            p1, p2 = pixels(u1, dpi), pixels(u2, dpi)
            for v1, v2 in ((10, 3), (2.5, 4), ((1, 2, 3), (4, 5, 6)), ((1, 2), (3, 4)), (np.array([[1, 2, 3], [4, 5, 6.0]]), (7, 8, 9)), (2, (1, 2, 3))):
                a, b = v1 * getattr(transform, u1)(), getattr(transform, u2)() * v2
                A, B = scaled(v1, s, p1), scaled(v2, s, p2)
                for what, t, want in (("sum", a + b, A + B), ("difference", a - b, A - B), ("other difference", b - a, B - A), ("sum of parts", a + b + a, A + B + A),
                                      ("multiple", 2 * a, 2 * A), ("multiple on the right", b * 3, B * 3), ("half", a / 2, A / 2), ("opposite", -b, -B),
                                      ("multiple of a sum", 2 * (a + b), 2 * (A + B)), ("double multiple", 2 * (3 * a), 6 * A), ("offset", 1 - a, 1 - A), ("offset on the right", b - 0.5, B - 0.5)):
                    same(t.evaluate(variables), want, "%s: %s of %s %s and %s %s", case[0], what, v1, u1, v2, u2)
                same(a.evaluate(variables), A, "%s: %s %s after expressions", case[0], v1, u1)
                same(b.evaluate(variables), B, "%s: %s %s after expressions", case[0], v2, u2)
                c = getattr(transform, u1)()(b)
                same(c.evaluate(variables), scaled(B, s, p1), "%s: chain of %s and %s %s", case[0], u1, v2, u2)
            for row in ([-1, -1, 0], (-1, 1, 0), np.array([-1.0, -1, 0])):
                # examples of the documentation: so many units from a corner
                P = row + 10 * getattr(transform, u1)()
                same(P.evaluate(variables), np.array(row) + 10 * s[0] * p1, "%s: corner + 10 %s", case[0], u1)
                P = row + (10, 20, 0) * getattr(transform, u1)()
                same(P.evaluate(variables), np.array(row) + scaled((10, 20, 0), s, p1), "%s: corner + (10,20,0) %s", case[0], u1)
    finally:
        gsp.io.record(True)
        plt.close("all")
    return (case[0], round(s[0], 6), round(s[1], 6))


def sized(case):
    """A canvas whose sides are given in physical units."""
    u1, v1, u2, v2, dpi = case
    world.restart()
    plt.close("all")
    try:
        side = [v * getattr(transform, u)() if u != "none" else v for u, v in ((u1, v1), (u2, v2))]
        want = [v * pixels(u, dpi) if u != "none" else v for u, v in ((u1, v1), (u2, v2))]
        c = gsp_matplotlib.core.Canvas(*side, dpi)
        expect(np.allclose(c.size, want, atol=1e-6), "canvas of %s %s x %s %s at %s dpi: %s pixels instead of %s", v1, u1, v2, u2, dpi, c.size, want)
    finally:
        plt.close("all")
    return tuple(np.round(want, 3))


def several(case):
    """The same measures converted on several surfaces in turn: each conversion is that of the surface."""
    order, live = case
    if live:                # canvases and viewports exist side by side
        made = live_surfaces()
        at = lambda i: made[i]
    else:
        at = lambda i: surface(SEVERAL[i])
    ts = []
    for unit in UNITS:
        m = getattr(transform, unit)()
        ts += [(unit, None, m), (unit, 2.5, m * 2.5), (unit, (6, 7, 8), m((6, 7, 8))), (unit, (3, 4), ((3, 4) * m).copy())]
    try:
        for n, i in enumerate(order):
            variables, s, dpi = at(i)
            for unit, v, t in ts:
                same(t.evaluate(variables), scaled(1.0 if v is None else v, s, pixels(unit, dpi)), "%s: conversion %d of %s %s", case, n, v, unit)
                if n == len(order) - 1:
                    same((t + t).evaluate(variables), 2 * scaled(1.0 if v is None else v, s, pixels(unit, dpi)), "%s: conversion %d of twice %s %s", case, n, v, unit)
    finally:
        plt.close("all")
    return order


SEVERAL = [("dpi", 100.0), ("canvas", 200, 100, 100.0), ("canvas", 200, 100, 50.0), ("viewport", 200, 100, 100.0, "pixels", None), ("viewport", 200, 100, 50.0, "pixels", None), ("viewport", 90, 270, 72.0, "fractions", None),
           ("size", 200, 100, 72.0, (50, 60))]


def live_surfaces():
    made = []
    world.restart()
    plt.close("all")
    for c in SEVERAL:
        if c[0] == "dpi":
            made.append(({"dpi": c[1]}, (1.0, 1.0), c[1]))
            continue
        canvas = gsp_matplotlib.core.Canvas(*c[1:4])
        if c[0] == "canvas":
            made.append(({"canvas": canvas}, (1 / c[1], 1 / c[2]), c[3]))
        elif c[0] == "size":
            made.append(({"canvas": canvas, "size": c[4]}, (1 / c[4][0], 1 / c[4][1]), c[3]))
        else:
            args, (w, h) = rect(c[4], c[1], c[2])
            made.append(({"viewport": gsp_matplotlib.core.Viewport(canvas, *args, (1, 1, 1, 1))}, (2 / min(w, h), 2 / min(w, h)), c[3]))
    return made


def undefined(case):
    """Without a surface there is no conversion."""
    for unit in UNITS:
        t = 10 * getattr(transform, unit)()
        try:
            t.evaluate(dict(case))
        except ValueError:
            continue
        expect(False, "%s converted without surface", unit)
    return 0


def check(run):
    sizes = [(200, 100), (90, 270), (128, 128)] if not run.thorough else [(200, 100), (90, 270), (128, 128), (333, 77), (61, 64), (500, 499)]
    dpis = (100.0, 72.0, 50.8) if not run.thorough else (100.0, 72.0, 50.8, 30.0, 144.0, 301.5)
    zooms = (None, ((-2, 2), (-2, 2)), ((-.5, .5), (-1, 3)), ((0, 10), (5, 6)))
    S = [("dpi", d) for d in dpis]
    S += [("canvas",) + z + (d,) for z in sizes for d in dpis]
    S += [("resized canvas",) + z + (d, y) for z in sizes[:2] for y in sizes for d in dpis[:2] if y != z]
    S += [("size",) + z + (dpis[0], (z[0], z[0])) for z in sizes] + [("size",) + z + (dpis[1], (z[1], z[1])) for z in sizes]
    S += [("viewport",) + z + (d, l, q) for z in sizes for d in dpis[:run.q(2, 6)] for l in ("whole", "pixels", "fractions", "tall") for q in zooms]
    run.bounds["surfaces"] = "%d surfaces x 7 units x %d values x 3 spellings" % (len(S), len(VALUES))
    run.cases("conversions", S, conversions)
    E = [s for s in S if s[0] != "viewport" or (s[5] in zooms[:2] and s[4] != "tall")]
    run.cases("expressions", [(s, False) for s in (E if run.thorough else E[::3])] + [(s, True) for s in E[::run.q(9, 4)]], expressions)
    run.bounds["several"] = "all sequences of up to %d conversions of the same measures on %d surfaces, existing one after the other and side by side" % (run.q(3, 4), len(SEVERAL))
    run.cases("several", [(o, live) for k in range(2, run.q(3, 4) + 1) for o in itertools.product(range(len(SEVERAL)), repeat=k) for live in (True, False) if live or k == 2], several)
    run.cases("canvas sides", [(a, x, b, y, d) for a, x in (("Inch", 2), ("Inch", 1.5), ("Centimeter", 4), ("Millimeter", 30), ("Point", 144), ("Pixel", 120), ("Meter", .05), ("Kilometer", .00003), ("none", 150))
                               for b, y in (("Inch", 3), ("Centimeter", 2.54), ("Point", 36), ("none", 80)) for d in dpis], sized)
    run.cases("no surface", [(), (("size", (3, 4)),), (("index", 0),)], undefined)
