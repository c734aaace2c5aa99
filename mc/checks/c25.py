"""C25: accessors, colormaps and render outputs give the documented values."""
import itertools
import numpy as np
import matplotlib
import gsp
import gsp_matplotlib
from gsp import transform
from gsp_matplotlib import glm
from mc import expr, world
from mc.core import System, expect
from mc.expr import same, ACC

np.seterr(all="ignore")


# ---------------------------------------------------------------- accessors
def arrays():
    rec = np.zeros(3, [("x", "<i2"), ("color", "<f4", 4), ("g", "<f8", 2), ("size", "u1")])
    rec["x"], rec["color"], rec["g"], rec["size"] = (3, -4, 5), np.arange(12).reshape(3, 4) / 8, [[.5, 1], [2, 3], [-1, 6]], (7, 8, 9)
    A = {"vec1": np.array([[3.], [4]]), "vec2": np.array([[1, 2], [3, 4], [5, 6]], np.int32), "vec3": np.arange(12, dtype=np.float32).reshape(4, 3) - 5, "vec4": (np.arange(20).reshape(5, 4) * 7).astype(np.uint8),
         "single": np.array([4.0, 5, 6, 7]), "grid": np.arange(24.0).reshape(2, 4, 3), "none": np.zeros((0, 3)), "rec": rec, "empty rec": rec[:0], "square": np.arange(16.0).reshape(4, 4), "one": np.array([[9, 8, 7]], np.int16)}
    return A


def forms(a, form):
    if form == "array":
        return a.copy()
    if form == "buffer":
        dtype = np.dtype((a.dtype, a.shape[1:])) if a.ndim > 1 else a.dtype
        return gsp_matplotlib.Buffer(len(a), dtype, a.tobytes())
    if form == "tracked":
        return a.copy().view(glm.ndarray.tracked)


BINDINGS = {"ctor": lambda t, d: t(d), "named": lambda t, d: t(buffer=d), "call": lambda t, d: t()(d), "set": lambda t, d: bound_by_set(t(), d),
            "copied": lambda t, d: t().copy()(d), "copy": lambda t, d: t()(d).copy(), "chained": None, "expression": lambda t, d: t()(d) * 1}


def bound_by_set(t, d):
    t.set_buffer(d)
    return t


def access(case):
    """A component or field of data in any form."""
    name, key, generic, form, binding, rec = case
    a = arrays()[name]
    world.restart()
    gsp.io.record(rec)
    try:
        if generic == "generic":
            make = lambda **k: transform.Accessor(key=key, **k)
        elif generic == "positional":
            make = lambda **k: transform.Accessor(k.get("buffer"), key)
        elif generic == "set":
            def make(**k):
                t = transform.Accessor(key="b", **k)
                t.set_key(key)
                return t
        else:
            make = ACC[key]
        d = forms(a, form)
        if binding == "ctor":
            t = make(buffer=d) if generic != "class" else make(d)
        else:
            t = BINDINGS[binding](make, d)
        if a.dtype.names:
            want = a[key] if key in a.dtype.names else None
        else:
            i = "xyzw".index(key) if key in "xyzw" and len(key) == 1 else "rgba".index(key) if key in "rgba" and len(key) == 1 else 9
            want = a[..., i] if i < a.shape[-1] else None
        if want is None:
            try:
                v = t.evaluate({})
            except Exception as e:      # noqa: the kind of error is not specified
                return "refused"
            expect(False, "component %s of %s: %s", key, name, v)
        for variables in ({}, {"other": 3}, {}):
            same(t.evaluate(variables), want, "component %s of %s (%s, %s)", key, name, form, binding)
        expect(bytes(np.asarray(d).tobytes()) == a.tobytes(), "evaluating changed the data")
    finally:
        gsp.io.record(True)
    return want.tobytes()


class Updates(System):
    """Accessors follow their data, wherever the updates come from."""
    isolate = False

    def __init__(self):
        world.restart()
        self.a = np.arange(12, dtype=np.float32).reshape(3, 4)
        self.kinds = ("array", "buffer", "tracked")
        self.d = {k: forms(self.a, k) for k in self.kinds}
        self.m = {k: self.a.copy() for k in self.kinds}
        self.t = []
        for k in self.kinds:
            for key, f in (("y", lambda t, d: t(d)), ("w", lambda t, d: t()(d)), ("b", lambda t, d: t()(d).copy() + 0), ("r", lambda t, d: 2 * t(d))):
                self.t.append((k, key, f(ACC[key], self.d[k])))

    def ops(self):
        return [("item", k, i, v) for k in self.kinds for i, v in ((0, 9.5), (2, -1.0))] + [("column", "tracked", 1, 4.0), ("evaluate",), ("scale", "tracked"), ("scale", "array")]

    def do(self, op):
        if op[0] == "item":
            _, k, i, v = op
            self.m[k][i] = v
            if k == "buffer":
                self.d[k].set_data(i * 16, np.full(4, v, np.float32).tobytes())
            else:
                self.d[k][i] = v
        elif op[0] == "column":
            self.d[op[1]][:, op[2]] = op[3]
            self.m[op[1]][:, op[2]] = op[3]
        elif op[0] == "scale":
            self.d[op[1]] *= 2
            self.m[op[1]] *= 2
        else:
            self.finish()

    def finish(self):
        for k, key, t in self.t:
            i = ("xyzw" if key in "xyzw" else "rgba").index(key)
            same(t.evaluate({}), self.m[k][:, i] * (2 if key == "r" else 1), "%s of %s after updates", key, k)

    def key(self):
        return None


# ---------------------------------------------------------------- colormaps
MAPS = ("gray", "magma", "viridis_r", "tab10")
SETS = {"ramp": np.array([0.0, 1, 2, 3, 10]), "negative": np.array([-4.0, -1, -2.5]), "around": np.array([-2.0, 0, 5]), "ints": np.array([0, 7, 100, 255], np.uint8), "signed": np.array([-3, 4, 0], np.int16),
        "unit": np.array([0, .25, .5, .999, 1], np.float32), "column": np.array([[1.0], [2], [4]]), "table": np.array([[0.5, 2], [8, 1]]), "shifted": np.array([5.0, 6, 7.5, 9]), "up to zero": np.array([-8.0, -2, 0])}
BOUNDS = (None, 0.0, 1.0, -2.0, 2.5, 5.0, 300.0, -10.0)


def colors(name, v, lo, hi):
    v = np.asarray(v, float)
    lo = v.min() if lo is None else lo
    hi = v.max() if hi is None else hi
    x = (v - lo) / (hi - lo)
    cm = matplotlib.colormaps[name]
    n = cm.N
    table = cm(np.arange(n))
    i = np.clip(np.floor(np.clip(x, -1, 2) * n), -1, n)
    i = np.where(x == 1, n - 1, i)
    return table[np.clip(i, 0, n - 1).astype(int)], x * n


def check_colors(got, name, v, lo, hi, what, *args):
    want, x = colors(name, v, lo, hi)
    got = np.asarray(got)
    expect(got.shape == want.shape, what + ": shape %s instead of %s", *args, got.shape, want.shape)
    ok = np.all(np.abs(got - want) < 1e-6, axis=-1)
    if not ok.all():
        # at the boundary between two entries of the table, rounding decides
        edge = np.abs(x - np.round(x)) < 1e-4
        n = matplotlib.colormaps[name].N
        table = matplotlib.colormaps[name](np.arange(n))
        for s in (-1, 0):
            j = np.clip(np.round(x) + s, 0, n - 1).astype(int)
            ok |= edge & np.all(np.abs(got - table[j]) < 1e-6, axis=-1)
    expect(ok.all(), what + ": %s instead of %s", *args, got.tolist(), want.tolist())


def cmaps(case):
    """A colormap, bound in every way, then changed to another map."""
    name, lo, hi, dset, how, rec = case
    v = SETS[dset]
    l = v.min() if lo is None else lo
    h = v.max() if hi is None else hi
    if not h > l:
        return "undefined"
    world.restart()
    gsp.io.record(rec)
    try:
        d = forms(v, "array" if v.ndim > 1 else "buffer" if how == "buffer" else "array")
        if how == "named":
            t = transform.Colormap(vmax=hi, vmin=lo, colormap=name)(d)
        elif how == "copied":
            t = transform.Colormap(name, lo, hi).copy()(d)
        elif how == "copy":
            t = transform.Colormap(name, lo, hi)(d).copy()
        elif how == "set":
            t = transform.Colormap("jet", lo, hi)
            t.set_buffer(d)
            t.set_colormap(name)
        elif how == "changed":
            t = transform.Colormap("jet", lo, hi)(d)
            t.evaluate({})
            t.set_colormap(name)
        elif how == "recopied":
            t = transform.Colormap("jet", lo, hi)
            t.set_colormap(name)
            t = t.copy()(d).copy()
        elif how == "chained":
            t = transform.Colormap(name, lo, hi)(transform.X(np.stack([v] * 2, axis=-1)))
        elif how == "scaled":
            t = transform.Colormap(name, lo, hi)(2 * transform.X(np.stack([v] * 2, axis=-1) / 2.0))
        elif how == "output":
            t = transform.Colormap(name, lo, hi)(transform.Out("data"))
        elif how == "expression":
            t = transform.Colormap(name, lo, hi)(d) * 1.0
        else:
            t = transform.Colormap(name, lo, hi)(d)
        variables = {"data": v}
        for i in range(2):
            check_colors(t.evaluate(variables), name, v, lo, hi, "%s", case)
    finally:
        gsp.io.record(True)
    return (dset, name, l, h)


def dynamic(case):
    """Dynamic bounds follow the data of each evaluation."""
    a, b, lo, hi = case
    world.restart()
    t = transform.Colormap("magma", lo, hi)(transform.Out("data"))
    for k in (a, b, a):
        v = SETS[k]
        l, h = (v.min() if lo is None else lo), (v.max() if hi is None else hi)
        if h > l:
            check_colors(t.evaluate({"data": v}), "magma", v, lo, hi, "%s", case)
    return case


# ---------------------------------------------------------------- outputs
VARS = {"screen": np.array([[.5, -.25, 2, 8], [.125, 4, -8, 16], [3, 1, 6., 5]]), "screen[positions]": np.array([[1.5, 2.5, 3.5], [4.5, 5.5, 6.5]]), "size": np.array([3, 4, 5]), "color": np.array([[.1, .2, .3, .4]]),
        "single": np.array([7., 8, 9, 10])}


def outputs(case):
    name, key, how, rec = case
    world.restart()
    gsp.io.record(rec)
    try:
        full = name + ("." + key if key else "")
        t = transform.Out(full) if how != "named" else transform.Out(name=full)
        want = VARS[name]
        if key:
            s = "xyzw" if set(key) <= set("xyzw") else "rgba"
            want = want[..., [s.index(c) for c in key]]
        if how == "copy":
            t = t.copy()
        elif how == "twice":
            t = t.copy().copy()
        elif how == "expression":
            t, want = 1 + t * 2, 1 + want * 2
        elif how == "operand":
            t, want = t - transform.Out(name), want - VARS[name] if want.shape == VARS[name].shape or want.shape[-1] == 1 else None
            if want is None:
                return "undefined"
        same(t.evaluate({k: v.copy() for k, v in VARS.items()}), want, "%s", case)
        # evaluated when needed: with other variables, other values
        other = {k: (v + 1) for k, v in VARS.items()}
        w2 = want + 1 if how in ("plain", "named", "copy", "twice") else want + 2 if how == "expression" else want
        same(t.evaluate(other), w2, "%s with other variables", case)
        missing = {k: v for k, v in VARS.items() if k != name}
        try:
            t.evaluate(missing)
        except ValueError:
            pass
        else:
            expect(False, "%s without its variable", case)
    finally:
        gsp.io.record(True)
    return np.asarray(want).tobytes()


def check(run):
    A = arrays()
    cases = []
    for n, a in A.items():
        keys = "xyzwrgba" if not a.dtype.names else ("x", "color", "g", "size", "y")
        for k in keys:
            for generic in ("class",) * (k in ACC) + ("generic", "positional", "set"):
                for form in ("array", "buffer", "tracked"):
                    if form == "buffer" and (a.ndim == 1 and not a.dtype.names) and False:
                        continue
                    for b in BINDINGS:
                        if b == "chained" or (b in ("ctor", "named") and generic == "positional" and b == "ctor"):
                            continue
                        if b == "expression" and a.dtype.names and k not in a.dtype.names:
                            continue
                        for rec in (True, False):
                            cases.append((n, k, generic, form, b, rec))
    cases += [("vec3", k, "generic", "array", "call", rec) for k in ("q", "", "xx", "position", "X", "rx") for rec in (True, False) if k]
    run.bounds["accessors"] = "8 component letters and %d fields x %d kinds of data x 3 forms x %d ways of binding" % (4, len(A), len(BINDINGS) - 1)
    run.cases("accessors", cases, access)
    run.explore("updates", Updates, run.q(3, 4))
    hows = ("plain", "named", "copied", "copy", "set", "changed", "recopied", "chained", "scaled", "output", "expression", "buffer")
    names = MAPS if run.thorough else MAPS[:2] + MAPS[3:]
    cases = [(n, lo, hi, d, h, rec) for n in names for lo in BOUNDS for hi in BOUNDS for d in SETS for h in hows for rec in ((True, False) if run.thorough else (h in ("plain", "recopied"),))]
    run.bounds["colormaps"] = "%d maps x %d minima x %d maxima x %d data sets x %d ways" % (len(names), len(BOUNDS), len(BOUNDS), len(SETS), len(hows))
    run.cases("colormaps", cases, cmaps)
    run.cases("dynamic bounds", [(a, b, lo, hi) for a in SETS for b in SETS for lo in (None, 0.0, -20.0) for hi in (None, 500.0)], dynamic)
    keys = [""] + ["".join(k) for n in range(1, run.q(4, 5)) for s in ("xyzw", "rgba") for k in itertools.product(s, repeat=n)]
    cases = []
    for n, v in VARS.items():
        for k in keys:
            s = "xyzw" if set(k) <= set("xyzw") else "rgba"
            if k and (n == "size" or max(s.index(c) for c in k) >= v.shape[-1]):
                continue
            for how in ("plain", "named", "copy", "twice", "expression", "operand"):
                for rec in (True, False):
                    cases.append((n, k, how, rec))
    run.bounds["outputs"] = "%d variables x %d component keys" % (len(VARS), len(keys))
    run.cases("outputs", cases, outputs)
