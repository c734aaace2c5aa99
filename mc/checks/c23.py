"""C23: composing, copying or changing transforms never alters the transforms they were made from."""
import itertools
import numpy as np
import matplotlib
import gsp
import gsp_matplotlib
from gsp import transform
from mc import expr, world
from mc.core import System, expect
from mc.expr import data, value, same, OPS, access

np.seterr(all="ignore")
CM = {}
UNITS = dict(Pixel=1.0, Inch=100.0, Centimeter=100 / 2.54)
VARIABLES = dict(expr.VARIABLES, dpi=100.0)


# Model: ("acc", key, next, data) ("map", name, lo, hi, next, data) ("unit", name, next, data)
#        ("op", o, left, right) ("num", v) ("data", d) ("out", name)
def inputs(m):
    return {"acc": 2, "map": 4, "unit": 2}.get(m[0])


def last(m):
    while inputs(m) and m[inputs(m)]:
        m = m[inputs(m)]
    return m


def put(m, i, v):
    return m[:i] + (v,) + m[i + 1:]


def on_last(m, f):
    i = inputs(m)
    if i and m[i]:
        return put(m, i, on_last(m[i], f))
    return f(m)


def is_bound(m):
    m = last(m)
    if m[0] == "op":
        return is_bound(m[2]) and is_bound(m[3])
    if m[0] in ("num", "data"):
        return True
    if m[0] == "out":
        return False
    return m[inputs(m) + 1] is not None


class Unbound(Exception):
    pass


def calc(m):
    k = m[0]
    if k == "num":
        return m[1]
    if k == "data":
        return value(m[1])
    if k == "out":
        return expr.model(m, variables=VARIABLES)
    if k == "op":
        return OPS[m[1]](calc(m[2]), calc(m[3]))
    i = inputs(m)
    if m[i]:
        v = calc(m[i])
    elif m[i + 1] is not None:
        v = m[i + 1][1] if m[i + 1][0] == "num" else value(m[i + 1][1])
    elif k == "unit":
        v = 1.0
    else:
        raise Unbound()
    if k == "acc":
        return access(m[1], v)
    v = np.asanyarray(v)
    if k == "unit":
        s = np.array([1, 1, 0.])
        if v.ndim == 0:
            s = 1.0
        elif v.shape[-1] not in (2, 3):
            raise ValueError()
        else:
            s = s[:v.shape[-1]]
        return UNITS[m[1]] * s * v
    lo = v.min() if m[2] is None else m[2]
    hi = v.max() if m[3] is None else m[3]
    if not hi > lo:
        raise ValueError()
    return matplotlib.colormaps[m[1]](np.clip((v - lo) / (hi - lo), 0, 1))


def valid(m):
    """Does the model define a value (or is something left to bind)?"""
    try:
        v = calc(m)
    except Unbound:
        return True
    except Exception:
        return False
    return True


def create(m):
    k = m[0]
    if k == "acc":
        t = expr.accessor(m[1], *([data(m[3][1])] if m[3] else []))
    elif k == "map":
        t = transform.Colormap(*m[1:4])
        if m[5]:
            t = t(data(m[5][1]))
    elif k == "unit":
        t = getattr(transform, m[1])()
        if m[3]:
            t = t(m[3][1])
    elif k == "out":
        t = transform.Out(m[1])
    return t


class Pool(System):
    start = (("acc", "x", None, None), ("acc", "y", None, ("data", "buf:pos")), ("acc", ".p", None, ("data", "np:rec")))
    numbers = (("num", 2.5),)
    operators = "-"
    bindings = ("np:pos", "buf:rec")
    keys = ("z", ".c")
    limit = 6
    recorded = False

    def __init__(self):
        world.restart()
        gsp.io.record(self.recorded)
        self.models = list(self.start)
        self.real = [create(m) for m in self.models]

    def close(self):
        gsp.io.record(True)

    def paths(self, m, depth=2):
        """Parts of a transform that can be reached from it (left, right, next)."""
        yield (), m
        if depth:
            if m[0] == "op":
                sub = [("left", m[2]), ("right", m[3])]
            elif inputs(m) and m[inputs(m)]:
                sub = [("next", m[inputs(m)])]
            else:
                sub = []
            for name, s in sub:
                if s[0] not in ("num", "data"):
                    for p, x in self.paths(s, depth - 1):
                        yield (name,) + p, x

    def mutations(self, m):
        k = m[0]
        if k == "acc":
            for key in self.keys:
                # only generic accessors have a key of their choice
                if m[1].startswith("."):
                    yield ("set_key", "." + key.lstrip("."))
        if k == "map":
            yield ("set_colormap", "viridis")
        if inputs(m) and not m[inputs(m)] and k != "unit":
            for d in self.bindings:
                yield ("set_buffer", d)
            if m[inputs(m) + 1]:
                yield ("set_buffer", None)
        if k == "op":
            yield ("set_left", ("num", 4.0))
            yield ("set_right", ("num", -3.0))

    def apply(self, m, mut):
        name, v = mut
        if name == "set_key":
            return put(m, 1, v)
        if name == "set_colormap":
            return put(m, 1, v)
        if name == "set_buffer":
            return put(m, inputs(m) + 1, ("data", v) if v else None)
        return put(m, 2 if name == "set_left" else 3, tuple(v))

    def replaced(self, m, path, new):
        if not path:
            return new
        i = {"left": 2, "right": 3, "next": inputs(m)}[path[0]]
        return put(m, i, self.replaced(m[i], path[1:], new))

    def result(self, op):
        """Model of the transform an operation makes (None when not defined)."""
        M = self.models
        k = op[0]
        if k == "op":
            a, b = (M[x] if isinstance(x, int) else tuple(x) for x in op[2:])
            r = ("op", op[1], a, b)
        elif k == "copy":
            r = M[op[1]]
        elif k == "neg":
            r = ("op", "*", M[op[1]], ("num", -1.0))
        elif k == "chain":
            a, b = M[op[1]], M[op[2]]
            if not inputs(last(a)):
                return None
            r = on_last(a, lambda m: put(put(m, inputs(m) + 1, None), inputs(m), b))
        elif k == "bind":
            a = M[op[1]]
            if not inputs(last(a)) or is_bound(a):
                return None
            r = on_last(a, lambda m: put(m, inputs(m) + 1, ("data", op[2])))
        elif k == "over":
            r = ("acc", op[1], M[op[2]], None)
        return r if valid(r) else None

    def ops(self):
        n = range(len(self.models))
        out = []
        if len(self.models) < self.limit:
            make = [("op", o, i, j) for o in self.operators for i in n for j in n]
            make += [w for o in self.operators for i in n for c in self.numbers for w in (("op", o, i, c),) + ((("op", o, c, i),) if o == "-" else ())]  # 2+t may swap its operands
            make += [("copy", i) for i in n] + [("neg", i) for i in n]
            make += [("chain", i, j) for i in n for j in n]
            make += [("bind", i, d) for i in n for d in self.bindings]
            make += [("over", k, i) for k in ("z",) for i in n]
            out += [o for o in make if self.result(o) is not None]
        for i in n:
            for path, m in self.paths(self.models[i]):
                for mut in self.mutations(m):
                    if valid(self.replaced(self.models[i], path, self.apply(m, mut))):
                        out.append(("mutate", i, path, mut))
        return out

    def do(self, op):
        k = op[0]
        R = self.real
        if k == "mutate":
            _, i, path, mut = op
            t, m = R[i], self.models[i]
            for p in path:
                t = getattr(t, p)
                m = m[{"left": 2, "right": 3, "next": inputs(m)}[p]]
            name, v = mut
            if name in ("set_left", "set_right"):
                v = v[1]
            elif name == "set_buffer" and v:
                v = data(v)
            elif name == "set_key":
                v = v[1:]
            getattr(t, name)(v)
            self.models[i] = self.replaced(self.models[i], tuple(path), self.apply(m, mut))
            return
        r = self.result(op)
        if k == "op":
            a, b = (R[x] if isinstance(x, int) else x[1] for x in op[2:])
            t = OPS[op[1]](a, b)
        elif k == "copy":
            t = R[op[1]].copy()
        elif k == "neg":
            t = -R[op[1]]
        elif k == "chain":
            t = R[op[1]](R[op[2]])
        elif k == "bind":
            t = R[op[1]](data(op[2]))
        elif k == "over":
            t = expr.accessor(op[1], R[op[2]])
        expect(all(t is not x for x in R), "%s yields a transform that already existed", op)
        self.models.append(r)
        self.real.append(t)

    def finish(self):
        for i, (m, t) in enumerate(zip(self.models, self.real)):
            if "out" not in str(m):
                expect(bool(t.bound) == is_bound(m), "transform %d (%s): bound is %s", i, m, t.bound)
            try:
                want = calc(m)
            except Unbound:
                continue
            same(t.evaluate(dict(VARIABLES)), want, "transform %d (%s)", i, m)


class Recorded(Pool):
    recorded = True


class Neutral(Pool):
    """Operations with numbers that change nothing."""
    start = (("acc", ".p", None, ("data", "np:rec")), ("acc", "x", None, None))
    numbers = (("num", 1), ("num", 1.0), ("num", 0), ("num", -1))
    operators = "+-*/"
    bindings = ("np:pos",)
    keys = (".c",)


class Maps(Pool):
    """Colormaps (with given and dynamic bounds) and outputs."""
    start = (("map", "gray", None, None, None, None), ("map", "magma", 0.0, 6, None, None), ("acc", "y", None, ("data", "buf:pos")), ("out", "screen.z"))
    numbers = (("num", 2.5),)
    operators = "*"
    bindings = ("np:pos",)


class Measures(Pool):
    start = (("unit", "Centimeter", None, None), ("unit", "Pixel", None, ("num", 3)), ("acc", ".p", None, ("data", "buf:rec")))
    operators = "+"
    bindings = ("np:row",)
    keys = (".n", ".c")


class Wide(Pool):
    start = Pool.start + (("map", "gray", None, None, None, None), ("unit", "Inch", None, None), ("out", "screen"))
    operators = "+/"
    limit = 9


class Deep(Pool):
    """Few operations, long histories."""
    start = (("acc", ".p", None, None), ("acc", "x", None, ("data", "np:pos")))
    operators = "-"
    numbers = ()
    bindings = ("np:rec",)
    keys = (".c",)
    limit = 5


def check(run):
    run.explore("pool", Pool, run.q(2, 3))
    run.explore("recorded pool", Recorded, 2)
    run.explore("colormaps and outputs", Maps, run.q(2, 3))
    run.explore("measures", Measures, run.q(2, 3))
    if run.thorough:
        run.explore("wide pool", Wide, 2)
    run.explore("neutral numbers", Neutral, 2)
    run.explore("deep", Deep, run.q(3, 4))
