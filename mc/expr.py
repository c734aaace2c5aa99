"""Transform expressions as plain data, built on the real code and evaluated by a numpy model."""
import numpy as np
import gsp
import gsp_matplotlib
from gsp import transform
from gsp_matplotlib import glm
from mc.core import expect

POS = np.array([[1, 2, 3], [4, 5, 6.5], [-7, 8, 9.25]], np.float32)
COL = np.array([[10, 20, 30, 40], [50, 60, 70, 80], [9, 8, 7, 6]], np.uint8)
SIG = np.array([[3, -2, 5, 7], [-1, 4, 2, 9], [6, 8, -3, 1]], np.int16)
REC = np.zeros(3, [("p", "<f4", 3), ("c", "u1", 4), ("n", "<i2"), ("x", "<f8")])
REC["p"], REC["c"], REC["n"], REC["x"] = POS * 2, COL[::-1], (5, -6, 7), (.5, 1.5, -2.5)
ROW = np.array([2.0, -3.0, 4.0])
ONE = np.array([1.5, -2.5, 3.5], np.float32)
DATA = {"pos": POS, "col": COL, "sig": SIG, "rec": REC, "row": ROW, "one": ONE}
VARIABLES = {"screen": np.array([[.5, -.25, 2], [.125, 4, -8], [3, 1, 6.]]), "colors": COL / 255.0}

ACC = dict(x=transform.X, y=transform.Y, z=transform.Z, w=transform.W, r=transform.R, g=transform.G, b=transform.B, a=transform.A)
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
CLASSES = {"+": transform.Add, "-": transform.Sub, "*": transform.Mul, "/": transform.Div}


def data(d):
    """Data in one of the forms a transform can be bound to: form:name"""
    form, name = d.split(":")
    v = DATA[name]
    if form == "np":
        return v.copy()
    if form == "buf":
        dtype = np.dtype((v.dtype, v.shape[1:])) if v.ndim > 1 else v.dtype
        return gsp_matplotlib.Buffer(len(v), dtype, v.tobytes())
    if form == "glm":
        return {3: glm.as_vec3, 4: glm.as_vec4}[v.shape[1]](v.copy()) if v.dtype == np.float32 else v.copy().view(glm.ndarray.tracked)
    if form == "list":
        return v.tolist()
    if form == "tuple":
        return tuple(v.tolist())
    raise KeyError(d)


def value(d):
    return DATA[d.split(":")[1]]


def accessor(key, *args):
    return ACC[key](*args) if key in ACC else transform.Accessor(*(args or (None,)), key[1:])


def access(key, v):
    v = np.asanyarray(v)
    key = key.removeprefix(".")
    if v.dtype.names:
        return v[key]
    return v[..., ("xyzw" if key in "xyzw" else "rgba").index(key)]


def build(e):
    """The real transform (or constant) spelt by an expression."""
    kind = e[0]
    if kind == "num":
        return e[1]
    if kind == "data":
        return data(e[1])
    if kind == "acc":
        _, key, how, d = e
        if how == "none":
            return accessor(key)
        if how == "ctor":
            return accessor(key, data(d))
        if how == "named":
            return ACC[key](buffer=data(d)) if key in ACC else transform.Accessor(key=key[1:], buffer=data(d))
        if how == "set":
            t = accessor(key)
            t.set_buffer(data(d))
            return t
        return accessor(key)(data(d))
    if kind == "out":
        return transform.Out(e[1])
    if kind == "op":
        return OPS[e[1]](build(e[2]), build(e[3]))
    if kind == "class":
        return CLASSES[e[1]](build(e[2]), build(e[3]))
    if kind == "neg":
        return -build(e[1])
    if kind == "copy":
        return build(e[1]).copy()
    if kind == "chain":          # ("chain", outer, inner)
        return build(e[1])(build(e[2]))
    if kind == "over":           # accessor created on a transform
        return accessor(e[1], build(e[2]))
    if kind == "bind":           # ("bind", expression, data)
        return build(e[1])(data(e[2]))
    raise KeyError(kind)


def model(e, x=None, variables=VARIABLES):
    """Value of an expression; x is what its innermost unbound accessor is applied to."""
    kind = e[0]
    if kind == "num":
        return e[1]
    if kind == "data":
        return np.asanyarray(value(e[1]))
    if kind == "acc":
        return access(e[1], x if e[2] == "none" else value(e[3]))
    if kind == "out":
        name, _, key = e[1].partition(".")
        v = np.asarray(variables[name])
        if key:
            s = "xyzw" if set(key) <= set("xyzw") else "rgba"
            v = v[..., [s.index(c) for c in key]] if len(key) > 1 else v[..., s.index(key)][..., None]
        return v
    if kind in ("op", "class"):
        return OPS[e[1]](model(e[2], x, variables), model(e[3], x, variables))
    if kind == "neg":
        return model(e[1], x, variables) * -1.0
    if kind == "copy":
        return model(e[1], x, variables)
    if kind == "chain":
        return model(e[1], model(e[2], x, variables), variables)
    if kind == "over":
        return access(e[1], model(e[2], x, variables))
    if kind == "bind":
        return model(e[1], value(e[2]), variables)
    raise KeyError(kind)


def bound(e):
    """Does every leaf of the expression have data?"""
    kind = e[0]
    if kind in ("num", "data", "bind"):
        return True
    if kind == "acc":
        return e[2] != "none"
    if kind in ("op", "class"):
        return bound(e[2]) and bound(e[3])
    if kind in ("neg", "copy"):
        return bound(e[1])
    if kind in ("chain", "over"):
        return bound(e[2])
    raise KeyError(kind)


def same(got, want, what, *args):
    got, want = np.asanyarray(got), np.asanyarray(want)
    expect(got.shape == want.shape and got.dtype != object, what + ": shape %s (%s) instead of %s", *args, got.shape, got.dtype, want.shape)
    if want.dtype.names:
        expect(got.dtype == want.dtype and got.tobytes() == want.tobytes(), what + ": %s instead of %s", *args, got, want)
    else:
        expect(np.allclose(got.astype(float), want.astype(float), rtol=1e-12 if want.dtype.itemsize == 8 else 1e-5, atol=1e-7, equal_nan=True), what + ": %s instead of %s", *args, got.tolist(), want.tolist())
