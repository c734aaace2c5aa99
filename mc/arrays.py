"""Tracked arrays driven in lock step with plain numpy arrays (shared by C12, C13)."""
import numpy as np
from mc.core import expect, Violation

STRUCT = [("p", "<f4", 3), ("c", "u1", 4), ("n", "<i2")]


class Mirror:
    """A tracker: knows nothing but the size of the array and the updates it is sent."""
    made = []

    def __init__(self, array):
        self.size = array.nbytes
        self.data = bytearray(b"\xa5" * array.nbytes)
        self.updates = []
        self.received = []
        Mirror.made.append(self)

    def set_data(self, offset, data):
        given, data = data, bytes(data)
        self.received.append((int(offset), given, data))
        expect(offset >= 0 and offset + len(data) <= self.size,
               "update of bytes %d..%d of an array of %d bytes", offset, offset + len(data), self.size)
        self.data[offset:offset + len(data)] = data
        self.updates.append((int(offset), len(data)))

    def stable(self):
        """What was sent may be applied later: it must not change in the meantime."""
        for offset, given, data in self.received:
            expect(bytes(given) == data, "the update of %d bytes at %d changed after it was sent", len(data), offset)


class tracking:
    """Tracker class in use during the block."""
    def __init__(self, cls):
        self.cls = cls

    def __enter__(self):
        from gsp_matplotlib.glm import ndarray
        self.old = ndarray.tracked.__tracker_class__
        ndarray.tracked.__tracker_class__ = self.cls

    def __exit__(self, *a):
        from gsp_matplotlib.glm import ndarray
        ndarray.tracked.__tracker_class__ = self.old


def make(kind):
    """A tracked array of the given kind."""
    from gsp_matplotlib import glm
    T = glm.ndarray.tracked
    if kind == "line":
        return T(4, np.float32)
    if kind == "bytes":
        return T(5, np.uint8)
    if kind == "table":
        return T((3, 2), np.int16)
    if kind == "cube":
        return T((2, 2, 3), np.int32)
    if kind == "empty":
        return T(0, np.float32)
    if kind == "one":
        return T(1, np.float64)
    if kind == "zero-d":
        return glm.ndarray.scalar()
    if kind == "scalars":
        return glm.ndarray.scalar(3)
    if kind == "vec2":
        return glm.vec2(3)
    if kind == "vec3":
        return glm.vec3(2)
    if kind == "vec4":
        return glm.vec4(3)
    if kind == "bvec4":
        return glm.bvec4(2)
    if kind == "dvec3":
        return glm.dvec3(3)
    if kind == "single vec3":
        return glm.vec3()
    if kind == "mat3":
        return glm.mat3(2)
    if kind == "mat2":
        return glm.mat2(2)
    if kind == "struct":
        return T(3, STRUCT)
    if kind == "struct2":
        return T((2, 2), STRUCT)
    if kind == "fortran":
        return T((3, 2), np.int16, order="F")
    if kind == "viewed":
        return np.arange(6.0).view(T)
    if kind == "viewed part":
        return np.arange(9, dtype=np.int32)[2:-2].view(T)
    if kind == "viewed stride":
        return np.arange(9, dtype=np.int32)[::2].view(T)
    if kind == "viewed struct":
        return np.zeros(2, STRUCT).view(T)
    if kind == "viewed field":
        return np.zeros(3, STRUCT)["p"].view(T)
    raise KeyError(kind)


KINDS = ("line", "bytes", "table", "cube", "empty", "one", "zero-d", "scalars", "vec2", "vec3", "vec4", "bvec4", "dvec3",
         "single vec3", "mat3", "mat2", "struct", "struct2", "fortran", "viewed", "viewed part", "viewed stride",
         "viewed struct", "viewed field")

# keys usable as view steps and as targets of assignments
KEYS = {"all": Ellipsis, "colon": slice(None), "0": 0, "-1": -1, "1": 1, "1:": slice(1, None), ":1": slice(None, 1),
        "1:2": slice(1, 2), "::2": slice(None, None, 2), "::-1": slice(None, None, -1), "2:1": slice(2, 1), "-2:": slice(-2, None),
        ":,0": (slice(None), 0), ":,1:": (slice(None), slice(1, None)), ":,::-1": (slice(None), slice(None, None, -1)),
        "...,0": (Ellipsis, 0), "...,-1": (Ellipsis, -1), "...,::2": (Ellipsis, slice(None, None, 2)), "0,1": (0, 1), "1,0": (1, 0), "0,...": (0, Ellipsis),
        "1:,:1": (slice(1, None), slice(None, 1)), "new": (None, Ellipsis), "newaxis": (slice(None), None),
        "0,1,1": (0, 1, 1), "1,:,0": (1, slice(None), 0), "()": (), "p": "p", "c": "c", "n": "n",
        "np0": np.int64(0), "mask": "MASK", "list": [0], "index": np.array([0]), "9": 9}
METHODS = {"T": lambda a: a.T, "ravel": lambda a: a.ravel(), "reshape": lambda a: a.reshape(-1), "copy": lambda a: a.copy(),
           "squeeze": lambda a: a.squeeze(), "swap": lambda a: a.swapaxes(0, -1), "view": lambda a: a.view()}
SWIZZLE = ("x", "y", "z", "yx", "r", "gb")


def getkey(name, a):
    k = KEYS[name]
    if isinstance(k, str) and k == "MASK":
        return np.arange(a.size).reshape(a.shape) % 2 == 0
    return k


class Refused(Exception):
    pass


def step(a, name, shadow):
    """One view step; on the shadow array when shadow is true."""
    if name in METHODS:
        return METHODS[name](a)
    if name == "as_vec":
        from gsp_matplotlib import glm
        n = a.shape[-1] if a.ndim > 1 else 0
        if a.dtype.names or n not in (2, 3, 4):
            raise Refused()
        if shadow:
            return a.reshape(-1, n)
        return getattr(glm, "as_vec%d" % n)(a)
    return a[getkey(name, a)]


def chain(a, names, shadow):
    for n in names:
        try:
            a = step(a, n, shadow)
        except (IndexError, ValueError, TypeError) as e:
            raise Refused()
        if not isinstance(a, np.ndarray):
            raise Refused()
    return a


def chains(a, depth, steps):
    """All applicable view chains up to a depth."""
    out = [()]
    last = [()]
    for _ in range(depth):
        nxt = []
        for c in last:
            for s in steps:
                try:
                    chain(a, c + (s,), True)
                except Refused:
                    continue
                nxt.append(c + (s,))
        out += nxt
        last = nxt
    return out


def value(kind, v, serial):
    """The value assigned to a region reading as v."""
    if kind == "scalar":
        return (serial * 3 + 1) % 100
    if kind == "items":
        a = np.zeros(v.shape, v.dtype)
        raw = (np.arange(a.nbytes) * 7 + serial * 11 + 1) % 50
        if v.dtype.names:
            for i, n in enumerate(v.dtype.names):
                f = a[n]
                a[n] = (np.arange(f.size).reshape(f.shape) + serial + i) % 100
            return a
        return ((np.arange(a.size).reshape(a.shape) * 3 + serial) % 100).astype(v.dtype)
    if kind == "reversed":
        return v[::-1] if isinstance(v, np.ndarray) and v.ndim else v


def assign(a, key, val, attr):
    if attr:
        setattr(a, key, val)
    else:
        a[key] = val


INPLACE = {"+=": "__iadd__", "-=": "__isub__", "*=": "__imul__", "/=": "__itruediv__"}
