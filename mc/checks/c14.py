"""C14: a buffer's content is its initial data overlaid with the updates sent to it."""
import base64, itertools, json, os, shutil, tempfile
import numpy as np
import gsp, gsp_matplotlib
from gsp_matplotlib.core.buffer import Buffer
from gsp.object import Object
from gsp.io import convert
import importlib
numpy_dtype_to_str = importlib.import_module('gsp.io.convert').numpy_dtype_to_str
from mc import arrays, world
from mc.core import System, expect

DTYPES = {"u1": "u1", "i2": "<i2", "f4": "<f4", "f8": "<f8", "big i4": ">i4", "bool": "?", "vec2": ("<f4", 2), "vec3": ("u1", 3),
          "mat": ("<i2", (2, 2)), "struct": [("p", "<f4", 3), ("c", "u1", 4)], "struct2": [("a", "<i2"), ("b", "<f8")]}
FLAT = {k for k in DTYPES if k != "mat"}        # types with a textual description
DATA = ("none", "bytes", "memoryview", "writable memory", "typed memory", "base64", "array memory", "text bytes", "text memory", "longer bytes", "longer memory", "longer base64")


def content(n, salt=0):
    return bytes((i * 37 + 11 + salt) % 251 for i in range(n))


def initial(count, dt, form):
    """(argument, initial bytes or None, object owning the memory)"""
    dt = np.dtype(dt)
    raw = content(count * dt.itemsize)
    if dt.kind == "b":
        raw = bytes(x % 2 for x in raw)
    if form.startswith("text"):       # bytes that could be taken for text
        if dt.kind != "b":
            raw = (b"R1NQ0123+/aZ" * (len(raw) // 12 + 1))[:len(raw)]
        return (raw if form == "text bytes" else memoryview(raw)), raw, raw
    if form.startswith("longer"):     # more bytes than the items need: a part of an item, an item
        long = raw + bytes(dt.itemsize if form != "longer bytes" else 1)
        return {"longer bytes": long, "longer memory": memoryview(long), "longer base64": base64.b64encode(long).decode()}[form], raw, long
    if form == "none":
        return None, None, None
    if form == "bytes":
        return raw, raw, raw
    if form == "memoryview":
        return memoryview(raw), raw, raw
    if form == "writable memory":
        own = bytearray(raw)
        return memoryview(own), raw, own
    if form == "base64":
        return base64.b64encode(raw).decode(), raw, None
    a = np.frombuffer(bytearray(raw), dt.base if dt.subdtype else dt)
    if form == "typed memory":
        return a.data, raw, a
    if form == "array memory":
        a = np.frombuffer(bytearray(raw), dt)
        return a.data, raw, a


def chunk(offset, n, form, salt, dt):
    raw = content(n, salt * 5 + 1 + offset)
    if np.dtype(dt).kind == "b":
        raw = bytes(x % 2 for x in raw)
    if form == "text":
        if np.dtype(dt).kind != "b":
            raw = (b"R1NQ0123+/aZ" * (n // 12 + 1))[:n]
        return raw, raw
    if form == "memory":
        return memoryview(bytearray(raw)), raw
    if form == "typed":
        return (np.frombuffer(raw, "u2").data if n % 2 == 0 else memoryview(raw)), raw
    if form == "base64":
        return base64.b64encode(raw).decode(), raw
    return raw, raw


def scribble(owner):
    """Another use of memory that was given."""
    if isinstance(owner, bytearray):
        owner[:] = bytes((x + 1) % 256 for x in owner)
        return True
    if isinstance(owner, memoryview):
        return not owner.readonly and scribble(owner.obj)
    if isinstance(owner, np.ndarray) and owner.flags.writeable:
        a = owner.view(np.ndarray).view("u1") if owner.size else owner
        a[...] = a + 1
        return True
    return False


def verify(b, count, dt, model, known, what):
    dt = np.dtype(dt)
    A = np.asarray(b)
    want = np.empty(count, dt)
    expect(A.shape == want.shape, "%s: read as an array of shape %s instead of %s", what, A.shape, want.shape)
    expect(A.dtype == want.dtype, "%s: read as an array of type %s instead of %s", what, A.dtype, want.dtype)
    expect(len(b) == count, "%s: length is %r", what, len(b))
    raw = A.tobytes()
    for i, (x, y, k) in enumerate(zip(raw, model, known)):
        expect(not k or x == y, "%s: byte %d reads as %d instead of %d", what, i, x, y)
    return raw


class Updates(System):
    """One buffer, updates and reads."""
    name, counts = "u1", (0, 1, 3, 4)
    forms = ("bytes", "memory", "text", "typed", "base64")

    def __init__(self):
        world.reset()
        self.dt = DTYPES[self.name]
        self.b = None
        self.given = []
        self.trace = []

    def make(self, form, count, described):
        dt = np.dtype(self.dt)
        self.count = count
        arg, raw, self.owner = initial(count, dt, form)
        self.before = self.memory()
        self.given = [self.owner]
        d = numpy_dtype_to_str(dt) if described else dt
        gsp.io.record(not described)       # described types come from files: not recorded
        try:
            self.b = Buffer(count, d, arg)
        finally:
            gsp.io.record(True)
        n = count * dt.itemsize
        self.model = bytearray(raw if raw is not None else bytes(n))
        self.known = [raw is not None] * n

    def memory(self):
        return self.owner.tobytes() if isinstance(self.owner, np.ndarray) else None if self.owner is None else bytes(self.owner)

    def ops(self):
        if self.b is None:
            ops = []
            for form in DATA:
                for count in self.counts:
                    if form == "typed memory" and self.name.startswith("struct"):
                        continue
                    if count == 0 and form in ("typed memory", "array memory"):
                        continue
                    ops.append(("make", form, count, False))
                    if self.name in FLAT and form in ("bytes", "base64", "none"):
                        ops.append(("make", form, count, True))
            return ops
        n, k = len(self.model), np.dtype(self.dt).itemsize
        ops = [("read",)]
        if any(isinstance(o, (bytearray, memoryview)) or isinstance(o, np.ndarray) and o.flags.writeable for o in self.given):
            ops.append(("reuse",))
        seen = set()
        for off in (0, 1, k, n - k, n - 1, n):
            for ln in (0, 1, 2, k, k + 1, n):
                if 0 <= off and off + ln <= n and (off, ln) not in seen:
                    seen.add((off, ln))
                    ops.append(("update", off, ln))
        return ops

    def do(self, op):
        self.trace.append(op)
        if op[0] == "make":
            return self.make(*op[1:])
        if op[0] == "read":
            verify(self.b, self.count, self.dt, self.model, self.known, "after %s" % self.trace)
            return
        if op[0] == "reuse":         # the memory is used for something else
            for o in self.given:
                scribble(o)
            self.before = self.memory()
            return
        _, off, ln = op
        form = self.forms[len(self.trace) % len(self.forms)]
        arg, raw = chunk(off, ln, form, len(self.trace), self.dt)
        self.b.set_data(off, arg)
        self.given.append(arg)
        self.model[off:off + ln] = raw
        self.known[off:off + ln] = [True] * ln

    def key(self):
        return None

    def finish(self):
        if self.b is None:
            return
        verify(self.b, self.count, self.dt, self.model, self.known, "after %s" % self.trace)
        verify(self.b, self.count, self.dt, self.model, self.known, "after %s, second read" % self.trace)
        expect(self.memory() == self.before, "updates of the buffer modify the memory it was created from")


def replayed(case):
    """Buffers rebuilt from recorded commands, directly and through a file."""
    dtname, form, count, ups, through, reads = case
    dt = np.dtype(DTYPES[dtname])
    q = world.reset()
    arg, raw, owner = initial(count, dt, form)
    b = Buffer(count, dt, arg)
    if reads == "reuse":
        scribble(owner)
    other = Buffer(2, np.dtype("u1"), b"ab")
    n = count * dt.itemsize
    model = bytearray(raw if raw is not None else bytes(n))
    known = [raw is not None] * n
    for i, (off, ln, f) in enumerate(ups):
        off = {"first": 0, "second": dt.itemsize, "last": n - 1}[off]
        ln = min({"byte": 1, "item": dt.itemsize, "all": n}[ln], n - off)
        if ln <= 0:
            return "not applicable"
        data, raw = chunk(off, ln, f, i, dt)
        b.set_data(off, data)
        if reads is True:
            np.asarray(b)
        if reads == "reuse":
            scribble(data)
        model[off:off + ln] = raw
        known[off:off + ln] = [True] * ln
    bid = b.id
    q2 = q
    if through == "file":
        d = tempfile.mkdtemp(prefix="c14-")
        try:
            gsp.io.json.save(d + "/q.json", q)
            q2 = world.fresh_queue()
            gsp.io.json.load(d + "/q.json", q2)
        finally:
            shutil.rmtree(d)
    for turn in range(2):
        Object.objects = {}
        q2.run(gsp_matplotlib)
        r = Object.objects[bid]
        expect(r is not b and isinstance(r, Buffer), "run gives %r", r)
        verify(r, count, dt, model, known, "replayed (%s)" % through)
        verify(Object.objects[other.id], 2, "u1", b"ab", [True] * 2, "another buffer, replayed")
    verify(b, count, dt, model, known, "the original buffer after a replay")
    return bytes(model).hex()


def mirror_of(a):
    """(buffer, bytes) of a tracked array."""
    return a._tracker.gsp_buffer


def tracked(case):
    """Buffers of tracked arrays follow them; so do the replayed ones."""
    kind, names, key, key2 = case
    q = world.reset()
    a = arrays.make(kind)
    np.ndarray.view(a, np.ndarray)[...] = 3
    if a.size:
        a[...] = 3
    try:
        for i, k in enumerate((key, key2)):
            v = arrays.chain(a, tuple(names), False)
            if k in arrays.INPLACE:
                getattr(v, arrays.INPLACE[k])(2 + i)
            else:
                v[arrays.getkey(k, v)] = 7 + i
    except (arrays.Refused, IndexError, ValueError, TypeError, NotImplementedError):
        return "not applicable"
    want = np.ascontiguousarray(np.ndarray.view(a, np.ndarray)).tobytes()
    b = gsp_matplotlib.tracked_to_Buffer(a) if kind == "derived" else mirror_of(a)
    A = np.asarray(b)
    expect(A.tobytes() == want, "the buffer of the array holds other bytes")
    items = np.atleast_1d(np.ndarray.view(a, np.ndarray))
    if a.ndim and kind != "single vec3":
        expect(A.shape == items.shape and A.dtype == items.dtype, "the buffer reads as %s %s instead of %s %s", A.dtype, A.shape, items.dtype, items.shape)
    bid = b.id
    if gsp.io.queue("active") is not q:
        expect(False, "another queue is active")
    Object.objects = {}
    q.run(gsp_matplotlib)
    R = np.asarray(Object.objects[bid])
    # what the buffer held when it was created is what the memory holds now
    expect(R.tobytes() == want, "the replayed buffer of the array holds other bytes")
    return (kind, want.hex())


def converted(case):
    """Arguments turned into buffers and lists."""
    name, = case
    q = world.reset()
    A = {"f4 array": np.arange(3, dtype="f4"), "table": np.arange(6, dtype="f8").reshape(3, 2), "cube": np.arange(12, dtype="u1").reshape(3, 2, 2),
         "fortran": np.asfortranarray(np.arange(6.0).reshape(3, 2)), "strided": np.arange(8.0)[::2], "reversed": np.arange(4, dtype="i2")[::-1],
         "columns": np.arange(12, dtype="f4").reshape(3, 4)[:, 1:3], "transposed": np.arange(6, dtype="i4").reshape(2, 3).T, "struct": np.zeros(2, DTYPES["struct"]),
         "empty": np.zeros(0, "f4"), "empty table": np.zeros((0, 3), "f4"), "read-only": np.frombuffer(b"\1\2\3", "u1"), "single": np.array([5]),
         "list": [1.0, 2.0], "ints": [1, 2, 3], "tuple": (1.5, 2.5), "rows": [[1, 2], [3, 4]], "bool": np.array([True, False]), "one list": [7],
         "vec3": gsp_matplotlib.glm.vec3(2), "vec3 view": gsp_matplotlib.glm.vec3(3)[1:], "vec3 column": gsp_matplotlib.glm.vec3(3)[:, 1],
         "product": gsp_matplotlib.glm.vec3(2) + 1, "difference": (gsp_matplotlib.glm.vec4(3) - 1)[1:], "negative": -gsp_matplotlib.glm.vec2(2)}[name]
    want = np.array(A)
    if want.dtype.names is None and isinstance(A, np.ndarray) and A.size and A.flags.writeable:
        A[...] = np.arange(A.size).reshape(A.shape)
        want = np.array(A)
    b = convert(A, "Buffer")
    expect(isinstance(b, Buffer), "%s is converted to %r", name, b)
    for turn in ("converted", "replayed", "loaded"):
        R = np.asarray(b)
        expect(R.shape == want.shape and R.dtype == want.dtype and R.tobytes() == want.tobytes(),
               "%s: %s %s, reads as\n%r\ninstead of\n%r", turn, R.dtype, R.shape, R, want)
        expect(len(b) == len(want), "%s: length %d instead of %d", turn, len(b), len(want))
        if turn == "converted":
            Object.objects = {}
            q.run(gsp_matplotlib)
            b = Object.objects[b.id]
        elif turn == "replayed":
            if want.ndim > 2:
                break       # no textual description
            d = tempfile.mkdtemp(prefix="c14-")
            try:
                gsp.io.json.save(d + "/q.json", q)
                q2 = world.fresh_queue()
                gsp.io.json.load(d + "/q.json", q2)
            finally:
                shutil.rmtree(d)
            Object.objects = {}
            q2.run(gsp_matplotlib)
            if want.size:
                b = Object.objects[b.id]
            else:
                break
    return name


def check(run):
    d = run.q(2, 3)
    run.bounds["updates"] = "%d item types x %d data forms x 0..3 items; all histories of <= %d reads and updates over up to 20 (offset, length) pairs; types given and described" % (len(DTYPES), len(DATA), d)
    for dtname in DTYPES:
        cls = type("Updates", (Updates,), {"name": dtname, "counts": run.q((0, 1, 4), (0, 1, 2, 3, 4))})
        run.explore("updates-" + dtname.replace(" ", "-"), cls, 1 + d)
    cases = []
    ups = [()] + [((o, l, f),) for o in ("first", "second", "last") for l in ("byte", "item", "all") for f in ("bytes", "memory")]
    ups += [(x[0], y[0]) for x in ups[1:] for y in ups[1:]] if run.thorough else [(x[0], ups[3][0]) for x in ups[1:]]
    for dtname in FLAT:
        for form in ("none", "bytes", "memoryview", "writable memory", "array memory", "text bytes", "longer bytes", "longer memory"):
            for count in (1, 4):
                for u in ups:
                    for through in ("queue", "file"):
                        for reads in (False, True, "reuse"):
                            cases.append((dtname, form, count, u, through, reads))
    cases.sort(key=repr)
    run.bounds["replayed"] = "every item type with a textual description x data form x up to two updates, replayed from the queue and from a file"
    run.cases("replayed", cases, replayed)
    cases = []
    steps = ("1:", "::2", "0", ":,0", "...,0", "p", "T", "view", "ravel", "new")
    for kind in arrays.KINDS:
        world.reset()
        a = np.ndarray.view(arrays.make(kind), np.ndarray)
        for names in arrays.chains(a, run.q(1, 2), steps):
            for k in ("all", "0", "-1", "1:", "::2", "...,0", "p", "n", "mask", "+=", "/="):
                for k2 in ("all", "1", "+="):
                    cases.append((kind, names, k, k2))
    run.bounds["tracked"] = "%d array kinds x view chains of depth <= %d x pairs of assignments" % (len(arrays.KINDS), run.q(1, 2))
    run.cases("tracked", cases, tracked)
    run.cases("converted", [(n,) for n in ("f4 array", "table", "cube", "fortran", "strided", "reversed", "columns", "transposed", "struct", "empty", "empty table",
              "read-only", "single", "list", "ints", "tuple", "rows", "bool", "one list", "vec3", "vec3 view", "vec3 column", "product", "difference", "negative")], converted)
