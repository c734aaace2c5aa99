"""C01: every protocol call is recorded once, in order, with all its arguments."""
import itertools
import numpy as np
import gsp
import gsp_matplotlib
from gsp.core import Color
from gsp.core.types import Matrix
from gsp.object import Object
from gsp.io.command import command, CommandQueue
from mc import names, world
from mc.core import System, expect
from mc.world import Node, Deep, Plain, Bare, Boom, CALLS


# ---------------------------------------------------------------- 1. call forms
class Sig(Object):
    """Methods of every arity 0..3 with every number of defaulted parameters."""
    def __init__(self):
        Object.__init__(self)


DEFAULTS = {"a": 11, "b": "dflt", "c": None}
KINDS = ("int", "str", "none", "obj", "list", "float", "obj2")


def _make():
    names = ("a", "b", "c")
    for n in range(4):
        for d in range(n + 1):
            params = [p if i < n - d else "%s=DEFAULTS['%s']" % (p, p) for i, p in enumerate(names[:n])]
            src = ("def m%d%d(self%s):\n    local = (%s)\n    SEEN.append((self, local))\n    return RESULT\n"
                   % (n, d, "".join(", " + p for p in params), "".join(p + "," for p in names[:n])))
            ns = {"DEFAULTS": DEFAULTS, "SEEN": SEEN, "RESULT": RESULT}
            exec(src, ns)
            f = ns["m%d%d" % (n, d)]
            setattr(Sig, f.__name__, command()(f))
            setattr(Sig, "named_" + f.__name__, command("alias")(f))


SEEN = []
RESULT = ("the result",)
_make()


def forms(n, d):
    """(number of positional arguments, names passed by keyword in order)"""
    names = ("a", "b", "c")[:n]
    out = []
    for p in range(n + 1):
        rest = names[p:]
        must = [x for x in rest if names.index(x) < n - d]
        opt = [x for x in rest if names.index(x) >= n - d]
        for k in range(len(opt) + 1):
            for sub in itertools.combinations(opt, k):
                for order in itertools.permutations(must + list(sub)):
                    out.append((p, order))
    return out


def make_value(kind, objs):
    return {"int": 3, "str": "s", "none": None, "obj": objs[0], "obj2": objs[1],
            "list": [1, 2], "float": 2.5}[kind]


def call_form(case):
    n, d, p, kw, kinds, named = case
    q = world.reset()
    s = Sig()
    objs = [Sig(), Sig()]
    names = ("a", "b", "c")[:n]
    vals = dict(zip(names, [make_value(k, objs) for k in kinds]))
    args = [vals[x] for x in names[:p]]
    kwargs = {x: vals[x] for x in kw}
    del SEEN[:]
    before = len(q)
    res = getattr(s, ("named_" if named else "") + "m%d%d" % (n, d))(*args, **kwargs)
    expect(res is RESULT, "the recorded call returned %r", res)
    expect(len(SEEN) == 1, "the body ran %d times", len(SEEN))
    got = SEEN[0][1]
    want = tuple(vals[x] if (x in kw or names.index(x) < p) else DEFAULTS[x] for x in names)
    expect(SEEN[0][0] is s and len(got) == len(want) and all(g is w for g, w in zip(got, want)),
           "the body received %r instead of %r", got, want)
    expect(len(q) == before + 1, "%d commands were recorded for one call", len(q) - before)
    c = q[before]
    expect(c.classname == "Sig", "recorded class %r", c.classname)
    expect(c.methodname == ("alias" if named else "m%d%d" % (n, d)), "recorded method %r", c.methodname)
    exp = {"id": s.id}
    for x, v in zip(names, want):
        if isinstance(v, Object):
            exp[x + "(id)"] = v.id
        else:
            exp[x] = v
    expect({k: world.canon(v) for k, v in c.parameters.items()} ==
           {k: world.canon(v) for k, v in exp.items()},
           "recorded parameters %r instead of %r", c.parameters, exp)
    return (n, d, tuple(sorted(c.parameters)))


def bad_form(case):
    """Calls that cannot be made: they raise as they would undecorated, and record nothing."""
    n, d, nargs, kw = case
    q = world.reset()
    s = Sig()
    del SEEN[:]
    try:
        getattr(s, "m%d%d" % (n, d))(*[1] * nargs, **{k: 2 for k in kw})
    except TypeError:
        pass
    else:
        expect(False, "an impossible call was accepted")
    expect(len(q) == 0 and not SEEN, "an impossible call was recorded or executed")
    return "TypeError"


# ---------------------------------------------------------------- 2. histories
CLASSES = {"Node": Node, "Deep": Deep, "Plain": Plain}
DEF = {"Node": ("x",), "Deep": ("d",), "Plain": ("p",)}


class Recording(System):
    MAXOBJ = 2

    def __init__(self):
        self.q = {"A": world.reset()}
        self.exp = {"A": []}
        self.active = "A"
        self.ro = {"A": False}
        self.on = True
        self.objs = []
        self.last = None

    def ops(self):
        ops = [("record", not self.on), ("readonly", self.active, not self.ro[self.active])]
        if "B" not in self.q:
            ops.append(("newqueue", "B"))
        else:
            ops += [("getqueue", "A"), ("readonly", "A", not self.ro["A"]), ("empty", "A")]
        if len(self.objs) < self.MAXOBJ:
            for c in CLASSES:
                for form in ("pos", "kw", "ref"):
                    if form != "ref" or self.objs:
                        ops.append(("new", c, form))
        ops += [("newbad", "Deep")]
        for i in range(len(self.objs)):
            ops += [("put", i, "default"), ("put", i, "obj"), ("link", i, len(self.objs) - 1),
                    ("fail", i), ("badtype", i), ("hidden", i)]
        return ops

    def rec(self, oid, cls, method, params):
        if self.on and not self.ro[self.active]:
            self.exp[self.active].append((cls, method, int(oid), {k: world.canon(v) for k, v in params.items()}))

    def do(self, op):
        k = op[0]
        if k == "record":
            gsp.io.record(op[1])
            self.on = op[1]
        elif k == "readonly":
            self.q[op[1]].readonly = op[2]
            self.ro[op[1]] = op[2]
        elif k == "newqueue":
            self.q[op[1]] = world.fresh_queue()
            self.exp[op[1]], self.ro[op[1]], self.active = [], False, op[1]
        elif k == "getqueue":
            expect(gsp.io.queue(self.q[op[1]].name) is self.q[op[1]], "another queue for the same name")
        elif k == "empty":
            self.q[op[1]].empty()
            self.exp[op[1]] = []
        elif k == "new":
            C = CLASSES[op[1]]
            ref = self.objs[-1] if op[2] == "ref" else None
            del CALLS[:]
            if op[2] == "kw":
                o = C(label="L", value=4)
                p = {"value": 4, "label": "L"}
            elif op[2] == "ref":
                o = C(5, "r", ref)
                p = {"value": 5, "label": "r", "ref(id)": ref.id}
            else:
                o = C(6)
                p = {"value": 6, "label": DEF[op[1]][0]}
            if "ref(id)" not in p:
                p["ref"] = None
            if op[1] == "Deep":
                p["extra"] = 0.5
            if ref is not None:
                p["ref(id)"] = int(ref.id)
            self.objs.append(o)
            expect(o.ref is ref, "the object was not created with its argument")
            self.rec(o.id, op[1], "__init__", p)
        elif k == "newbad":
            try:
                Deep("not an int")
            except ValueError:
                expect(self.on, "type check while recording is off")
            else:
                expect(not self.on, "argument of a wrong type accepted")
        elif k == "put":
            o = self.objs[op[1]]
            if op[2] == "obj":
                r = o.put(7, o)
                expect(r == ("put", 7, o) and r[2] is o, "returned %r", r)
                self.rec(o.id, type(o).__name__, "put", {"value": 7, "ref(id)": int(o.id)})
            else:
                r = o.put(value=8)
                expect(r == ("put", 8, None), "returned %r", r)
                self.rec(o.id, type(o).__name__, "put", {"value": 8, "ref": None})
        elif k == "link":
            o, r = self.objs[op[1]], self.objs[op[2]]
            expect(o.link(ref=r) is o, "the returned object is another one")
            expect(o.ref is r, "the call had no effect")
            self.rec(o.id, type(o).__name__, "link", {"ref(id)": int(r.id), "label": "y"})
        elif k == "fail":
            try:
                self.objs[op[1]].fail(1)
            except Boom:
                pass
            else:
                expect(False, "the exception of the call was swallowed")
        elif k == "badtype":
            o = self.objs[op[1]]
            n = len(o.log)
            try:
                o.link("not an object")
            except ValueError:
                expect(self.on, "type check while recording is off")
                expect(len(o.log) == n, "a rejected call had an effect")
            else:
                expect(not self.on, "argument of a wrong type accepted")
                o.log.pop()
                o.ref = None
        elif k == "hidden":
            o = self.objs[op[1]]
            r = Node.put(o, 3, __no_command__=True)
            expect(r == ("put", 3, None), "returned %r", r)
        for name, q in self.q.items():
            got = world.view(q)
            expect(got == self.exp[name],
                   "after %r, queue %s holds\n  %s\ninstead of\n  %s", op, name, got[-3:], self.exp[name][-3:])
            expect(len(q) == len(self.exp[name]), "length of the queue")
            ids = [int(c.id) for c in q.commands]
            expect(ids == sorted(set(ids)), "command identifiers %r", ids)
        self.last = op

    def key(self):
        base = min([int(o.id) for o in self.objs] or [0])
        return (self.on, self.active, sorted(self.ro.items()),
                [(type(o).__name__, len(o.log), getattr(o.ref, "id", None) is not None) for o in self.objs],
                {n: [(c, m, i - base) for c, m, i, p in e] for n, e in self.exp.items()})

    def close(self):
        gsp.io.record(True)


# ---------------------------------------------------------------- 3. the protocol's own operations
def protocol_ops():
    """(label, maker) : maker() -> (object under test or class, method, ordered arguments, keyword split)"""
    return list(OPS)


OPS = ["core.Canvas", "core.Viewport", "core.Buffer", "core.List", "core.Data", "visual.Pixels",
       "visual.Points", "visual.Markers", "visual.Segments", "visual.Paths", "visual.Polygons",
       "transform.Transform", "transform.Accessor", "transform.Colormap", "transform.Out",
       "transform.Operator", "transform.Add", "transform.Sub", "transform.Mul", "transform.Div",
       "transform.X", "transform.Z", "transform.A", "transform.Pixel", "transform.Inch", "transform.Point",
       "transform.Centimeter", "transform.Millimeter", "transform.Meter", "transform.Kilometer",
       "Buffer/set_data", "Data/set_data", "X/set_next", "X/set_base", "X/set_buffer", "X/set_key",
       "Colormap/set_colormap", "Add/set_operator", "Add/set_left", "Add/set_right",
       "Canvas/render", "Pixels/render", "Points/render", "Markers/render", "Segments/render",
       "Paths/render", "Polygons/render"]


def protocol_call(case):
    import inspect, numpy as np
    import gsp_matplotlib as gm
    from gsp.core import Color, Marker, Matrix, LineCap, LineStyle, LineJoin
    import gsp.transform as T
    import matplotlib.pyplot as plt
    label, impl, npos, omit = case
    q = world.reset()
    mod = gm if impl == "matplotlib" else gsp
    canvas = gm.core.Canvas(60, 40, 100.0)
    viewport = gm.core.Viewport(canvas, 0, 0, 30, 20, Color(1, 1, 1, 1))
    def buf(a):
        a = np.ascontiguousarray(a)
        return gm.core.Buffer(len(a), np.dtype((a.dtype, a.shape[1:])), a.data)
    pos = buf(np.arange(12, dtype=np.float32).reshape(4, 3) / 10)
    seg = buf(np.arange(12, dtype=np.float32).reshape(2, 2, 3) / 10)
    col = buf(np.linspace(0, 1, 16).astype(np.float32).reshape(4, 4))
    siz = buf(np.arange(1, 5, dtype=np.float32))
    eye = Matrix(np.eye(4))
    tr = T.Transform()
    white = Color(1.0, 1.0, 1.0, 1.0)
    args = {
        "core.Canvas": dict(width=50, height=30, dpi=72.0),
        "core.Viewport": dict(canvas=canvas, x=1, y=0.5, width=10, height=0.25, color=white),
        "core.Buffer": dict(count=2, dtype=np.dtype("f4"), data=b"12345678"),
        "core.List": dict(data=pos, itemsizes=2),
        "core.Data": dict(uri="", nbytes=8, dtype=[]),
        "visual.Pixels": dict(positions=pos, colors=col),
        "visual.Points": dict(positions=pos, sizes=siz, fill_colors=col, line_colors=white, line_widths=1.5),
        "visual.Markers": dict(positions=pos, types=Marker.star, sizes=siz, axis=None, angles=0.0,
                               fill_colors=col, line_colors=white, line_widths=1.5),
        "visual.Segments": dict(positions=seg, line_caps=LineCap.round, line_colors=white, line_widths=1.5),
        "visual.Paths": dict(positions=pos, indices=2, line_colors=white, line_widths=1.0,
                             line_styles=LineStyle.solid, line_joins=LineJoin.round, line_caps=LineCap.butt),
        "visual.Polygons": dict(positions=pos, indices=2, fill_colors=white, line_colors=white, line_widths=1.0,
                                line_styles=LineStyle.solid, line_joins=LineJoin.round),
        "transform.Transform": dict(base=None, next=None, buffer=siz),
        "transform.Accessor": dict(buffer=siz, key="x"),
        "transform.Colormap": dict(colormap="gray", vmin=0.0, vmax=None),
        "transform.Out": dict(name="screen"),
        "transform.Operator": dict(operator="+", left=1.0, right=siz),
    }
    for o in ("Add", "Sub", "Mul", "Div"):
        args["transform." + o] = dict(left=siz, right=2)
    for o in ("X", "Y", "Z", "W", "R", "G", "B", "A"):
        args["transform." + o] = dict(buffer=siz)
    for o in ("Pixel", "Inch", "Point", "Centimeter", "Millimeter", "Meter", "Kilometer"):
        args["transform." + o] = dict()
    methods = {
        "Buffer/set_data": lambda: (mod.core.Buffer(2, np.dtype("f4"), b"12345678"), dict(offset=4, data=b"abcd")),
        "Data/set_data": lambda: (gsp.core.Data("", 8), dict(offset=4, data=b"abcd")),
        "X/set_key": lambda: (T.X(), dict(key="y")),
        "X/set_next": lambda: (T.X(), dict(next=tr)),
        "X/set_base": lambda: (T.X(), dict(base=tr)),
        "X/set_buffer": lambda: (T.X(), dict(buffer=siz)),
        "Colormap/set_colormap": lambda: (T.Colormap("gray"), dict(colormap="viridis")),
        "Add/set_operator": lambda: (T.Add(1, 2), dict(operator="+")),
        "Add/set_left": lambda: (T.Add(1, 2), dict(left=siz)),
        "Add/set_right": lambda: (T.Add(1, 2), dict(right=tr)),
        "Canvas/render": lambda: (mod.core.Canvas(50, 30, 72.0), dict(target=None)),
    }
    for v in ("Pixels", "Points", "Markers", "Segments", "Paths", "Polygons"):
        methods[v + "/render"] = lambda v=v: (getattr(mod.visual, v)(**args["visual." + v]),
                                              dict(viewport=viewport, model=eye, view=eye, proj=None))
    try:
        if "/" in label:
            obj, kw = methods[label]()
            fn = getattr(obj, label.split("/")[1])
        else:
            obj, kw = None, args[label]
            m, c = label.split(".")
            fn = getattr(getattr(mod, m) if hasattr(mod, m) and hasattr(getattr(mod, m), c) else getattr(gsp, m), c)
        names = list(kw)
        if npos > len(names):
            return "n/a"
        kw = dict(kw)
        n0 = len(q)
        sig = inspect.signature(getattr(gsp, label.split(".")[0], None) and
                                getattr(getattr(gsp, label.split(".")[0]), label.split(".")[1]).__init__ or fn)
        dropped = {}
        if omit:      # leave out the arguments that equal the default of the operation
            for nme in names[npos:]:
                prm = sig.parameters.get(nme)
                if prm is not None and prm.default is not inspect.Parameter.empty and \
                   (prm.default is None and kw[nme] is None or type(prm.default) == type(kw[nme]) and prm.default == kw[nme]):
                    dropped[nme] = kw.pop(nme)
            if not dropped:
                return "n/a"
        pos_args = [kw.pop(nme) for nme in names[:npos]]
        res = fn(*pos_args, **kw)
        new = [world.command_view(x) for x in q.commands[n0:]]
        target = res if obj is None else obj
        expect(len(new) == 1, "%s recorded %d commands: %r", label, len(new), [(x[0], x[1]) for x in new])
        cls, meth, oid, params = new[0]
        if obj is None:
            expect(meth == label or (meth == "__init__" and cls == label.split(".")[1]),
                   "%s recorded as %r", label, meth)
        else:
            expect(meth.split("/")[-1] == label.split("/")[1], "%s recorded as %r", label, meth)
        expect(cls == label.replace("/", ".").split(".")[0 if obj is not None else 1], "%s recorded for class %r", label, cls)
        expect(oid == int(target.id), "%s recorded for object %r instead of %r", label, oid, target.id)
        allargs = dict(zip(names, pos_args)) | kw | dropped
        exp = {}
        for k, v in allargs.items():
            if isinstance(v, Object):
                exp[k + "(id)"] = ("int", int(v.id))
            else:
                exp[k] = world.canon(v)
        extra = {k: v for k, v in params.items() if k not in exp}
        expect(all(k in params and params[k] == exp[k] for k in exp) and
               all(v in (("NoneType", "None"),) or k not in allargs for k, v in extra.items()) and
               not any(k.removesuffix("(id)") in allargs for k in extra),
               "%s recorded with %r instead of %r", label, params, exp)
    finally:
        plt.close("all")
    return (label, tuple(sorted(params)))


class Holder(Object):
    """Operations given values that can be modified afterwards."""
    @command()
    def __init__(self, color: Color = None, matrix: Matrix = None, items: list = None):
        Object.__init__(self)
        self.got = color, matrix, items

    @command()
    def put(self, color: Color = None, matrix: Matrix = None, items: list = None):
        self.got = color, matrix, items


MUTABLE = {
    "color": {"list": lambda: [1, .5, .25, 1], "ints": lambda: [1, 0, 0, 1]},
    "matrix": {"array": lambda: np.arange(16.0).reshape(4, 4), "float32": lambda: np.eye(4, dtype=np.float32), "view": lambda: np.zeros((8, 8))[::2, 1:5], "lists": lambda: np.diag([1.0, 2, 3, 4]).tolist()},
    "items": {"list": lambda: [1, 2, 3], "nested": lambda: [[1, 2], [3]], "empty": lambda: []},
}


def modify(v, how):
    if isinstance(v, np.ndarray):
        if how == "item":
            v[0, 3] += 5
        else:
            v *= -2
    elif v and isinstance(v[0], list):
        if how == "item":
            v[0][-1] = 77
        else:
            v.append([9])
    elif how == "item" and v:
        v[1] = 0.75
    else:
        v.append(3)


def plain(v):
    """Value of a parameter as replay would pass it."""
    from gsp.io.convert import Converter
    v = v() if isinstance(v, Converter) else v
    if isinstance(v, Matrix):
        return ("matrix", np.asarray(v).tolist())
    if isinstance(v, Color):
        return ("color",) + tuple(float(c) for c in v)
    return v


def modified_later(case):
    """A recorded value is the one that was passed, even if it is modified after the call."""
    what, kind, how, op, named, moment = case
    q = world.reset()
    try:
        o = Holder()
        a, b = MUTABLE[what][kind](), MUTABLE[what][kind]()
        keys = ("color", "matrix", "items")
        call = Holder if op == "create" else o.put
        if named:
            call(**{what: a})
        else:
            call(*[a if k == what else None for k in keys])
        if moment == "at once":
            modify(a, how)
        else:
            o.put()
            q.commands[-1]
            modify(a, how)
        got = plain(q.commands[1].parameters[what])
        want = ("matrix", np.asarray(b, np.float32).tolist()) if what == "matrix" else ("color",) + tuple(float(c) for c in b) if what == "color" else b
        expect(got == want, "%s: recorded as %s instead of %s", case, got, want)
        expect(len(q) == (2 if moment == "at once" else 3), "%d commands", len(q))
        return case
    finally:
        gsp.io.record(False)


class Anything(Object):
    """Operations given values of any type."""
    @command()
    def __init__(self, value=None, other=None):
        Object.__init__(self)

    @command()
    def put(self, value=None, other=None):
        pass


def _array(a):
    a[...] = a + 1


CHANGES = {     # value, modification
    "bytearray": (lambda: bytearray(b"abc"), lambda v: v.__setitem__(0, 7)), "grown bytearray": (lambda: bytearray(b"abc"), lambda v: v.extend(b"d")),
    "memory": (lambda: memoryview(bytearray(b"abcd")), lambda v: v.__setitem__(1, 9)), "array memory": (lambda: np.arange(4.0).data, lambda v: _array(np.asarray(v))),
    "strided memory": (lambda: np.arange(6, dtype="i2")[::2].data, lambda v: _array(np.asarray(v))), "table memory": (lambda: np.zeros((2, 3)).data, lambda v: _array(np.asarray(v))),
    "dict": (lambda: {"a": 1}, lambda v: v.update(b=2)), "nested dict": (lambda: {"a": [1]}, lambda v: v["a"].append(2)), "emptied dict": (lambda: {"a": {"b": 1}}, lambda v: v["a"].clear()),
    "tuple of list": (lambda: ([1], 2), lambda v: v[0].append(3)), "tuple of array": (lambda: (np.zeros(2), 1), lambda v: _array(v[0])), "set": (lambda: {1}, lambda v: v.add(2)),
    "list of arrays": (lambda: [np.zeros(2), np.ones(3)], lambda v: _array(v[1])), "list of dicts": (lambda: [{"a": 1}], lambda v: v[0].clear()), "list of tuples": (lambda: [([1],)], lambda v: v[0][0].append(1)),
    "array": (lambda: np.zeros((2, 2)), _array), "record array": (lambda: np.zeros(2, [("a", "f4")]), lambda v: v["a"].fill(2)), "zero-dimensional": (lambda: np.zeros(()), _array),
    "tracked": (lambda: gsp_matplotlib.glm.vec3(2), lambda v: v.__setitem__(1, 5)), "list": (lambda: [1, [2, [3]]], lambda v: v[1][1].append(4)), "emptied": (lambda: [1, 2], lambda v: v.clear()),
}


def freeze(v):
    """Content of a value, types of memory aside."""
    if isinstance(v, (memoryview, bytearray)):
        return (type(v).__name__, bytes(v))
    if isinstance(v, np.ndarray):
        return ("array", v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, set):
        return frozenset(v)
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x) for x in v)
    return v


def any_value(case):
    """Values of any type, modified after the call."""
    kind, op, how, times = case
    make, change = CHANGES[kind]
    q = world.reset()
    q.empty()
    try:
        o = Anything() if op == "put" else None
        n = len(q)
        v = make()
        wants = []
        for t in range(times):       # the same value, modified between the calls
            wants.append(freeze(v))
            call = Anything if op == "create" else o.put
            if how == "positional":
                call(v)
            elif how == "named":
                call(other=1, value=v)
            else:
                call(v, v)
            change(v)
        new = [c for c in q.commands[n:] if c.classname == "Anything"]
        expect(len(new) == times, "%d commands instead of %d", len(new), times)
        for t, c in enumerate(new):
            for k in (("value", "other") if how == "twice" else ("value",)):
                got = freeze(c.parameters[k])
                expect(got == wants[t], "%s: call %d recorded with %r instead of %r", case, t, got, wants[t])
        return case
    finally:
        gsp.io.record(False)


def any_name(case):
    """Parameters of any name."""
    name, how = case
    q, m, objs, want, logs = names.program(name, how)
    got = [(c.classname, c.methodname, {k: int(v) if isinstance(v, int) else v for k, v in c.parameters.items()}) for c in q.commands]
    expect(got == want, "recorded\n  %r\ninstead of\n  %r", got, want)
    for o in objs:
        expect(names.log_of(o) == logs[int(o.id)], "the operations received %r instead of %r", names.log_of(o), logs[int(o.id)])
    return case


def check(run):
    run.bounds["names"] = "operations with parameters of %d names, passed by place or by name" % len(names.NAMES)
    run.cases("names", [(n, h) for n in names.NAMES for h in ("positional", "named")], any_name)
    run.cases("any value", [(k, o, h, t) for k in CHANGES for o in ("create", "put") for h in ("positional", "named", "twice") for t in (1, 2)], any_value)
    run.cases("modified later", [(w, k, h, o, n, m) for w in MUTABLE for k in MUTABLE[w] for h in ("item", "whole") for o in ("create", "call") for n in (False, True) for m in ("at once", "later")
                                 if not (k == "lists" and h == "whole") and not (w == "color" and h == "whole")], modified_later)
    kinds = run.q(("int", "none", "obj", "list"), KINDS)
    cases = []
    for n in range(4):
        for d in range(n + 1):
            for p, kw in forms(n, d):
                used = n
                for ks in itertools.product(kinds, repeat=used):
                    for named in (False, True):
                        cases.append((n, d, p, kw, ks, named))
    run.bounds["call_forms"] = "methods of arity 0..3, every number of defaults, every positional/keyword/omitted split and keyword order, argument kinds %s" % (kinds,)
    run.cases("call-forms", cases, call_form)
    bad = [(n, d, n + 1, ()) for n in range(4) for d in range(n + 1)]
    bad += [(n, d, n - d - 1, ()) for n in range(4) for d in range(n + 1) if n - d > 0]
    bad += [(n, d, n, ("nope",)) for n in range(4) for d in range(n + 1)]
    bad += [(n, d, n, ("a",)) for n in range(1, 4) for d in range(n + 1)]
    run.cases("impossible-calls", bad, bad_form)
    pc = [(l, impl, npos, omit) for l in OPS for impl in ("matplotlib", "base")
          for npos in range(0, 10) for omit in (False, True)
          if (impl == "base") == (l == "Canvas/render") or "render" not in l]
    run.cases("protocol-operations", pc, protocol_call)
    depth = run.q(4, 6)
    run.bounds["histories"] = "all histories of <= %d operations over 2 queues, 2 objects of 3 class shapes" % depth
    run.explore("histories", Recording, depth, max_states=run.q(60000, 250000))
