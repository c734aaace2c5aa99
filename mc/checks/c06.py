"""C06: a command queue survives a JSON save and load unchanged."""
import base64, itertools, json, math, os, shutil, tempfile
import numpy as np
import gsp
from gsp.object import Object
from gsp.io.command import command, Command
from gsp.io.convert import Converter
from gsp.core import Color, Matrix, Marker, LineCap, LineStyle, LineJoin
from mc import names, world
from mc.core import System, expect
from mc.world import Node, Deep, Bare


class Val(Object):
    @command()
    def __init__(self, value=None, other=None, third=None):
        Object.__init__(self)

    @command()
    def put(self, value):
        pass

    @command("other_name")
    def two(self, first, second=None):
        pass

    @command()
    def nothing(self):
        pass

    @command()
    def typed(self, data: memoryview | bytes, color: Color, dtype: np.dtype, ref: Object = None):
        pass


class Empty(Object):
    """An object that is false."""
    @command()
    def __init__(self):
        Object.__init__(self)

    def __len__(self):
        return 0


class Dot(Object):
    @command("core.Dot")
    def __init__(self, value=None):
        Object.__init__(self)


class Dot2(Object):
    @command("visual.Dot2")
    def __init__(self, value=None, ref: Object = None):
        Object.__init__(self)


STRUCT = np.dtype([("a", "<f4", 3), ("b", "<i2")])


def values(obj):
    """label -> (value, its documented serialised form)"""
    b64 = lambda x: base64.b64encode(x).decode()
    A = np.arange(6, dtype="f4").reshape(2, 3)
    S = np.zeros(2, STRUCT)
    S["a"], S["b"] = 1.5, 7
    empty = Empty(__no_command__=True)
    out = {
        "int": (3, 3), "negative": (-2, -2), "zero": (0, 0), "big": (2 ** 70, 2 ** 70),
        "float": (0.1, 0.1), "tiny": (5e-324, 5e-324), "huge": (1.7976931348623157e308, 1.7976931348623157e308),
        "integral float": (2.0, 2.0), "negative zero": (-0.0, -0.0), "inf": (math.inf, math.inf), "nan": (math.nan, math.nan),
        "true": (True, True), "false": (False, False), "null": (None, None),
        "text": ("abc", "abc"), "empty text": ("", ""), "unicode": ("é→\U0001f600", "é→\U0001f600"),
        "escapes": ("a\"b\\c\n\t\x00/", "a\"b\\c\n\t\x00/"), "id like": ("(id)", "(id)"), "number like": ("12", "12"),
        "list": ([1, 2.5, "x"], [1, 2.5, "x"]), "empty list": ([], []), "nested": ([[1], [[2], None]], [[1], [[2], None]]),
        "tuple": ((1, 2), [1, 2]), "list of tuples": ([("x", "f4", 3)], [["x", "f4", 3]]),
        "dict": ({"a": 1, "b": [2]}, {"a": 1, "b": [2]}), "empty dict": ({}, {}),
        "color": (Color(0.1, 0.2, 0.3, 1), [0.1, 0.2, 0.3, 1]), "list of colors": ([Color(1, 0, 0, 1)], [[1, 0, 0, 1]]),
        "matrix": (Matrix(np.arange(16)), np.arange(16.0).reshape(4, 4).tolist()),
        "marker": (Marker.star, 7), "cap": (LineCap.round, 2), "style": (LineStyle.dashed, 5), "join": (LineJoin.bevel, 3),
        "bytes": (b"\x00\xff\x10", b64(b"\x00\xff\x10")), "empty bytes": (b"", ""),
        "all bytes": (bytes(range(256)), b64(bytes(range(256)))),
        "high bytes": (b"\xfb\xff\xbf\xfe", b64(b"\xfb\xff\xbf\xfe")),
        "high memory": (memoryview(b"\xfb\xff\xbf\xfe"), b64(b"\xfb\xff\xbf\xfe")),
        "high array": (np.full((2, 2), -1, "<i4"), b64(b"\xff" * 16)),
        "text bytes": (b"AQID", b64(b"AQID")), "part of memory": (memoryview(b"\x01\x02\x03\x04")[1:3], b64(b"\x02\x03")),
        "strided memory": (memoryview(b"\x01\x02\x03\x04")[::2], b64(b"\x01\x03")),
        "memory": (memoryview(b"\x01\x02\x03\x04"), b64(b"\x01\x02\x03\x04")),
        "array memory": (A.data, b64(A.tobytes())),
        "column memory": (A.T.data, b64(A.T.tobytes())),
        "array": (A, b64(A.tobytes())), "column array": (A[:, 1].copy(), b64(A[:, 1].tobytes())),
        "struct array": (S, b64(S.tobytes())), "int array": (np.array([1, -1], "<i2"), b64(b"\x01\x00\xff\xff")),
        "scalar type": (np.dtype("<f8"), "<f8::1"), "byte type": (np.dtype("u1"), "|u1::1"),
        "vector type": (np.dtype(("<f4", 3)), "<f4::3"), "struct type": (STRUCT, "<f4:a:3,<i2:b:1"),
        "converted": (Converter(lambda x: x + 1, 4), 5), "converted bytes": (Converter(bytes, [1, 2]), b64(b"\x01\x02")),
        "converted list": (Converter(list, (1, 2)), [1, 2]),
        "object": (obj, int(obj.id)),
        "object with no item": (empty, int(empty.id)),
        "object converted": (Converter(lambda x: obj, 1), int(obj.id)),
        "object with no item converted": (Converter(lambda x: empty, 0), int(empty.id)),
    }
    return out


def op_name(c):
    return c.methodname if "." in c.methodname else "%s/%s" % (c.classname, c.methodname)


def same(a, b):
    """JSON values equal, types and special floats included."""
    if isinstance(a, float) and isinstance(b, float):
        return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def held(q):
    """What the queue is made of: its commands and the values they hold, not yet converted ones included."""
    return [(id(c), [(k, type(v).__name__, id(v)) for k, v in c.parameters.items()]) for c in q.commands]


def roundtrip(q, want, how="text"):
    """want: [(operation, {parameter: serialised value})]; checks text, reload and repeatability."""
    from gsp.io import json as gjson
    before, ids = world.view(q), held(q)
    cids = [int(c.id) for c in q.commands]
    stamps = [c.timestamp for c in q.commands]
    text = gjson.dump(q)
    expect(gjson.dump(q) == text, "two dumps of the same queue differ")
    expect(world.view(q) == before and held(q) == ids, "dumping changed the queue")
    doc = json.loads(text)
    expect(sorted(doc) == ["commands", "gsp_version"] and doc["gsp_version"] == "1.0", "document %r", list(doc))
    expect(len(doc["commands"]) == len(want), "%d commands saved instead of %d", len(doc["commands"]), len(want))
    for d, (op, params), cid, ts in zip(doc["commands"], want, cids, stamps):
        expect(sorted(d) == ["id", "method", "parameters", "timestamp"], "command %r", d)
        expect(d["method"] == op, "method %r instead of %r", d["method"], op)
        expect(d["id"] == cid and d["timestamp"] == ts, "command %r saved with id %r, time %r", (cid, ts), d["id"], d["timestamp"])
        expect(sorted(d["parameters"]) == sorted(params), "parameters %r instead of %r", d["parameters"], params)
        for k in params:
            expect(same(d["parameters"][k], params[k]), "parameter %s saved as %r instead of %r", k, d["parameters"][k], params[k])
    d = tempfile.mkdtemp(prefix="gspverif")
    try:
        path = os.path.join(d, "scene.json")
        if how == "gsp":
            gsp.save(path)
            expect(world.view(q) == before and held(q) == ids, "saving changed the queue")
            old = q
            q2 = gsp.load(path)
            expect(q2 is old, "loaded into another queue")
        else:
            gjson.save(path, q)
            expect(world.view(q) == before and held(q) == ids, "saving changed the queue")
            other = world.fresh_queue("load")
            if how == "given":
                world.fresh_queue("active")
                q2 = gjson.load(path, other)
                expect(q2 is other, "loaded into another queue")
                expect(len(gsp.io.queue("active")) == 0, "the active queue was loaded too")
            else:
                q2 = gjson.load(path)
                expect(q2 is other, "loaded into another queue than the active one")
            expect(world.view(q) == before and held(q) == ids, "loading changed the queue saved")
        saved = json.load(open(path))
        expect(same(saved, doc), "the file holds another document than the dump")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    expect(len(q2) == len(want), "%d commands loaded instead of %d", len(q2), len(want))
    lids = [int(c.id) for c in q2.commands]
    expect(len(set(lids)) == len(lids), "loaded commands share identifiers")
    for c, (op, params) in zip(q2.commands, want):
        expect(op_name(c) == op, "operation loaded as %r instead of %r", op_name(c), op)
        got = {k: v for k, v in c.parameters.items()}
        expect(sorted(got) == sorted(params), "parameters loaded as %r instead of %r", list(got), list(params))
        for k in params:
            v = got[k]
            v = int(v) if isinstance(v, int) and not isinstance(v, bool) else v
            expect(same(v, params[k]), "parameter %s loaded as %r instead of %r", k, v, params[k])
    doc2 = json.loads(gjson.dump(q2))
    expect(len(doc2["commands"]) == len(want), "saved again: %d commands", len(doc2["commands"]))
    for a, b in zip(doc["commands"], doc2["commands"]):
        expect(a["method"] == b["method"] and same(a["parameters"], b["parameters"]),
               "saved again as %r instead of %r", b, a)
    return doc


# --------------------------------------------------------------------- every value in every place
def one_value(case):
    label, place, how = case
    q = world.reset()
    ref = Val()
    q.empty()
    v, enc = values(ref)[label]
    key = "value(id)" if label.startswith("object") else "value"
    if place == "init":
        o = Val(v)
        want = [("Val/__init__", {"id": int(o.id), key: enc, "other": None, "third": None})]
    elif place == "init keyword":
        o = Val(other=1, value=v)
        want = [("Val/__init__", {"id": int(o.id), "other": 1, key: enc, "third": None})]
    elif place == "dotted":
        o = Dot(v)
        want = [("core.Dot", {"id": int(o.id), key: enc})]
    elif place == "method":
        o = ref
        o.put(v)
        want = [("Val/put", {"id": int(o.id), key: enc})]
    elif place == "named":
        o = ref
        o.two(1, second=v)
        want = [("Val/other_name", {"id": int(o.id), "first": 1, key.replace("value", "second"): enc})]
    elif place == "direct":
        o = ref
        q.push(Command("Val", "put", {"id": o.id, "value": v}))
        want = [("Val/put", {"id": int(o.id), key: enc})]
    roundtrip(q, want, how)
    return (label, place)


def two_values(case):
    a, b = case
    q = world.reset()
    ref = Val()
    va, vb = values(ref)[a], values(ref)[b]
    o = Dot2(va[0], ref=ref)
    o2 = Val(vb[0], va[0], third=vb[0])
    ref.two(second=va[0], first=vb[0])
    k = lambda n, l: n + "(id)" if l.startswith("object") else n
    want = [("Val/__init__", {"id": int(ref.id), "value": None, "other": None, "third": None}),
            ("visual.Dot2", {"id": int(o.id), k("value", a): va[1], "ref(id)": int(ref.id)}),
            ("Val/__init__", {"id": int(o2.id), k("value", b): vb[1], k("other", a): va[1], k("third", b): vb[1]}),
            ("Val/other_name", {"id": int(ref.id), k("second", a): va[1], k("first", b): vb[1]})]
    roundtrip(q, want, "gsp")
    return (a, b)


def typed(case):
    """Parameters that are converted when given another type."""
    form, = case
    data, color, dtype, ref = form
    q = world.reset()
    o = Val()
    q.empty()
    D = {"bytes": b"\x01\x02", "memory": memoryview(b"\x01\x02"), "text": "AQI=", "null": None}[data]
    C = {"color": Color(1, 0.5, 0, 1), "list": [1, 0.5, 0, 1], "tuple": (1, 0.5, 0, 1), "null": None}[color]
    T = {"dtype": np.dtype("<f4"), "text": "<f4::1", "null": None}[dtype]
    R = {"object": o, "null": None}[ref]
    o.typed(D, C, T, R)
    want = [("Val/typed", {"id": int(o.id), "data": None if D is None else "AQI=",
                           "color": None if C is None else [1, 0.5, 0, 1],
                           "dtype": None if T is None else "<f4::1",
                           "ref" if R is None else "ref(id)": None if R is None else int(o.id)})]
    roundtrip(q, want, "given")
    return form


# --------------------------------------------------------------------- histories
class Files(System):
    """Recording, saving, loading over two files and two queues."""
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="gspverif")
        self.q = world.reset()
        self.exp = []
        self.files = {}
        self.objs = []
        self.n = 0

    def ops(self):
        ops = []
        if len(self.objs) < 2:
            ops += [("new", "Node"), ("new", "Dot2"), ("new", "Deep")]
        for i in range(len(self.objs)):
            ops += [("put", i), ("ref", i)]
        for f in ("f", "g"):
            ops.append(("save", f))
            if f in self.files:
                ops.append(("load", f))
        ops += [("empty",), ("dump",)]
        return ops

    def do(self, op):
        from gsp.io import json as gjson
        self.n += 1
        k = op[0]
        if k == "new":
            last = self.objs[-1] if self.objs else None
            if op[1] == "Dot2":
                o = Dot2(self.n, last)
                p = {"value": self.n}
                name = "visual.Dot2"
            else:
                o = Node(self.n, "n", last) if op[1] == "Node" else Deep(self.n, "n", last)
                p = {"value": self.n, "label": "n"}
                name = op[1] + "/__init__"
            p["ref" if last is None else "ref(id)"] = None if last is None else int(last.id)
            if op[1] == "Deep":
                p["extra"] = 0.5
            self.objs.append(o)
            self.exp.append((name, {"id": int(o.id), **p}))
        elif k in ("put", "ref"):
            o = self.objs[op[1]]
            if isinstance(o, Dot2):
                return
            r = self.objs[0] if k == "ref" else None
            o.put(self.n, r)
            self.exp.append(("%s/put" % type(o).__name__, {"id": int(o.id), "value": self.n,
                                                         "ref" if r is None else "ref(id)": None if r is None else int(r.id)}))
        elif k == "save":
            gsp.save(os.path.join(self.d, op[1] + ".json"))
            self.files[op[1]] = list(self.exp)
        elif k == "load":
            q = gsp.load(os.path.join(self.d, op[1] + ".json"))
            expect(q is self.q, "loaded into another queue")
            expect(len(Object.objects) == 0, "objects left after a load: %r", sorted(Object.objects))
            self.exp = list(self.files[op[1]])
        elif k == "empty":
            self.q.empty()
            self.exp = []
        got = [(op_name(c), {a: int(b) if isinstance(b, int) else b for a, b in c.parameters.items()}) for c in self.q.commands]
        expect(got == self.exp, "after %r the queue holds\n  %r\ninstead of\n  %r", op, got, self.exp)
        if k == "dump":
            doc = json.loads(gjson.dump(self.q))
            got = [(c["method"], c["parameters"]) for c in doc["commands"]]
            expect(got == self.exp, "dumped as %r instead of %r", got, self.exp)
        for f, want in self.files.items():
            doc = json.load(open(os.path.join(self.d, f + ".json")))
            got = [(c["method"], c["parameters"]) for c in doc["commands"]]
            expect(got == want, "file %s holds %r instead of %r", f, got, want)

    def key(self):
        b = int(self.objs[0].id) if self.objs else 0
        sh = lambda e: [(n, [(k, (v - b if k.endswith("id)") or k == "id" else 0) if isinstance(v, int) else str(v)) for k, v in p.items()]) for n, p in e]
        return (sh(self.exp), {f: sh(e) for f, e in sorted(self.files.items())}, [type(o).__name__ for o in self.objs])

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def named(case):
    """Parameters of any name."""
    name, form, how = case
    q, m, objs, want, logs = names.program(name, form)
    roundtrip(q, [("%s/%s" % (c, f), p) for c, f, p in want], how)
    return case


def ordered(case):
    """Commands in any order of creation and of time: a queue keeps the order they were pushed in."""
    made, times, how = case
    q = world.reset()
    o = Val()
    q.empty()
    cs = [Command("Val", "put", {"id": o.id, "value": n}) for n in range(len(made))]
    for n, t in zip(made, times):
        cs[n].timestamp = t
        q.push(cs[n])
    roundtrip(q, [("Val/put", {"id": int(o.id), "value": n}) for n in made], how)
    return case


def check(run):
    stamps = (0.0, 1.5, 1e9, -3.25)
    orders = [(m, t) for m in itertools.permutations(range(4)) for t in itertools.permutations(stamps)] + [(m, t) for m in itertools.permutations(range(3)) for t in itertools.product(stamps[:2], repeat=3)]
    run.bounds["orders"] = "queues of four commands pushed in all orders, with times in all orders; of three with equal times"
    run.cases("orders", [o + (h,) for o in orders for h in run.q(("given",), ("gsp", "given", "active"))], ordered)
    run.bounds["names"] = "operations with parameters of %d names" % len(names.NAMES)
    run.cases("names", [(n, f, h) for n in names.NAMES for f in ("positional", "named") for h in ("gsp", "given", "active")], named)
    world.reset()
    labels = list(values(Bare()))
    hows = ("gsp", "given", "active")
    places = ("init", "init keyword", "dotted", "method", "named", "direct")
    run.bounds["values"] = "%d parameter values of every serialisable kind in %d places, saved and loaded in %d ways" % (len(labels), len(places), len(hows))
    run.cases("values", [(l, p, h) for l in labels for p in places for h in hows if not (p == "direct" and l in ("object", "object with no item"))], one_value)
    run.cases("pairs", list(itertools.product(labels, repeat=2)), two_values)
    run.cases("converted", [(f,) for f in itertools.product(("bytes", "memory", "text", "null"), ("color", "list", "tuple", "null"),
                                                           ("dtype", "text", "null"), ("object", "null"))], typed)
    d = run.q(5, 7)
    run.bounds["histories"] = "all histories of <= %d recordings, saves, loads, emptyings over two files" % d
    run.explore("histories", Files, d, max_states=run.q(30000, 300000))
