"""C07: arguments of the wrong type are rejected unless a conversion is registered."""
import itertools, json, types
from typing import Optional, Union
import numpy as np
import gsp
from gsp.object import Object
from gsp.io.command import command
from gsp.io.convert import Converter
from mc import world
from mc.core import System, expect


class Value:
    serial = 0

    def __init__(self, origin=None):
        self.origin = origin


class VA(Value): pass
class VB(VA): pass
class VC(VB): pass
class VD(Value): pass
class VE(VB, VD): pass
class VF(type("V3", (type("V2", (type("V1", (VC,), {}),), {}),), {})): pass      # far below its bases
class VX: 
    def __init__(self, origin=None):
        self.origin = origin


CLS = {c.__name__: c for c in (VA, VB, VC, VD, VE, VF, VX)}
for c in (VA, VB, VD):         # other classes of the same name, and their subclasses
    CLS["another " + c.__name__] = type(c.__name__, (), {})
    CLS["below another " + c.__name__] = type("VY", (CLS["another " + c.__name__],), {})
DST = ("VA", "VB", "VC", "VD", "VX")
SRC = ("VA", "VB", "VC", "VD", "*")
BODY = []


class Taker(Object):
    @command()
    def __init__(self):
        Object.__init__(self)


def carried(x, v):
    """The value that was passed, or a copy of a modifiable one."""
    if x is v:
        return True
    if isinstance(v, np.ndarray):
        return isinstance(x, np.ndarray) and x.dtype == v.dtype and np.array_equal(x, v)
    if isinstance(v, (bytearray, memoryview)):
        return type(x) is type(v) and bytes(x) == bytes(v)
    if isinstance(v, dict):
        return isinstance(x, dict) and list(x) == list(v) and all(carried(x[k], v[k]) for k in v)
    if isinstance(v, (set, frozenset)):
        return isinstance(x, type(v)) and x == v
    return isinstance(v, (list, tuple)) and isinstance(x, type(v)) and len(x) == len(v) and all(map(carried, x, v))


def _mk(name, ann, default=False, extra=""):
    ns = {"ANN": ann, "BODY": BODY}
    exec("def %s(self, x: ANN%s%s):\n    BODY.append(x)\n    return x\n" % (name, " = None" if default else "", extra), ns)
    f = ns[name]
    setattr(Taker, name, command()(f))


ANNS = {}
for a in DST:
    ANNS["%s" % a] = (CLS[a],)
for a, b in itertools.permutations(DST, 2):
    ANNS["%s|%s" % (a, b)] = (CLS[a], CLS[b])
for i, (k, ts) in enumerate(list(ANNS.items())):
    if len(ts) == 1:
        _mk("m_" + k, ts[0])
        _mk("o_" + k, Optional[ts[0]], True)
    else:
        _mk("m_%s_%s" % tuple(k.split("|")), ts[0] | ts[1])
        _mk("u_%s_%s" % tuple(k.split("|")), Union[ts[0], ts[1]], True)


def method(ann, alt):
    parts = ann.split("|")
    if alt:
        return ("o_" if len(parts) == 1 else "u_") + "_".join(parts)
    return "m_" + "_".join(parts)


APPLIED = []


def converter(s, d):
    def conv(v):
        r = CLS[d](("converted", s, d, v))
        APPLIED.append((s, d, v))
        return r
    conv.__name__ = "%s_to_%s" % (s, d)
    return conv


def call(o, name, v, form):
    f = getattr(o, name)
    return f(x=v) if form == "keyword" else f(v)


def one(case):
    convs, ann, vname, form, alt = case
    convs = [tuple(c) for c in convs]
    q = world.reset()
    o = Taker()
    for s, d in convs:
        gsp.io.register(s, d)(converter(s, d))
    try:
        v = None if vname == "None" else CLS[vname]()
        types_ = ANNS[ann]
        mro = [c.__name__ for c in type(v).__mro__]
        usable = [(s, d) for s, d in convs if CLS[d] in types_ and (s in mro or s == "*")]
        # a conversion to a subclass of an annotated type also gives a value of an annotated type:
        # whether it is found is not stated
        loose = [(s, d) for s, d in convs if issubclass(CLS[d], types_) and (s in mro or s == "*")]
        instance = v is None or isinstance(v, types_)
        del BODY[:], APPLIED[:]
        n = len(q)
        try:
            r = call(o, method(ann, alt), v, form)
            accepted = True
        except ValueError:
            accepted = False
        if not accepted:
            expect(not instance and not usable, "a %s is rejected for %s with conversions %r", vname, ann, convs)
            expect(len(q) == n and not BODY and not APPLIED, "a rejected call has an effect")
            return "rejected"
        expect(instance or loose, "a %s is accepted for %s with conversions %r", vname, ann, convs)
        expect(r is v and BODY == [v], "the call received %r", BODY)
        expect(len(q) == n + 1, "%d commands recorded", len(q) - n)
        c = q[n]
        expect(set(c.parameters) == {"id", "x"}, "parameters %r", c.parameters)
        # replay
        rep = []

        class Other(Object):
            pass
        setattr(Other, c.methodname, lambda self, x: rep.append(x))
        for k in range(2):
            p = Other()
            Object.objects = {o.id: p, int(o.id): p}
            q2 = world.fresh_queue()
            q2.push(c)
            q2.run(types.ModuleType("empty"))
            expect(len(rep) == k + 1, "replayed %d times", len(rep))
            x = rep[k]
            if instance:
                expect(carried(x, v) and not APPLIED, "an argument of an annotated type was replayed as %r", x)
            else:
                expect(isinstance(x, types_), "replayed with a %s for %s", type(x).__name__, ann)
                org = getattr(x, "origin", None)
                expect(org is not None and org[0] == "converted" and org[1:3] in (usable or loose) and org[3] is v,
                       "replayed with %r: not the conversion of the argument", org and org[:3])
                expect(all(a[2] is v for a in APPLIED), "a conversion was applied to another value")
        return ("accepted", instance, x.origin[1:3] if not instance else None)
    finally:
        for s, d in convs:
            gsp.io.unregister(s, d)


# ------------------------------------------------------------ several arguments
class Pair(Object):
    @command()
    def __init__(self, a: VA = None, b: VD | VX = None, c=None):
        BODY.append((a, b, c))
        Object.__init__(self)

    @command("both")
    def both(self, a: VA, b: VD | VX, c=5):
        BODY.append((a, b, c))
        return "done"


def several(case):
    convs, va, vb, npos, what = case
    convs = [tuple(c) for c in convs]
    q = world.reset()
    o = Pair()
    for s, d in convs:
        gsp.io.register(s, d)(converter(s, d))
    try:
        a = None if va == "None" else CLS[va]()
        b = None if vb == "None" else CLS[vb]()
        ok = True
        for v, ts in ((a, (VA,)), (b, (VD, VX))):
            mro = [c.__name__ for c in type(v).__mro__]
            if not (v is None or isinstance(v, ts) or any(CLS[d] in ts and (s in mro or s == "*") for s, d in convs)):
                ok = False
        del BODY[:]
        n, reg = len(q), dict(Object.objects)
        args, kw = [a, b][:npos], dict(list({"a": a, "b": b}.items())[npos:])
        try:
            r = Pair(*args, **kw) if what == "create" else o.both(*args, **kw)
            accepted = True
        except ValueError:
            accepted = False
        expect(accepted == ok, "call with (%s, %s), conversions %r: accepted %r instead of %r", va, vb, convs, accepted, ok)
        if not ok:
            expect(len(q) == n and not BODY and Object.objects == reg, "a rejected call has an effect")
        else:
            expect(len(q) == n + 1 and BODY == [(a, b, None if what == "create" else 5)], "the call received %r", BODY)
        return (accepted, va, vb)
    finally:
        for s, d in convs:
            gsp.io.unregister(s, d)


# ------------------------------------------------------------ plain types, saved
def below(cls, value, n=5):
    """A value of a class n levels below."""
    for i in range(n):
        cls = type("Sub%d" % i, (cls,), {})
    return cls(value)


PLAIN = {"int": (3, int), "true": (True, bool), "float": (2.5, float), "str": ("<f4::10", str), "bytes": (b"x", bytes),
         "list": ([1], list), "tuple": ((1,), tuple), "dict": ({"a": 1}, dict), "none": (None, type(None)),
         "memoryview": (memoryview(b"x"), memoryview), "array": (np.zeros(2), np.ndarray), "dtype": (np.dtype("f4"), np.dtype),
         "object": (object(), object), "far list": (below(list, [1]), list), "far int": (below(int, 3), int), "far float": (below(float, 3), float),
         "no items": ([], list), "no tuple": ((), tuple), "no text": ("", str), "no bytes": (b"", bytes), "no keys": ({}, dict), "no set": (set(), set),
         "no array": (np.zeros(0), np.ndarray), "zero": (0, int), "zero float": (0.0, float), "false": (False, bool), "no view": (memoryview(b""), memoryview),
         "far nothing": (below(list, []), list), "nan": (float("nan"), float), "big": (10**30, int), "complex": (0j, complex), "number": (np.float64(2.5), float),
         "class": (int, type), "function": (len, type(len)), "range": (range(0), range),
         "far str": (below(str, "<f4::10"), str), "far tuple": (below(tuple, (1, 2)), tuple)}
PANN = {"int": int, "float": float, "str": str, "bytes": bytes, "list": list, "tuple": tuple, "dict": dict, "bool": bool,
        "memoryview": memoryview, "dtype": np.dtype, "array": np.ndarray, "any": object}


class PlainTaker(Object):
    @command()
    def __init__(self):
        Object.__init__(self)


for a in PANN:
    for b in PANN:
        ns = {"ANN": PANN[a] if a == b else PANN[a] | PANN[b]}
        exec("def p_%s_%s(self, x: ANN): pass" % (a, b), ns)
        setattr(PlainTaker, "p_%s_%s" % (a, b), command()(ns["p_%s_%s" % (a, b)]))


def plain(case):
    a, b, vname = case
    q = world.reset()
    o = PlainTaker()
    v = PLAIN[vname][0]
    ts = (PANN[a], PANN[b])
    known = set(gsp.io.converters)
    mro = [c.__name__ for c in type(v).__mro__]
    usable = [(s, d) for s in mro + ["*"] for d in {t.__name__ for t in ts} if (s, d) in known]
    # an argument of a subclass of the numpy type classes is an instance of them
    ok = v is None or isinstance(v, ts) or bool(usable)
    n = len(q)
    try:
        getattr(o, "p_%s_%s" % (a, b))(v)
        accepted = True
    except ValueError:
        accepted = False
    expect(accepted == ok, "%s for %s|%s: accepted %r instead of %r", vname, a, b, accepted, ok)
    expect(len(q) == n + accepted, "%d commands recorded", len(q) - n)
    if vname == "no text" and "dtype" in (a, b) and not isinstance(v, ts):
        pass                        # the registered conversion of a text describes no type here
    elif ok and not isinstance(v, ts) and v is not None:
        x = q[n].parameters["x"]
        x = x() if isinstance(x, Converter) else x
        expect(isinstance(x, ts), "%s converted to a %s for %s|%s", vname, type(x).__name__, a, b)
    elif ok:
        x = q[n].parameters["x"]
        x = x() if isinstance(x, Converter) else x
        expect(carried(x, v), "%s recorded as %r for %s|%s", vname, x, a, b)
    return (accepted, vname)


class Text:
    def __init__(self, t): self.t = t


class SubText(Text): pass


class Saver(Object):
    @command()
    def __init__(self, x: str = "", y: list | int = 0):
        Object.__init__(self)


def saved(case):
    """The saved command holds the converted value."""
    from gsp.io import json as gjson
    xv, yv, named = case
    q = world.reset()
    gsp.io.register("Text", "str")(lambda v: "text " + v.t)
    gsp.io.register("Text", "list")(lambda v: [v.t])
    try:
        val = {"text": Text("a"), "sub": SubText("b"), "plain": None}
        kw = {}
        if xv != "none":
            kw["x"] = "plain" if xv == "plain" else val[xv]
        if yv != "none":
            kw["y"] = {"plain": [1], "number": 4}.get(yv) or val[yv]
        o = Saver(**kw) if named else Saver(*kw.values()) if list(kw) != ["y"] else Saver(**kw)
        for k in range(2):
            p = json.loads(gjson.dump(q))["commands"][0]["parameters"]
            wx = {"none": "", "plain": "plain", "text": "text a", "sub": "text b"}[xv]
            wy = {"none": 0, "plain": [1], "number": 4, "text": ["a"], "sub": ["b"]}[yv]
            expect(p == {"id": int(o.id), "x": wx, "y": wy}, "saved %r instead of %r", p, (wx, wy))
        return (xv, yv)
    finally:
        gsp.io.unregister("Text", "str")
        gsp.io.unregister("Text", "list")


# ------------------------------------------------------------ objects
class Thing(Object):
    @command()
    def __init__(self, n: int = 0):
        Object.__init__(self)
        self.n = n


class SubThing(Thing):
    @command()
    def __init__(self, n: int = 1):
        super().__init__(n, __no_command__=True)


class Alien(Object):
    @command()
    def __init__(self):
        Object.__init__(self)


class Holder(Object):
    @command()
    def __init__(self, ref: Thing = None, either: Alien | int = None, anything: Object = None):
        Object.__init__(self)
        self.ref, self.either, self.anything = ref, either, anything

    @command()
    def hold(self, ref: Thing, n: int = 2):
        self.ref = ref
        self.n = n


class Spec:
    def __init__(self, n): self.n = n


def objects(case):
    a, b, c, registered, form = case
    q = world.reset()
    made = []

    def conv(v):
        made.append(v)
        return Thing(v.n)
    if registered:
        gsp.io.register("Spec", "Thing")(conv)
    try:
        h = Holder()
        t, s, x, spec = Thing(1), SubThing(2), Alien(), Spec(7)
        vals = {"thing": t, "sub": s, "alien": x, "none": None, "int": 3, "spec": spec, "text": "t"}
        va, vb, vc = vals[a], vals[b], vals[c]
        n = len(q)
        ok = (isinstance(va, Thing) or va is None or (a == "spec" and registered)) and \
             (isinstance(vb, (Alien, int)) or vb is None) and (isinstance(vc, Object) or vc is None)
        try:
            if form == "keyword":
                o = Holder(anything=vc, either=vb, ref=va)
            elif form == "method":
                ok = isinstance(va, Thing) or va is None or (a == "spec" and registered)
                o = h
                h.hold(va)
            else:
                o = Holder(va, vb, vc)
            accepted = True
        except ValueError:
            accepted = False
        expect(accepted == ok, "(%s, %s, %s) accepted %r instead of %r", a, b, c, accepted, ok)
        if not ok:
            got = [k.classname for k in q.commands[n:]]
            expect(not [g for g in got if g != "Thing"], "a rejected call was recorded: %r", got)
            return "rejected"
        p = dict(q[len(q) - 1].parameters)
        if a == "spec":
            expect(made == [spec], "the conversion was applied to %r", made)
            expect("ref(id)" in p, "parameters %r", p)
            expect([k.classname for k in q.commands[n:-1]] == ["Thing"], "the conversion recorded %r", [k.classname for k in q.commands[n:-1]])
            i = int(q[n].parameters["id"])
            expect(int(p["ref(id)"]) == i and q[n].parameters["n"] == 7, "the call refers to another object than the converted one")
        # replay
        recorded = {k: v for k, v in (("ref", va), ("either", vb), ("anything", vc))}
        oid = int(o.id)
        Object.objects = {}
        m = types.ModuleType("m")
        m.Thing, m.SubThing, m.Alien, m.Holder = Thing, SubThing, Alien, Holder
        q.run(m)
        r = Object.objects[oid]
        names = ("ref",) if form == "method" else ("ref", "either", "anything")
        for k in names:
            v, g = recorded[k], getattr(r, k)
            if isinstance(v, Object):
                expect(g is Object.objects[int(v.id)], "%s replayed as %r", k, g)
            elif v is spec:
                expect(type(g) is Thing and g.n == 7, "%s replayed as %r", k, g)
            else:
                expect(g == v and type(g) is type(v), "%s replayed as %r", k, g)
        return (a, b, c, form)
    finally:
        gsp.io.unregister("Spec", "Thing")


def check(run):
    allc = list(itertools.product(SRC, DST))
    allc = [c for c in allc if c[0] != c[1]]
    k = run.q(2, 3)
    subsets = [s for n in range(k + 1) for s in itertools.combinations(allc, n)]
    vals = ("VA", "VB", "VC", "VD", "VE", "VF", "None") + (("VX",) if run.thorough else ())
    run.bounds["types"] = ("every set of <= %d of %d conversions x %d annotations (types and unions of two) x %d values" %
                           (k, len(allc), len(ANNS), len(vals)))
    cases = list(itertools.product(subsets, ANNS, vals, ("position", "keyword"), (0, 1)))
    cases += list(itertools.product([s for s in subsets if len(s) < run.q(2, 3)], ANNS, [v for v in CLS if "another" in v], ("position", "keyword"), (0, 1)))
    run.cases("types", cases, one)
    subsets = [s for n in range(3) for s in itertools.combinations([c for c in allc if c[1] in ("VA", "VD", "VX")], n)]
    if not run.thorough:
        subsets = [s for s in subsets if len(s) < 2]
    run.cases("several", list(itertools.product(subsets, vals, vals, (0, 1, 2), ("create", "method"))), several)
    run.cases("plain-types", list(itertools.product(PANN, PANN, PLAIN)), plain)
    run.cases("saved", list(itertools.product(("none", "plain", "text", "sub"), ("none", "plain", "number", "text", "sub"), (True, False))), saved)
    ov = ("thing", "sub", "alien", "none", "int", "spec", "text")
    run.cases("objects", list(itertools.product(ov, ov, ov, (True, False), ("position", "keyword", "method"))), objects)
