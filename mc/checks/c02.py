"""C02: replaying a queue rebuilds the recorded objects, references and effects."""
import itertools, os, shutil, tempfile, types
import gsp
from gsp.object import Object
from gsp.io.command import command, CommandQueue
from mc import names, world
from mc.core import System, expect
from mc.world import Node, Deep, Plain, Bare, CALLS


class Dotted(Object):
    """Creation recorded under a dotted protocol name."""
    @command("core.Dotted")
    def __init__(self, value: int, ref: Object = None, other: Object = None):
        CALLS.append((self, "Dotted", (value, ref, other)))
        Object.__init__(self)
        self.value, self.ref, self.other, self.log = value, ref, other, []

    @command()
    def put(self, value: int, ref: Object = None):
        CALLS.append((self, "put", (value, ref)))
        self.log.append(("put", value, ref))


# --- the implementation replaying: same protocol, other classes ------------------------
class _Impl:
    def link(self, ref, label="y"):
        self.log.append(("link", ref, label))
        CALLS.append((self, "link", (ref, label)))
        self.ref = ref
        return self

    def put(self, value, ref=None):
        self.log.append(("put", value, ref))
        CALLS.append((self, "put", (value, ref)))

    def fail(self, value):
        raise world.Boom()


def _impl(name):
    def __init__(self, value=None, label=None, ref=None, extra=None, other=None):
        Object.__init__(self)
        CALLS.append((self, name, (value, label, ref, extra, other)))
        self.value, self.label, self.ref, self.extra, self.other = value, label, ref, extra, other
        self.log = []
    return type(name, (_Impl, Object), {"__init__": __init__})


def other_module():
    m = types.ModuleType("other_backend")
    for n in ("Node", "Deep", "Plain", "Bare"):
        setattr(m, n, _impl(n))
    m.core = types.ModuleType("other_backend.core")
    m.core.Dotted = _impl("Dotted")
    return m


def same_module():
    m = types.ModuleType("same_backend")
    m.Node, m.Deep, m.Plain, m.Bare = Node, Deep, Plain, Bare
    m.core = types.ModuleType("same_backend.core")
    m.core.Dotted = Dotted
    return m


def snap_value(v, names):
    if isinstance(v, Object):
        return ("ref", names.get(id(v), "unknown object"))
    return world.canon(v)


def snapshot(objs):
    """objs: {identifier: object} -> comparable description of the whole object graph."""
    names = {id(o): int(i) for i, o in objs.items()}
    out = {}
    for i, o in objs.items():
        d = {}
        for a in ("value", "label", "ref", "extra", "other"):
            d[a] = snap_value(getattr(o, a, None), names)
        d["class"] = type(o).__name__
        d["log"] = [tuple(snap_value(x, names) for x in e) for e in o.log]
        out[int(i)] = d
    return out


def call_log(objs):
    names = {id(o): int(i) for i, o in objs.items()}
    return [(names.get(id(s), "?"), n, tuple(snap_value(v, names) for v in vals)) for s, n, vals in CALLS]


class Replay(System):
    def __init__(self):
        self.q = world.reset()
        self.objs = []
        self.steps = []
        self.n = 0
        del CALLS[:]

    def ops(self):
        k = len(self.objs)
        ops = []
        if k < self.MAXOBJ:
            for c in ("Node", "Deep", "Plain", "Dotted"):
                ops.append(("new", c, -1))
                ops += [("new", c, j) for j in range(k)]
        for i in range(k):
            for j in range(k):
                ops.append(("put", i, j))
                if hasattr(self.objs[i], "link"):
                    ops.append(("link", i, j))
            ops.append(("put", i, -1))
            if i == k - 1:
                ops.append(("number", i, 0))     # an identifier is a number like another
        return ops

    def do(self, op):
        self.n += 1
        v = 10 + self.n
        if op[0] == "new":
            ref = self.objs[op[2]] if op[2] >= 0 else None
            C = {"Node": Node, "Deep": Deep, "Plain": Plain, "Dotted": Dotted}[op[1]]
            if op[1] == "Dotted":
                o = C(v, ref, self.objs[0] if self.objs else None)
            elif self.n % 2:
                o = C(v, "l%d" % v, ref)
            else:
                o = C(ref=ref, value=v)
            self.objs.append(o)
        elif op[0] == "put":
            if op[2] < 0:
                self.objs[op[1]].put(v)
            else:
                self.objs[op[1]].put(v, self.objs[op[2]])
        elif op[0] == "number":
            self.objs[op[1]].put(self.objs[op[2]].id)
        elif op[0] == "link":
            self.objs[op[1]].link(self.objs[op[2]])
        self.steps.append(op)

    def finish(self):
        q = self.q
        recorded = {int(o.id): o for o in self.objs}
        want = snapshot(recorded)
        want_calls = call_log(recorded)
        before, ids = world.view(q), world.identities(q)
        for make in (same_module, other_module):
            results = []
            for again in range(2):
                Object.objects = {}
                del CALLS[:]
                if again:
                    world.fresh_queue()            # replay while another queue is active
                q.run(make())
                expect(world.view(q) == before and world.identities(q) == ids,
                       "running the queue changed it: %r instead of %r", world.view(q)[-2:], before[-2:])
                expect(not q.readonly, "the queue stays read-only after a run")
                got = dict(Object.objects)
                calls = call_log(got)
                for i in recorded:
                    expect(i in got, "object %d was not rebuilt (%r)", i, sorted(got))
                    expect(int(got[i].id) == i, "object %d has identifier %r", i, got[i].id)
                    expect(got[i] is not recorded[i], "the recorded object itself is in the registry")
                extra = [i for i in got if i not in recorded and isinstance(got[i], Object)]
                expect(not extra, "replay left objects under identifiers %r", extra)
                snap = snapshot({i: got[i] for i in recorded})
                if make is other_module:
                    # same class names, arguments, references and effects
                    exp = {i: dict(d) for i, d in want.items()}
                    gotl = {i: dict(d) for i, d in snap.items()}
                    expect(gotl == exp, "replayed objects %r instead of %r", gotl, exp)
                else:
                    expect(snap == want, "replayed objects %r instead of %r", snap, want)
                seq = [(s, n) for s, n, _ in calls if n in ("put", "link")]
                wseq = [(s, n) for s, n, _ in want_calls if n in ("put", "link")]
                expect(seq == wseq, "calls replayed as %r instead of %r", seq, wseq)
                results.append(snap)
            expect(results[0] == results[1], "a second run gives another outcome")

    def key(self):
        base = int(self.objs[0].id) if self.objs else 0
        # order and values matter for the replay: only symmetric prefixes are merged
        return tuple(self.steps)


Replay.MAXOBJ = 3


class Wrapped:
    """Type only reached by conversion."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Wrapped(%r)" % (self.v,)


class Shout(str):
    """Text obtained by conversion, itself convertible."""


class Holder(Object):
    """Takes converted arguments."""
    @command()
    def __init__(self, a: Wrapped, b: Shout = None):
        Object.__init__(self)
        self.a, self.b, self.log = a, b, []

    @command()
    def put(self, a: Wrapped, b: Shout = None):
        self.log.append((a, b))


def _wrapped(v):
    if isinstance(v, Wrapped):
        raise TypeError("already wrapped")
    return Wrapped(bytes(v) if isinstance(v, bytearray) else tuple(v))


CONVERTERS = {("bytearray", "Wrapped"): _wrapped, ("list", "Wrapped"): _wrapped, ("set", "Wrapped"): lambda v: Wrapped(sorted(v)), ("str", "Shout"): lambda v: Shout(v + "!")}
BEFORE = {"bytes": (lambda: bytearray(b"abc"), b"abc"), "list": (lambda: [1, [2]], (1, [2])), "set": (lambda: {2, 1}, [1, 2]), "empty": (lambda: [], ())}


def conversions(case):
    """Arguments that are converted, in a queue run, listed and saved any number of times."""
    import io, contextlib
    from gsp.io import converters
    forms, acts = case
    q = world.reset()
    saved = dict(converters)
    converters.update(CONVERTERS)
    m = types.ModuleType("m")
    m.Holder = Holder
    try:
        args = [BEFORE[f][0]() for f in forms]
        h = Holder(args[0], "x")
        for k, a in enumerate(args):
            if k % 2:
                h.put(a)
            else:
                h.put(a, b="y%d" % k)
        for a in args:      # recorded as they were
            if isinstance(a, list):
                a.append(3)
        want = [BEFORE[f][1] for f in forms]
        for n, act in enumerate(acts):
            if act == "run":
                Object.objects = {}
                q.run(m)
                o = Object.objects[int(h.id)]
                what = "run %d of %s" % (n, acts)
                expect(isinstance(o.a, Wrapped) and o.a.v == want[0], "%s gives %r instead of %r", what, o.a, want[0])
                expect(o.b == "x!", "%s gives %r", what, o.b)
                expect([a.v for a, b in o.log] == want, "%s gives %r instead of %r", what, o.log, want)
                expect([b for a, b in o.log] == [None if k % 2 else "y%d!" % k for k in range(len(want))], "%s gives %r", what, o.log)
            elif act == "text":
                with contextlib.redirect_stdout(io.StringIO()):
                    str(q)
                    for c in q:
                        c.dump()
            elif act == "views":
                world.view(q)
        return tuple(forms)
    finally:
        converters.clear()
        converters.update(saved)


def id_cases(case):
    """Recorded objects whose identifiers were chosen by the user, replayed in a session whose
    fresh identifiers would collide with them."""
    gaps, order = case
    q = world.reset()
    objs = []
    first = Bare()
    nxt = int(first.id) + 1
    # commands as a file gives them: explicit identifiers (next to the ones the session gives)
    from gsp.io.command import Command
    q.empty()
    ids = [nxt + len(gaps) + 1 + g + k for k, g in enumerate(gaps)]
    ids = [ids[k] for k in order]
    Object.objects = {}
    prev = None
    for i in ids:
        p = {"id": i, "value": i}
        if prev is not None:
            p["ref(id)"] = prev
        q.push(Command("Node", "__init__", p))
        prev = i
    for i in ids:
        q.push(Command("Node", "put", {"id": i, "value": 1, "ref(id)": ids[0]}))
    q.run(same_module())
    got = Object.objects
    expect(sorted(int(i) for i in got) == sorted(ids), "registry holds %r instead of %r", sorted(got), sorted(ids))
    prev = None
    for i in ids:
        o = got[i]
        expect(int(o.id) == i and o.value == i, "identifier %d gives object %r of value %r", i, o.id, o.value)
        expect(o.ref is (got[prev] if prev is not None else None), "reference of object %d lost", i)
        expect(o.log == [("put", 1, got[ids[0]])], "calls on object %d: %r", i, o.log)
        prev = i
    n = Bare()
    expect(int(n.id) not in ids, "a new object took over identifier %d", n.id)
    return tuple(order)


def hand_made(case):
    """Commands built by hand, objects given in place of their identifiers."""
    from gsp.io.command import Command
    given, seq = case
    q = world.reset()
    objs = [Node(1), Deep(2), Plain(3)]
    for k, (i, j) in enumerate(seq):
        p = {"id": objs[i].id, "value": 5 + k}
        if given == "object":
            p["ref"] = objs[j]
        elif given == "both":
            p["ref(id)"] = objs[j]
        elif given == "self":
            p = {"ref": objs[j], "value": 5 + k, "id": objs[i]}
        else:
            p["ref(id)"] = objs[j].id
        q.push(Command(type(objs[i]).__name__, "put", p))
    ids = [int(o.id) for o in objs]
    for again in range(2):
        Object.objects = {}
        q.run(same_module())
        got = [Object.objects[i] for i in ids]
        logs = [[("put", 5 + k, got[j]) for k, (i, j) in enumerate(seq) if i == n] for n in range(3)]
        for n in range(3):
            expect(len(got[n].log) == len(logs[n]) and all(a[:2] == b[:2] and a[2] is b[2] for a, b in zip(got[n].log, logs[n])), "object %d: calls %r instead of %r", n, got[n].log, logs[n])
    return given, len(seq)


def record_flag(case):
    """Replay does not depend on recording being on, nor on which queue is active."""
    rec, reg, other_active, A, B, C = case
    K = {"Node": Node, "Deep": Deep, "Plain": Plain, "Dotted": Dotted}
    q = world.reset()
    a = K[A](1)
    b = K[B](2, ref=a)
    b.put(3, a)
    c = K[C](ref=b, value=4)
    a.put(5, c)
    objs = {int(o.id): o for o in (a, b, c)}
    want = snapshot(objs)
    before = world.view(q)
    Object.objects = {}
    gsp.io.record(rec)
    Object.record = reg
    act = world.fresh_queue() if other_active else q
    try:
        for again in range(2):
            q.run(same_module())
            got = dict(Object.objects)
            expect(set(map(int, got)) == set(objs), "registry %r", sorted(got))
            expect(snapshot(got) == want, "replayed %r instead of %r", snapshot(got), want)
            expect(all(got[i] is not objs[i] for i in objs), "the recorded object itself is in the registry")
            expect(all(int(got[i].id) == i for i in objs), "identifiers of the replayed objects")
    finally:
        gsp.io.record(True)
        Object.record = True
    expect(world.view(q) == before, "the queue changed")
    return (A, B, C)


def named(case):
    """Parameters of any name, replayed from the queue or from a file."""
    name, how, via = case
    q, m, objs, want, logs = names.program(name, how)
    if via == "file":
        d = tempfile.mkdtemp(prefix="gspverif")
        try:
            path = os.path.join(d, "q.json")
            gsp.io.json.save(path, q)
            q = gsp.io.json.load(path, world.fresh_queue("load"))
        finally:
            shutil.rmtree(d)
    Object.objects = {}
    q.run(m)
    expect(sorted(map(int, Object.objects)) == sorted(logs), "objects %r instead of %r", sorted(Object.objects), sorted(logs))
    for i in logs:
        o = Object.objects[i]
        expect(o not in [x for x in objs if x is o], "object %d is the original one", i)
        expect(names.log_of(o) == logs[i], "object %d received %r instead of %r", i, names.log_of(o), logs[i])
        for e in o.log:
            for x in e:
                expect(not isinstance(x, Object) or Object.objects[int(x.id)] is x, "object %d refers to an original object", i)
    return case


GIVEN = {"null": None, "zero": 0, "one": 1, "no text": "", "text": "x", "false": False, "true": True, "0.0": 0.0, "empty": (), "one null": (None,), "list": [], "map": {}, "bytes": b"", "more": [None, 0]}


class Defaults(Object):
    """Parameters whose default values are anything."""
    @command()
    def __init__(self, a=3, b="text", c=None, d=0):
        Object.__init__(self)
        self.log = [(a, b, c, d)]

    @command()
    def put(self, a=None, b=7, c=False, d=()):
        self.log.append((a, b, c, d))


def given(case):
    """Arguments of any value, for parameters whose default is any other one."""
    first, second, place, how = case
    q = world.reset()
    m = types.ModuleType("m")
    m.Defaults = Defaults
    args = {"abcd"[place]: GIVEN[first], "abcd"[(place + 1) % 4]: GIVEN[second]}
    if how == "place":
        args = [args.get(k, 5) for k in "abcd"]
        o = Defaults(*args)
        o.put(*args)
    else:
        o = Defaults(**args)
        o.put(**args)
    want = [tuple(x) for x in o.log]
    Object.objects = {}
    q.run(m)
    got = Object.objects[int(o.id)].log
    expect([tuple(map(repr, x)) for x in got] == [tuple(map(repr, x)) for x in want], "called with %r, replayed with %r", want, got)
    return repr(want)


def check(run):
    run.bounds["names"] = "operations with parameters of %d names, passed by place or by name, replayed from the queue or from a file" % len(names.NAMES)
    run.cases("names", [(n, h, v) for n in names.NAMES for h in ("positional", "named") for v in ("queue", "file")], named)
    depth = run.q(4, 5)
    run.bounds["programs"] = ("every recordable program of <= %d operations creating and linking up to 3 objects of 4 classes; "
                              "each is replayed twice by its own classes and twice by another implementation" % depth)
    run.explore("programs", Replay, depth)
    import itertools
    cases = [(g, o) for n in range(1, run.q(4, 5)) for g in itertools.product((-2, -1, 0, 1, 2), repeat=n)
             for o in itertools.permutations(range(n)) if len({x + k for k, x in enumerate(g)}) == n]
    run.bounds["identifiers"] = "chains of up to %d objects with every identifier pattern around the session's next identifiers, in every order" % run.q(3, 4)
    run.cases("identifiers", cases, id_cases)
    run.bounds["values"] = "every pair of %d values for neighbouring parameters of 4, by place and by name, of a constructor and a method with other defaults" % len(GIVEN)
    run.cases("values", list(itertools.product(GIVEN, GIVEN, range(4), ("place", "name"))), given)
    K = ("Node", "Deep", "Plain", "Dotted")
    run.bounds["flags"] = "recording on or off, registration on or off, this or another queue active, over all triples of classes, run twice"
    run.cases("flags", list(itertools.product((True, False), (True, False), (True, False), K, K, K)), record_flag)
    run.bounds["conversions"] = "every sequence of up to %d runs, listings and inspections of queues whose arguments need a conversion that cannot be repeated" % run.q(4, 6)
    run.cases("conversions", [(f, a) for f in itertools.chain(*(itertools.product(BEFORE, repeat=n) for n in (1, 2, run.q(2, 3)))) for n in range(1, run.q(5, 7)) for a in itertools.product(("run", "text", "views"), repeat=n)], conversions)
    run.bounds["hand made"] = "every sequence of up to %d hand-built commands between 3 objects, with references given in 4 ways" % run.q(2, 3)
    pairs = list(itertools.product(range(3), repeat=2))
    run.cases("hand-made", [(g, s) for g in ("object", "both", "self", "id") for n in range(1, run.q(3, 4)) for s in itertools.product(pairs, repeat=n)], hand_made)
