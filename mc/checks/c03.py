"""C03: object identifiers are unique and the registry resolves them."""
import itertools
import gsp
from gsp.object import Object, OID
from mc import world
from mc.core import System, expect
from mc.world import Node, Bare


class Registry(System):
    MAXOBJ = 4

    def __init__(self):
        world.reset()
        self.objs = []           # live objects
        self.reg = []            # was registered
        self.on = True
        self.renumbered = set()
        self.mentioned = self.since = 0
        self.given_up = set()
        self.first = int(Bare().id)
        Object.objects = {}
        self.last = self.first

    def fresh_targets(self):
        used = {int(o.id) for o in self.objs}
        out = []
        for d in (1, 2, 4):       # ahead of the identifiers the session gives next
            if self.last + d not in used:
                out.append(("ahead", d))
        out.append(("big", 0))
        for g in sorted(self.given_up)[:2]:
            if g not in used:
                out.append(("reuse", sorted(self.given_up).index(g)))
        return out

    def target(self, t):
        if t[0] == "ahead":
            return self.last + t[1]
        if t[0] == "big":
            used = {int(o.id) for o in self.objs}
            return next(i for i in itertools.count(self.first + 10000) if i not in used)
        return sorted(self.given_up)[t[1]]

    def ops(self):
        ops = [("registration", not self.on)]
        ops += [("mention", d) for d in ("first", "live", "ahead")[:1 + 2 * bool(self.objs)]]
        if len(self.objs) < self.MAXOBJ:
            ops += [("new", "Bare"), ("new", "Node")]
        for i in range(len(self.objs)):
            for t in self.fresh_targets():
                ops.append(("setid", i) + t)
            ops.append(("setid", i, "same", 0))
        return ops

    def do(self, op):
        if op[0] == "registration":
            Object.record = op[1]
            self.on = op[1]
        elif op[0] == "mention":         # an identifier is written down, no object is created
            i = {"first": self.first, "live": int(self.objs[0].id) if self.objs else 0, "ahead": self.last + 1}[op[1]]
            expect(int(OID(i)) == i, "identifier %d is written %r", i, OID(i))
            self.mentioned, self.since = i, 0
        elif op[0] == "new":
            # an identifier given to an unregistered object is not known to the session
            taken = {int(o.id) for n, (o, r) in enumerate(zip(self.objs, self.reg)) if r or n not in self.renumbered}
            o = Bare() if op[1] == "Bare" else Node(1)
            expect(int(o.id) not in taken, "a new object took over identifier %d", o.id)
            self.objs.append(o)
            self.since += 1
            self.reg.append(self.on)
            self.last = max(self.last, int(o.id)) if int(o.id) < self.first + 5000 else self.last
            self.given_up.discard(int(o.id))
        else:
            o = self.objs[op[1]]
            old = int(o.id)
            self.renumbered.add(op[1])
            new = old if op[2] == "same" else self.target((op[2], op[3]))
            o.id = new
            if new != old:
                self.given_up.add(old)
                self.given_up.discard(new)
        self.verify(op)

    def verify(self, op):
        regobjs = [o for o, r in zip(self.objs, self.reg) if r]
        ids = [int(o.id) for o in regobjs]
        expect(len(ids) == len(set(ids)), "after %r two objects share an identifier: %r", op, ids)
        if all(self.reg):
            allids = [int(o.id) for o in self.objs]
            expect(len(allids) == len(set(allids)), "after %r two objects share an identifier: %r", op, allids)
        for o in regobjs:
            expect(int(o.id) in Object.objects, "after %r identifier %d does not resolve", op, o.id)
            expect(Object.objects[int(o.id)] is o, "after %r identifier %d resolves to another object", op, o.id)
        for g in self.given_up:
            x = Object.objects.get(g)
            expect(x is None or int(x.id) == g, "after %r the identifier %d given up still resolves to an object of identifier %r",
                   op, g, getattr(x, "id", None))
        for i, x in Object.objects.items():
            expect(int(x.id) == int(i), "after %r registry entry %r holds object %r", op, i, x.id)

    def key(self):
        b = self.first
        return (self.on, [(type(o).__name__, int(o.id) - b, r) for o, r in zip(self.objs, self.reg)],
                sorted(g - b for g in self.given_up), sorted(self.renumbered), self.mentioned and (self.mentioned - b, self.since), self.last - b, sorted(int(i) - b for i in Object.objects))

    def close(self):
        Object.record = True


def real_objects(case):
    """Identifiers of every kind of protocol object created in one session, converted arguments
    and copies included."""
    import numpy as np, matplotlib.pyplot as plt
    import gsp_matplotlib as gm
    from gsp_matplotlib import glm
    import gsp.transform as T
    from gsp.core import Color
    world.reset()
    made = []
    canvas = gm.core.Canvas(40, 40, 100.0)
    made.append(canvas)
    try:
        for k in case:
            if k == "viewport":
                made.append(gm.core.Viewport(canvas, 0, 0, 10, 10, Color(1, 1, 1, 1)))
            elif k == "buffer":
                made.append(gm.core.Buffer(2, np.dtype("f4")))
            elif k == "array":
                made.append(glm.vec3(2)._tracker.gsp_buffer)
            elif k == "transform":
                made.append(T.X())
            elif k == "copy":
                made.append(T.Pixel().copy())
            elif k == "expr":
                made.append(T.Pixel() + 2 * T.Inch())
            elif k == "points":
                made.append(gm.visual.Points(np.zeros((2, 3)), 1.0, [0, 0, 0, 1], [0, 0, 0, 1], 1.0))
            elif k == "renumber":
                made[-1].id = int(made[-1].id) + 5
        for o in made:
            expect(Object.objects.get(o.id) is o, "%s identifier %d resolves to %r", type(o).__name__, o.id,
                   type(Object.objects.get(o.id)).__name__)
        ids = [int(o.id) for o in made]
        expect(len(set(ids)) == len(ids), "identifiers %r", ids)
        for i, o in Object.objects.items():
            expect(int(o.id) == int(i), "registry entry %r holds object %r", i, o.id)
    finally:
        plt.close("all")
    return tuple(i - ids[0] for i in ids)


def many(case):
    """Many objects, created around objects that were given identifiers at the limits of the usual
    integer types: they all have their own identifier, that resolves to them."""
    count, given, registered = case
    world.reset()
    gsp.io.record(False)
    Object.record = registered
    try:
        objs = [Bare() for i in range(3)]
        for n, g in enumerate(given):
            holder = [i for i, o in enumerate(objs) if int(o.id) == g]      # one might already have it
            if holder:
                objs.insert(n, objs.pop(holder[0]))
            else:
                objs[n].id = g
            objs += [Bare() for i in range(3)]
        while len(objs) < count:
            objs.append(Bare())
        ids = [int(o.id) for o in objs]
        expect(len(set(ids)) == len(ids), "%d objects with %d identifiers", len(ids), len(set(ids)))
        expect(ids[:len(given)] == list(given), "objects given identifiers %s have %s", given, ids[:len(given)])
        if registered:
            for o, i in zip(objs, ids):
                expect(Object.objects.get(i) is o, "identifier %d resolves to another object", i)
        expect(len(Object.objects) == len(objs) * registered, "%d identifiers for %d objects", len(Object.objects), len(objs))
    finally:
        Object.record = True
        gsp.io.record(True)
        world.reset()
    return (count, len(given))


LIMITS = (0, 2 ** 7, 2 ** 8, 2 ** 15, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64)


def abandoned(case):
    """Objects that are given the identifiers of objects that the program no longer holds."""
    n, moves = case
    world.reset()
    objs = [(Bare, lambda: Node(1))[k % 2]() for k in range(n)]
    ids = [int(o.id) for o in objs]
    for a, b in moves:               # the a-th takes the place of the b-th
        o = objs[a]
        objs[b] = None
        given_up = int(o.id)
        o.id = ids[b]
        expect(int(o.id) == ids[b], "given %d the identifier is %r", ids[b], o.id)
        expect(Object.objects.get(ids[b]) is o, "identifier %d given to an object resolves to another one", ids[b])
        x = Object.objects.get(given_up)
        expect(x is None or x is not o, "the identifier %d given up still resolves to the object", given_up)
    live = [o for o in objs if o is not None]
    for o in live:
        expect(Object.objects.get(int(o.id)) is o, "identifier %d resolves to another object", o.id)
    new = [Bare() for _ in range(3)]
    expect(len({int(o.id) for o in live + new}) == len(live) + 3, "new objects share identifiers")
    return [int(o.id) - ids[0] for o in live]


def check(run):
    d = run.q(5, 7)
    run.bounds["histories"] = "all histories of <= %d creations, renumberings (onto free identifiers: next ones, far ones, given-up ones, its own) and registration switches over 4 objects" % d
    run.explore("histories", Registry, d, max_states=run.q(60000, 400000))
    pairs = list(itertools.permutations(range(4), 2))
    run.bounds["abandoned"] = "every sequence of up to %d objects (of 4) taking the identifier of an object that is no longer held" % run.q(3, 4)
    run.cases("abandoned", [(4, m) for k in range(1, run.q(4, 5)) for m in itertools.product(pairs, repeat=k)
                            if all(a not in {y for _, y in m[:i]} and b not in {y for _, y in m[:i]} and b not in {x for x, _ in m[:i]} for i, (a, b) in enumerate(m))], abandoned)
    kinds = ("viewport", "buffer", "array", "transform", "copy", "expr", "points", "renumber")
    run.cases("protocol-objects", list(itertools.product(kinds, repeat=run.q(2, 3))), real_objects)
    limits = [l + d for l in LIMITS for d in (-1, 0, 1)] + [-2 ** 31, -2 ** 63]
    run.bounds["many"] = "histories of up to %d creations; identifiers given at the limits of the integer types, by ones and pairs" % run.q(70000, 300000)
    run.cases("many", [(n, (), r) for r in (True, False) for n in run.q((10, 300, 70000), (10, 300, 70000, 300000))] + [(12, (l,), True) for l in limits]
              + [(12, p, True) for p in itertools.permutations(limits, 2)], many)
