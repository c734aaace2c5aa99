"""C04: one queue per name, the latest created is active; read-only, emptying, explicit queues."""
import itertools, json as js, os, tempfile
import gsp
from gsp.object import Object
from gsp.io.command import CommandQueue, Command
from mc import world
from mc.core import System, expect
from mc.world import Bare, Node

NAMES = ("a", "b", "default")
ASK = NAMES + ("active", None)


class Queues(System):
    """Runs in a process of its own: no queue has been created yet."""
    isolate = True
    names = NAMES

    def __init__(self):
        self.model = {}          # name -> dict(cmds, ro, q)
        self.active = None
        self.node = None
        gsp.io.record(False)
        self.node = Node(0)
        gsp.io.record(True)
        self.n = 0

    def ops(self):
        ops = [("get", n, how) for n in self.names + ("active", None) for how in ("queue", "class")]
        ops += [("call",)]
        for n in self.model:
            ops += [("readonly", n, not self.model[n]["ro"]), ("empty", n), ("push", n)]
        return ops

    def create(self, name):
        self.model[name] = dict(cmds=[], ro=False, q=None)
        self.active = name

    def resolve(self, name):
        if name in ("active", None):
            if self.active is None:
                self.create("default")
            return self.active
        if name not in self.model:
            self.create(name)
        return name

    def do(self, op):
        k = op[0]
        if k == "get":
            q = gsp.io.queue(op[1]) if op[2] == "queue" else CommandQueue(op[1])
            name = self.resolve(op[1])
            m = self.model[name]
            if m["q"] is None:
                m["q"] = q
            expect(q is m["q"], "asking for queue %r gives another queue than before", op[1])
            expect(q.name == name, "queue %r is named %r", op[1], q.name)
        elif k == "call":
            self.n += 1
            name = self.resolve("active")
            self.node.put(self.n)
            if not self.model[name]["ro"]:
                self.model[name]["cmds"].append(self.n)
        elif k == "readonly":
            self.q(op[1]).readonly = op[2]
            self.model[op[1]]["ro"] = op[2]
        elif k == "empty":
            r = self.q(op[1]).empty()
            expect(r is self.q(op[1]), "emptying returned another queue")
            self.model[op[1]]["cmds"] = []
        elif k == "push":
            self.n += 1
            ok = self.q(op[1]).push(Command("Node", "put", {"id": 1, "value": self.n}))
            expect(bool(ok) == (not self.model[op[1]]["ro"]), "push returned %r", ok)
            if not self.model[op[1]]["ro"]:
                self.model[op[1]]["cmds"].append(self.n)
        self.verify(op)

    def q(self, name):
        m = self.model[name]
        if m["q"] is None:
            m["q"] = gsp.io.queue(name)
        return m["q"]

    def verify(self, op):
        qs = [self.q(n) for n in self.model]
        expect(len(set(map(id, qs))) == len(qs), "two names share a queue")
        for n, m in self.model.items():
            q = self.q(n)
            got = [c.parameters["value"] for c in q.commands]
            expect(got == m["cmds"], "after %r queue %s holds %r instead of %r", op, n, got, m["cmds"])
            expect(len(q) == len(got) and [q[i] for i in range(len(q))] == list(q.commands), "length/items of queue %s", n)
            expect(bool(q.readonly) == m["ro"], "queue %s read-only: %r", n, q.readonly)
        if self.active is not None:
            expect(gsp.io.queue("active") is self.q(self.active), "after %r the active queue is %r, not %r",
                   op, gsp.io.queue("active").name, self.active)

    def key(self):
        return (self.active, [(n, len(m["cmds"]), m["ro"]) for n, m in self.model.items()])


class Odd(Queues):
    """Names that are empty, or that look like something else."""
    names = ("", "a", "ACTIVE")


def named(case):
    """Two queues of other names are other queues, whatever the names."""
    a, b = case
    qa = gsp.io.queue(a)
    o = Node(1)
    qb = gsp.io.queue(b)
    expect(qa is not qb, "queues %r and %r are the same", a, b)
    expect(qa.name == a and qb.name == b, "queues %r and %r are named %r and %r", a, b, qa.name, qb.name)
    o.put(2)
    for how in (gsp.io.queue, CommandQueue):
        expect(how(a) is qa and how(b) is qb, "asking for %r and %r again gives other queues", a, b)
        expect(how("active") is qb and how(None) is qb, "the active queue is not the latest created")
    expect([len(qa), len(qb)] == [1, 1], "queues hold %d and %d commands", len(qa), len(qb))
    return case


ODD = ("active2", "activated", "active ", " active", "inactive", "none", "default2", "defaul", "", " ", "a", "A", "a ", "0", "None", "Active", "ACTIVE", "default", "Default", "id", "name", "é", "x" * 300, "a/b", "a\nb")


def explicit(case):
    """Dump/save/load use exactly the queue they are given."""
    fmt, what, n_given, n_active, by = case
    from gsp.io import json, ansi, text
    mod = {"json": json, "ansi": ansi, "text": text}[fmt]
    world.reset()
    given = world.fresh_queue()
    node = Node(0)
    given.empty()
    for i in range(n_given):
        node.put(100 + i)
    active = world.fresh_queue()
    for i in range(n_active):
        node.put(200 + i)
    vg, va = world.view(given), world.view(active)
    used = {"given": given, "active": active, "none": active}[by]
    want = [100 + i for i in range(n_given)] if used is given else [200 + i for i in range(n_active)]
    args = () if by == "none" else (used,)

    def values(txt):
        if fmt == "json":
            d = js.loads(txt)
            return [c["parameters"]["value"] for c in d["commands"]]
        import re
        txt = re.sub(r"\x1b\[[0-9;]*m", "", txt)
        return [int(x) for x in re.findall(r"VALUE: (\d+)", txt)]

    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "f.json")
        if what == "dump":
            got = values(mod.dump(*args))
        elif what == "dumpfile":
            mod.dump(used if by != "none" else None, path)
            got = values(open(path).read())
        elif what == "save":
            if fmt == "json":
                mod.save(path, *args)
            else:
                mod.save(used, path)
            got = values(open(path).read())
        elif what == "gspsave":
            gsp.save(path)
            got = values(open(path).read())
        elif what == "load":
            src = gsp.io.queue("verif-src")
            src.empty()
            for i in range(3):
                src.push(Command("Node", "put", {"id": 1, "value": 300 + i}))
            json.save(path, src)
            # creating the source queue made it active: make `active` the active one again
            CommandQueue.active = active
            r = json.load(path, *args)
            expect(r is used, "load returned another queue")
            got = [c.parameters["value"] for c in used.commands]
            want = [300, 301, 302]
        else:
            raise AssertionError(what)
    expect(got == want, "%s of %s by %s used %r instead of %r", what, fmt, by, got, want)
    if what != "load":
        expect(world.view(given) == vg and world.view(active) == va, "a queue was changed")
    else:
        other = active if used is given else given
        expect(world.view(other) == (va if used is given else vg), "another queue was changed")
    return (fmt, what, by, len(got))


def check(run):
    depth = run.q(4, 5)
    run.bounds["histories"] = "all histories of <= %d queue operations over names a, b, default, active, None, in a new process each (so the implicit first queue is covered)" % depth
    run.explore("histories", Queues, depth, max_states=run.q(3000, 20000))
    run.explore("odd-names", Odd, run.q(3, 4), max_states=run.q(3000, 20000))
    run.bounds["names"] = "all ordered pairs of %d names, in a new process each" % len(ODD)
    run.cases("names", list(itertools.permutations(ODD, 2)), named, isolate=True)
    cases = []
    for fmt in ("json", "ansi", "text"):
        for what in ("dump", "dumpfile", "save", "load", "gspsave"):
            if what in ("load", "gspsave") and fmt != "json":
                continue
            for by in ("given", "active", "none"):
                if what == "gspsave" and by != "none" or (what == "save" and fmt != "json" and by == "none"):
                    continue
                for ng, na in itertools.product(range(3), repeat=2):
                    cases.append((fmt, what, ng, na, by))
    run.cases("explicit-queue", cases, explicit)
