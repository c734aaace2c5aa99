"""C10: textual dumps list every command with its object and parameters."""
import contextlib, io, itertools, json, os, re, shutil, tempfile
import gsp
from gsp.object import Object
from gsp.io.command import Command
from gsp.io.convert import Converter
from mc import names, world
from mc.core import System, expect
from mc.world import Node, Deep, Bare
from mc.checks.c06 import Val, Dot, Dot2, values, op_name

ESC = re.compile(r"\x1b\[[0-9;]*m")


def dumpers():
    from gsp.io import ansi, text
    return {"ansi": ansi, "text": text}


def shown(v):
    """The texts a parameter value may be shown as."""
    if isinstance(v, Converter):
        v = v()
        if isinstance(v, Object):
            return [str(v.id)]
    return [str(v)]


def entries(s):
    """A dump cut into entries at the lines starting a command."""
    heads = [m.start() for m in re.finditer(r"(?m)^\d+\. COMMAND$", s)]
    expect(not s[:heads[0] if heads else len(s)].strip(), "text before the first entry: %r", s[:80])
    return [s[a:b] for a, b in zip(heads, heads[1:] + [len(s)])]


def fields(entry, name):
    """The texts of the lines of that name (a parameter may be named as the fields of the entry are)."""
    ms = list(re.finditer(r"(?m)^\s*- %s: " % re.escape(name), entry))
    expect(ms, "no %s in the entry\n%s", name, entry)
    return [entry[m.end():] for m in ms]


def field(entry, name):
    return fields(entry, name)[0]


def verify(q, style, how="dump"):
    mod = dumpers()[style]
    before, ids = world.view(q), world.identities(q)
    keys = [list(c.parameters) for c in q.commands]
    if how == "active":
        s = mod.dump()
    elif how == "file":
        d = tempfile.mkdtemp(prefix="gspverif")
        try:
            p = os.path.join(d, "dump.txt")
            mod.dump(q, p)
            s = open(p).read()
            mod.save(q, p)
            expect(open(p).read() == s, "save and dump write different files")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    elif how == "command":
        s = ""
        for c in q.commands:
            out = io.StringIO()
            t = mod.dump_command(c, stream=None)
            with contextlib.redirect_stdout(out):
                mod.dump_command(c, stream=__import__("sys").stdout)
            expect(out.getvalue().strip() == t.strip(), "a command is printed as another text than it is returned")
            s += t + "\n"
    else:
        s = mod.dump(q)
    expect(isinstance(s, str), "dump gives %r", type(s))
    expect(world.view(q) == before and world.identities(q) == ids and keys == [list(c.parameters) for c in q.commands],
           "dumping changed the queue")
    if style == "text":
        expect("\x1b" not in s.replace("\x1b", "", 0) or any("\x1b" in str(v) for c in q.commands for v in c.parameters.values()),
               "escape sequences in the plain text")
    s = ESC.sub("", s)
    es = entries(s)
    expect(len(es) == len(q), "%d entries for %d commands", len(es), len(q))
    out = []
    for c, e in zip(q.commands, es):
        expect(e.startswith("%d. COMMAND" % int(c.id)), "entry %r for command %d", e[:30], int(c.id))
        expect(field(e, "METHOD").startswith('"%s"' % op_name(c)), "operation %r instead of %r", field(e, "METHOD")[:40], op_name(c))
        expect(re.match(r"%d\b" % int(c.id), field(e, "COMMAND_ID")), "identifier %r", field(e, "COMMAND_ID")[:20])
        expect(re.match(r"%d\b" % int(c.parameters["id"]), field(e, "OBJECT_ID")), "object identifier %r", field(e, "OBJECT_ID")[:20])
        pos = -1
        row = []
        for k, v in c.parameters.items():
            if k == "id":
                continue
            name = k[:-4].upper() + "_ID" if k.endswith("(id)") else k.upper()
            # a converted object is shown by its identifier
            texts = fields(e, name)
            ok = [t for t in shown(v) for text in texts if text.startswith(t) and (text[len(t):len(t) + 1] in (" ", "\n"))]
            expect(ok, "parameter %s shown as %r instead of %r", k, texts[-1][:60], shown(v)[0][:60])
            row.append((name, ok[0]))
        n = len(re.findall(r"(?m)^\s*- ", e)) - 4
        # (values are multi-line texts only in the queues that say so)
        expect(n >= len(row), "%d parameters shown instead of %d", n, len(row))
        if not any("\n" in t for _, t in row):
            expect(n == len(row), "%d parameters shown instead of %d:\n%s", n, len(row), e)
        out.append((op_name(c), row))
    return out


def one_value(case):
    label, place, style, how = case
    q = world.reset()
    ref = Val()
    if place != "method":
        q.empty()
    v, _ = values(ref)[label]
    if place == "init":
        Val(v)
    elif place == "default":
        Val(third=v)
    elif place == "dotted":
        Dot(v)
    elif place == "typed":
        ref.typed(b"\x01", (1, 0, 0, 1), "<f4::1", ref)
        ref.put(v)
    elif place == "method":
        ref.put(v)
        ref.nothing()
    elif place == "named":
        ref.two(1, second=v)
        Dot2(v, ref)
    r = verify(q, style, how)
    return (label, place, len(r))


def loaded(case):
    """Loaded commands are dumped as the recorded ones were (parameters in their saved form)."""
    a, b, style = case
    from gsp.io import json as gjson
    q = world.reset()
    ref = Val()
    va, vb = values(ref)[a][0], values(ref)[b][0]
    Dot2(va, ref)
    ref.two(vb, va)
    Val(vb)
    d = tempfile.mkdtemp(prefix="gspverif")
    try:
        p = os.path.join(d, "q.json")
        first = verify(q, style)
        gjson.save(p, q)
        q2 = gjson.load(p, world.fresh_queue())
        second = verify(q2, style)
        third = verify(gjson.load(p, world.fresh_queue()), style, "file")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    expect(second == third, "the same file is dumped as %r and %r", second, third)
    expect(len(first) == len(second), "%d entries recorded, %d loaded", len(first), len(second))
    if "object" in a + b and "converted" in a + b:
        return (a, b)                              # the parameter is then a reference
    for (o1, r1), (o2, r2) in zip(first, second):
        expect(o1 == o2 and [n for n, _ in r1] == [n for n, _ in r2], "%s%r dumped after a load as %s%r", o1, r1, o2, r2)
    if a in SAME and b in SAME:
        expect(first == second, "dumped as %r once loaded instead of %r", second, first)
    return (a, b)


SAME = ("int", "negative", "zero", "big", "float", "true", "false", "null", "text", "unicode", "list", "nested", "empty list",
        "dict", "object", "integral float", "number like", "id like")


class Dumps(System):
    """Queues of every shape: recorded, loaded, emptied, extended."""
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="gspverif")
        self.q = world.reset()
        self.objs = []
        self.n = 0
        self.saved = False
        self.shape = []

    def ops(self):
        ops = []
        if len(self.objs) < 2:
            ops += [("new", "Node"), ("new", "Deep"), ("new", "Dot2")]
        for i in range(len(self.objs)):
            ops += [("put", i)]
        ops += [("empty",), ("save",)]
        if len(self.q):
            ops.append(("again",))
        if self.saved:
            ops.append(("load",))
        return ops

    def do(self, op):
        k = op[0]
        self.n += 1
        if k == "new":
            last = self.objs[-1] if self.objs else None
            o = {"Node": lambda: Node(self.n, ref=last), "Deep": lambda: Deep(self.n, "l", last), "Dot2": lambda: Dot2(self.n, last)}[op[1]]()
            self.objs.append(o)
            self.shape.append((op[1], last is not None))
        elif k == "put":
            o = self.objs[op[1]]
            if isinstance(o, Dot2):
                return
            o.put(self.n, self.objs[0])
            self.shape.append(("put", op[1]))
        elif k == "again":
            # a command recorded before, once more: identifiers are not in order
            self.q.push(self.q[0])
            self.shape.append("again")
        elif k == "empty":
            self.q.empty()
            self.shape = []
        elif k == "save":
            gsp.save(os.path.join(self.d, "f.json"))
            self.saved = list(self.shape)
        elif k == "load":
            gsp.load(os.path.join(self.d, "f.json"))
            self.shape = list(self.saved) + ["loaded"]
        for style in ("ansi", "text"):
            r = [verify(self.q, style, how) for how in ("dump", "active", "file", "command")]
            expect(all(x == r[0] for x in r), "the ways of dumping differ")

    def key(self):
        return (self.shape, self.saved, [type(o).__name__ for o in self.objs])

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def empty(case):
    """An empty queue given explicitly is the one dumped."""
    style, = case
    e = world.reset()
    world.fresh_queue()
    Bare()
    expect(verify(e, style) == [], "an empty queue")
    return verify(gsp.io.queue("active"), style, "active")[0][0]


def named(case):
    """Parameters of any name, recorded or loaded."""
    name, style, how, load = case
    from gsp.io import json as gjson
    q, m, objs, want, logs = names.program(name, "positional")
    if load:
        d = tempfile.mkdtemp(prefix="gspverif")
        try:
            gjson.save(os.path.join(d, "q.json"), q)
            q = gjson.load(os.path.join(d, "q.json"), world.fresh_queue())
        finally:
            shutil.rmtree(d, ignore_errors=True)
    got = verify(q, style, how)
    want = [(f if "." in f else "%s/%s" % (c, f), [(k[:-4].upper() + "_ID" if k.endswith("(id)") else k.upper(), str(v)) for k, v in p.items() if k != "id"]) for c, f, p in want]
    expect(got == want, "dumped as %r instead of %r", got, want)
    return case


def check(run):
    run.bounds["names"] = "operations with parameters of %d names, recorded and loaded" % len(names.NAMES)
    run.cases("names", [(n, s, h, l) for n in names.NAMES for s in ("ansi", "text") for h in ("dump", "active", "file", "command") for l in (False, True)], named)
    world.reset()
    labels = list(values(Bare()))
    places = ("init", "default", "dotted", "method", "named", "typed")
    run.bounds["values"] = "%d parameter values in %d places, in both dumps and %d ways" % (len(labels), len(places), 4)
    run.cases("values", list(itertools.product(labels, places, ("ansi", "text"), ("dump", "active", "file", "command"))), one_value)
    run.cases("loaded", list(itertools.product(labels, labels if run.thorough else labels[::3], ("ansi", "text"))), loaded)
    run.cases("empty", [("ansi",), ("text",)], empty)
    d = run.q(4, 6)
    run.bounds["histories"] = "all histories of <= %d recordings, saves, loads and emptyings, dumped after each" % d
    run.explore("histories", Dumps, d, max_states=run.q(20000, 100000))
