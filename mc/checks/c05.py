"""C05: a failing run, save or load leaves the session and the file as they were."""
import copy, itertools, json, os, shutil, tempfile, types
import gsp
from gsp.object import Object
from gsp.io.command import Command, CommandQueue, command
from gsp.io.convert import Converter
from mc import world
from mc.core import System, expect
from mc.world import Node, Deep, Bare, CALLS


class Stop(BaseException):
    """An interruption (not an Exception)."""


class Halting(Object):
    @command()
    def __init__(self):
        Object.__init__(self)

    @command()
    def halt(self, value: int):
        raise Stop()


def good_module():
    m = types.ModuleType("good_backend")
    m.Node, m.Deep, m.Bare, m.Halting = Node, Deep, Bare, Halting
    return m


class Session:
    """Everything a failure must leave alone."""
    def __init__(self, queues):
        self.queues = queues
        self.active = gsp.io.queue("active")
        self.state = [(q.name, world.view(q), world.identities(q), q.readonly) for q in queues]
        self.rec = Object.record
        self.registry = {int(k): id(v) for k, v in Object.objects.items()}

    def verify(self, what, registry=True):
        expect(gsp.io.queue("active") is self.active, "%s: another queue is active", what)
        for q, (name, view, ids, ro) in zip(self.queues, self.state):
            expect(world.view(q) == view and world.identities(q) == ids,
                   "%s: queue %s holds %r instead of %r", what, name, world.view(q), view)
            expect(q.readonly == ro, "%s: queue %s is%s read-only", what, name, "" if q.readonly else " no longer")
        expect(Object.record == self.rec, "%s: object registration switched", what)
        if registry:
            now = {int(k): id(v) for k, v in Object.objects.items()}
            expect(now == self.registry, "%s: registered objects changed from %r to %r", what,
                   sorted(self.registry), sorted(now))

    def verify_recording(self, what, on=True):
        """Recording works as before."""
        q = self.active
        n = len(q)
        before = world.view(q)
        o = Bare()
        n1 = len(q)
        want = n + (1 if on and not q.readonly else 0)
        expect(n1 == want, "%s: a new object is recorded %d times instead of %d", what, n1 - n, want - n)
        expect(world.view(q)[:n] == before, "%s: recording changed earlier commands", what)
        if n1 > n:
            expect(q[n].classname == "Bare" and int(q[n].parameters["id"]) == int(o.id), "%s: recorded %s", what, q[n])
            q.commands.pop()


# ---------------------------------------------------------------- failing runs
def bad_converter(x):
    raise RuntimeError("conversion fails")


def failing_command(kind, oid):
    C = Command
    if kind == "missing class":
        return C("Nowhere", "__init__", {"id": 900001})
    if kind == "missing dotted class":
        return C("Nowhere", "core.Nowhere", {"id": 900001})
    if kind == "missing method":
        return C("Node", "nothing", {"id": oid})
    if kind == "unknown object":
        return C("Node", "put", {"id": 900002, "value": 1})
    if kind == "unknown reference":
        return C("Node", "link", {"id": oid, "ref(id)": 900003})
    if kind == "unknown parameter":
        return C("Node", "put", {"id": oid, "value": 1, "nothing": 2})
    if kind == "missing parameter":
        return C("Node", "__init__", {"id": 900001})
    if kind == "wrong type":
        return C("Node", "put", {"id": oid, "value": "text"})
    if kind == "raising method":
        return C("Node", "fail", {"id": oid, "value": 1})
    if kind == "interrupt":
        return C("Halting", "halt", {"id": oid, "value": 1})
    if kind == "failing conversion":
        return C("Node", "put", {"id": oid, "value": Converter(bad_converter, 1)})


KINDS = ("missing class", "missing dotted class", "missing method", "unknown object", "unknown reference",
         "unknown parameter", "missing parameter", "wrong type", "raising method", "interrupt", "failing conversion")


def run_failure(case):
    kind, pos, n, readonly, active, rec, then = case
    q = world.reset()
    h = Halting()
    a = Node(1)
    cmds = [a]
    for k in range(n):
        a.put(k)
    oid = int(h.id) if kind == "interrupt" else int(a.id)
    q.commands.insert(2 + pos, failing_command(kind, oid))
    others = []
    if active == "other":
        others = [world.fresh_queue()]
        Bare()
    q.readonly = readonly
    gsp.io.record(rec)
    try:
        s = Session([q] + others)
        for attempt in range(2):
            try:
                q.run(good_module())
            except Stop:
                expect(kind == "interrupt", "interrupted")
            except Exception as e:
                expect(kind != "interrupt", "the interruption became %r", e)
            else:
                # without recording, the arguments of the operations are not checked
                expect(kind == "wrong type" and not rec, "a run with a command that cannot be executed (%s) succeeded", kind)
            if active == "other" and rec:
                # what is replayed may be recorded by the other queue, which is writable
                o = others[0]
                s.state[1] = (o.name, world.view(o), world.identities(o), o.readonly)
            s.verify("after a failing run (%s)" % kind, registry=False)
            if then == "once":
                break
        s.verify_recording("after a failing run (%s)" % kind, rec)
        # the repaired queue runs
        del q.commands[2 + pos]
        Object.objects = {}
        q.run(good_module())
        expect(set(map(int, Object.objects)) == {int(h.id), int(a.id)}, "the repaired queue rebuilds %r", sorted(Object.objects))
        expect([e[1] for e in Object.objects[int(a.id)].log] == list(range(n)), "the repaired queue replays %r", Object.objects[int(a.id)].log)
        expect(q.readonly == readonly, "writability after the repaired run")
    finally:
        gsp.io.record(True)
    return (kind, pos, rec)


# ---------------------------------------------------------------- failing saves
class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="gspverif")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def unserialisable(kind):
    if kind == "object":
        return object()
    if kind == "set":
        return {1, 2}
    if kind == "complex":
        return 1j
    if kind == "nested":
        return [1, [2, {"a": object()}]]
    if kind == "circular":
        x = []
        x.append(x)
        return x
    if kind == "tuple key":
        return {(1, 2): 3}
    if kind == "function":
        return Converter(bad_converter, 1)


BADVALUES = ("object", "set", "complex", "nested", "circular", "tuple key", "function")


def try_save(api, path, q):
    from gsp.io import json as gjson
    if api == "save":
        gsp.save(path)
    elif api == "save format":
        gsp.save(path, format="json")
    elif api == "json.save":
        gjson.save(path, q)
    elif api == "json.dump":
        gjson.dump(q, path)
    elif api == "json.save active":
        gjson.save(path)


SAVES = ("save", "save format", "json.save", "json.dump", "json.save active")


def save_failure(case):
    kind, pos, n, api, existing = case
    with Scratch() as d:
        q = world.reset()
        a = Node(1)
        for k in range(n):
            a.put(k)
        path = os.path.join(d, "scene.json" if api != "save format" else "scene.data")
        if existing == "saved":
            try_save(api, path, q)
        elif existing == "other":
            with open(path, "wb") as f:
                f.write(b"\x00precious\xff" * 50)
        before = open(path, "rb").read() if existing != "none" else None
        q.commands.insert(pos, Command("Node", "put", {"id": int(a.id), "value": unserialisable(kind)}))
        view = q.commands.copy()
        ro, reg = q.readonly, dict(Object.objects)
        try:
            try_save(api, path, q)
        except Exception:
            pass
        else:
            expect(False, "a value that cannot be saved (%s) was saved", kind)
        if before is not None:
            after = open(path, "rb").read() if os.path.exists(path) else None
            expect(after == before, "the file at that place changed from %d to %s bytes", len(before),
                   None if after is None else len(after))
        expect([id(c) for c in q.commands] == [id(c) for c in view], "the failing save changed the queue")
        expect(q.readonly == ro and Object.objects == reg, "the failing save changed the session")
        q.commands.pop(pos)
        Session([q]).verify_recording("after a failing save")
        try_save(api, path, q)
        doc = json.load(open(path))
        expect(len(doc["commands"]) == len(q), "the next save holds %d commands", len(doc["commands"]))
    return (kind, api, existing)


def save_write_failure(case):
    """The system refuses to write beyond a given byte (as when the disk is full)."""
    import resource, signal
    limit, api, first = case
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    with Scratch() as d:
        q = world.reset()
        a = Node(1)
        path = os.path.join(d, "scene.json" if api != "save format" else "scene.data")
        if first == "saved":
            try_save(api, path, q)
        else:
            with open(path, "wb") as f:
                f.write(b"precious" * 200)
        before = open(path, "rb").read()
        for k in range(3):
            a.put(k)
        s = Session([q])
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            try_save(api, path, q)
            failed = False
        except OSError:
            failed = True
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        if failed:
            after = open(path, "rb").read() if os.path.exists(path) else None
            expect(after == before, "the save failed and the file at that place changed from %d to %s bytes",
                   len(before), None if after is None else len(after))
        else:
            expect(len(json.load(open(path))["commands"]) == len(q), "the save ended without writing the queue")
        s.verify("after a save")
        s.verify_recording("after a save")
        try_save(api, path, q)
        expect(len(json.load(open(path))["commands"]) == len(q), "the next save holds another queue")
    return failed


def save_place(case):
    """The place cannot be written, or the format is unknown."""
    kind, = case
    with Scratch() as d:
        q = world.reset()
        Node(1).put(2)
        s = Session([q])
        path, fmt = {"no directory": (os.path.join(d, "missing", "scene.json"), None),
                     "directory": (d, "json"),
                     "unknown format": (os.path.join(d, "scene.xyz"), None),
                     "no format": (os.path.join(d, "scene"), None),
                     "unknown given format": (os.path.join(d, "scene.json"), "xyz")}[kind]
        before = None
        if "format" in kind:
            before = b"precious"
            with open(path, "wb") as f:
                f.write(before)
        try:
            gsp.save(path, fmt) if fmt else gsp.save(path)
        except Exception:
            pass
        else:
            expect(False, "saving to %s succeeded", kind)
        if before:
            expect(open(path, "rb").read() == before, "the file changed")
        s.verify("after a failing save")
        s.verify_recording("after a failing save")
    return kind


# ---------------------------------------------------------------- failing loads
def document():
    q = world.reset()
    a = Node(1)
    b = Deep(2, "é", a)
    b.link(a)
    from gsp.io import json as gjson
    return json.loads(gjson.dump(q))


def nodes(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from nodes(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from nodes(x[i], path + (i,))


def damage(doc, path, how):
    doc = copy.deepcopy(doc)
    if not path:
        return {"delete": None, "null": None, "number": 3, "text": "x", "list": [], "object": {}}[how]
    p = doc
    for k in path[:-1]:
        p = p[k]
    if how == "delete":
        del p[path[-1]]
    else:
        p[path[-1]] = {"null": None, "number": 3, "text": "x", "list": [], "object": {}}[how]
    return doc


def try_load(api, path, q):
    from gsp.io import json as gjson
    if api == "load":
        return gsp.load(path)
    if api == "load format":
        return gsp.load(path, format="json")
    if api == "json.load":
        return gjson.load(path, q)
    return gjson.load(path)


def load_failure(content, must_fail, case, path_kind="file", api="load"):
    with Scratch() as d:
        q = world.reset()
        a = Node(1)
        a.put(2, a)
        path = os.path.join(d, "scene.json" if api != "load format" else "scene.data")
        if content is not None:
            with open(path, "wb") as f:
                f.write(content)
        elif path_kind == "directory":
            os.mkdir(path)
        elif path_kind == "unknown format":
            path = os.path.join(d, "scene.xyz")
            with open(path, "wb") as f:
                f.write(json.dumps(document()).encode())
            q = world.reset()
            a = Node(1)
        s = Session([q])
        try:
            try_load(api, path, q)
        except Exception as e:
            out = type(e).__name__
        else:
            expect(not must_fail, "loading a damaged file succeeded")
            return "loaded"
        s.verify("after a failing load (%s)" % out)
        s.verify_recording("after a failing load")
        expect(Object.objects[int(a.id)] is a, "the registered object is lost")
        # the session goes on: it still replays
        Object.objects = {}
        q.run(good_module())
        expect(int(a.id) in map(int, Object.objects), "the queue no longer replays")
        return out


def truncated(case):
    text, n, api = case
    full = TEXTS[text]
    if n > len(full):
        return "beyond"
    return load_failure(full[:n], True, case, api=api)


def structural(case):
    path, how, api = case
    d = damage(DOC, tuple(path), how)
    parts = tuple(path)
    # without its list of commands, a method or parameters a file holds no command queue
    essential = (len(parts) == 0 or parts == ("commands",) or
                 (len(parts) == 3 and parts[2] in ("method", "parameters")) or
                 (len(parts) == 2 and parts[0] == "commands" and how != "delete"))
    essential = essential and not (parts == ("commands",) and how in ("list", "object", "text")) and \
        not (len(parts) == 3 and parts[2] == "method" and how in ("text",)) and \
        not (len(parts) == 3 and parts[2] == "parameters" and how == "text")
    return load_failure(json.dumps(d).encode(), essential, case, api=api)


def own_session(kind):
    """A session of the package's own classes, or of the harness', and what must be registered."""
    q = world.reset()
    if kind == "nodes":
        a = Node(1)
        b = Deep(2, "t", a)
        b.link(a)
        return q, [a, b]
    import numpy as np
    from gsp import core, transform
    c = core.Canvas(100, 100, 100.0)
    v = core.Viewport(c, 0, 0, 0.5, 0.5, (1.0, 1.0, 1.0, 1.0))
    b = core.Buffer(2, np.dtype(np.float32), None)
    b.set_data(0, b"\0\1\2\3")
    x, y = transform.X(), transform.Y()
    return q, [c, v, b, x, y, x + y]


def own_failure(case):
    """A damaged file that holds this very session (so it names the objects that are registered)."""
    kind, how, where, api, twice = case
    from gsp.io import json as gjson
    q, objs = own_session(kind)
    doc = json.loads(gjson.dump(q))
    n = len(doc["commands"])
    if how == "cut":
        text = json.dumps(doc).encode()
        text = text[:min(len(text) * (where + 1) // 14, len(text) - 1)]
    else:
        if where >= n:
            return "beyond"
        if how == "null":
            doc["commands"][where] = None
        elif how == "no method":
            doc["commands"][where].pop("method")
        elif how == "no parameters":
            doc["commands"][where].pop("parameters")
        elif how == "listed parameters":
            doc["commands"][where]["parameters"] = None
        elif how == "numbered method":
            doc["commands"][where]["method"] = 3
        text = json.dumps(doc).encode()
    with Scratch() as d:
        path = os.path.join(d, "scene.json" if api != "load format" else "scene.data")
        with open(path, "wb") as f:
            f.write(text)
        s = Session([q])
        for attempt in range(2 if twice else 1):
            try:
                try_load(api, path, q)
            except Exception as e:
                out = type(e).__name__
            else:
                expect(False, "loading a damaged file succeeded")
            s.verify("after a failing load of the session's own file (%s)" % out)
        for o in objs:
            # a transform may be named by several objects, a registered one is never lost
            expect(Object.objects.get(o.id) is o, "the %s registered as %r is lost by a failing load", type(o).__name__, o.id)
        s.verify_recording("after a failing load")
    return out


def absent(case):
    kind, api = case
    return load_failure(None, True, case, kind, api)


DOC = None
TEXTS = {}


# ---------------------------------------------------------------- histories of failures
class Failures(System):
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="gspverif")
        self.path = os.path.join(self.d, "scene.json")
        self.q = world.reset()
        self.node = Node(0)
        self.exp = world.view(self.q)
        self.saved = None
        self.n = 0
        self.bad = None

    def ops(self):
        ops = [("put",), ("save",), ("savebad",), ("runbad",), ("loadcut",), ("loadmissing",), ("run",), ("readonly",),
               ("runinterrupt",)]
        if self.saved is not None:
            ops.append(("load",))
        return ops

    def do(self, op):
        k = op[0]
        q = self.q
        self.n += 1
        if k == "put":
            n = Object.objects.get(int(self.node.id))
            n.put(self.n)
            if not q.readonly:
                self.exp.append(("Node", "put", int(n.id), {"value": ("int", self.n), "ref": ("NoneType", "None")}))
        elif k == "readonly":
            q.readonly = not q.readonly
        elif k == "save":
            gsp.save(self.path)
            self.saved = list(self.exp)
        elif k == "savebad":
            q.commands.append(Command("Node", "put", {"id": 1, "value": object()}))
            try:
                gsp.save(self.path)
            except TypeError:
                pass
            else:
                expect(False, "saved")
            q.commands.pop()
        elif k in ("runbad", "runinterrupt"):
            q.commands.insert(1, failing_command("missing class", 1) if k == "runbad" else
                              Command("Node", "put", {"id": int(self.node.id), "value": Converter(_stop, 1)}))
            ro = q.readonly
            try:
                q.run(good_module())
            except (Exception, Stop):
                pass
            else:
                expect(False, "ran")
            del q.commands[1]
            expect(q.readonly == ro, "writability after a failing run")
        elif k == "loadcut":
            p = os.path.join(self.d, "cut.json")
            with open(p, "wb") as f:
                f.write(TEXTS["plain"][:-2])
            self.failing_load(p)
        elif k == "loadmissing":
            self.failing_load(os.path.join(self.d, "missing.json"))
        elif k == "run":
            Object.objects = {}
            ro = q.readonly
            q.run(good_module())
            expect(q.readonly == ro, "writability after a run")
            self.node = Object.objects[int(self.node.id)]
            puts = [c for c in self.exp if c[1] == "put"]
            expect(len(self.node.log) == len(puts), "replayed %d calls of %d", len(self.node.log), len(puts))
        elif k == "load":
            if q.readonly:
                q.readonly = False
            gsp.load(self.path)
            self.exp = list(self.saved)
            expect(not Object.objects, "registered objects after a load")
            q.run(good_module())
            self.node = Object.objects[int(self.node.id)]
        expect(world.view(q) == self.exp, "after %r the queue holds\n %r\ninstead of\n %r", op, world.view(q), self.exp)
        expect(gsp.io.queue("active") is q, "another queue is active")
        if self.saved is not None:
            doc = json.load(open(self.path))
            got = [(c["method"], c["parameters"].get("value")) for c in doc["commands"]]
            want = [("%s/%s" % (c[0], c[1]), int(c[3]["value"][1])) for c in self.saved]
            expect(got == want, "the saved file holds %r instead of %r", got, want)
        else:
            expect(k == "save" or not os.path.exists(self.path) or self.saved is None, "file")

    def failing_load(self, p):
        reg = dict(Object.objects)
        try:
            gsp.load(p)
        except Exception:
            pass
        else:
            expect(False, "loaded")
        expect(set(Object.objects) == set(reg) and all(Object.objects[i] is reg[i] for i in reg), "registered objects after a failing load")

    def key(self):
        return (self.q.readonly, len(self.exp), None if self.saved is None else len(self.saved), len(self.node.log))

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def _stop(x):
    raise Stop()


def check(run):
    global DOC
    DOC = document()
    TEXTS["plain"] = json.dumps(DOC, ensure_ascii=False).encode()
    TEXTS["indent"] = json.dumps(DOC, indent=2).encode()
    n = run.q(2, 5)
    cases = [(k, p, n, ro, act, rec, then) for k in KINDS for p in range(n + 1) for ro in (False, True)
             for act in ("same", "other") for rec in (True, False) for then in ("once", "twice")]
    run.bounds["runs"] = "every kind of failing command at every position of a %d-command queue" % (n + 2)
    run.cases("failing-runs", cases, run_failure)
    cases = [(k, p, n, api, ex) for k in BADVALUES for p in range(n + 2) for api in SAVES for ex in ("saved", "other", "none")]
    run.bounds["saves"] = "every unserialisable value at every position of a %d-command queue, over an earlier save, another file, no file" % (n + 1)
    run.cases("failing-saves", cases, save_failure)
    cases = [(i, api, first) for i in range(0, 900, run.q(20, 1)) for api in SAVES for first in ("saved", "other")]
    run.bounds["writes"] = "a save whose writing is refused beyond every byte (quick: every 20th)"
    run.cases("refused-writes", cases, save_write_failure, isolate=True)
    run.cases("unwritable-places", [(k,) for k in ("no directory", "directory", "unknown format", "no format", "unknown given format")], save_place)
    apis = ("load", "json.load") if not run.thorough else ("load", "load format", "json.load", "json.load active")
    cases = [(t, i, api) for t in (("plain", "indent") if run.thorough else ("plain",)) for i in range(len(TEXTS[t])) for api in apis]
    run.bounds["truncations"] = "a saved file cut at every byte"
    run.cases("truncated-files", cases, truncated)
    cases = [(list(p), how, api) for p in nodes(DOC) for how in ("delete", "null", "number", "text", "list", "object") for api in apis
             if p or how != "delete"]
    run.bounds["structure"] = "a saved file with every node of its document deleted or replaced by every other kind of value"
    run.cases("damaged-files", cases, structural)
    run.bounds["own files"] = "the session's own file (its objects are registered under the identifiers the file names), damaged in 5 ways at every command or cut at as many places"
    run.cases("own-files", [(k, how, w, api, twice) for k in ("nodes", "core") for how in ("cut", "null", "no method", "no parameters", "listed parameters", "numbered method")
                            for w in range(13) for api in ("load", "load format", "json.load", "json.load active") for twice in (False, True)], own_failure)
    run.cases("absent-files", [(k, api) for k in ("missing", "directory") for api in ("load", "load format", "json.load", "json.load active")] +
              [("unknown format", "load")], absent)
    d = run.q(6, 10)
    run.bounds["histories"] = "all histories of <= %d recordings, saves, loads, runs and failing saves, loads, runs" % d
    run.explore("histories", Failures, d, max_states=200000)
