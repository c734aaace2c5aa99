"""C33: array tracking and recording survive every render, including failing ones."""
import itertools
import os
import sys
import numpy as np
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from gsp.core import Buffer, Color, LineCap, LineJoin, LineStyle, Marker
from gsp.io.command import CommandQueue
from gsp.object import Object
from gsp_matplotlib import glm
from mc import arrays, draw, scene, world
from mc.core import System, expect
from mc.scene import visual
from mc.checks import c11
from mc.checks.c32 import C0, KINDS, MATS, P0, RECTS, S0, Data, Scene

BLUE = Color(0, 0, 1, 1)


# ------------------------------------------------------------------ what must survive
def probe():
    """What a few new arrays do: the commands recorded, what the buffers hold, whether they are tracked."""
    q = CommandQueue("active")
    before = len(q)
    a = glm.vec3(2)
    a[...] = 1, 2, 3
    b = glm.vec4(1) + 1
    c = glm.mat4(1)
    c[...] = 3
    d = np.arange(4.0).view(glm.ndarray.tracked)
    d[1:3] = 7
    made = []
    tracked = []
    for x in (a, b, c, d):
        t = x._tracker if hasattr(x, "_tracker") else None
        buf = getattr(t, "gsp_buffer", None)
        tracked.append((type(t).__name__, None if buf is None else np.asarray(buf).tobytes()))
    for c in q.commands[before:]:
        p = dict(c.parameters)
        p.pop("id")
        made.append((c.classname, c.methodname, tuple(sorted((k, len(v) if isinstance(v, (bytes, memoryview)) else repr(world.canon(v))) for k, v in p.items()))))
    del q.commands[before:]
    return tuple(tracked), tuple(made)


class Session:
    """A scene in a session: recording on or off, arrays tracked by buffers, by something else, or not at all."""

    def __init__(self, recorded=True, tracker="buffers", viewports=2):
        world.restart()
        self.s = Scene(viewports)
        self.recorded, self.tracker = recorded, tracker
        self.own = glm.ndarray.tracked.__tracker_class__
        arrays.Mirror.made.clear()
        if tracker == "mirror":
            glm.ndarray.tracked.__tracker_class__ = arrays.Mirror
        elif tracker == "none":
            glm.ndarray.tracked.__tracker_class__ = None
        gsp.io.record(recorded)
        self.before = probe()
        expect(bool(self.before[1]) == (recorded and tracker == "buffers"), "new arrays record %d commands", len(self.before[1]))

    def make(self, kind, data):
        """A visual (the conversion of lists needs the tracker of buffers)."""
        mine, glm.ndarray.tracked.__tracker_class__ = glm.ndarray.tracked.__tracker_class__, STANDARD
        try:
            return KINDS[kind](data)
        finally:
            glm.ndarray.tracked.__tracker_class__ = mine

    def check(self, what, *args):
        what = what % args if args else what
        now = probe()
        for x, y, w in zip(now, self.before, ("tracking of", "commands recorded by")):
            expect(x == y, "%s: the %s arrays created afterwards changed: %s instead of %s", what, w, str(x)[:300], str(y)[:300])

    def commands(self):
        return [(c.classname, c.methodname, int(c.parameters["id"])) for c in CommandQueue("active").commands]

    def close(self):
        glm.ndarray.tracked.__tracker_class__ = self.own
        gsp.io.record(False)
        plt.close("all")


def safely(fn):
    """A case, whatever happens to the session."""
    def run(case):
        own = glm.ndarray.tracked.__tracker_class__
        try:
            return fn(case)
        finally:
            glm.ndarray.tracked.__tracker_class__ = own
            gsp.io.record(False)
            sys.setprofile(None)
            plt.close("all")
    return run


# ------------------------------------------------------------------ failures at any stage
class Injected(Exception):
    pass


HERE = tuple(os.path.join(os.path.dirname(m.__file__), d) + os.sep for m, d in ((gsp, "visual"), (gsp, "transform"), (gsp_matplotlib, "visual")))
AWAY = (os.path.join(os.path.dirname(glm.__file__), "ndarray") + os.sep, os.path.join(os.path.dirname(gsp.__file__), "io") + os.sep)


class Failing:
    """Runs a call of which the n-th operation fails.

    Operations are the calls that the visuals and transforms make (to anything but the array
    bookkeeping itself, to the recording or to helpers of the same module); as if what they called had failed.
    """

    def __init__(self, n, exc):
        self.n, self.exc, self.count, self.fired = n, exc, 0, None

    def event(self, frame, event, arg):
        if event == "call":
            caller = frame.f_back
            name, where = frame.f_code.co_name, frame.f_code.co_filename
            if where.startswith(AWAY) or name.startswith("<") or name in ("__enter__", "__exit__", "inner"):
                return
        elif event == "c_call":
            caller, name, where = frame, arg.__name__, "numpy"
            if not (isinstance(getattr(arg, "__self__", None), np.ndarray) or str(getattr(arg, "__module__", "")).startswith("numpy")):
                return
        else:
            return
        if caller is None or not caller.f_code.co_filename.startswith(HERE):
            return
        if where == caller.f_code.co_filename:      # a part of the same work, which may well be what puts things back
            return
        self.count += 1
        if self.count == self.n:
            self.fired = "%s called by %s" % (name, caller.f_code.co_name)
            sys.setprofile(None)
            raise self.exc("injected failure of " + self.fired)

    def __call__(self, fn, *args):
        sys.setprofile(self.event)
        try:
            fn(*args)
        except BaseException as e:      # noqa
            if not isinstance(e, self.exc):
                raise
            return True
        finally:
            sys.setprofile(None)
        return False


EXCEPTIONS = {"error": Injected, "interrupt": KeyboardInterrupt}


_pictures = {}


def reference(kind, d, mats, rec, size=(120, 80)):
    """What a new visual given the same data draws."""
    k = kind, tuple(a.tobytes() for a in d), tuple(np.asarray(m).tobytes() for m in mats), size
    if k not in _pictures:
        _pictures[k] = picture(kind, d, mats, rec, size)
    return _pictures[k]


def picture(kind, d, mats, rec, size):
    own = glm.ndarray.tracked.__tracker_class__
    gsp.io.record(False)
    glm.ndarray.tracked.__tracker_class__ = STANDARD
    try:
        s = Scene(2, size)
        KINDS[kind](Data(*d)).render(s.viewports[0], *mats)
        return draw.shot(s.fig)
    finally:
        glm.ndarray.tracked.__tracker_class__ = own
        gsp.io.record(rec)


STANDARD = glm.ndarray.tracked.__tracker_class__


def succeeding(case):
    """Renders that succeed: one command each, same tracking afterwards."""
    kind, recorded, tracker = case
    own = Data()         # arrays created before, by buffers
    s = Session(recorded, tracker)
    v = s.make(kind, own)
    for i, (p, m) in enumerate(((0, "identity"), (0, "perspective"), (1, "identity"), (0, None), (1, None))):
        before = s.commands()
        if m is None:
            v.render(s.s.viewports[p])
        else:
            v.render(s.s.viewports[p], *MATS[m])
        new = s.commands()[len(before):]
        want = [(type(v).__name__, "render", int(v.id))] if recorded else []
        expect(new == want, "%s: render %d records %s instead of %s", case, i, new, want)
        s.check("%s: render %d", case, i)
        own.positions[0] += .125
        own.colors[1] = .5
        before = s.commands()
        s.s.canvas.render(None)
        draw.resize(s.s.fig, 120, 80)
        new = [c for c in s.commands()[len(before):] if c[1] != "render"]
        expect(not new, "%s: drawing and resizing record %s", case, new)
        s.check("%s: after drawing and resizing", case)
    return case


def injected(case):
    """A render of which one operation fails, at every operation in turn."""
    kind, recorded, exc, stage = case
    n, fired, places = 0, True, []
    while fired:
        n += 1
        world.restart()
        own = Data()
        s = Session(recorded)
        v = s.make(kind, own)
        target, mats = s.s.viewports[0], MATS["perspective"]
        if stage != "first":
            v.render(target, *MATS["identity"])
        before = s.commands()
        f = Failing(n, EXCEPTIONS[exc])
        if stage == "resize":
            fired = False
            errors = []
            s.s.fig.canvas.callbacks.exception_handler = errors.append
            try:
                f(draw.resize, s.s.fig, 80, 120)
            finally:
                s.s.fig.canvas.callbacks.exception_handler = None
            fired = f.fired is not None
        else:
            fired = f(v.render, target, *mats)
            expect(fired == (f.fired is not None), "%s: failure of %s is not reported", case, f.fired)
        what = "%s, failure %d (%s)" % (case, n, f.fired)
        new = s.commands()[len(before):]
        expect(len(new) <= 1 and all(c == (type(v).__name__, "render", int(v.id)) for c in new) and (recorded or not new), "%s: commands %s are recorded", what, new)
        s.check(what)
        places.append(f.fired)
        # Arrays are still recorded
        before = s.commands()
        own.positions[2] = .125, -.25, .5
        new = s.commands()[len(before):]
        expect([c[:2] for c in new] == ([("Buffer", "set_data")] if recorded else []), "%s: modifying an array then records %s", what, new)
        before = s.commands()
        if stage == "resize":
            draw.resize(s.s.fig, 120, 80)
        v.render(target, *mats)
        new = s.commands()[len(before):]
        expect(not recorded or new[-1:] == [(type(v).__name__, "render", int(v.id))], "%s: the following render records %s", what, new)
        s.check("%s, then a good render", what)
        draw.same_pictures(draw.shot(s.s.fig), reference(kind, own.snapshot(), mats, recorded), "%s: then a good render" % what)
        draw.resize(s.s.fig, 90, 100)
        draw.same_pictures(draw.shot(s.s.fig), reference(kind, own.snapshot(), mats, recorded, (90, 100)), "%s: then a good render and a resize" % what)
        s.close()
    expect(n > 5, "only %d operations found in the render of %s", n - 1, kind)
    return n, tuple(sorted(set(map(str, places))))


def formed(case):
    """Renders of visuals given values in every form: one command each, whatever is computed."""
    kind, name, form, recorded = case
    world.restart()
    s = Session(recorded)
    own = c11.Own()
    v = c11.build(kind, {name: form}, own)
    for i, (p, m) in enumerate(((0, "identity"), (0, "perspective"), (1, "identity"), (1, None))):
        before, count = s.commands(), len(Object.objects)
        v.render(s.s.viewports[p], *MATS[m]) if m else v.render(s.s.viewports[p])
        new = s.commands()[len(before):]
        want = [(type(v).__name__, "render", int(v.id))] if recorded else []
        expect(new == want, "%s: render %d records %s instead of %s", case, i, new, want)
        before = s.commands()
        draw.resize(s.s.fig, 120, 80 + i)
        new = [c for c in s.commands()[len(before):] if c[1] != "render"]
        expect(not new, "%s: resizing after render %d records %s", case, i, new)
    s.check("%s", case)
    s.close()
    return case


# ------------------------------------------------------------------ failures of ordinary causes
def bad(what):
    """Variable and value that cannot be rendered."""
    boom = transform.Accessor(np.zeros((4, 3), np.float32), "x") + transform.Out("nothing")
    return {
        "unknown output": ("fill_colors", transform.Colormap("viridis")(transform.Out("nothing"))),
        "unknown output in widths": ("line_widths", transform.Out("nothing") * 2),
        "colours that are none": ("fill_colors", np.full((4, 7), .5)),
        "border colours that are none": ("line_colors", np.full((3, 9), .5)),
        "positions of another shape": ("positions", np.zeros((4, 7), np.float32)),
        "positions that are text": ("positions", np.array(["a", "b"])),
        "operands of different lengths": ("positions", transform.Accessor(np.zeros((4, 3), np.float32), "xyz") + np.ones((3, 3), np.float32)),
        "an accessor of nothing": ("positions", transform.Accessor(key="xyz")),
        "a component that is not there": ("line_widths", transform.Accessor(np.zeros((4, 2), np.float32), "w")),
        "sum that fails": ("positions", boom),
        "indices that are not there": ("indices", [[0, 1, 2, 99]]),
        "too many items": ("indices", 3),
        "nothing": ("positions", None),
    }[what]


BAD = ("unknown output", "unknown output in widths", "colours that are none", "border colours that are none", "positions of another shape", "positions that are text", "operands of different lengths", "an accessor of nothing", "a component that is not there", "sum that fails", "indices that are not there", "too many items", "nothing")


def ordinary(case):
    """A render that is given something it cannot draw; then something it can."""
    kind, what, recorded, stage = case
    world.restart()
    own = Data()
    s = Session(recorded)
    v = s.make(kind, own)
    name, value = bad(what)
    try:
        good = v.get_variable(name)
    except IndexError:
        s.close()
        return "no such variable"
    target = s.s.viewports[0]
    if stage == "later":
        v.render(target, *MATS["identity"])
    v.set_variable(name, value)
    before = s.commands()
    failed = None
    try:
        v.render(target, *MATS["identity"])
    except Exception as e:      # noqa
        failed = type(e).__name__
    new = s.commands()[len(before):]
    expect(len(new) <= 1 and all(c == (type(v).__name__, "render", int(v.id)) for c in new), "%s: commands %s are recorded", case, new)
    s.check("%s (%s)", case, failed)
    v.set_variable(name, good)
    v.render(target, *MATS["perspective"])
    s.check("%s (%s), then a good render", case, failed)
    draw.same_pictures(draw.shot(s.s.fig), reference(kind, own.snapshot(), MATS["perspective"], recorded), "%s (%s): then a good render" % (case, failed))
    # and another visual of the same kind
    KINDS[kind](own).render(s.s.viewports[1], *MATS["perspective"])
    s.check("%s (%s), then another visual", case, failed)
    s.close()
    return what, failed


# ------------------------------------------------------------------ histories
class Histories(System):
    """Renders that succeed, fail, are interrupted, resizes, in any order, by two visuals."""
    kinds = ("points", "measured paths")
    tracker = "buffers"
    recorded = True

    def __init__(self):
        self.own = [Data() for k in self.kinds]
        self.session = Session(self.recorded, self.tracker)
        self.v = [self.session.make(k, d) for k, d in zip(self.kinds, self.own)]
        self.good = [v.get_variable("fill_colors" if k != "measured paths" else "line_colors") for k, v in zip(self.kinds, self.v)]
        self.names = ["fill_colors" if k != "measured paths" else "line_colors" for k in self.kinds]
        self.hist = []
        self.last = {}

    def ops(self):
        out = []
        for i in range(len(self.v)):
            out += [("render", i, "identity"), ("render", i, "perspective"), ("bad", i), ("fail", i, 3), ("fail", i, 12), ("interrupt", i, 8)]
        return out + [("resize",), ("failing resize",), ("edit", 0)]

    def do(self, op):
        self.hist.append(op)
        s = self.session
        before = s.commands()
        vp = s.s.viewports[0]
        allowed = None
        if op[0] == "render":
            self.v[op[1]].render(vp, *MATS[op[2]])
            self.last[op[1]] = op[2]
            allowed = 1
        elif op[0] == "bad":
            self.v[op[1]].set_variable(self.names[op[1]], transform.Colormap("viridis")(transform.Out("nothing")))
            before = s.commands()
            try:
                self.v[op[1]].render(vp, *MATS["identity"])
                raised = False
            except Exception:      # noqa
                raised = True
            new = s.commands()[len(before):]
            expect(raised and len(new) <= 1 and all(c[1] == "render" for c in new), "%s: render with an unknown variable %s, records %s", self.hist, "fails" if raised else "succeeds", new)
            self.v[op[1]].set_variable(self.names[op[1]], self.good[op[1]])
            before = s.commands()
            allowed = 0
            self.last[op[1]] = None
        elif op[0] in ("fail", "interrupt"):
            Failing(op[2], EXCEPTIONS["error" if op[0] == "fail" else "interrupt"])(self.v[op[1]].render, vp, *MATS["turned"])
            self.last[op[1]] = None
        elif op[0] == "resize":
            draw.resize(s.s.fig, 120, 80)
        elif op[0] == "failing resize":
            s.s.fig.canvas.callbacks.exception_handler = lambda e: None
            Failing(4, Injected)(draw.resize, s.s.fig, 120, 80)
            s.s.fig.canvas.callbacks.exception_handler = None
            for k in self.last:
                self.last[k] = None
        elif op[0] == "edit":
            self.own[0].positions[0] = .125 * len(self.hist), .5, 0
            new = [c[:2] for c in s.commands()[len(before):]]
            expect(new == [("Buffer", "set_data")] * self.recorded, "%s records %s", self.hist, new)
            before = s.commands()
            allowed = 0
        new = s.commands()[len(before):]
        expect(all(c[1] == "render" for c in new) and (allowed is None or len(new) == allowed * self.recorded), "%s records %s", self.hist, new)
        s.check("%s", self.hist)

    def key(self):
        return tuple(self.hist)

    def finish(self):
        s = self.session
        for i, v in enumerate(self.v):
            v.render(s.s.viewports[0], *MATS["perspective"])
        got = draw.shot(s.s.fig)
        gsp.io.record(False)
        other = Scene(2)
        made = {}
        for i, k in enumerate(self.kinds):
            made[i] = KINDS[k](Data(*self.own[i].snapshot()))
        # in the order they were first drawn
        order = []
        for op in self.hist:
            if len(op) > 1 and op[0] in ("render", "bad", "fail", "interrupt") and op[1] not in order:
                order.append(op[1])
        for i in order + [i for i in made if i not in order]:
            made[i].render(other.viewports[0], *MATS["perspective"])
        want = draw.shot(other.fig)
        # those that failed before anything was drawn come later
        expect(sorted(repr(p.key()) for p in got) == sorted(repr(p.key()) for p in want), "%s: good renders then draw %s instead of %s", self.hist, got, want)

    def close(self):
        self.session.close()


def check(run):
    kinds = list(KINDS)
    run.bounds.update(visuals=len(kinds), failures="every call made by visuals and transforms during a render")
    run.cases("succeeding", [(k, r, t) for k in kinds for r in (True, False) for t in ("buffers", "none", "mirror")], safely(succeeding))
    every = [(k, n, f) for k in c11.KINDS for n in c11.KINDS[k] for f in c11.forms(k, n)]
    run.bounds["formed"] = "%d forms of the attributes of six visuals" % len(every)
    run.cases("formed", [e + (r,) for e in every for r in ((True, False) if run.thorough else (True,))], safely(formed))
    stages = ("first", "again", "resize")
    cases = [(k, True, e, st) for k in kinds for e in EXCEPTIONS for st in stages if not (e == "interrupt" and st == "resize")]
    if run.thorough:
        cases += [(k, False, e, st) for k, _, e, st in cases]
    else:
        few = ("points", "markers", "paths", "depth")
        cases = [c for c in cases if c[0] in few or c[2] == "error" and c[3] == "first"]
    run.cases("failing anywhere", cases, safely(injected))
    run.cases("failing ordinarily", [(k, b, r, st) for k in kinds for b in BAD for r in (True, False) for st in ("first", "later")], safely(ordinary))
    run.explore("histories", Histories, run.q(2, 3))
    if run.thorough:
        run.explore("other visuals", type("Histories", (Histories,), dict(kinds=("markers", "polygons"))), 2)
        run.explore("untracked", type("Histories", (Histories,), dict(tracker="none")), 2)
        run.explore("not recorded", type("Histories", (Histories,), dict(recorded=False)), 2)
