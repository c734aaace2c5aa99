"""C37: a scene described with the protocol's own classes is the scene that an implementation makes of the same program."""
import base64
import contextlib
import itertools
import json
import os
import shutil
import tempfile
import numpy as np
import matplotlib.pyplot as plt
import gsp
import gsp_matplotlib
from gsp import transform
from gsp.core import Color, LineJoin, LineStyle
from gsp.io.command import CommandQueue
from mc import scene, world
from mc.checks import c11
from mc.checks.c11 import ATTRIBUTES, BACK, KINDS, LINES, MATS, MATRIX, PLACES, ORDER, Own, compare, edit, forms, place
from mc.core import System, expect
from mc.player import pictures, player

FRONTS = {"protocol": gsp, "implementation": gsp_matplotlib}


@contextlib.contextmanager
def front(name):
    """Programs use the classes of the protocol or those of the implementation."""
    module = FRONTS[name]
    kept = c11.core, c11.visual, scene.buffer

    def buffer(a):
        a = np.ascontiguousarray(a)
        dtype = np.dtype((a.dtype, a.shape[1:])) if a.ndim > 1 else a.dtype
        b = module.core.Buffer(len(a), dtype, a.tobytes())
        COPIES[id(b)] = b, np.array(a)
        return b
    COPIES.clear()
    c11.core, c11.visual, scene.buffer = module.core, module.visual, buffer
    world.restart()
    plt.close("all")
    try:
        yield module
    finally:
        c11.core, c11.visual, scene.buffer = kept
        gsp.io.record(False)
        plt.close("all")


def described(commands, ids):
    """Commands of a file, objects numbered by first appearance, and what buffers hold at the end.

    What buffers hold first may be memory that the program did not initialise yet."""
    out, content = [], {}
    for c in commands:
        p = {}
        for k, v in c["parameters"].items():
            p[k] = ids.setdefault(v, len(ids)) if k == "id" or k.endswith("(id)") else v
        if c["method"] == "core.Buffer" and isinstance(p.get("data"), str):
            content[p["id"]] = bytearray(base64.b64decode(p["data"]))
            p["data"] = len(p["data"])
        elif c["method"] == "Buffer/set_data" and p["id"] in content:
            data = base64.b64decode(p["data"])
            content[p["id"]][p["offset"]:p["offset"] + len(data)] = data
            p["data"] = len(data)
        out.append((c["method"], p))
    return out + [("content", i, bytes(content[i])) for i in content]


def both(script, what, raster=False):
    """Runs a program with both sets of classes."""
    folder = tempfile.mkdtemp(prefix="verif-c37-")
    try:
        files = {}
        for name in ("implementation", "protocol"):
            with front(name) as module:
                files[name] = os.path.join(folder, name + ".json")
                try:
                    script(module)
                except Exception as e:
                    expect(name != "protocol", "%s: the program fails with the classes of the protocol: %s: %s", what, type(e).__name__, e)
                    raise
                gsp.io.json.save(files[name])
                if name == "implementation":
                    gsp.io.record(False)
                    mine = pictures(raster)
                else:
                    expect(not plt.get_fignums(), "%s: the protocol's classes open figures", what)
        mine_cmds, cmds = (described(json.load(open(files[n]))["commands"], {}) for n in ("implementation", "protocol"))
        expect(len(cmds) == len(mine_cmds), "%s: %d commands %s with the protocol's classes, instead of %d %s", what, len(cmds), [c[0] for c in cmds], len(mine_cmds), [c[0] for c in mine_cmds])
        for i, (a, b) in enumerate(zip(cmds, mine_cmds)):
            expect(a == b, "%s: command %d is %s with the protocol's classes, %s with the implementation's", what, i + 1, a, b)
        compare(player().play(files["protocol"], raster=raster), mine, what)
        return json.dumps([c[0] for c in cmds]), len(cmds)
    finally:
        shutil.rmtree(folder)


COPIES = {}          # what buffers hold, by identity


def change(own, how):
    """Modifies every array of the program; a buffer is sent its second item."""
    arrays = {n: a for n, a in own.arrays.items() if id(a) not in COPIES}
    for n, a in own.arrays.items():
        if id(a) in COPIES:
            _, b = COPIES[id(a)]
            b[1] = b[1] * .5 + b[0] * .25 if b.dtype.kind == "f" else b[0]
            a.set_data(b[1].nbytes, b[1].tobytes())
    rest = Own()
    rest.arrays = arrays
    edit(rest, how)


def base(size=(120, 80), dpi=50.0):
    c = c11.core.Canvas(*size, dpi)
    return c, [c11.core.Viewport(c, 0, 0, 60, 80, (1, 1, 1, 1)), c11.core.Viewport(c, 60, 10, .5, 50 * transform.Pixel(), Color(.75, .75, .5, 1))]


def attribute(case):
    """One or two attributes in some form."""
    kind, chosen, when, how, keywords = case

    def script(module):
        _, vps = base()
        own = Own()
        v = c11.build(kind, dict(chosen), own, keywords=keywords)
        m = [np.array(x) for x in MATS["perspective"]]
        if when == "before":
            change(own, how)
        v.render(vps[0], *m)
        if when in ("again", "elsewhere"):
            change(own, how)
            v.render(vps[when == "elsewhere"], *m)
    return both(script, str(case))


def rendered(case):
    """Matrices in every form, given by name, by position or not at all."""
    kind, form, mats, how = case

    def script(module):
        _, vps = base()
        own = Own()
        v = c11.build(kind, {}, own)
        m = [MATRIX[form](x) for x in MATS[mats]]
        if how == "named":
            v.render(proj=m[2], viewport=vps[0], model=m[0], view=m[1])
        elif how == "some":
            v.render(vps[0], m[0])
            change(own, "item")
            v.render(vps[1], None, m[1])
        elif how == "again":
            v.render(vps[0], *m)
            v.render(vps[0])
            v.render(vps[1], view=m[1])
        elif how == "modified":
            v.render(vps[0], *m)
            for x in m:
                if isinstance(x, np.ndarray):
                    x[...] = np.eye(4)
            v.render(vps[1], *m)
        else:
            v.render(vps[0], *m)
    return both(script, str(case))


def canvases(case):
    """Canvases and viewports in every form."""
    size, dpi, where, back, second, named = case

    def script(module):
        c, vps = base(size, dpi)
        if second:
            c = c11.core.Canvas(dpi=72.0, height=96, width=64) if named else c11.core.Canvas(64, 96, 72.0)
        x, y, w, h = place(where)
        vp = c11.core.Viewport(color=BACK[back], height=h, width=w, y=y, x=x, canvas=c) if named else c11.core.Viewport(c, x, y, w, h, BACK[back])
        v = c11.build("Points", {"positions": "pixels"}, Own())
        v.render(vp, *MATS["identity"])
        v.render(vps[1], *MATS["turned"])
    return both(script, str(case))


def buffers(case):
    """Buffers of every type, whole or filled by parts, alone or used by a visual."""
    dtype, how, offset = case

    def script(module):
        _, vps = base()
        a = (np.arange(12).reshape(4, 3) % 5 / 5 - .4).astype(dtype)
        t = np.dtype((a.dtype, (3,)))
        if how == "whole":
            b = module.core.Buffer(4, t, a.tobytes())
        elif how == "memory":
            b = module.core.Buffer(data=memoryview(a), count=4, dtype=t)
        elif how == "named type":
            b = module.core.Buffer(4, t, data=a.tobytes())
            b.set_data(data=a[1:2].tobytes(), offset=0)
        else:
            b = module.core.Buffer(4, t)
            for i in reversed(range(4)):
                b.set_data(i * a[i].nbytes, memoryview(a[i]) if how == "views" else a[i].tobytes())
        item = a[0].nbytes
        b.set_data(item * offset, a[3].tobytes())
        if a.dtype.kind == "f":
            v = c11.build("Points", {}, Own())
            w = module.visual.Points(b, 20.0, (0., 0., 1., 1.), (0., 0., 0., 1.), 1.0)
            w.render(vps[0])
            b.set_data(0, a[1:3].tobytes())
            w.render(vps[1])
            v.render(vps[0])
        expect(len(b) == 4, "%s: length %d", case, len(b))
    return both(script, str(case))


OPS = [("make", k) for k in ("Points", "Markers", "Pixels", "Paths")] + [("render", vp, m) for vp in (0, 1) for m in ("perspective", None)] + [("edit", "item"), ("edit", "whole"), ("viewport",), ("canvas",)]


def history(case):
    """Creations, modifications and renders in any order."""
    def script(module):
        c, vps = base()
        own = Own()
        made = []
        for n, op in enumerate(case):
            if op[0] == "make":
                made.append(c11.build(op[1], {"positions": "tracked", "sizes": "buffer"}, own, prefix=str(n)))
            elif op[0] == "render":
                for v in made:
                    v.render(vps[op[1]], *(MATS[op[2]] if op[2] else ()))
            elif op[0] == "edit":
                change(own, op[1])
            elif op[0] == "viewport":
                vps[0] = c11.core.Viewport(c, 10 + n, 5, 40, .5, (.5, 1, .5, 1))
            else:
                c = c11.core.Canvas(64, 96, 72.0)
                vps[1] = c11.core.Viewport(c, 4, .25, .5, 30, (1, .5, 1, 1))
    return both(script, str(case))


def check(run):
    # positions and indices that are an expression over a buffer need what it holds, which a protocol's buffer has not
    no = ("field", "chained", "expression", "shared", "measured field", "swapped field")
    each = [(k, n, f) for k in KINDS for n in KINDS[k] for f in forms(k, n) if n not in ("positions", "indices") or f not in no]
    items = [(k, ((n, f),), "before", "item", i % 2 == 1) for i, (k, n, f) in enumerate(each)]
    items += [(k, ((n, f),), w, "whole", False) for k, n, f in each if f in ("tracked", "view", "buffer", "by depth") for w in ("again", "elsewhere") if run.thorough or w == "again"]
    if run.thorough:
        items += [(k, ((n, f), (m, g)), "elsewhere", "slice", True) for k, n, f in each for l, m, g in each if k == l and n < m]
    run.bounds["attributes"] = "%d programs: every attribute of every visual in every form%s" % (len(items), ", alone or with another one" if run.thorough else "")
    run.cases("attributes", items, attribute)
    cases = [(k, f, m, h) for k in run.q(("Points", "Segments"), KINDS) for f in MATRIX for m in run.q(("perspective",), ("perspective", "turned")) for h in ("given", "named", "some", "again", "modified")]
    cases += [(k, "arrays", "turned", h) for k in KINDS for h in ("named", "some", "again")]
    run.bounds["renders"] = "%d programs: matrices of %d forms, by name, by position or omitted" % (len(cases), len(MATRIX))
    run.cases("renders", cases, rendered)
    cases = [(s, d, w, b, t, n) for s, d in (((120, 80), 50.0), ((80, 140), 72.5)) for i, w in enumerate(PLACES) for j, b in enumerate(BACK) for t in (False, True) for n in (False, True) if run.thorough or (i + j + t + n) % 4 == 0]
    run.bounds["canvases"] = "%d programs: viewports of %d forms, %d backgrounds" % (len(cases), len(PLACES), len(BACK))
    run.cases("canvases", cases, canvases)
    cases = [(t, h, o) for t in ("<f4", "<f8", "<i4", "u1", "<f2", ">i2") for h in ("whole", "memory", "named type", "parts", "views") for o in (0, 1, 3)]
    run.bounds["buffers"] = "%d programs: buffers given their content at once or by parts" % len(cases)
    run.cases("buffers", cases, buffers)
    d = run.q(3, 4)
    run.bounds["histories"] = "all sequences of %d operations among %d that start with a creation" % (d, len(OPS))
    run.cases("histories", [h for n in range(1, d + 1) for h in itertools.product(OPS, repeat=n) if h[0][0] == "make" and not (n > 1 and h[-1][0] in ("make", "edit")) and len(set(o for o in h if o[0] == "make")) == len([o for o in h if o[0] == "make"])], history)
