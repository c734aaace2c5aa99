"""C36: documentation blocks show their source and exactly what their body records."""
import io, itertools, json, os, re, shutil, sys, tempfile, linecache
from contextlib import redirect_stdout
import numpy as np
import gsp
from gsp.object import Object
from mc import world
from mc.core import expect

# body items: lines (relative to the indentation of the body), and what they record: (method, parameters)
ITEMS = {
    "canvas": (["c = core.Canvas(10, 20, 50.0)"], [("core.Canvas", {"width": 10, "height": 20, "dpi": 50.0})]),
    "buffer": (["b = core.Buffer(2, np.dtype('<f4'), None)"], [("core.Buffer", {"count": 2})]),
    "blank": ([""], []),
    "spaces": (["\0  "], []),                  # a line of spaces only, shorter than the indentation
    "wide": (["\0            "], []),
    "comment": (["# core.Canvas(1, 1)  100% {x} %s"], []),
    "split": (["d = core.Canvas(30,", "                20,", "  dpi=72.0)"], [("core.Canvas", {"width": 30, "height": 20, "dpi": 72.0})]),
    "if": (["if True:", "    e = core.Canvas(1, 2, 3.0)", "", "    f = core.Canvas(4, 5, 6.0)"],
           [("core.Canvas", {"width": 1, "height": 2, "dpi": 3.0}), ("core.Canvas", {"width": 4, "height": 5, "dpi": 6.0})]),
    "loop": (["for i in range(3):", "\tg = core.Canvas(7, 8, 9.0 + i)"], [("core.Canvas", {"width": 7, "height": 8, "dpi": 9.0 + i}) for i in range(3)]),
    "silent": (["x = 'with mkdocs(): é' * 2"], []),
    "call": (["v = core.Canvas(6, 6, 6.0) ; y = transform.X()"], [("core.Canvas", {"width": 6, "height": 6, "dpi": 6.0}), ("transform.X", {})]),
    "unrecorded": (["gsp.io.record(False) ; z = core.Canvas(1, 1, 1.0) ; gsp.io.record(True)"], []),
    "def": (["def fun():", "    return 3"], []),
}
EMPTY = ("blank", "spaces", "wide")
LAYOUTS = ("top", "function", "if", "nested")
INDENTS = ("    ", "  ", "\t", "        ")
AFTER = ("nothing", "statement", "blanks", "comment", "spaced")
FORMATS = (None, ("ansi", "json"), ("json", "ansi"), ("ansi",), ("json",), ())


BEFORE = {
    "recorded": ["before = core.Canvas(99, 99, 99.0)"],
    "nothing": [],
    "unrecorded": ["gsp.io.record(False) ; before = core.Canvas(99, 99, 99.0), core.Canvas(1, 1, 1.0) ; gsp.io.record(True)"],
    "emptied": ["before = [core.Canvas(n, 9, 9.0) for n in range(4)]", "gsp.io.queue('active').empty()"],
    "objects": ["before = [gsp.Object() for n in range(3)]"],
    "dropped": ["core.Canvas(99, 99, 99.0)", "core.Buffer(2, np.dtype('<f4'), None)"],
    "queues": ["before = core.Canvas(99, 99, 99.0)", "other = gsp.io.queue('other') if 0 else gsp.io.CommandQueue('other')", "before = core.Canvas(9, 9, 9.0)"],
    "arrays": ["from gsp_matplotlib import glm", "before = [glm.vec3(4), glm.vec2(2)]", "before[0][1:3] = 5"],
}


def program(blocks, layout, indent, after, end, before="recorded"):
    """Text of a program with documentation blocks."""
    out = ["import gsp", "import numpy as np", "from gsp import core, transform", "from gsp.io import mkdocs, json, ansi", ""]
    base = ""
    if layout == "function":
        out.append("def main():")
        base = indent
    elif layout == "if":
        out.append("if True:")
        base = indent
    elif layout == "nested":
        out += ["def main():", indent + "for n in range(1):"]
        base = indent * 2
    out += [base + l for l in BEFORE[before]]
    for title, formats, items in blocks:
        args = [] if title is None else [repr(title)]
        if formats is not None:
            args.append("formats=%r" % (list(formats),))
        out.append(base + "with mkdocs(%s):" % ", ".join(args))
        for i in items:
            out += [l[1:] if l.startswith("\0") else base + indent + l if l else "" for l in ITEMS[i][0]]
        if after == "statement" or after == "spaced":
            out += [base + "SEEN(ansi.dump(), json.dump())"] if after == "statement" else ["   ", base + "SEEN(ansi.dump(), json.dump())"]
        elif after == "blanks":
            out += ["", "", base + "SEEN(ansi.dump(), json.dump())"]
        elif after == "comment":
            out += [base + "# core.Canvas(5, 5)", base + "SEEN(ansi.dump(), json.dump())"]
        else:
            out += [""] if title is None else []
        if after != "nothing":
            out.append(base + "late = core.Canvas(98, 98, 98.0)")
    if layout in ("function", "nested"):
        out.append("main()")
    return "\n".join(out) + ("\n" if end else "")


def trimmed(lines):
    lines = [l.rstrip() for l in lines]
    while lines and not lines[-1]:
        lines.pop()
    return lines


def parse(text):
    """Blocks of the output: (title, {tab: lines})."""
    blocks, tab, body = [], None, None
    for line in text.split("\n"):
        m = re.fullmatch(r'\?\?\? example "(.*)"', line)
        if m and body is None:
            blocks.append((m.group(1), {}))
            continue
        m = re.fullmatch(r'    === "(\w+)"', line)
        if m and body is None:
            tab = m.group(1)
            expect(blocks and tab not in blocks[-1][1], "tab %s twice, or without a block", tab)
            continue
        m = re.fullmatch(r'        ``` ?(\w*)( linenums="1" ?)?', line)
        if m:
            if m.group(1):
                expect(body is None and tab is not None, "a fence is not closed")
                body = []
                expect(m.group(1) == tab.lower().replace("text", "ansi"), "%s shown as %s", tab, m.group(1))
            else:
                expect(body is not None, "a fence closes nothing")
                blocks[-1][1][tab] = body
                body = tab = None
            continue
        if body is not None:
            expect(not line.strip() or line.startswith("        "), "line %r is not indented", line)
            body.append(line[8:])
        else:
            expect(not line.strip(), "line %r is not part of a block", line)
    expect(body is None, "a fence is not closed")
    return blocks


def one(case):
    blocks, layout, indent, after, end = case[:5]
    blocks = [(t, None if f is None else tuple(f), tuple(i)) for t, f, i in blocks]
    d = tempfile.mkdtemp(prefix="gspverif")
    world.reset()
    seen = []
    try:
        path = os.path.join(d, "example.py")
        text = program(blocks, layout, indent, after, end, *case[5:])
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        linecache.clearcache()
        out = io.StringIO()
        with redirect_stdout(out):
            exec(compile(text, path, "exec"), {"__name__": "example", "SEEN": lambda *a: seen.append(a + (sorted(map(int, Object.objects)),))})
    finally:
        shutil.rmtree(d, ignore_errors=True)
        Object.record = True
    got = parse(out.getvalue())
    expect(len(got) == len(blocks), "%d blocks for %d: %s\n%s", len(got), len(blocks), out.getvalue(), text)
    for n, ((title, formats, items), (t, tabs)) in enumerate(zip(blocks, got)):
        expect(t == ("Example" if title is None else title), "title %r instead of %r", t, title)
        formats = ("ansi", "json") if formats is None else formats
        expect(set(tabs) == {"PYTHON"} | {{"ansi": "TEXT", "json": "JSON"}[f] for f in formats}, "tabs %s for formats %s", sorted(tabs), formats)
        want = trimmed([l.replace("\0", "") for i in items for l in ITEMS[i][0]])
        expect(trimmed(tabs["PYTHON"]) == want, "the source of\n%s\nis shown as\n%s\ninstead of\n%s", text, "\n".join(tabs["PYTHON"]), "\n".join(want))
        rec = [r for i in items for r in ITEMS[i][1]]
        if "JSON" in tabs:
            cmds = json.loads("\n".join(tabs["JSON"]))["commands"]
            expect([c["method"] for c in cmds] == [m for m, _ in rec], "commands %s instead of %s", [c["method"] for c in cmds], [m for m, _ in rec])
            for k, (c, (m, p)) in enumerate(zip(cmds, rec)):
                expect(c["id"] == k + 1, "command %d is numbered %s", k + 1, c["id"])
                expect(all(c["parameters"][a] == v for a, v in p.items()), "%s instead of %s", c, p)
            ids = [c["parameters"]["id"] for c in cmds]
            expect(len(set(ids)) == len(ids) and (not ids or min(ids) <= 2), "objects numbered %s", ids)
            if "unrecorded" not in items:
                expect(ids == list(range(1, len(ids) + 1)), "objects numbered %s", ids)
            if after != "nothing":
                expect(seen[n][2] == sorted(ids) or "unrecorded" in items and set(ids) < set(seen[n][2]) and len(seen[n][2]) == len(ids) + items.count("unrecorded"), "objects %s are registered after a block that created %s", seen[n][2], ids)
                expect(json.loads(seen[n][1])["commands"] == cmds, "the block shows other commands than the queue holds")
        if "TEXT" in tabs:
            expect(sum("METHOD" in l for l in tabs["TEXT"]) == len(rec), "%d commands in the text instead of %d", sum("METHOD" in l for l in tabs["TEXT"]), len(rec))
            if after != "nothing":
                expect(trimmed(tabs["TEXT"]) == trimmed(seen[n][0].split("\n")), "the block shows another text than the dump of the queue")
    return tuple((b[1], b[2]) for b in blocks), layout


def failing(case):
    """An error of the body is not hidden."""
    kind, items = case
    d = tempfile.mkdtemp(prefix="gspverif")
    world.reset()
    try:
        path = os.path.join(d, "example.py")
        lines = ["from gsp import core, transform", "import gsp, numpy as np", "from gsp.io import mkdocs", "with mkdocs():"] + ["    " + l for i in items for l in ITEMS[i][0]] + ["    raise %s('no')" % kind]
        with open(path, "w", encoding="utf-8") as f:
            f.write("\n".join(lines))
        linecache.clearcache()
        try:
            with redirect_stdout(io.StringIO()):
                exec(compile("\n".join(lines), path, "exec"), {})
        except (Exception, KeyboardInterrupt) as e:
            expect(type(e).__name__ == kind, "%s became %r", kind, e)
        else:
            expect(False, "%s is lost", kind)
        expect(len(gsp.io.queue("active")) == sum(len(ITEMS[i][1]) for i in items), "the queue holds %d commands", len(gsp.io.queue("active")))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return case


def check(run):
    full = [i for i in ITEMS if i not in EMPTY + ("comment",)]
    ok = lambda b: any(i in full for i in b)
    bodies = [b for n in range(1, run.q(3, 4)) for b in itertools.product(ITEMS, repeat=n) if ok(b)]
    run.bounds["bodies"] = "all bodies of <= %d items out of %d (statements that record or not, split over lines, blank lines, comments, compound statements), 4 layouts, 4 indentations, what follows" % (run.q(2, 3), len(ITEMS))
    cases = []
    for n, b in enumerate(bodies):
        for layout in LAYOUTS:
            for after in AFTER:
                ind = INDENTS if len(b) == 1 else (INDENTS[n % 4],)
                cases += [([(None if n % 2 else "A title", None, b)], layout, i, after, end) for i in ind for end in ((True, False) if after == "nothing" else (True,))]
    run.cases("bodies", cases, one)
    three = [b for b in itertools.product(("canvas", "blank", "spaces", "if", "comment", "split"), repeat=3) if ok(b)]
    run.cases("three", [([("T", None, b)], l, "    ", "statement", True) for b in three for l in ("top", "function")], one)
    few = [("canvas",), ("silent",), ("blank", "buffer"), ("if", "blank"), ("unrecorded", "call")]
    run.bounds["several"] = "all sequences of <= 3 blocks of 5 bodies in every choice of formats"
    todo = [([("One", f, a)], "top", "    ", "statement", True) for f in FORMATS for a in few]
    todo += [([("One", f, a), (None, g, b)], l, "    ", after, True) for f in FORMATS for g in FORMATS for a in few for b in few for l in ("top", "function") for after in ("statement", "nothing")]
    todo += [([("One", None, a), ("Two", ("json",), b), ("Three", None, c)], "top", "    ", after, True) for a in few for b in few for c in few for after in AFTER]
    run.cases("several", todo, one)
    run.bounds["before"] = "after %d kinds of earlier activity" % len(BEFORE)
    run.cases("before", [(bl, l, "    ", "statement", True, b) for b in BEFORE for l in ("top", "function") for a in [(i,) for i in full] + [("canvas", "call"), ("unrecorded", "canvas")]
                         for bl in ([("T", None, a)], [("T", ("json",), a), ("U", None, ("silent",)), ("V", None, a)])], one)
    run.cases("titles", [([(t, None, ("canvas",))], "top", "    ", "statement", True) for t in ("", "a", "Two words", "é", "100% {0} %s", "'", "x" * 300)], one)
    run.cases("failing", [(k, b) for k in ("ValueError", "KeyError", "ZeroDivisionError", "KeyboardInterrupt", "StopIteration") for b in few + [()]], failing)
