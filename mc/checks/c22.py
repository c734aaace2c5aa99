"""C22: transform expressions evaluate to the arithmetic and composition they spell."""
import itertools
import numpy as np
import gsp
import gsp_matplotlib
from gsp import transform
from mc import expr, world
from mc.core import expect
from mc.expr import accessor, build, model, bound, same, data

np.seterr(all="ignore")


def show(e):
    return repr(e)


def evaluate(case):
    """One bound expression: value, twice, from the bound flag to the data left as it was."""
    e, rec = case
    world.restart()
    gsp.io.record(bool(rec))
    try:
        t = build(e)
        expect(isinstance(t, transform.Transform), "%s is not a transform", e)
        if "out" not in str(e):
            expect(bool(t.bound), "%s does not report being bound", e)
        want = model(e)
        same(t.evaluate(dict(expr.VARIABLES)), want, "%s", show(e))
        same(t.evaluate(dict(expr.VARIABLES)), want, "%s evaluated again", show(e))
    finally:
        gsp.io.record(True)
    return (np.asarray(want).tobytes(),)


def is_bound(case):
    """An expression is bound exactly when all its leaves have data."""
    world.restart()
    gsp.io.record(False)
    try:
        t = build(case)
        expect(bool(t.bound) == bound(case), "%s: bound is %s", case, t.bound)
    finally:
        gsp.io.record(True)
    return (bound(case), case[0])


DATAS = ("np:pos", "buf:pos", "glm:pos", "np:col", "buf:col", "np:sig", "buf:rec", "np:rec")
BAD = ("string", None, [1, 2], {"a": 1}, object)


def refused(case):
    """Binding what is already bound, or binding to what is not data, is refused and changes nothing."""
    e, how = case
    world.restart()
    t = build(e)
    before = bool(t.bound)
    try:
        t(data("np:pos") if how == "data" else 3 if how == "int" else 2.5 if how == "float" else (1, 2, 3) if how == "tuple" else
          data("buf:pos") if how == "buffer" else BAD[int(how)])
    except ValueError:
        pass
    else:
        expect(False, "binding %s to %s is accepted", e, how)
    expect(bool(t.bound) == before, "a refused binding changes %s", e)
    if before:
        same(t.evaluate({}), model(e), "%s after a refused binding", e)
    else:
        same(t(data("np:pos")).evaluate({}), model(("bind", e, "np:pos")), "%s after a refused binding", e)
    return (e[0], how)


def keys_of(d):
    n = d.split(":")[1]
    if n == "rec":
        return ("x", ".p", ".c", ".n", ".x")
    return "xyzrgb" if n == "pos" else "xyzwrgba"


def leaves():
    return [("acc", k, how, d) for d in DATAS for k in keys_of(d) for how in ("ctor", "named", "call", "set")
            if not (d.split(":")[0] == "buf" and False)]


def scalar(e):
    return model(e).ndim == 1


def brackets(n, first=0):
    """All ways of applying n transforms in a row."""
    if n == 1:
        yield first
        return
    for k in range(1, n):
        for a in brackets(k, first):
            for b in brackets(n - k, first + k):
                yield (a, b)


ROWS = {"Pixel": 1.0, "Inch": 100.0, "Point": 100 / 72}


def row(case):
    """Transforms chained in a row, from the outermost to the innermost, in any bracketing, bound at
    once or at the end; by several uses of the same parts."""
    names, shape, when, d = case
    world.restart()
    gsp.io.record(False)
    try:
        make = [getattr(transform, n)() if n in ROWS else accessor(n) for n in names]
        if when == "first":
            make[-1] = make[-1](data(d))

        def chain(b):
            return make[b] if isinstance(b, int) else chain(b[0])(chain(b[1]))
        t = chain(shape)
        expect(bool(t.bound) == (when == "first"), "%s: bound is %s", case, t.bound)
        if when == "last":
            t = t(data(d))
        elif when == "copy":
            u, t = t, t.copy()(data(d))
            expect(not u.bound, "%s: binding a copy binds the original", case)
        expect(bool(t.bound), "%s is not bound", case)
        want = expr.value(d)
        for n in reversed(names):
            if n in ROWS:
                want = np.asarray(want, float)
                if want.ndim and want.shape[-1] != 1:
                    want = want * np.array([1, 1, 0])[:want.shape[-1]]
                want = want * ROWS[n]
            else:
                want = expr.access(n, want)
        same(t.evaluate({"dpi": 100}), want, "%s", case)
        for n, m in zip(names[:-1], make):
            expect(not m.bound, "%s: %s has become bound", case, n)
    finally:
        gsp.io.record(True)
    return (names, np.asarray(want).tobytes())


def rows(n):
    for k in range(2, n + 1):
        for names in itertools.product(("Pixel", "Inch", "Point", "y", ".p"), repeat=k):
            if names.count("y") > 1 or ".p" in names[:-1]:
                continue
            for shape in brackets(k):
                for when in ("first", "last", "copy"):
                    for d in (("np:rec", "buf:rec") if names[-1] == ".p" else ("np:pos", "buf:pos")):
                        yield (names, shape, when, d)


OTHER = [expr.VARIABLES, {"screen": np.array([[7, 8, 9], [-1, 0.5, 2], [4, 4, 4.0]]), "colors": expr.COL[::-1] / 255.0},
         {"screen": np.array([[1.0, -1, 2], [0, 0, 1]]), "colors": np.ones((2, 4))}]


def varying(case):
    """The same expression evaluated with the values of several renderings in turn."""
    e, order, rec = case
    world.restart()
    gsp.io.record(bool(rec))
    try:
        t = build(e)
        for n, k in enumerate(order):
            same(t.evaluate(dict(OTHER[k])), model(e, variables=OTHER[k]), "%s, evaluation %d", show(e), n)
    finally:
        gsp.io.record(True)
    return (e[0], order)


def check(run):
    R = list(rows(run.q(4, 5)))
    run.bounds["rows"] = "rows of up to %d measures and accessors in every bracketing, bound first, last and as a copy" % run.q(4, 5)
    run.cases("rows", R, row)
    outs = [("out", "screen"), ("out", "screen.y"), ("out", "screen.zx"), ("out", "colors.r"), ("out", "colors"), ("chain", ("acc", "x", "none", None), ("out", "screen"))]
    exprs = outs + [("copy", o) for o in outs] + [("neg", o) for o in outs] + [("op", o, a, ("num", 2)) for o in "+-*/" for a in outs] + [("op", o, ("num", 3), a) for o in "+-*" for a in outs]
    exprs += [("op", o, a, a) for o in "+-*" for a in outs] + [("copy", ("op", "+", a, a)) for a in outs]
    run.bounds["varying"] = "%d expressions of rendered values, evaluated with all sequences of three among three renderings" % len(exprs)
    run.cases("varying", [(e, o, r) for e in exprs for o in itertools.product(range(3), repeat=3) for r in (0, 1)], varying)
    L = leaves()
    L += [("acc", k, "call", d) for k in ".x .y .z .r .b".split() for d in ("np:pos", "buf:col")]
    run.bounds["leaves"] = "%d bound accessors" % len(L)
    run.cases("leaves", [(e, r) for e in L for r in (1, 0)] , evaluate)

    some = [("acc", "x", "ctor", "np:pos"), ("acc", "z", "call", "buf:pos"), ("acc", "g", "call", "buf:col"), ("acc", "w", "ctor", "np:sig"),
            ("acc", ".n", "set", "buf:rec"), ("acc", ".x", "call", "np:rec"), ("out", "screen.y"), ("acc", "y", "call", "glm:pos")]
    const = [("num", 2), ("num", -1.5), ("num", 1), ("data", "np:row"), ("data", "buf:row"), ("data", "list:row"), ("data", "tuple:row"), ("data", "glm:one"), ("data", "np:one")]
    const = [c for c in const if c != ("data", "glm:one")]

    def pairs(ts, cs):
        for a in ts:
            for b in ts:
                yield a, b
            for c in cs:
                yield a, c
                yield c, a

    def op(o, a, b, form="op"):
        if o == "/" and a[0] in ("num", "data") and form == "op":
            return None          # division of a constant by a transform is not defined
        return (form, o, a, b)
    every = [e for e in L if scalar(e)][::2] if run.thorough else some
    B = [op(o, a, b, f) for o in "+-*/" for a, b in pairs(every, const) for f in (("op", "class") if not run.thorough else ("op",))
         if f == "op" or not any(x[0] == "data" and x[1][:2] in ("li", "tu", "np") for x in (a, b))]
    B = [e for e in B if e]
    if run.thorough:
        B += [op(o, a, b, "class") for o in "+-*/" for a, b in pairs(some, const[:3] + const[4:5])]
    run.bounds["operators"] = "all four operators between %d accessors and %d constants, either side, by operator and by class" % (len(every), len(const))
    run.cases("operators", [(e, r) for e in B for r in ((1, 0) if not run.thorough else (1,))], evaluate)

    # vectors against vectors: accessors yielding several components, arrays of items
    V = [("acc", ".p", "call", "np:rec"), ("acc", ".p", "ctor", "buf:rec"), ("out", "screen"), ("out", "screen.zxy"), ("over", ".p", ("acc", "r", "none", None))]
    V = V[:4]
    C = [("num", 3), ("data", "np:row"), ("data", "list:row"), ("data", "np:pos"), ("data", "buf:pos")]
    run.cases("vectors", [(e, 1) for o in "+-*/" for a, b in pairs(V, C) for e in [op(o, a, b)] if e], evaluate)

    # nesting: all trees of three levels over a few leaves
    T = some[:3] + [("num", 2.5)] if not run.thorough else some[:5] + [("num", 2.5), ("data", "np:row")]
    D1 = [op(o, a, b) for o in "+-*/" for a, b in itertools.product(T, T) if not (a[0] in ("num", "data") and b[0] in ("num", "data"))]
    D1 = [e for e in D1 if e]
    D1 += [("neg", t) for t in some[:2] if "col" not in str(t)]
    D2 = [op(o, a, b) for o in "+-*/" for a in D1 for b in T + D1] + [op(o, a, b) for o in "+-*/" for a in T for b in D1]
    D2 = [e for e in D2 if e]
    run.bounds["nested"] = "all %d trees of depth two over %d leaves" % (len(D2), len(T))
    run.cases("nested", [(e, 0) for e in D2] + [(e, 1) for e in D2[::run.q(9, 1)]], evaluate)
    small = D1[::8] if run.thorough else D1[::7]
    D3 = [op(o, x, y) for o in "+-*/" for a in small for b in small for t in T[:2] for p in "-/" for x, y in ((op(p, a, b), t), (t, op(p, a, b)), (("neg", op(p, a, b)), a), (a, ("copy", op(p, a, b)))) if x and y]
    D3 = [e for e in D3 if e]
    run.bounds["nested deeper"] = "%d trees of depth three" % len(D3)
    run.cases("nested deeper", [(e, 0) for e in D3] + [(e, 1) for e in D3[::run.q(9, 1)]], evaluate)

    # chaining: every bracketing of accessors of accessors of fields, over data, operators and outputs
    chains = []
    fields = [(".p", "xyz"), (".c", "rgba"), (".p", ["."+k for k in "xz"])]
    for d in ("np:rec", "buf:rec"):
        for f, comps in fields:
            for c in comps:
                U = ("acc", c, "none", None)
                F = ("acc", f, "none", None)
                chains += [("chain", U, ("bind", F, d)), ("bind", ("chain", U, F), d), ("over", c, ("acc", f, "call", d)), ("bind", ("over", c, F), d),
                           ("copy", ("chain", U, ("copy", ("bind", F, d)))), ("bind", ("copy", ("chain", U, F)), d), ("chain", U, ("acc", f, "ctor", d)), ("chain", U, ("acc", f, "set", d))]
    inner = [e for e in (op(o, a, b) for o in "+-*/" for a, b in pairs(V[:3], C[:3])) if e]
    for c in "xzg":
        U = ("acc", c, "none", None)
        chains += [w for e in inner for w in (("chain", U, e), ("over", c, e), ("copy", ("chain", U, e)), ("neg", ("chain", U, e)))]
        chains += [("chain", U, ("out", n)) for n in ("screen", "screen.zyx")]
    base = list(chains)
    chains += [e for o in "+-*/" for a in base[::run.q(24, 8)] for b in base[::run.q(23, 17)] for e in [op(o, a, b)] if e and model(a).shape == model(b).shape]
    # three transforms in a row: component of a field of a record of an operation
    P = ("acc", ".p", "none", None)
    for c1 in "xyz":
        U = ("acc", c1, "none", None)
        e1 = ("op", "*", ("acc", ".p", "call", "np:rec"), ("num", 2))
        e2 = ("op", "+", ("chain", U, e1), ("chain", U, ("op", "-", e1, ("data", "np:row"))))
        chains += [e2, ("neg", e2), ("copy", e2), ("op", "/", e2, ("num", 4))]
    run.bounds["chains"] = "%d chains in all bracketings over records, operators and outputs" % len(chains)
    run.cases("chains", [(e, 0) for e in chains] + [(e, 1) for e in base + chains[len(base)::run.q(9, 1)]], evaluate)

    # bound flag
    leaf = [("acc", "x", "none", None), ("acc", "x", "call", "np:pos"), ("acc", "y", "ctor", "buf:pos"), ("num", 0), ("num", 2), ("data", "np:row"), ("acc", ".p", "none", None)]
    b1 = [op(o, a, b) for o in "+-*/" for a in leaf for b in leaf if not (a[0] in ("num", "data") and b[0] in ("num", "data"))]
    b1 = [e for e in b1 if e]
    b1 += [("chain", ("acc", "x", "none", None), e) for e in leaf[:3] + leaf[6:]] + [("neg", e) for e in leaf[:3]]
    b1 += [("over", "z", e) for e in leaf[:3]] + [("copy", e) for e in leaf[:3]] + [("bind", ("acc", "x", "none", None), "np:pos")]
    b2 = [e for e in (op(o, a, b) for o in "+/" for a in b1 for b in leaf + b1) if e] if run.thorough else [e for e in (op("+", a, b) for a in b1 for b in leaf + b1[::5]) if e]
    b2 += [w for e in b1 for w in (("neg", e), ("copy", e), ("chain", ("acc", "y", "none", None), e), ("over", "y", e), ("chain", ("chain", ("acc", "y", "none", None), ("acc", "x", "none", None)), e))]
    run.bounds["bound"] = "%d expressions with unbound leaves" % (len(b1) + len(b2))
    run.cases("bound", leaf[:3] + leaf[6:] + b1 + b2, is_bound)
    cases = [(e, h) for e in [("acc", "x", "call", "np:pos"), ("acc", "x", "ctor", "buf:pos"), ("chain", ("acc", "x", "none", None), ("acc", ".p", "call", "np:rec")), ("over", "x", ("acc", ".p", "ctor", "buf:rec")),
                              ("op", "+", ("acc", "x", "ctor", "np:pos"), ("acc", "y", "ctor", "np:pos"))]
             for h in ("data", "int", "float", "tuple", "buffer")]
    cases += [(("acc", "x", "none", None), str(i)) for i in range(len(BAD))] + [(("acc", "y", "call", "np:pos"), str(i)) for i in range(len(BAD))]
    run.cases("refused", cases, refused)
