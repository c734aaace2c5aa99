"""C08: the conversion registry behaves as a map of type pairs."""
import itertools
import gsp
from gsp.io import convert as convert_module
from gsp.io import register, unregister, convert, converters
from gsp.io.convert import is_registered, get_converter
from mc.core import System, expect


class S1: pass
class Outer:
    class S2(S1): pass
    class D2: pass


S2, D2 = Outer.S2, Outer.D2
class S3(S2): pass
class S4: pass
class S6(type("T3", (type("T2", (type("T1", (S3,), {}),), {}),), {})): pass
class S5(S4, S1): pass
class D1: pass


VALUES = {"S1": S1(), "S2": S2(), "S3": S3(), "S4": S4(), "S5": S5(), "S6": S6(), "str": "some text", "int": 3, "list": [1], "none": None}
DSTS = {"D1": D1, "D2": D2}
SOURCES = ("S1", "S2", "S4", "*", "str")
FUNCS = {}


def func(n):
    if n not in FUNCS:
        def f(v, n=n):
            return (n, v)
        f.__name__ = n
        FUNCS[n] = f
    return FUNCS[n]


class Registry(System):
    GROUPS = (("S1", "S2"), ("S2", "*"), ("S4", "str", "S1"))

    def __init__(self):
        self.before = dict(converters)
        self.model = {}
        self.n = 0
        self.decorators = {}

    def ops(self):
        ops = []
        for d in DSTS:
            for s in SOURCES:
                ops += [("register", s, d), ("unregister", s, d)]
            for g in self.GROUPS:
                for kind in ("tuple", "list"):
                    if kind == "list" and g is not self.GROUPS[1]:
                        continue
                    ops += [("register", kind, g, d), ("unregister", kind, g, d)]
        return ops

    def do(self, op):
        k, d = op[0], op[-1]
        if len(op) == 4:
            g = tuple(op[2])
            src = list(g) if op[1] == "list" else g
        else:
            g, src = (op[1],), op[1]
        if k == "register":
            self.n += 1
            f = func("f%d" % self.n)
            taken = [s for s in g if (s, d) in self.model]
            try:
                r = register(src, d)(f)
            except TypeError:
                expect(taken, "registering %r to %s is refused although none is registered", src, d)
            else:
                expect(not taken, "registering %r to %s is accepted although %r is already registered", src, d, taken)
                expect(r is f, "the decorated function is replaced by %r", r)
                for s in g:
                    self.model[(s, d)] = f
        else:
            unregister(src, d)
            for s in g:
                self.model.pop((s, d), None)
        self.verify(op)

    def verify(self, op):
        # the whole map
        for s in SOURCES + ("S3", "S5", "S6", "int"):
            for d in DSTS:
                e = self.model.get((s, d)) or self.model.get(("*", d))
                r = is_registered(s, d)
                expect(bool(r) == bool(e), "after %r, %s to %s registered: %r", op, s, d, r)
                if (s, d) in self.model:
                    expect(r is self.model[(s, d)], "after %r, %s to %s gives %r", op, s, d, r)
        mine = {p: f for p, f in converters.items() if p not in self.before}
        expect(mine == self.model, "after %r the registered pairs are %r instead of %r", op, sorted(mine), sorted(self.model))
        expect({p: converters.get(p) for p in self.before} == self.before, "after %r another conversion changed", op)
        # lookups and conversions
        for vn, v in VALUES.items():
            for d in DSTS:
                exact = self.model.get((type(v).__name__, d))
                star = self.model.get(("*", d))
                bases = [self.model[(b.__name__, d)] for b in type(v).__mro__[1:] if (b.__name__, d) in self.model]
                usable = [exact] if exact else ([star] if star else []) + bases
                if vn == "str" and exact and star:      # a text may also be taken for the name of a type
                    usable = [exact, star]
                for dst in (d, DSTS[d]):
                    f = get_converter(v, dst)
                    if usable:
                        expect(f in usable, "after %r, converter of %s to %s: %r instead of %r", op, vn, d, f, usable)
                    else:
                        expect(f is None, "after %r, converter of %s to %s: %r", op, vn, d, f)
                    try:
                        r = convert(v, dst)
                    except ValueError:
                        expect(not usable, "after %r, %s is not converted to %s", op, vn, d)
                    else:
                        expect(usable, "after %r, %s is converted to %r for %s", op, vn, r, d)
                        expect(r[1] is v and any(r[0] == u.__name__ for u in usable),
                               "after %r, %s is converted to %r for %s", op, vn, r, d)
            if type(v).__module__ == __name__:
                for d in DSTS:
                    f = get_converter(type(v), d)
                    e = self.model.get((type(v).__name__, d))
                    if e:
                        expect(f is e, "after %r, converter of class %s to %s: %r", op, vn, d, f)

    def key(self):
        return sorted(p for p in self.model)

    def close(self):
        for p in list(converters):
            if p not in self.before:
                del converters[p]


def unhashable(case):
    """Conversions of what cannot be converted."""
    v, d = {"none": None, "list": [1], "dict": {}, "object": object(), "type": S1}[case[0]], case[1]
    try:
        r = convert(v, d)
    except ValueError:
        return "refused"
    expect(False, "converted to %r", r)


class Odd:
    """Has no truth value and is equal to nothing."""

    def __bool__(self):
        raise ValueError("no truth value")

    def __eq__(self, other):
        raise ValueError("not comparable")

    __hash__ = None


class Nothing0(S1):
    """A value that counts as false."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


RESULTS = {"none": None, "zero": 0, "false": False, "empty text": "", "empty list": [], "empty tuple": (), "empty dict": {}, "odd": Odd(), "zero float": 0.0, "not a number": float("nan"), "type": S1, "not implemented": NotImplemented,
           "exception": ValueError("a value"), "function": len, "text": "D1", "minus": -1, "array": __import__("numpy").zeros(3)}
INPUTS = {"S1": S1(), "S2": S2(), "false": Nothing0(), "odd": Odd(), "none": None, "zero": 0, "no": False, "empty": "", "list": [], "tuple": (), "dict": {}, "zero float": 0.0, "array": __import__("numpy").zeros(3), "exception": KeyError("x"), "S3": S3(), "S6": S6()}


def results(case):
    """What is converted, and what it is converted to, may be any value."""
    vn, rn, how, byname = case
    v, r = INPUTS[vn], RESULTS[rn]
    before = dict(converters)
    src = {"exact": type(v).__name__, "any": "*", "base": type(v).__mro__[-2].__name__}[how]
    seen = []
    try:
        dst = {True: "D1", False: D1, "own name": type(v).__name__, "own type": type(v),
               "base name": type(v).__mro__[-2].__name__, "any name": "object"}[byname]
        @register(src, dst if isinstance(dst, str) else dst.__name__)
        def f(x):
            seen.append(x)
            return r
        expect(get_converter(v, dst) is f, "converter of %s to %s: %r", vn, dst, get_converter(v, dst))
        for n in range(1, 3):
            try:
                got = convert(v, dst)
            except ValueError as e:
                expect(False, "%s is not converted to %s: %s", vn, rn, e)
            expect(got is r, "%s is converted to %r instead of %r", vn, got, r)
            expect(len(seen) == n and all(x is v for x in seen), "the conversion was given %r instead of %r", seen, v)
        return vn, rn
    finally:
        converters.clear()
        converters.update(before)


def refused(case):
    """A conversion that fails is refused."""
    vn, en, how = case
    v = INPUTS[vn]
    before = dict(converters)
    try:
        @register({"exact": type(v).__name__, "any": "*", "base": type(v).__mro__[-2].__name__}[how], "D1")
        def f(x):
            raise en("no")
        try:
            r = convert(v, "D1")
        except ValueError:
            return vn, en.__name__
        expect(False, "a conversion that raises %s gives %r", en.__name__, r)
    finally:
        converters.clear()
        converters.update(before)


def check(run):
    # what is registered depends on the history through the set of registered pairs and which
    # function is registered for each: the former is the merged state, the latter is replayed
    d = run.q(3, 5)
    run.bounds["histories"] = ("all histories of <= %d registrations and unregistrations (one or several source types at once) over "
                               "5 source types and 2 destinations; states are merged when the same pairs are registered" % d)
    run.explore("histories", Registry, d, max_states=run.q(100000, 400000))

    class Unmerged(Registry):
        GROUPS = (("S1", "*"), ("S2", "*"))

        def ops(self):
            return [o for o in Registry.ops(self) if o[-1] == "D1" and o[1] not in ("S4", "str")]

        def key(self):
            return None
    d = run.q(3, 4)
    run.bounds["unmerged"] = "all %d-operation histories over 3 source types and a destination, never merged" % d
    run.explore("unmerged", Unmerged, d)
    run.cases("refusals", list(itertools.product(("none", "list", "dict", "object", "type"), ("D1", "Nothing", "D2"))), unhashable)
    ok = [(v, h) for v in INPUTS for h in ("exact", "any", "base") if h != "base" or len(type(INPUTS[v]).__mro__) > 2]
    run.bounds["results"] = "%d values converted to %d others by exact, base and any-source conversions" % (len(INPUTS), len(RESULTS))
    run.cases("results", [(v, r, h, n) for v, h in ok for r in RESULTS for n in (True, False)], results)
    run.bounds["own type"] = "the same values converted to their own type, a base of it or 'object'"
    run.cases("own-type", [(v, r, h, n) for v, h in ok for r in RESULTS for n in ("own name", "own type", "base name", "any name")
                           if n != "base name" or len(type(INPUTS[v]).__mro__) > 2], results)
    run.cases("failures", [(v, e, h) for v, h in ok for e in (ValueError, TypeError, KeyError, ZeroDivisionError)], refused)
