"""C12: a tracked array's mirror always equals the array."""
import itertools
import numpy as np
from mc import arrays
from mc.arrays import KEYS, METHODS, Mirror, Refused, chain, getkey, tracking
from mc.core import System, expect

TARGETS = [k for k in KEYS] + ["@" + s for s in arrays.SWIZZLE]


class Pair:
    """A tracked array with a mirror, a plain array with the same content, and bystanders."""
    def __init__(self, kind):
        del Mirror.made[:]
        self.a = arrays.make(kind)
        self.a_tracker = None
        fill = np.ndarray.view(self.a, np.ndarray)
        fill[...] = 5
        with tracking(None):        # same memory layout
            self.s = np.ndarray.view(arrays.make(kind), np.ndarray)
        self.s[...] = 5
        self.t = self.a._tracker
        self.other = arrays.make(kind)
        np.ndarray.view(self.other, np.ndarray)[...] = 6
        self.copy = self.a.copy()
        self.bystanders = [(self.other, bytes(self.other.tobytes())), (self.copy, bytes(self.copy.tobytes()))]
        self.trackers = [m for m in Mirror.made if m is not self.t]
        self.counts = [len(m.updates) for m in self.trackers]
        self.synced = False
        self.n = 0

    def views(self, names):
        return chain(self.a, names, False), chain(self.s, names, True)

    def write(self, names, key, vk):
        """One assignment through a view chain; returns False when numpy refuses it."""
        self.n += 1
        va, vs = self.views(names)
        shared = np.shares_memory(vs, self.s) and vs.size
        before = self.s.tobytes()
        if key in arrays.INPLACE:
            if vs.dtype.names or vs.dtype.kind in "b":
                raise Refused()
            operand = 2 + self.n
            try:
                getattr(vs, arrays.INPLACE[key])(operand)
            except TypeError:
                raise Refused()
            r = getattr(va, arrays.INPLACE[key])(operand)
            expect(r is va, "an in-place operation gives another array")
            touched = shared
        else:
            attr = key.startswith("@")
            if attr:
                from gsp_matplotlib.glm.ndarray import swizzle
                letters = key[1:]
                if not isinstance(va, swizzle) or vk == "reversed":
                    raise Refused()
                names_ = {"r": "xr", "g": "yg", "b": "zb"}
                idx = [("xyzw".find(c) if c in "xyzw" else "rgba".find(c)) for c in letters]
                # two-component vectors are also named r and a
                if vs.shape[-1] == 2 and not set(letters) <= set("xy"):
                    raise Refused()
                if vs.shape[-1] != {"vec2": 2, "vec3": 3, "vec4": 4}.get(type(va).__name__) or max(idx) >= vs.shape[-1]:
                    raise Refused()
                val = arrays.value("scalar", vs, self.n)
                for i in idx:
                    vs[..., i] = val
                setattr(va, letters, val)
                touched = shared and vs[..., idx[0]].size
            else:
                k = getkey(key, vs)
                try:
                    region = vs[k]
                    val = arrays.value(vk, region if isinstance(region, np.ndarray) else np.asarray(region), self.n)
                    if vk == "reversed":
                        va_region = va[k]
                        val_a = va_region[::-1] if isinstance(va_region, np.ndarray) and va_region.ndim else val
                    else:
                        val_a = val
                    trial = vs.copy()
                    trial[k] = val
                except (IndexError, ValueError, TypeError):
                    # refused by numpy: refused here, and nothing changes
                    try:
                        va[k] = 1
                    except Exception:
                        pass
                    else:
                        if not (isinstance(k, str) or key == "9"):
                            raise Refused()
                        expect(False, "the key %s is accepted", key)
                    expect(self.a.tobytes() == before, "a refused assignment changed the array")
                    return False
                try:
                    va[k] = val_a
                except NotImplementedError:
                    expect(isinstance(k, (list, np.ndarray)), "key %s is not supported", key)
                    expect(self.a.tobytes() == before, "a refused assignment changed the array")
                    return False
                vs[k] = val
                touched = shared and np.asarray(region).size
        if touched:
            self.synced = True
        self.verify(names, key)
        return True

    def verify(self, names, key):
        want = self.s.tobytes()
        got = np.ascontiguousarray(np.ndarray.view(self.a, np.ndarray)).tobytes()
        expect(got == want, "after %s[%s] = the array holds other bytes than numpy gives", names, key)
        if self.synced:
            expect(bytes(self.t.data) == want, "after %s[%s] = the mirror holds\n%s\ninstead of\n%s", names, key,
                   bytes(self.t.data).hex(), want.hex())
        self.t.stable()
        for m, n in zip(self.trackers, self.counts):
            expect(len(m.updates) == n, "after %s[%s] = another array is signalled", names, key)
        for b, raw in self.bystanders:
            expect(b.tobytes() == raw, "after %s[%s] = another array changed", names, key)


def single(case):
    kind, names, key, vk = case
    with tracking(Mirror):
        p = Pair(kind)
        try:
            done = p.write(tuple(names), key, vk)
        except Refused:
            return "not applicable"
        if done:
            # and again through another view, now that the mirror is up to date
            p.write((), "all", "scalar")
            p.write(tuple(names), key, vk)
    return (kind, tuple(names), key)


def double(case):
    kind, first, second = case
    with tracking(Mirror):
        p = Pair(kind)
        try:
            p.write(tuple(first[0]), first[1], "items")
            p.write(tuple(second[0]), second[1], "scalar")
            p.write(tuple(first[0]), first[1], "scalar")
        except Refused:
            return "not applicable"
    return (kind, str(first), str(second))


def applicable(kind, names, key):
    with tracking(None):
        a = np.ndarray.view(arrays.make(kind), np.ndarray)
        try:
            v = chain(a, names, True)
        except Refused:
            return False
        if key in arrays.INPLACE:
            return v.dtype.names is None and (key != "/=" or v.dtype.kind == "f")
        if key.startswith("@"):
            return v.dtype.names is None and v.ndim > 0
        try:
            v[getkey(key, v)]
        except (IndexError, ValueError, TypeError):
            return key in ("9", "p")
        return True


class Held(System):
    """Views made at any time and kept, modified in any order."""
    kind = "vec4"
    STEPS = ("1:", "::2", ":,1:", "...,0", "0", "p", "T", "view", "ravel")
    KEYS = ("all", "0", "1:", "-1", "...,0", "mask", "@x", "+=", "n")

    def __init__(self):
        self.cm = tracking(Mirror)
        self.cm.__enter__()
        self.p = Pair(self.kind)
        self.held = [()]
        self.live = [(self.p.a, self.p.s)]

    def ops(self):
        ops = []
        if len(self.held) < 3:
            for i, c in enumerate(self.held):
                for s in self.STEPS:
                    try:
                        v = chain(self.live[i][1], (s,), True)
                    except Refused:
                        continue
                    ops.append(("view", i, s))
        for i in range(len(self.held)):
            for k in self.KEYS:
                if applicable(self.kind, self.held[i], k):
                    ops.append(("write", i, k))
        return ops

    def do(self, op):
        if op[0] == "view":
            a, s = self.live[op[1]]
            self.live.append((chain(a, (op[2],), False), chain(s, (op[2],), True)))
            self.held.append(self.held[op[1]] + (op[2],))
        else:
            p = self.p
            va, vs = self.live[op[1]]
            keep = p.views
            p.views = lambda names: (va, vs)
            try:
                p.write(self.held[op[1]], op[2], "scalar")
            except Refused:
                pass
            finally:
                p.views = keep

    def key(self):
        return (self.held, self.p.synced)

    def finish(self):
        # copies made by a view step (ravel) are bystanders of the next writes
        pass

    def close(self):
        self.cm.__exit__()


def check(run):
    steps = ("1:", "::2", "::-1", ":1", "0", "-1", ":,0", ":,1:", "...,0", "1:,:1", "0,...", "new", "p", "c", "n", "T", "ravel", "reshape",
             "copy", "squeeze", "view", "as_vec")
    cases = []
    depth = run.q(2, 3)
    for kind in arrays.KINDS:
        with tracking(None):
            a = np.ndarray.view(arrays.make(kind), np.ndarray)
        for names in arrays.chains(a, depth, steps):
            keys = TARGETS + list(arrays.INPLACE)
            if len(names) >= 2:
                keys = [k for k in keys if k in ("all", "0", "-1", "1:", "::2", "...,0", "p", "n", "mask", "@x", "@yx", "+=", "/=")]
            if len(names) >= 3:
                keys = [k for k in keys if k in ("all", "0", "1:", "...,0", "p", "@x", "+=")]
            for k in keys:
                if applicable(kind, names, k):
                    for vk in (("scalar", "items", "reversed") if not (k.startswith("@") or k in arrays.INPLACE) and len(names) < 2 else ("items",)):
                        cases.append((kind, names, k, vk))
    run.bounds["single"] = ("%d array kinds; every applicable view chain of depth <= %d over %d view steps; %d assignment targets; in-place operations"
                            % (len(arrays.KINDS), depth, len(steps), len(TARGETS)))
    run.cases("one-assignment", cases, single)
    cases = []
    few = ("line", "table", "vec3", "struct", "viewed part", "mat2", "fortran", "single vec3") if not run.thorough else arrays.KINDS
    for kind in few:
        with tracking(None):
            a = np.ndarray.view(arrays.make(kind), np.ndarray)
        ws = [(n, k) for n in arrays.chains(a, 1, ("1:", "::2", "0", ":,0", "p", "T", "view", "as_vec") if not run.thorough else steps)
              for k in ("all", "0", "-1", "1:", "::2", "...,0", ":,1:", "p", "n", "mask", "@x", "@yx", "+=") if applicable(kind, n, k)]
        cases += [(kind, x, y) for x in ws for y in ws]
    run.bounds["pairs"] = "every ordered pair of assignments through views of depth <= 1"
    run.cases("pairs", cases, double)
    d = run.q(4, 5)
    for kind in (("vec4", "struct", "line") if not run.thorough else ("vec4", "struct", "line", "table", "viewed part", "mat2")):
        cls = type("Held_" + kind, (Held,), {"kind": kind})
        run.bounds["held"] = "all histories of <= %d operations making and keeping up to 2 views and writing through any of them" % d
        run.explore("held-views-" + kind, cls, d, max_states=run.q(10000, 100000))
