"""C15: component access by letters reads and writes exactly the named components."""
import itertools
import numpy as np
import gsp_matplotlib
from gsp_matplotlib import glm
from mc.arrays import tracking
from mc.core import expect

# kind -> (number of components, maker of an array of n items; None: a single vector)
KINDS = {}
for k in (2, 3, 4):
    for prefix in ("", "d", "i", "b"):
        KINDS["%svec%d" % (prefix, k)] = (k, getattr(glm, "%svec%d" % (prefix, k)))
    as_ = getattr(glm, "as_vec%d" % k)
    KINDS["view of vec%d" % k] = (k, lambda n, m=getattr(glm, "vec%d" % k): m((n or 1) + 2)[1:-1] if n is not None else m(3)[1])
    KINDS["stride of vec%d" % k] = (k, lambda n, m=getattr(glm, "vec%d" % k): m(2 * n)[::2] if n is not None else m(3)[-1])
    KINDS["as_vec%d" % k] = (k, lambda n, k=k, f=as_: f(np.zeros((1 if n is None else n, k))))
    KINDS["fields as_vec%d" % k] = (k, lambda n, k=k, f=as_: f(np.zeros(n or 1, [("a", "u1"), ("p", "f4", k)])["p"]))
    KINDS["rows of vec%d" % k] = (k, lambda n, m=getattr(glm, "vec%d" % k), k=k: m(2 * n).reshape(n, 2, k) if n is not None else m(2).reshape(1, 2, k))
    KINDS["mat%d" % k] = (k, lambda n, m=getattr(glm, "mat%d" % k): m(n))
NAMES = {2: ("xy", "ra"), 3: ("xyz", "rgb"), 4: ("xyzw", "rgba")}
FORMS = ("scalar", "numpy scalar", "tuple", "list", "components", "component tuple", "item", "item column", "rows", "row", "transposed", "own", "own items")


def words(k, length):
    out = []
    for alphabet in NAMES[k]:
        for n in range(1, length + 1):
            out += ["".join(w) for w in itertools.product(alphabet, repeat=n)]
    return out


def index(k, word):
    for alphabet in NAMES[k]:
        if set(word) <= set(alphabet):
            return [alphabet.index(c) for c in word]


def shadow_of(a):
    return np.array(np.ndarray.view(a, np.ndarray))


def make(kind, n):
    k, f = KINDS[kind]
    a = f(n)
    base = np.ndarray.view(a, np.ndarray)
    base[...] = (np.arange(base.size).reshape(base.shape) * 3 + 1) % 100
    return k, a


def supply(form, batch, idx, shadow):
    """(value assigned, values expected for the letters) or None where the form is not defined."""
    n = len(idx)
    N = int(np.prod(batch))
    items = lambda i: (np.arange(N).reshape(batch) * 7 + 50 + i * 20) % 100
    rows = np.stack([items(i) for i in range(n)], axis=-1) if N else np.zeros(tuple(batch) + (n,), int)
    if form == "scalar":
        return 77, [77] * n
    if form == "numpy scalar":
        return np.float64(78), [78] * n
    if form == "tuple":
        return tuple(61 + i for i in range(n)), [61 + i for i in range(n)]
    if form == "list":
        return [61 + i for i in range(n)], [61 + i for i in range(n)]
    if form == "components":        # an array of one value per component
        if (n == N and len(batch)):      # same as one value per item
            return None
        return np.arange(n) + 61, [61 + i for i in range(n)]
    if len(batch) > 1 and form in ("component tuple", "item", "item column", "transposed", "own items"):
        return None
    if form == "component tuple":   # one array of items per component
        if not batch or not N:
            return None
        return tuple(items(i) for i in range(n)), [items(i) for i in range(n)]
    if form == "item":              # one value per item
        if not batch or not N:
            return None
        return items(0), [items(0)] * n
    if form == "item column":
        if not batch or not N:
            return None
        if n == 1 or (N > 1 and n != N):
            return items(0)[:, None], [items(0)] * n
        return None
    if form == "rows":
        return rows, [rows[..., i] for i in range(n)]
    if form == "row":
        if n == N:                  # same as one value per item
            return None
        return (np.arange(n) + 31).reshape((1,) * len(batch) + (n,)), [31 + i for i in range(n)]
    if form == "transposed":
        if not batch or n == N or not N or N == 1 or n == 1:
            return None
        return rows.T, [rows[..., i] for i in range(n)]
    return None


def access(case):
    kind, n, word, form = case
    with tracking(None):
        k, a = make(kind, n)
        idx = index(k, word)
        shadow = shadow_of(a)
        batch = shadow.shape[:-1]
        # reading
        r = getattr(a, word)
        expect(np.array_equal(np.asarray(r), shadow[..., idx]), ".%s reads\n%r\ninstead of\n%r", word, r, shadow[..., idx])
        expect(r.dtype == shadow.dtype, ".%s has type %s", word, r.dtype)
        expect(np.array_equal(shadow_of(a), shadow), "reading .%s changes the array", word)
        # writing
        if form in ("own", "own items"):
            other = word[::-1] if form == "own" else word
            src = index(k, other)
            if form == "own":
                value, values = getattr(a, other), [shadow[..., i].copy() for i in src]
            else:
                if not len(batch):
                    return "not applicable"
                order = [(i + 1) % k for i in range(len(idx))]
                value = tuple(a[..., i] for i in order)
                values = [shadow[..., i].copy() for i in order]
        else:
            s = supply(form, batch, idx, shadow)
            if s is None:
                return "not applicable"
            value, values = s
        keep = np.array(value) if isinstance(value, np.ndarray) else None
        setattr(a, word, value)
        for i, v in zip(idx, values):
            shadow[..., i] = v
        got = shadow_of(a)
        expect(np.array_equal(got, shadow), ".%s = %r gives\n%r\ninstead of\n%r", word, value, got, shadow)
        if keep is not None:
            expect(np.array_equal(keep, np.asarray(value)), "the values are modified")
        expect(np.array_equal(np.asarray(getattr(a, word)), shadow[..., idx]), ".%s does not read back", word)
    return (kind, n, word, form, got.tobytes())


OTHERS = ("q", "xq", "foo", "X", "XY", "x1", "s", "t", "st", "x_", "xr", "ry", "u")


def others(case):
    """Any other attribute name is not a component."""
    kind, n, word = case
    with tracking(None):
        k, a = make(kind, n)
        if any(set(word) <= set(alphabet) for alphabet in NAMES[k]):
            return "letters"
        shadow = shadow_of(a)
        expect(not hasattr(a, word), "attribute %s exists", word)
        try:
            getattr(a, word)
        except AttributeError:
            pass
        setattr(a, word, 5)
        expect(np.array_equal(shadow_of(a), shadow), "setting attribute %s changes the array", word)
        expect(getattr(a, word) == 5, "attribute %s does not read back", word)
        expect(a.shape == shadow.shape and a.T.shape == shadow.T.shape, "ordinary attributes changed")
    return (kind, word)


def double(case):
    """Two writes through letters."""
    kind, n, w1, w2 = case
    with tracking(None):
        k, a = make(kind, n)
        shadow = shadow_of(a)
        for i, w in enumerate((w1, w2, w1)):
            idx = index(k, w)
            src = [(j + 1) % k for j in range(len(w))]
            letters = "".join(NAMES[k][0][j] for j in src)
            setattr(a, w, getattr(a, letters))
            values = [shadow[..., j].copy() for j in src]
            for j, v in zip(idx, values):
                shadow[..., j] = v
            setattr(a, w, tuple(40 + 10 * i + j for j in range(len(w)))) if i == 1 else None
            if i == 1:
                for c, j in enumerate(idx):
                    shadow[..., j] = 40 + 10 * i + c
        got = shadow_of(a)
        expect(np.array_equal(got, shadow), "after .%s then .%s:\n%r\ninstead of\n%r", w1, w2, got, shadow)
    return got.tobytes()


def check(run):
    counts = (None, 0, 1, 2, 3, 4, 5)
    cases = []
    for kind, (k, f) in KINDS.items():
        ws = words(k, 3 if not run.thorough else 4)
        if not run.thorough:
            ws += ["".join(w) for a in NAMES[k] if len(a) == 4 for w in itertools.permutations(a)]
            if not kind.startswith("vec"):
                ws = [w for w in ws if len(set(w)) == len(w)]
        for n in counts:
            if kind.startswith(("as_", "fields", "stride", "view", "rows")) and n == 0:
                continue
            for w in ws:
                for form in FORMS:
                    cases.append((kind, n, w, form))
    run.bounds["access"] = "%d vector kinds x {single, 0..5 items} x letters of both alphabets up to length %s x %d value forms" % (
        len(KINDS), "3 and all permutations of 4" if not run.thorough else "4", len(FORMS))
    run.cases("access", cases, access)
    mixed = ["".join(w) for l in (1, 2, 3) for w in itertools.product("xyzwrgba", repeat=l)]
    run.bounds["others"] = "%d names that are no letters, and every word of length <= 3 over all eight letters that mixes the alphabets or is beyond the number of components" % len(OTHERS)
    run.cases("others", [(kind, n, w) for kind in KINDS for n in (None, 3) for w in OTHERS + tuple(mixed if kind.startswith(("vec", "mat")) or run.thorough else mixed[:72])], others)
    cases = []
    for kind in ("vec2", "vec3", "vec4", "view of vec3", "dvec4"):
        k = KINDS[kind][0]
        ws = words(k, 2) + [a[::-1] for a in NAMES[k]]
        cases += [(kind, n, x, y) for n in (None, 1, 2, 3, 4) for x in ws for y in ws]
    run.bounds["double"] = "all ordered pairs of letter writes of length <= 2"
    run.cases("double", cases, double)
