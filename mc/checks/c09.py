"""C09: data type descriptions round-trip through their textual form."""
import itertools, json
import numpy as np
import gsp
from gsp.io import convert
from gsp.io.convert import numpy_dtype_to_str, numpy_str_to_dtype
from mc import world
from mc.core import Violation, expect

KINDS = ["b1"] + ["i%d" % n for n in (1, 2, 4, 8)] + ["u%d" % n for n in (1, 2, 4, 8)] + \
        ["f%d" % n for n in (2, 4, 8, 16)] + ["c%d" % n for n in (8, 16, 32)] + \
        ["S%d" % n for n in (1, 2, 7)] + ["U%d" % n for n in (1, 2, 7)] + ["V%d" % n for n in (1, 3)] + \
        ["M8[s]", "M8[D]", "M8[25us]", "m8[ns]", "m8[h]", "M8", "m8"]
ORDERS = ("<", ">", "=", "|")


def scalars():
    out = []
    for k in KINDS:
        for o in ORDERS:
            dt = np.dtype(o + k)
            if dt.str not in [d.str for d in out]:
                out.append(dt)
    return out


def build(spec):
    """JSON-able description of a type -> numpy type."""
    kind = spec[0]
    if kind == "scalar":
        return np.dtype(spec[1])
    if kind == "vector":
        return np.dtype((spec[1], (spec[2],)))
    return np.dtype([(n, t) if c == 1 else (n, t, (c,)) for n, t, c in spec[1]])


def same(a, b):
    if a != b or a.itemsize != b.itemsize or a.names != b.names or a.shape != b.shape or a.str != b.str:
        return False
    if a.names:
        return all(same(a[n], b[n]) and a.fields[n][1] == b.fields[n][1] for n in a.names)
    return a.base == b.base


def describe(spec):
    return numpy_dtype_to_str(build(spec))


def one(spec):
    dt = build(spec)
    text = numpy_dtype_to_str(dt)
    expect(isinstance(text, str), "description %r", text)
    back = numpy_str_to_dtype(text)
    expect(same(back, dt), "%r described as %r reads as %r", dt, text, back)
    expect(numpy_dtype_to_str(back) == text, "%r described again as %r", dt, numpy_dtype_to_str(back))
    expect(numpy_dtype_to_str(build(spec)) == text, "two descriptions of the same type")
    # through the registered conversions
    expect(convert(dt, "str") == text, "converted to %r instead of %r", convert(dt, "str"), text)
    expect(same(convert(text, np.dtype), dt), "%r converted to %r", text, convert(text, np.dtype))
    # data written with a type reads the same with the type described
    raw = bytes((7 * i + 3) % 251 for i in range(dt.itemsize * 2))
    if dt.kind not in "O":
        a = np.frombuffer(raw, dt)
        b = np.frombuffer(raw, numpy_str_to_dtype(text))
        expect(a.shape == b.shape and a.tobytes() == b.tobytes(), "same bytes read differently")
    return text


def plain(case):
    """Descriptions without separators are numpy's own."""
    dt = np.dtype(case[0])
    expect(same(numpy_str_to_dtype(case[0]), dt), "%r reads as %r", case[0], numpy_str_to_dtype(case[0]))
    return case[0]


def stored(spec):
    """A type given to a recorded operation is saved as its description and given back."""
    from gsp.io import json as gjson
    from gsp_matplotlib.core import Buffer
    dt = build(spec)
    q = world.reset()
    b = Buffer(0, dt)
    text = json.loads(gjson.dump(q))["commands"][0]["parameters"]["dtype"]
    expect(same(numpy_str_to_dtype(text), dt), "%r saved as %r", dt, text)
    return text


def all_distinct(case):
    """No two types share a description."""
    seen = {}
    for spec in SPECS:
        t = describe(spec)
        dt = build(spec)
        if t in seen:
            expect(same(build(seen[t]), dt), "%r and %r are both described as %r", build(seen[t]), dt, t)
        seen[t] = spec
    return len(seen)


SPECS = []


def check(run):
    sc = scalars()
    specs = [("scalar", d.str) for d in sc]
    lengths = list(range(2, run.q(12, 40))) + [16, 100, 999, 1000, 65536]
    specs += [("vector", d.str, n) for d in sc for n in sorted(set(lengths))]
    names = ("a", "b", "x y", "é", "1", "count", "f0", "-")
    odd = (" a", "a ", "  ", " ", "\t", "a\n", "A", "a", "<f4", "f4", "(", "[", "]", "'", '"', "\\", ".", "a.b", "a;b", "a|b", "a=b", "None", "0", "-1", "1e3", "\u3042", "\U0001F600", "a" * 300, "%s", "{}", "\u00a0a", "\0", "__x__", "dtype", "str", "e\u0301")
    T = [d.str for d in sc]
    small = ["|b1", "|u1", "<i2", ">i2", "<f4", ">f8", "|S3", "<U2", "<M8[ns]", "<c8"]
    counts = (1, 2, 3) if not run.thorough else (1, 2, 3, 4, 10, 16)
    specs += [("struct", [(n, t, c)]) for n in names for t in T for c in counts + (4, 12)]
    specs += [("struct", [(n, t, c), (m, u, d)]) for n, m in itertools.permutations(names[:4] if not run.thorough else names, 2)
              for t in small for u in small for c in counts for d in counts]
    specs += [("struct", [(n, t, c)]) for n in odd for t in ("<f4", ">i2", "|S3") for c in (1, 3)]
    specs += [("struct", [(n, "<f4", c), (m, "<i2", d)]) for n, m in itertools.permutations(odd, 2) for c in (1, 3) for d in (1, 2)]
    large = (127, 128, 255, 256, 257, 300, 999, 1000, 32768, 65535, 65536, 100000)
    specs += [("struct", [("a", t, c)]) for t in small for c in large]
    specs += [("struct", [("a", t, c), ("b", u, d)]) for t in small[:5] for u in small[:5] for c in large for d in (1, 256)]
    small3 = small if run.thorough else ["|u1", "<i2", ">i2", "<f4", "|S3"]
    specs += [("struct", [(x, t, c), (y, u, d), (z, v, e)]) for x, y, z in (("a", "b", "c"), ("c", "a", "b"), ("x y", "é", "a"))
              for t in small3 for u in small3 for v in small3 for c in counts[:3] for d in counts[:3] for e in counts[:3]]
    if run.thorough:
        specs += [("struct", [("f%d" % i, small[(i * k) % len(small)], 1 + (i * k) % 4) for i in range(n)])
                  for n in range(4, 30) for k in range(1, 20)]
    SPECS[:] = specs
    run.bounds["types"] = ("%d scalar types (every kind, size and byte order, texts, times), vectors of %s items, structures of one to "
                           "three fields with element counts %r" % (len(sc), lengths, counts))
    run.cases("types", specs, one)
    run.cases("distinct", [0], all_distinct)
    run.cases("numpy-descriptions", [(t,) for t in T + ["f4", "int32", "float", "bool", "uint8", ">u2"]], plain)
    run.cases("recorded", [s for i, s in enumerate(specs) if s[0] != "struct" or len(s[1]) == 1 or run.thorough or i % 7 == 0], stored)
