"""C26: SVG path strings become the outline they describe."""
import itertools
import numpy as np
import gsp
from gsp.core.svg import svg_to_path
from mc import svgref
from mc.svgref import FRAME, STYLES, compare, spell
from mc.core import expect

# parameters of the i-th command of a path, in several variants
POINTS = [(3, 4), (-2, 1), (0, 5), (6, -3), (.5, -.25), (-.75, .125), (1, 0), (10, 20), (-7.5, -8), (2, 2)]
FLAT = [v for p in POINTS for v in p]
ARCS = [(5, 5, 0), (4, 2, 30), (1, 1, 0), (3, -8, -45), (.5, 2, 90), (0, 3, 0), (6, 4, 200), (2.5, 0, 10), (-4, 6, 20)]
COUNT = dict(M=2, L=2, H=1, V=1, C=6, S=4, Q=4, T=2, Z=0)
LETTERS = "MmLlHhVvCcSsQqTtAaZz"


def params(letter, i, variant):
    k = letter.upper()
    at = (7 * i + 4 * variant) % len(FLAT)
    at -= at % 2
    take = lambda n: tuple((FLAT + FLAT)[at:at + n])
    if k == "A":
        n = 3 * i + variant
        return ARCS[n % len(ARCS)] + (n // 2 % 2, (n + i + n // 4) % 2) + take(2)
    return take(COUNT[k])


def commands(letters, variant):
    out = [("M" if variant % 2 == 0 else "m", (1, -2) if variant < 2 else (.5, .25))]
    return out + [(l, params(l, i + 1, variant)) for i, l in enumerate(letters)]


def extent(cmds):
    A = [tuple(p) for s in svgref.segments(cmds) for p in s[1:] if not isinstance(p, tuple)]
    return len(set(v for p in A for v in p)) > 1


def one(case):
    letters, variant, style = case
    cmds = commands(letters, variant)
    if "a" in letters or "A" in letters:
        cmds = FRAME + [("M", cmds[0][1])] + cmds[1:]
    text = spell(cmds, style)
    return (letters, variant, compare(svg_to_path(text), cmds, text))


def arcs(case):
    """One arc between any two places with any radii, rotation and flags."""
    rx, ry, phi, large, sweep, end, rel, style = case
    start = (1, 2)
    p = (rx, ry, phi, large, sweep) + (tuple(np.subtract(end, start).tolist()) if rel else end)
    cmds = FRAME + [("M", start), ("a" if rel else "A", p), ("l", (1, 1))]
    text = spell(cmds, style)
    n = compare(svg_to_path(text), cmds, text)
    # alone, it is the same outline fitted in the unit square
    V = np.asarray(svg_to_path(spell(cmds, style)).vertices)[2:]
    W = np.asarray(svg_to_path(spell(cmds[2:], style)).vertices)
    expect(V.shape == W.shape, "%s: %s vertices alone, %s in a frame", text, V.shape, W.shape)
    V = V * (1, -1)
    V = ((V - V.min()) / (V.max() - V.min()) - .5) * (1, -1)
    expect(np.allclose(V, W, atol=1e-9), "%s: alone %s instead of %s", text, W.tolist(), V.tolist())
    return (case[:6], n)


def shifted(case):
    """The same commands give the same outline, whatever was converted before."""
    a, b = case
    t = [spell(commands(l, 0), "spaces") for l in (a, b)]
    first = svg_to_path(t[0])
    v, c = np.array(first.vertices), np.array(first.codes)
    second = svg_to_path(t[1])
    second.vertices[...] = 7
    again = svg_to_path(t[0])
    expect(np.array_equal(first.vertices, v) and np.array_equal(again.vertices, v) and np.array_equal(again.codes, c), "%s changed by %s", t[0], t[1])
    return a


def wrong(case):
    """Numbers without a command (at the start or after a closing) are refused."""
    try:
        p = svg_to_path(case)
    except ValueError:
        return "refused"
    expect(False, "%r is accepted: %s", case, p)


def check(run):
    cases = []
    for n in range(1, run.q(4, 5)):
        for letters in itertools.product(LETTERS, repeat=n):
            letters = "".join(letters)
            if n == 4 and sum(letters.count(c) for c in "Hh") + sum(letters.count(c) for c in "Mm") > 1:
                continue
            for variant in range(4) if n < 3 else (0, 3) if n < 4 else (1,):
                if n <= 2:
                    styles = STYLES
                else:
                    k = sum(map(ord, letters)) + variant
                    styles = (STYLES[k % len(STYLES)], "compact")
                cases += [(letters, variant, s) for s in sorted(set(styles))]
    cases = [c for c in cases if "a" in c[0].lower() or extent(commands(c[0], c[1]))]
    run.bounds["paths"] = "all paths of up to %d commands over the whole alphabet after a move, in up to %d spellings" % (run.q(3, 4), len(STYLES))
    run.cases("paths", cases, one)
    radii = (1, -2.5, 5, 20) if not run.thorough else (.25, 1, -2.5, 4, 5, 20, -3)
    rot = (0, 30, 90, -45) if not run.thorough else (0, 15, 30, 45, 90, 135, 180, 250, -45, 360)
    ends = ((4, 6), (1, 4), (-3, 2), (7, -1), (.5, 1.5)) if not run.thorough else tuple((x, y) for x in (-5, .5, 1, 3, 8) for y in (-3, 1.75, 2, 6) if (x, y) != (1, 2))
    A = [(rx, ry, phi, l, s, e, rel, st) for rx in radii for ry in radii for phi in rot for l in (0, 1) for s in (0, 1) for e in ends for rel in (False, True) for st in ("spaces", "compact")]
    run.bounds["arcs"] = "%d arcs: radii x rotations x flags x ends" % (len(A) // 4)
    run.cases("arcs", A, arcs)
    L = "LlHVCcSqTtz" if not run.thorough else "MmLlHhVvCcSsQqTtZz"
    run.cases("independence", [(a + b, c) for a in L for b in L for c in (a, b, b + a) if extent(commands(a + b, 0)) and extent(commands(c, 0))], shifted)
    run.cases("refused", ["1 2", "1 2 L 3 4", "M 1 2 L 3 4 Z 5 6", "M 1 2 3 4 z 5 6 L 7 8", "m0 0h3z4", "0"], wrong)
