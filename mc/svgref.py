"""Reference outlines: SVG path commands (as data, not text) turned into segments, and back into spellings."""
import math
import numpy as np
from mc.core import expect


def arc(start, rx, ry, phi, large, sweep, end):
    """Ellipse of an arc: radii, rotation, centre, start angle and signed extent (radians)."""
    rx, ry = abs(rx), abs(ry)
    p = math.radians(phi)
    R = np.array([[math.cos(p), math.sin(p)], [-math.sin(p), math.cos(p)]])
    a, b = (R @ np.array(q) / (rx, ry) for q in (start, end))
    half = np.linalg.norm(b - a) / 2
    if half > 1:
        rx, ry = rx * half, ry * half
        a, b = a / half, b / half
        half = 1.0
    mid, d = (a + b) / 2, (b - a) / np.linalg.norm(b - a)
    h = math.sqrt(max(0, 1 - half * half))
    for s in (1, -1):
        c = mid + s * h * np.array([-d[1], d[0]])
        t1, t2 = (math.atan2(*(q - c)[::-1]) for q in (a, b))
        ext = (t2 - t1) % (2 * math.pi)
        if not sweep:
            ext -= 2 * math.pi
        if h < 1e-6 or (abs(ext) > math.pi) == bool(large):
            break
    return rx, ry, p, np.linalg.inv(R) @ (c * (rx, ry)), t1, ext


def segments(commands):
    """Outline of a sequence of (letter, parameters): list of (kind, points...)."""
    out = []
    cur = start = np.zeros(2)
    cubic = quad = None
    for letter, p in commands:
        rel = letter.islower()
        k = letter.upper()
        P = [np.array(p[i:i + 2], float) + (cur if rel else 0) for i in range(0, len(p) - len(p) % 2, 2)] if k not in "HVAZ" else None
        c2 = q2 = None
        if k == "M":
            cur = start = P[0]
            out.append(("move", cur))
        elif k == "Z":
            out.append(("close", cur, start))
            cur = start
        elif k in "LHV":
            if k == "L":
                end = P[0]
            elif k == "H":
                end = np.array([p[0] + (cur[0] if rel else 0), cur[1]], float)
            else:
                end = np.array([cur[0], p[0] + (cur[1] if rel else 0)], float)
            out.append(("line", cur, end))
            cur = end
        elif k in "CS":
            first = P[0] if k == "C" else 2 * cur - cubic if cubic is not None else cur
            second, end = P[-2:]
            out.append(("cubic", cur, first, second, end))
            cur, c2 = end, second
        elif k in "QT":
            ctrl = P[0] if k == "Q" else 2 * cur - quad if quad is not None else cur
            out.append(("quad", cur, ctrl, P[-1]))
            cur, q2 = P[-1], ctrl
        elif k == "A":
            rx, ry, phi, large, sweep = p[:5]
            end = np.array(p[5:7], float) + (cur if rel else 0)
            if np.array_equal(cur, end):
                pass
            elif rx == 0 or ry == 0:
                out.append(("line", cur, end))
            else:
                out.append(("arc", cur, (rx, ry, phi, large, sweep), end))
            cur = end
        cubic, quad = c2, q2
    return out


def decode(path):
    """Segments of a matplotlib path."""
    out = []
    V = np.asarray(path.vertices, float)
    C = np.asarray(path.codes)
    expect(len(V) == len(C), "%d vertices and %d codes", len(V), len(C))
    i = 0
    cur = start = None
    while i < len(C):
        c = C[i]
        if c == 1:
            cur = start = V[i]
            out.append(("move", cur))
            i += 1
        elif c == 2:
            out.append(("line", cur, V[i]))
            cur = V[i]
            i += 1
        elif c == 3:
            expect(i + 1 < len(C) and C[i + 1] == 3, "incomplete quadratic curve")
            out.append(("quad", cur, V[i], V[i + 1]))
            cur = V[i + 1]
            i += 2
        elif c == 4:
            expect(i + 2 < len(C) and C[i + 1] == C[i + 2] == 4, "incomplete cubic curve")
            out.append(("cubic", cur, V[i], V[i + 1], V[i + 2]))
            cur = V[i + 2]
            i += 3
        elif c == 79:
            out.append(("close", cur, start))
            cur = start
            i += 1
        else:
            expect(False, "code %s", c)
    return out


def number(v, style):
    v = float(v)
    if style == "exp":
        return "%se%+d" % (repr(v / 10), 1)
    if style == "EXP":
        return "%sE%d" % (repr(v * 100), -2)
    if style == "Exp":
        return "%sE01" % short(v / 10)
    if style == "plus" and v >= 0:
        return "+" + short(v)
    return short(v)


def short(v):
    s = repr(int(v)) if v == int(v) else repr(float(v))
    return s


def spell(commands, style):
    """Text of a sequence of commands in one of several styles."""
    out = ""
    prev, before = None, ("", False)
    for letter, p in commands:
        implied = prev is not None and style in ("implicit", "compact") and p and (letter == prev if prev not in "Mm" else letter == ("L" if prev == "M" else "l"))
        nums = []
        for i, v in enumerate(p):
            flag = letter in "Aa" and i in (3, 4)
            nums.append((str(int(v)) if flag else number(v, style), flag))
        if style == "compact":
            # separators only where two numbers would run together
            out += "" if implied else letter
            for j, (n, flag) in enumerate(nums):
                n = "-" + n[2:] if n.startswith("-0.") else n[1:] if n.startswith("0.") else n
                first = j == 0 and not implied
                apart = not first and not (before[1] or n[0] == "-" or (n[0] == "." and "." in before[0]))
                out += (" " if apart else "") + n
                before = (n, flag)
        else:
            sep = {"spaces": " ", "commas": ",", "lines": "\n\t ", "implicit": " , ", "exp": " ", "EXP": ",", "Exp": "\r\n", "plus": ",", "tight": ","}[style]
            body = sep.join(n for n, _ in nums)
            out += (" " if implied else " " + letter + ("" if style in ("tight", "commas") else " ")) + body
        prev = letter
    return out


STYLES = ("spaces", "commas", "lines", "implicit", "exp", "EXP", "Exp", "plus", "tight", "compact")


FRAME = [("M", (-100, -100)), ("L", (100, 100))]


def compare(path, commands, what):
    """The path is the outline of the commands, normalised (fitted in the unit square, y upward).

    Commands with arcs start with the FRAME, which determines the normalisation."""
    want = segments(commands)
    V = np.asarray(path.vertices, float) * (1, -1)
    expect(np.all(np.isfinite(V)), "%s: vertices %s", what, V.tolist())
    expect(abs(V.min() + .5) < 1e-9 and abs(V.max() - .5) < 1e-9, "%s: not fitted in the unit square: %s..%s", what, V.min(), V.max())
    A = np.array([p for s in want for p in s[1:] if not isinstance(p, tuple)])
    lo, hi = A.min(), A.max()
    back = lambda q: (np.asarray(q) * (1, -1) + .5) * (hi - lo) + lo
    got = [(s[0],) + tuple(back(p) for p in s[1:]) for s in decode(path)]
    tol = 1e-6 * (hi - lo)
    i = 0

    def at(p, q):
        expect(np.allclose(p, q, atol=tol), "%s: goes through %s instead of %s", what, np.round(q, 4).tolist(), np.asarray(p).tolist())

    for s in want:
        kind = got[i][0] if i < len(got) else "nothing"
        if s[0] == "arc":
            # an arc may be joined by a line without length
            if kind == "line" and np.allclose(got[i][1], got[i][2], atol=tol):
                i += 1
            i = follow(got, i, s, what, at)
        elif s[0] == "close":
            # the closing line may be spelt out
            if kind == "line" and i + 1 < len(got) and got[i + 1][0] == "close":
                at(s[1], got[i][1])
                at(s[2], got[i][2])
                i += 1
                at(s[2], got[i][1])
                at(s[2], got[i][2])
            else:
                expect(kind == "close", "%s: %s where a closing is expected", what, kind)
                at(s[1], got[i][1])
                at(s[2], got[i][2])
            i += 1
        else:
            expect(kind == s[0], "%s: %s where a %s is expected", what, kind, s[0])
            for p, q in zip(s[1:], got[i][1:]):
                at(p, q)
            i += 1
    expect(i == len(got), "%s: %d segments too many", what, len(got) - i)
    return len(got)


def follow(got, i, s, what, at):
    """Follows the pieces of an arc along its ellipse; index of what comes after."""
    rx, ry, phi, c, t1, ext = arc(s[1], *s[2], s[3])
    R = np.array([[math.cos(phi), math.sin(phi)], [-math.sin(phi), math.cos(phi)]])
    at(s[1], got[i][1] if i < len(got) else (np.nan, np.nan))
    prev, total = t1, 0.0
    while abs(total) < abs(ext) - 1e-2:
        expect(i < len(got) and got[i][0] in ("cubic", "quad", "line"), "%s: the arc stops after %s of %s degrees", what, math.degrees(total), math.degrees(ext))
        expect(got[i][0] != "line", "%s: a line where an arc is expected", what)
        P = got[i][1:]
        if len(P) == 3:
            P = (P[0], P[0] + (P[1] - P[0]) * 2 / 3, P[2] + (P[1] - P[2]) * 2 / 3, P[2])
        for t in np.linspace(0, 1, 9):
            b = (1 - t) ** 3 * P[0] + 3 * t * (1 - t) ** 2 * P[1] + 3 * t * t * (1 - t) * P[2] + t ** 3 * P[3]
            q = R @ (b - c) / (rx, ry)
            expect(abs(np.linalg.norm(q) - 1) < 5e-3, "%s: the arc leaves its ellipse by %s", what, np.linalg.norm(q) - 1)
            ang = math.atan2(q[1], q[0])
            step = (ang - prev + math.pi) % (2 * math.pi) - math.pi
            expect(step * (1 if ext > 0 else -1) > -1e-3, "%s: the arc turns the wrong way", what)
            total += step
            prev = ang
        i += 1
    expect(abs(total - ext) < 1e-2, "%s: the arc extends over %s degrees instead of %s", what, math.degrees(total), math.degrees(ext))
    at(s[3], got[i - 1][-1])
    return i
