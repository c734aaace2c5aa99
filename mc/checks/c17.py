"""C17: projection, view and model matrices map points as documented."""
import itertools, math
import numpy as np
import gsp_matplotlib
from gsp_matplotlib import glm
from gsp_matplotlib.glm import glm as G
from mc.core import expect

POINTS = np.array(list(itertools.product((-1.5, 0, 1, 2.25), repeat=3)), float)
TYPES = ("float32", "float64")


def tol(dt, scale=1.0):
    return (2e-5 if dt == "float32" else 1e-9) * max(1.0, scale)


def apply(M, P, divide=False):
    """Column-vector convention."""
    P4 = np.concatenate([P, np.ones((len(P), 1))], axis=1)
    R = P4 @ np.asarray(M, float).T
    if divide:
        return R[:, :3] / R[:, 3:]
    return R[:, :3]


def same(a, b, eps, fmt, *args):
    a, b = np.asarray(a, float), np.asarray(b, float)
    expect(a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= eps + 1e-5 * (eps > 1e-6) * np.abs(b)),
           fmt + ":\n%s\ninstead of\n%s", *(args + (a, b)))


def both(f, args, dt):
    """The matrix; the transpose option gives exactly its transpose."""
    keep = [np.array(a) if isinstance(a, np.ndarray) else a for a in args]
    M = f(*args, dtype=np.dtype(dt))
    T = f(*args, dtype=np.dtype(dt), transpose=True)
    expect(M.shape == (4, 4) and M.dtype == np.dtype(dt), "shape %s and type %s", M.shape, M.dtype)
    expect(T.shape == (4, 4) and T.dtype == np.dtype(dt) and np.array_equal(T, M.T), "the transpose option gives\n%s\nfor\n%s", T, M)
    D = f(*args)
    expect(np.array_equal(D, f(*args, dtype=np.float32)), "the default type is not float32")
    for a, b in zip(args, keep):
        if isinstance(a, np.ndarray):
            expect(np.array_equal(a, b), "an argument is modified")
    return M


def vector(v, form):
    return {"tuple": tuple(v), "list": list(v), "array": np.array(v, float), "ints": tuple(v)}[form]


def rodrigues(theta, axis, P):
    """Right-hand rotation of points about an axis."""
    t = math.radians(theta)
    n = np.array(axis, float) / np.linalg.norm(axis)
    return P * math.cos(t) + np.cross(n, P) * math.sin(t) + np.outer(P @ n, n) * (1 - math.cos(t))


def proper(R, eps, what):
    R = np.asarray(R, float)[:3, :3]
    same(R @ R.T, np.eye(3), eps, "%s is not orthogonal", what)
    expect(abs(np.linalg.det(R) - 1) < eps * 4, "%s has determinant %g", what, np.linalg.det(R))


def affine(M, what):
    expect(np.array_equal(np.asarray(M)[3], [0, 0, 0, 1]), "%s: last row is %s", what, np.asarray(M)[3])


def model(case):
    name, arg, dt, form = case
    if name == "scale":
        M = both(glm.scale, (vector(arg, form),), dt)
        same(apply(M, POINTS), POINTS * np.array(arg), tol(dt, max(map(abs, arg)) + 9), "scale %s", arg)
        expect(np.allclose(np.diag(M)[:3], arg, rtol=1e-6, atol=0), "scale %s gives %s", arg, np.diag(M))
        affine(M, "scale")
    elif name == "translate":
        M = both(glm.translate, (vector(arg, form),), dt)
        same(apply(M, POINTS), POINTS + np.array(arg), tol(dt, max(map(abs, arg)) + 9), "translate %s", arg)
        expect(np.allclose(np.asarray(M)[:3, 3], arg, rtol=1e-6, atol=0), "translate %s gives %s", arg, np.asarray(M)[:3, 3])
        affine(M, "translate")
    elif name in ("xrotate", "yrotate", "zrotate"):
        M = both(getattr(glm, name), (arg,), dt)
        same(apply(M, POINTS), rodrigues(arg, np.eye(3)["xyz".index(name[0])], POINTS), tol(dt), "%s %s", name, arg)
        affine(M, name)
        proper(M, tol(dt), name)
        if arg == 0:
            same(getattr(glm, name)(), np.eye(4), 1e-7, "%s by default", name)
    else:
        theta, axis = arg
        M = both(glm.rotate, (theta, vector(axis, form)), dt)
        same(apply(M, POINTS), rodrigues(theta, axis, POINTS), tol(dt), "rotate %s about %s", theta, axis)
        affine(M, name)
        proper(M, tol(dt), name)
    return (name, str(arg), dt)


def product(case):
    """Products of model matrices apply the right-most one first."""
    ops, dt = case
    M = np.eye(4)
    P = POINTS
    for o in reversed(ops):
        P = {"sx": lambda P: P * [2, 1, .5], "t": lambda P: P + [1, -2, .5], "rx": lambda P: rodrigues(90, (1, 0, 0), P),
             "ry": lambda P: rodrigues(-30, (0, 1, 0), P), "rz": lambda P: rodrigues(200, (0, 0, 1), P), "ra": lambda P: rodrigues(60, (1, 1, 0), P)}[o](P)
    f = {"sx": lambda **k: glm.scale((2, 1, .5), **k), "t": lambda **k: glm.translate((1, -2, .5), **k), "rx": lambda **k: glm.xrotate(90, **k),
         "ry": lambda **k: glm.yrotate(-30, **k), "rz": lambda **k: glm.zrotate(200, **k), "ra": lambda **k: glm.rotate(60, (1, 1, 0), **k)}
    M = np.linalg.multi_dot([f[o](dtype=np.dtype(dt)) for o in ops]) if len(ops) > 1 else f[ops[0]](dtype=np.dtype(dt))
    T = np.linalg.multi_dot([f[o](dtype=np.dtype(dt), transpose=True) for o in reversed(ops)]) if len(ops) > 1 else f[ops[0]](dtype=np.dtype(dt), transpose=True)
    same(apply(M, POINTS), P, tol(dt, 30), "product %s", ops)
    same(T.T, M, tol(dt, 10), "product of transposes %s", ops)
    return str(case)


def lookat(case):
    eye, center, up, dt, form = case
    d = np.array(center, float) - np.array(eye, float)
    if not d.any():
        return "no direction"
    M = both(glm.lookat, (vector(eye, form), vector(center, form), vector(up, form)), dt)
    dist = np.linalg.norm(d)
    got = apply(M, np.array([eye, center], float))
    same(got, [[0, 0, 0], [0, 0, -dist]], tol(dt, 20), "lookat %s %s %s maps the eye and the center", eye, center, up)
    affine(M, "lookat")
    if np.linalg.norm(np.cross(d, up)) > 1e-9:
        proper(M, tol(dt), "lookat")
        # the up direction shows upwards, in the plane x=0
        u = apply(M, np.array([np.array(eye, float) + np.array(up, float)]))[0]
        expect(abs(u[0]) < tol(dt, 20) and u[1] > 0, "the up direction is mapped to %s", u)
    return (eye, center, up)


def volume(case):
    name, l, r, b, t, n, f, dt = case
    if name == "ortho":
        M = both(glm.ortho, (l, r, b, t, n, f), dt)
        corner = lambda x, y, z: (x, y, -z)
    else:
        M = both(glm.frustum, (l, r, b, t, n, f), dt)
        corner = lambda x, y, z: (x * z / n, y * z / n, -z)
    P, Q = [], []
    for (x, cx), (y, cy), (z, cz) in itertools.product(((l, -1), (r, 1), ((l + r) / 2, 0)), ((b, -1), (t, 1), ((b + t) / 2, 0)), ((n, -1), (f, 1))):
        P.append(corner(x, y, z))
        Q.append((cx, cy, cz))
    got = apply(M, np.array(P, float), divide=True)
    same(got, Q, tol(dt, 20), "%s%s maps the corners of its volume", name, (l, r, b, t, n, f))
    if name == "ortho":
        affine(M, name)
    else:
        expect(np.array_equal(np.asarray(M)[3], [0, 0, -1, 0]), "frustum: last row is %s", np.asarray(M)[3])
    return str(case)


def perspective(case):
    fovy, aspect, n, f, dt = case
    M = both(glm.perspective, (fovy, aspect, n, f), dt)
    h = math.tan(math.radians(fovy) / 2)
    P, Q = [], []
    for cx, cy, (z, cz) in itertools.product((-1, 0, 1), (-1, 0, 1), ((n, -1), (f, 1))):
        P.append((cx * h * aspect * z, cy * h * z, -z))
        Q.append((cx, cy, cz))
    same(apply(M, np.array(P), divide=True), Q, tol(dt, 20), "perspective%s maps the corners of its volume", case)
    return str(case)


def viewport(case):
    x, y, w, h, d, dt = case
    M = both(glm.viewport, (x, y, w, h, d), dt)
    P = np.array(list(itertools.product((-1, 0, 1), repeat=3)), float)
    same(apply(M, P), np.stack([x + (P[:, 0] + 1) * w / 2, y + (P[:, 1] + 1) * h / 2, (P[:, 2] + 1) * d / 2], axis=1), tol(dt, 2000),
         "viewport%s", case)
    affine(M, "viewport")
    return str(case)


def align(case):
    U, V, form, dt = case
    M = both(glm.align, (vector(U, form), vector(V, form)), dt)
    u, v = np.array(U, float) / np.linalg.norm(U), np.array(V, float) / np.linalg.norm(V)
    same(apply(M, u[None])[0], v, tol(dt, 3), "align %s to %s maps the first", U, V)
    proper(M, tol(dt, 3), "align %s to %s" % (U, V))
    affine(M, "align")
    # the shortest rotation
    angle = math.acos(max(-1, min(1, (np.trace(np.asarray(M, float)[:3, :3]) - 1) / 2)))
    expect(abs(angle - math.acos(max(-1, min(1, u @ v)))) < 5e-3, "align %s to %s turns by %g", U, V, angle)
    return (U, V)


def camera(case):
    xr, yr, zoom, mode = case
    M = glm.camera(xr, yr, zoom, mode) if mode else glm.camera(xr, yr, zoom)
    cx, cy, z = min(max(xr, 0), 90), min(max(yr, 0), 90), max(0.1, zoom)
    P = POINTS / 3
    Q = rodrigues(cx, (1, 0, 0), rodrigues(cy, (0, 1, 0), P)) * z + [0, 0, -4.5]
    if mode == "ortho":
        Q = np.stack([Q[:, 0], Q[:, 1], -(2 * Q[:, 2] + 101) / 99], axis=1)
    else:
        h = math.tan(math.radians(25) / 2)
        W = -Q[:, 2]
        ok = np.abs(W) > .5
        P, Q, W = P[ok], Q[ok], W[ok]
        Q = np.stack([Q[:, 0] / W / h, Q[:, 1] / W / h, (101 / 99 * W - 200 / 99) / W], axis=1)
    same(apply(M, P, divide=True), Q, 2e-3, "camera%s", case)
    return str(case)


def small(case):
    """normalize, clamp and front/back facing triangles."""
    name = case[0]
    if name == "normalize":
        V = np.array(case[1], float)
        keep = V.copy()
        R = np.asarray(G.normalize(V if case[2] == "array" else case[1]))
        n = np.sqrt((V ** 2).sum(axis=-1))[..., None]
        same(R, np.where(n > 0, V / np.where(n > 0, n, 1), 0), 1e-9, "normalize %s", case[1])
        expect(np.array_equal(V, keep), "the argument is modified")
    elif name == "clamp":
        _, v, a, b = case
        R = G.clamp(np.array(v, float), a, b) if (a, b) != (0, 1) else G.clamp(np.array(v, float))
        same(R, [min(max(x, a), b) for x in v], 1e-12, "clamp %s", v)
    else:
        T = np.array(case[1], float).reshape(-1, 3, 2)
        front, back = G.frontback(T)
        area = (T[:, 1, 0] - T[:, 0, 0]) * (T[:, 2, 1] - T[:, 0, 1]) - (T[:, 2, 0] - T[:, 0, 0]) * (T[:, 1, 1] - T[:, 0, 1])
        # counter-clockwise triangles face the front
        expect(list(front) == [a > 0 for a in area] and list(back) == [not a > 0 for a in area], "%s: front %s back %s, areas %s", case[1], front, back, area)
    return str(case)


INTS = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64")


def extremes(dt):
    """Integers of a type: small ones and some near its limits."""
    i = np.iinfo(dt)
    m = min(int(i.max), 2 ** 31 - 1)
    return [v for v in (0, 1, 2, m // 2 + 1, m, -1, -m // 2 - 1, -m) if v >= i.min]


def integers(case):
    """Arguments held by arrays and numbers of any integer type."""
    name, t, vs = case
    a = [np.array(v, t) if isinstance(v, tuple) else np.dtype(t).type(v) for v in vs]
    f = [np.array(v, float) if isinstance(v, tuple) else float(v) for v in vs]
    s = max(1.0, max(np.abs(x).max() for x in f))
    if name == "align":
        M = both(glm.align, a, "float64")
        u, v = (x / np.linalg.norm(x) for x in f)
        same(apply(M, u[None])[0], v, 1e-6, "align %s to %s of %s maps the first", *vs, t)
        proper(M, 1e-6, "align %s to %s of %s" % (*vs, t))
    elif name == "lookat":
        if np.linalg.norm(np.cross(f[1] - f[0], f[2])) < 1e-9:
            return "no direction"
        M = both(glm.lookat, a, "float64")
        same(apply(M, np.array(f[:2])), [[0, 0, 0], [0, 0, -np.linalg.norm(f[1] - f[0])]], 1e-7 * s, "lookat %s %s %s of %s maps the eye and the center", *vs, t)
        proper(M, 1e-6, "lookat")
    elif name == "rotate":
        M = both(lambda x, **kw: glm.rotate(50, x, **kw), a, "float64")
        same(apply(M, POINTS), rodrigues(50, f[0], POINTS), 1e-6, "rotate about %s of %s", vs[0], t)
    elif name == "scale":
        same(apply(both(glm.scale, a, "float64"), POINTS), POINTS * f[0], 1e-7 * s, "scale %s of %s", vs[0], t)
    elif name == "translate":
        same(apply(both(glm.translate, a, "float64"), POINTS), POINTS + f[0], 1e-7 * s, "translate %s of %s", vs[0], t)
    else:
        l, r, b, u, n, z = f
        M = both(getattr(glm, name), a, "float64")
        k = (lambda z: z / n) if name == "frustum" else (lambda z: 1)
        P, Q = [], []
        for (x, cx), (y, cy), (d, cz) in itertools.product(((l, -1), (r, 1)), ((b, -1), (u, 1)), ((n, -1), (z, 1))):
            P.append((x * k(d), y * k(d), -d))
            Q.append((cx, cy, cz))
        same(apply(M, np.array(P), divide=True), Q, 1e-5, "%s%s of %s maps the corners of its volume", name, vs, t)
    return case


def integer_cases(thorough):
    for t in INTS:
        e = extremes(t)
        vec = [v for v in itertools.product(e if thorough else [x for x in e if abs(x) != 2], repeat=3) if any(v)]
        few = vec[::max(1, len(vec) // (40 if thorough else 14))]
        yield from ((n, t, (v,)) for n in ("rotate", "scale", "translate") for v in vec)
        yield from (("align", t, (u, v)) for u in few for v in few)
        yield from (("lookat", t, (u, v, w)) for u in few for v in few if u != v for w in ((0, 0, 1), (0, 1, 0)))
        ranges = [(l, r) for l in e for r in e if l < r]
        ranges = ranges[::max(1, len(ranges) // 8)]
        m = max(e)
        yield from ((n, t, (l, r, b, u, c, d)) for n in ("ortho", "frustum") for l, r in ranges for b, u in ranges for c, d in ((1, 2), (1, min(m, 100)), (2, min(m, 60000))))


def check(run):
    run.bounds["integers"] = "directions, points and ranges held by arrays and numbers of %d integer types, near their limits too" % len(INTS)
    run.cases("integers", list(integer_cases(run.thorough)), integers)
    grid = run.q((-2, -.5, 0, 1, 3), (-3, -2, -.5, 0, .25, 1, 3))
    vec = list(itertools.product(grid, repeat=3))
    angles = sorted(set(list(range(-360, 361, run.q(30, 5))) + [45, 135, -45, 450, 720, 1, 89.5]))
    angles += [s * a for a in (1e-4, 1e-3, .01, .05, .09, .1, .11, .5) for s in (1, -1)] + \
        [m + d for m in (90, 180, -180, 270, 360, 3600) for d in (-.05, -1e-3, 1e-3, .05)]
    vec += [v for v in itertools.product((1e-6, -1e-3, 1, 1e5), repeat=3) if v != (1, 1, 1)]
    axes = [v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)] + [(1, 2, 3), (0, .1, 0), (10, 0, -4), (0, 0, 1e-3), (1e3, 1, 0)]
    forms = ("tuple", "list", "array")
    cases = [(n, v, dt, f) for n in ("scale", "translate") for v in vec for dt in TYPES for f in forms]
    cases += [(n, a, dt, "tuple") for n in ("xrotate", "yrotate", "zrotate") for a in angles for dt in TYPES]
    cases += [("rotate", (a, x), dt, f) for a in angles for x in axes for dt in TYPES for f in forms]
    run.bounds["model"] = "%d vectors; %d angles x %d axes; argument forms; both types; transpose option" % (len(vec), len(angles), len(axes))
    run.cases("model", cases, model)
    ops = ("sx", "t", "rx", "ry", "rz", "ra")
    cases = [(p, dt) for n in range(1, run.q(4, 5)) for p in itertools.product(ops, repeat=n) for dt in TYPES]
    run.cases("products", cases, product)
    pts = list(itertools.product((-2, 0, 1), repeat=3)) if not run.thorough else list(itertools.product((-2, 0, 1, 3.5), repeat=3))
    ups = [(0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 2, 0), (1, 1, 1), (0, -1, 0)]
    cases = [(e, c, u, dt, f) for e in pts for c in pts for u in ups for dt in TYPES for f in (("tuple",) if e[0] else ("tuple", "array"))]
    run.bounds["lookat"] = "%d eyes x %d centers x %d up directions, parallel ones included" % (len(pts), len(pts), len(ups))
    run.cases("lookat", cases, lookat)
    lr = [(-1, 1), (-1, 3), (1, 2), (-4, -1), (0, 5), (2, -1)]
    nf = [(1, 100), (.5, 2), (2, 3)]
    cases = [(n, l, r, b, t, a, z, dt) for n in ("ortho", "frustum") for l, r in lr for b, t in lr for a, z in nf + ([(-1, 1), (0, 5)] if n == "ortho" else []) for dt in TYPES]
    run.bounds["volumes"] = "all pairs of horizontal and vertical ranges out of 6 (asymmetric, one-sided, mirrored) x depth ranges"
    run.cases("volumes", cases, volume)
    cases = [(f, a, n, z, dt) for f in run.q((10, 25, 45, 60, 90, 120), range(5, 176, 5)) for a in (.5, 1, 4 / 3, 3) for n, z in nf for dt in TYPES]
    run.cases("perspective", cases, perspective)
    cases = [(x, y, w, h, d, dt) for x in (0, -10, 100) for y in (0, 7, 200) for w in (1, 64, 640) for h in (1, 48, 480) for d in (1, 2, 100) for dt in TYPES]
    run.cases("viewport", cases, viewport)
    dirs = [v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)] + [(3, 0, 0), (-.1, 0, 0), (1, 2, 3), (-2, -4, -6), (1, 1e-7, 0), (-1, 1e-7, 0), (1, 1e-4, 0), (-1, 1e-4, 0), (-1, 0, 1e-12)]
    if run.thorough:
        dirs += [v for v in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(v) and max(map(abs, v)) == 2]
    cases = [(u, v, f, dt) for u in dirs for v in dirs for f in ("tuple", "array") for dt in TYPES]
    run.bounds["align"] = "all ordered pairs of %d directions: all octants, equal, opposite and nearly so" % len(dirs)
    run.cases("align", cases, align)
    cases = [(x, y, z, m) for x in (-10, 0, 25, 60, 90, 120) for y in (-10, 0, 45, 90, 100) for z in (0, .5, 1, 2) for m in ("perspective", "ortho", None)]
    run.cases("camera", cases, camera)
    cases = [("normalize", v, f) for v in axes + [(0, 0, 0), (0, 3), (3, 4, 0, 0)] for f in ("array", "tuple")]
    cases += [("normalize", w, "array") for w in itertools.product([(1, 2, 2), (0, 0, 0), (0, -3, 4)], repeat=2)]
    cases += [("clamp", v, a, b) for v in itertools.product((-2, 0, .5, 1, 3), repeat=2) for a, b in ((0, 1), (-1, 2), (1, 1))]
    tri = list(itertools.product((0, 1, 2), repeat=6))
    cases += [("facing", t) for t in tri] + [("facing", tri[i] + tri[-i - 1]) for i in range(0, len(tri), 7)]
    run.cases("small", cases, small)
