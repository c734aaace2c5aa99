"""C20: generated shapes and loaded meshes are well-formed and of their documented geometry."""
import collections, itertools, os, shutil, tempfile
import numpy as np
import gsp_matplotlib
from gsp_matplotlib import glm
from gsp_matplotlib.glm import shapes
from mc.core import expect

# (distinct vertices, faces of the solid, edges of the solid, items per listed face, radius, regular)
SOLIDS = dict(cube=(8, 6, 12, 4, None, True), tetrahedron=(4, 4, 6, 3, None, False), octahedron=(6, 8, 12, 3, .5, True),
              dodecahedron=(20, 12, 30, 3, .5, True), icosahedron=(12, 20, 30, 3, .5, True))


def surface(v, f, what):
    """Vertices merged by place, faces without those collapsed to a line, edges."""
    v, f = np.asarray(v), np.asarray(f)
    expect(v.ndim == 2 and v.shape[1] == 3 and np.all(np.isfinite(v)), "%s: vertices %s", what, v.shape)
    expect(f.ndim == 2 and f.dtype.kind in "iu" and f.size, "%s: faces %s %s", what, f.shape, f.dtype)
    expect(f.min() >= 0 and f.max() < len(v), "%s: faces use vertices %d..%d of %d", what, f.min(), f.max(), len(v))
    scale = np.abs(v).max() or 1
    place = {}
    index = [place.setdefault(tuple((np.round(p / scale, 4) + 0.0).tolist()), len(place)) for p in v.astype(float)]
    pts = np.zeros((len(place), 3))
    for i, p in zip(index, v):
        pts[i] = p
    faces = []
    for t in f:
        t = [index[i] for i in t]
        if len(set(t)) == len(t):
            faces.append(t)
        else:
            expect(len(t) == 3 and len(set(t)) == 2, "%s: face %s", what, t)
    edges = collections.Counter(frozenset(e) for t in faces for e in zip(t, t[1:] + t[:1]))
    bad = [sorted(e) for e, n in edges.items() if n != 2]
    expect(not bad, "%s: edges %s are not shared by exactly two faces", what, bad[:5])
    used = set(i for t in faces for i in t)
    expect(len(used) == len(pts), "%s: vertices without face", what)
    expect(len(pts) - len(edges) + len(faces) == 2, "%s: %d vertices, %d edges, %d faces", what, len(pts), len(edges), len(faces))
    # one piece
    reach, todo = set(), [faces[0][0]]
    near = collections.defaultdict(set)
    for e in edges:
        a, b = e
        near[a].add(b)
        near[b].add(a)
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo += near[i]
    expect(reach == used, "%s: in several pieces", what)
    return pts, faces, edges


def planes(pts, faces, what):
    """Convex hull: groups of faces on the same supporting plane."""
    groups = collections.defaultdict(list)
    for t in faces:
        a, b, c = pts[t[:3]]
        n = np.cross(b - a, c - a)
        expect(np.linalg.norm(n) > 1e-9, "%s: flat face %s", what, t)
        n = n / np.linalg.norm(n)
        d = (pts - a) @ n
        tol = 1e-4 * np.abs(pts).max()
        expect(np.all(np.abs(d[t]) < tol), "%s: face %s is not planar", what, t)
        expect(np.all(d < tol) or np.all(d > -tol), "%s: face %s is inside the solid", what, t)
        groups[frozenset(np.flatnonzero(np.abs(d) < tol).tolist())].append(t)
    return groups


def solid(name):
    nv, nf, ne, size, radius, regular = SOLIDS[name]
    v, f = getattr(shapes, name)()
    f = np.asarray(f)
    expect(f.shape[1] == size, "%s: faces of %d vertices", name, f.shape[1])
    pts, faces, edges = surface(v, f, name)
    expect(len(pts) == nv == len(v), "%s: %d vertices, %d distinct", name, len(v), len(pts))
    groups = planes(pts, faces, name)
    expect(len(groups) == nf, "%s: %d faces instead of %d", name, len(groups), nf)
    side = collections.Counter()
    for plane, ts in groups.items():
        count = collections.Counter(frozenset(e) for t in ts for e in zip(t, t[1:] + t[:1]))
        for e, n in count.items():
            if n == 1:
                side[e] += 1
    expect(len(side) == ne and set(side.values()) == {2}, "%s: %d edges instead of %d", name, len(side), ne)
    if radius:
        expect(np.allclose(np.linalg.norm(pts, axis=1), radius, atol=1e-5), "%s: radius %s", name, np.linalg.norm(pts, axis=1))
    lengths = [np.linalg.norm(np.subtract(*pts[list(e)])) for e in side]
    if regular:
        expect(np.allclose(lengths, lengths[0], rtol=1e-4), "%s: edges %s", name, lengths)
        sizes = set(len(p) for p in groups)
        expect(len(sizes) == 1, "%s: faces of %s sides", name, sizes)
    # a new mesh every time: changing one does not change the next
    v[...] = 7
    f[...] = 0
    w, g = getattr(shapes, name)()
    expect(not np.any(np.asarray(w) == 7) and np.any(np.asarray(g)), "%s: the mesh is shared", name)
    return (name, len(pts), len(groups), len(side))


def sphere(case):
    radius, slices, stacks, how = case
    what = "sphere(%s,%s,%s)" % (radius, slices, stacks)
    if how == "named":
        v, f = shapes.sphere(stacks=stacks, radius=radius, slices=slices)
    else:
        v, f = glm.sphere(radius, slices, stacks)
    expect(np.allclose(np.linalg.norm(v, axis=1), radius, rtol=1e-6), "%s: vertices are not on the sphere", what)
    pts, faces, edges = surface(v, f, what)
    expect(len(pts) == slices * (stacks - 1) + 2, "%s: %d distinct vertices", what, len(pts))
    expect(len(faces) == 2 * slices * (stacks - 1), "%s: %d faces", what, len(faces))
    # a ring of `slices` vertices at each of the inner stack angles, with their poles
    z = np.sort(pts[:, 2] / radius)
    want = np.sort(np.concatenate([[1, -1]] + [np.full(slices, np.cos(np.pi * i / stacks)) for i in range(1, stacks)]))
    expect(np.allclose(z, want, atol=1e-4), "%s: heights %s", what, z)
    for i in range(1, stacks):
        ring = pts[np.abs(pts[:, 2] / radius - np.cos(np.pi * i / stacks)) < 1e-4]
        a = np.sort(np.arctan2(ring[:, 0], ring[:, 1]))
        gap = np.diff(np.append(a, a[0] + 2 * np.pi))
        if stacks < 3 or len(ring) == slices:
            expect(np.allclose(gap, 2 * np.pi / slices, atol=1e-3), "%s: ring %d angles %s", what, i, a)
    return (radius, len(pts), len(faces))


def large_sphere(case):
    """Too many faces to look at their surface: every edge is that of two faces, though."""
    radius, slices, stacks, how = case
    v, f = glm.sphere(radius, slices, stacks)
    v, f = np.asarray(v), np.asarray(f).astype(np.int64)
    what = "sphere(%s,%s,%s)" % case[:3]
    expect(np.allclose(np.linalg.norm(v, axis=1), radius, rtol=1e-6), "%s: vertices are not on the sphere", what)
    expect(f.min() >= 0 and f.max() < len(v), "%s: faces use vertices %d..%d of %d", what, f.min(), f.max(), len(v))
    _, index = np.unique(np.round(v / radius, 7) + 0.0, axis=0, return_inverse=True)
    f = index.reshape(-1)[f]
    expect(index.max() + 1 == slices * (stacks - 1) + 2, "%s: %d distinct vertices", what, index.max() + 1)
    f = f[(f[:, 0] != f[:, 1]) & (f[:, 1] != f[:, 2]) & (f[:, 2] != f[:, 0])]
    expect(len(f) == 2 * slices * (stacks - 1), "%s: %d faces", what, len(f))
    e = np.sort(np.concatenate([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]]), axis=1)
    _, count = np.unique(e, axis=0, return_counts=True)
    expect(np.all(count == 2), "%s: %d edges are not shared by exactly two faces", what, (count != 2).sum())
    return case


def large_mesh(case):
    n, at = case
    d = tempfile.mkdtemp(prefix="verif-mesh-")
    faces = [(1, 2, 3), (n - 2, n - 1, n), (n, 1, 65536), (65537, 65538, 2)]
    try:
        path = os.path.join(d, "mesh.obj")
        with open(path, "w") as f:
            v = "".join("v %d %d 0\n" % (i, i * i % 7) for i in range(n))
            t = "".join("f %d %d %d\n" % g for g in faces)
            f.write(v + t if at == "after" else t + v)
        V, F = glm.mesh(path)
    finally:
        shutil.rmtree(d)
    V, F = np.asarray(V), np.asarray(F)
    expect(len(V) == n and F.tolist() == [[i - 1 for i in g] for g in faces], "mesh of %d vertices: %d read, faces %s", n, len(V), F.tolist())
    x = (V[:, 0] - V[0, 0]) * (n - 1) / 2
    expect(np.allclose(x, np.arange(n), atol=1e-3), "mesh of %d vertices: abscissas up to %s", n, x[-1])
    return case


def defaults(case):
    v, f = shapes.sphere(*case)
    w, g = shapes.sphere(*(case + [1.0, 32, 32][len(case):]))
    expect(np.array_equal(v, w) and np.array_equal(f, g), "defaults of sphere%s", case)
    return len(v)


# ---------------------------------------------------------------- fitting and centring
def bbox(P, dtype=float):
    """Bounding boxes of every small set of vertices."""
    V, P = P, np.array(P, dtype)
    before = P.copy()
    what = "of %s (%s)" % (P.tolist(), P.dtype)
    C = np.asarray(glm.center(P))
    expect(np.array_equal(P, before), "centring changed its argument")
    A, P = P, np.array(V, float)
    expect(C.shape == P.shape, "center %s has shape %s", what, C.shape)
    lo, hi = C.min(axis=0), C.max(axis=0)
    expect(np.allclose(lo, -hi), "center %s is in the box %s %s", what, lo, hi)
    expect(np.allclose(C - C[0], P - P[0]), "center %s changes the shape: %s", what, C)
    side = (P.max(axis=0) - P.min(axis=0)).max()
    if side > 0:
        F = np.asarray(glm.fit(A))
        expect(np.array_equal(A, before), "fitting changed its argument")
        lo, hi = F.min(axis=0), F.max(axis=0)
        expect(np.allclose(lo, -hi) and abs((hi - lo).max() - 2) < 1e-9, "fit %s is in the box %s %s", what, lo, hi)
        expect(np.allclose((F - F[0]) * side, (P - P[0]) * 2), "fit %s changes the shape: %s", what, F)
    return np.round(C, 6).tobytes()


def integer_box(case):
    t, P = case
    return bbox(P, t)


def integer_sets():
    for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64"):
        i = np.iinfo(t)
        m = min(int(i.max), 2 ** 31 - 1)
        grid = [v for v in (0, 1, m // 2 + 1, m, -1, -m) if v >= i.min]
        pts = list(itertools.product(grid, repeat=2))
        yield from ((t, [a, b]) for a in pts for b in pts)
        yield from ((t, [a + (3,), b + (0,), c + (1,)]) for a in pts[::2] for b in pts[::3] for c in pts[1::2])


# ---------------------------------------------------------------- mesh files
LINES = {
    "v0": "v 0 0 0", "v1": "v 1.5 -2 0.25", "v2": "v -1e-1  3\t.5", "v3": "v 0 1 2 1.0", "v4": "  v 4 5 6",
    "#": "# v 9 9 9", "#2": "#f 1 2 3", "": "", "  ": "  \t ", "vt": "vt 0.5 0.5", "vn": "vn 0 0 1", "s": "s off", "g": "g group f", "o": "o v",
    "f": "f 1 2 3", "f2": "f  3 1\t2 ", "f/": "f 1/1 2/1 3/1", "f//": "f 1//1 2//1 3//1", "f///": "f 2/1/1 3/1/1 1/1/1", "q": "f 1 2 3 1", "f10": "f 12 3 10", "f-": "f -1 -2 -3", "f-/": "f 1/1 -1/-1 -2/-2", "ft": "f\t3 1 2\t", " f": " f 2 1 3", "vtab": "v\t1 5\t\t-3", "v ": "v 2 2 2 ", "v#": "v 3 -2 1 # f 1 2 3", "vE": "v +1E1 -2.5E-1 3e+0", "v#2": "v 1 3 0.5 1 #"}
VERTEX = {"v0": (0, 0, 0), "v1": (1.5, -2, .25), "v2": (-.1, 3, .5), "v3": (0, 1, 2), "v4": (4, 5, 6), "vtab": (1, 5, -3), "v ": (2, 2, 2), "v#": (3, -2, 1), "vE": (10, -.25, 3), "v#2": (1, 3, .5)}
FACE = {"f": (0, 1, 2), "f2": (2, 0, 1), "f/": (0, 1, 2), "f//": (0, 1, 2), "f///": (1, 2, 0), "q": (0, 1, 2, 0), "f10": (11, 2, 9), "f-": (-1, -2, -3), "f-/": (0, -1, -2), "ft": (2, 0, 1), " f": (1, 0, 2)}


def mesh(case):
    lines, newline, last = case
    d = tempfile.mkdtemp(prefix="verif-mesh-")
    try:
        path = os.path.join(d, "mesh.obj")
        with open(path, "wb") as f:
            f.write((newline.join(LINES[l] for l in lines) + (newline if last else "")).encode())
        V, F = glm.mesh(path)
    finally:
        shutil.rmtree(d)
    want = np.array([VERTEX[l] for l in lines if l in VERTEX], float)
    # negative numbers are relative to the last vertex before the face
    faces = [tuple(i if i >= 0 else sum(l in VERTEX for l in lines[:k]) + i for i in FACE[m]) for k, m in enumerate(lines) if m in FACE]
    V, F = np.asarray(V), np.asarray(F)
    expect(V.shape == want.shape, "%s: vertices %s", lines, V.tolist())
    side = (want.max(axis=0) - want.min(axis=0)).max()
    expect(np.allclose((V - V[0]) * side / 2, want - want[0]), "%s: vertices %s instead of %s", lines, V.tolist(), want.tolist())
    lo, hi = V.min(axis=0), V.max(axis=0)
    expect(np.allclose(lo, -hi) and abs((hi - lo).max() - 2) < 1e-9, "%s: vertices are not fitted: %s", lines, V.tolist())
    expect(F.tolist() == [list(x) for x in faces], "%s: faces %s instead of %s", lines, F.tolist(), faces)
    return (V.tobytes(), F.tobytes())


def meshes(n):
    """All files of n lines with two distinct vertices or more and faces of one size."""
    for lines in itertools.product(sorted(LINES), repeat=n):
        if len(set(l for l in lines if l in VERTEX)) < 2:
            continue
        if len(set(len(FACE[l]) for l in lines if l in FACE)) > 1:
            continue
        # no negative number before the first vertex
        if any(min(FACE[m]) + sum(l in VERTEX for l in lines[:k]) < 0 for k, m in enumerate(lines) if m in FACE and min(FACE[m]) < 0):
            continue
        yield lines


def check(run):
    run.cases("solids", sorted(SOLIDS), solid)
    n = run.q(range(3, 13), range(3, 33))
    m = run.q(range(2, 13), range(2, 33))
    cases = [(r, a, b, h) for a in n for b in m for r in (1.0, .25, 3) for h in ("named", "positional")]
    run.bounds["sphere"] = "every number of slices %d..%d and stacks %d..%d, 3 radii" % (n[0], n[-1], m[0], m[-1])
    run.cases("sphere", cases, sphere)
    big = [(1.0, 300, 225, "positional")] + run.q([], [(3, 1000, 70, "named"), (.5, 40, 1700, "named")])
    run.bounds["large sphere"] = "more vertices than 16 bits can number"
    run.cases("large sphere", big, large_sphere)
    run.cases("large mesh", [(n, at) for n in run.q((70000,), (70000, 300000)) for at in ("before", "after")], large_mesh)
    run.cases("sphere defaults", [[], [2.0], [2.0, 5]], defaults)
    grid = (-2, 0, 1.5) if not run.thorough else (-2, 0, 1.5, 7)
    cloud = list(itertools.product(grid, repeat=3))
    sets = [[p] for p in cloud] + [[a, b] for a in cloud for b in cloud]
    flat = list(itertools.product(grid, repeat=2))
    sets += [[a, b, c] for a in flat for b in flat for c in flat]
    if run.thorough:
        sets += [[a, b, c] for a in cloud[::3] for b in cloud for c in cloud[::2]]
    run.bounds["box"] = "all sets of one and two vertices of a %d^3 grid, of three vertices of a %d^2 grid" % (len(grid), len(grid))
    run.cases("box", sets, bbox)
    run.bounds["integer box"] = "sets of two and three vertices of 7 integer types, near their limits too"
    run.cases("integer box", list(integer_sets()), integer_box)
    files = []
    for k in range(2, run.q(4, 5)):
        files += [(l, nl, last) for l in meshes(k) for nl, last in ((("\n", True), ("\r\n", True), ("\n", False)) if k < 4 else (("\n", True),))]
    same = [p for p in itertools.product(FACE, repeat=2) if len(FACE[p[0]]) == len(FACE[p[1]])]
    files += [(("v0", "v1", "v2", *p, *rest), "\n", True) for p in same for rest in ((), ("v3", p[0]))]
    run.bounds["mesh"] = "files of three vertices and every two faces, the first once more after another vertex; all files up to %d lines over an alphabet of %d lines" % (run.q(3, 4), len(LINES))
    run.cases("mesh", files, mesh)
