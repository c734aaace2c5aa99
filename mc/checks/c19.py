"""C19: the trackball always yields a rotation and reports the angles it was set to."""
import itertools, math
import numpy as np
import gsp_matplotlib
from gsp_matplotlib.glm import Trackball
from mc.core import System, expect

SIZE = 0.8


def rx(t):
    c, s = math.cos(math.radians(t)), math.sin(math.radians(t))
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def rz(t):
    c, s = math.cos(math.radians(t)), math.sin(math.radians(t))
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def height(x, y):
    d = math.sqrt(x * x + y * y)
    return math.sqrt(SIZE * SIZE - d * d) if d < SIZE * math.sqrt(.5) else SIZE * SIZE / 2 / d


def drag(x, y, dx, dy):
    """Rotation of a drag: about the axis orthogonal to both points of the deformed ball."""
    if not dx and not dy:
        return np.eye(3)
    a = np.array([x, y, height(x, y)])
    b = np.array([x + dx, y + dy, height(x + dx, y + dy)])
    n = np.cross(b, a)
    n = n / np.linalg.norm(n)
    t = 2 * math.asin(min(1, np.linalg.norm(a - b) / (2 * SIZE)))
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K


def same_angle(a, b):
    return abs((a - b + 180) % 360 - 180) < 1e-6


def check_model(t, R, what):
    M = np.asarray(t.model, float)
    expect(M.shape == (4, 4) and np.all(np.isfinite(M)), "%s: the model is\n%s", what, M)
    expect(np.array_equal(M[3], [0, 0, 0, 1]) and np.array_equal(M[:, 3], [0, 0, 0, 1]), "%s: the model is not a rotation:\n%s", what, M)
    expect(np.all(np.abs(M[:3, :3] @ M[:3, :3].T - np.eye(3)) < 1e-5) and abs(np.linalg.det(M[:3, :3]) - 1) < 1e-5, "%s: the model is not a rotation:\n%s", what, M)
    if R is not None:
        expect(np.all(np.abs(M[:3, :3] - R) < 1e-5), "%s: the model is\n%s\ninstead of\n%s", what, M[:3, :3], R)


ANGLES = (0, 30, 45, 90, 135, 180, 200, 270, 359, 360, 400, -30, -90, -120, -180, -270, 725)


def angles(case):
    """Angles given at creation and set in any order."""
    theta, phi, t2, p2, order = case
    t = Trackball(theta, phi)
    check_model(t, rz(phi) @ rx(theta), "Trackball(%s,%s)" % (theta, phi))
    expect(same_angle(t.theta, theta) and same_angle(t.phi, phi), "Trackball(%s,%s) reads as %s, %s", theta, phi, t.theta, t.phi)
    for o in order:
        if o == "t":
            t.theta = theta = t2
        else:
            t.phi = phi = p2
        check_model(t, rz(phi) @ rx(theta), "%s" % (case,))
        expect(same_angle(t.theta, theta), "theta set to %s reads %s (phi %s)", theta, t.theta, phi)
        expect(same_angle(t.phi, phi), "phi set to %s reads %s (theta %s)", phi, t.phi, theta)
    return (theta, phi)


def drags(case):
    """Two drags from an orientation: they compose, and can be undone."""
    theta, phi, d1, d2 = case
    t = Trackball(theta, phi)
    R = rz(phi) @ rx(theta)
    for d in (d1, d2):
        t.drag_to(*d)
        R = R @ drag(*d)
        check_model(t, R, "after %s" % (case,))
    for d in (d2, d1):
        t.drag_to(d[0] + d[2], d[1] + d[3], -d[2], -d[3])
        R = R @ drag(*d).T
        check_model(t, R, "after undoing %s" % (case,))
    check_model(t, rz(phi) @ rx(theta), "after undoing all of %s" % (case,))
    return str(case)


def long(case):
    """Long repetitions: the orientation stays a rotation and does not drift."""
    d1, d2, n = case
    t = Trackball()
    R = np.eye(3)
    for i in range(n):
        d = d1 if i % 3 else d2
        t.drag_to(*d)
        R = R @ drag(*d)
        check_model(t, R, "after %d drags %s" % (i + 1, case))
    return np.round(R, 3).tobytes()


class Histories(System):
    drags = ((0, 0, .2, 0), (.3, -.2, -.5, .4), (.9, .9, .3, -.8), (0, .5, 0, 0), (-.7, 0, 1.9, .1), (0, 0, 0, -.1))
    angles = (0, 40, 100, -150)

    def __init__(self):
        self.t = Trackball(20, -50)
        self.R = rz(-50) @ rx(20)
        self.history = []
        self.pure = [20, -50]       # the angles, when the orientation was given by angles

    def ops(self):
        return [("drag",) + d for d in self.drags] + [("theta", a) for a in self.angles] + [("phi", a) for a in self.angles] + [("read",), ("restart", 70, 10)]

    def do(self, op):
        self.step(op)
        self.history.append(op)

    def step(self, op):
        t = self.t
        if op[0] == "drag":
            t.drag_to(*op[1:])
            self.R = self.R @ drag(*op[1:])
            if op[3] or op[4]:
                self.pure = None
        elif op[0] == "read":
            t.theta, t.phi, t.model
        elif op[0] == "restart":
            self.t = Trackball(*op[1:])
            self.pure = list(op[1:])
            self.R = rz(op[2]) @ rx(op[1])
        else:
            other = "phi" if op[0] == "theta" else "theta"
            before = self.pure["theta phi".split().index(other)] if self.pure else self.angle_before(other)
            setattr(t, op[0], op[1])
            self.pure = [op[1], before] if op[0] == "theta" else [before, op[1]]
            self.R = rz(self.pure[1]) @ rx(self.pure[0])
        check_model(self.t, self.R, "after %s" % (op,))
        if self.pure and op[0] != "drag":
            expect(same_angle(self.t.theta, self.pure[0]) and same_angle(self.t.phi, self.pure[1]),
                   "after %s the angles read %s, %s instead of %s", op, self.t.theta, self.t.phi, self.pure)

    def angle_before(self, other):
        """The other angle, read from a twin brought to the same orientation."""
        twin = Trackball(20, -50)
        for op in self.history:
            if op[0] == "drag":
                twin.drag_to(*op[1:])
            elif op[0] == "restart":
                twin = Trackball(*op[1:])
            elif op[0] in ("theta", "phi"):
                setattr(twin, op[0], op[1])
        return getattr(twin, other)

    def key(self):
        return None


class Several(System):
    """Two trackballs used in turn."""
    drags = Histories.drags[:2]

    def __init__(self):
        self.balls = [Histories(), Histories()]
        self.balls[1].step(("restart", 70, 10))
        self.balls[1].history.append(("restart", 70, 10))

    def ops(self):
        return [(i,) + o for i in (0, 1) for o in [("drag",) + d for d in self.drags] + [("theta", 40), ("phi", 100), ("restart", -30, 60)]]

    def do(self, op):
        self.balls[op[0]].do(op[1:])
        for i, b in enumerate(self.balls):
            check_model(b.t, b.R, "trackball %d after %s" % (i, op))

    def key(self):
        return None


def check(run):
    some = ANGLES if run.thorough else (0, 30, 90, 135, 180, 270, 400, -30, -120, -180)
    cases = [(a, b, c, d, o) for a in some for b in some for c in some for d in some for o in ("t", "p", "tp", "pt") if (run.thorough or (c in (0, 90, 135, -120) and d in (30, 180, 270, -30)))]
    run.bounds["angles"] = "%d x %d angles of all quadrants, given and set in both orders" % (len(some), len(some))
    run.cases("angles", cases, angles)
    xs, ds = ((-.6, 0, .9), (-.7, 0, .2)) if not run.thorough else ((-1, -.6, 0, .3, .9), (-1.5, -.7, 0, .2, .6))
    grid = [(x, y, dx, dy) for x in xs for y in xs for dx in ds for dy in ds]
    if run.thorough:
        cases = [(th, ph, a, b) for th, ph in ((0, 0), (30, 200)) for a in grid for b in grid[::7] + [grid[1]]]
    else:
        cases = [(th, ph, a, b) for th, ph in ((0, 0), (30, 200)) for a in grid for b in grid]
    run.bounds["drags"] = "all pairs of %d drags over a grid of positions and displacements, and undoing them" % len(grid)
    run.cases("drags", cases, drags)
    sel = grid[::7] if not run.thorough else grid[::11]
    run.bounds["long"] = "%d-step repetitions of all pairs of %d drags" % (run.q(210, 420), len(sel))
    run.cases("long", [(a, b, run.q(210, 420)) for a in sel for b in sel], long)
    run.explore("histories", Histories, run.q(3, 4))
    run.explore("several", Several, run.q(3, 4))
