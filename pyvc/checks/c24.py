"""C24: triangles and convex quadrilaterals in space: reported to intersect exactly when they share a
point, with the ends of the common segment.

The classes are decomposed at their own methods: measures, point membership, plane crossings (each a unit
of its own, against linear algebra), the clipping of a coplanar segment by a triangle over the contracts of
those, the triangle/triangle dispatch over the contracts of the former, and the union over two triangles per
quadrilateral.  General position (stated margins) is the precondition everywhere.
"""
import itertools
import math

import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C24"
IMPORTS = ["geometry.operations.triangle_triangle_intersection_test", "geometry.operations.polygon_polygon_intersection_test"]
T = "geometry.operations.triangle_triangle_intersection_test.TriangleTriangleIntersectionTest."
P = "geometry.operations.polygon_polygon_intersection_test.PolygonPolygonIntersectionTest."
EPS = 1e-9        # what general position keeps away from; the code's tolerance is 1e-12
MARGIN = "general position: vertices, lines and planes are at least 1e-9 (in the measure the code uses) away from degenerate positions; the code's tolerance is 1e-12"


def tester():
    from geometry.operations.triangle_triangle_intersection_test import TriangleTriangleIntersectionTest

    return TriangleTriangleIntersectionTest()


def ident(E, a, b):
    a, b = np.ravel(a), np.ravel(b)
    if E.symbolic:
        return len(a) == len(b) and all(bool(E._identity(lift(x), lift(y))) for x, y in zip(a, b))
    return len(a) == len(b) and all(abs(float(x) - float(y)) <= 1e-12 for x, y in zip(a, b))


def subterms(n, seen=None):
    seen = set() if seen is None else seen
    if n.id not in seen:
        seen.add(n.id)
        for a in n.args:
            if hasattr(a, "args"):
                subterms(a, seen)
    return seen


def pts(E, *names):
    return [E.vec(n, 3, gen=lambda r: r.uniform(-2, 2)) for n in names]


# ---------------------------------------------------------------- measures
def unit_volume(E):
    a, b, c, p = pts(E, "a", "b", "c", "p")
    E.cover()
    m = tester().coplanar_measurement(a, b, c, p)
    v = E.dot(E.cross(b - a, c - a), p - a)
    E.prove_eq("six times the measure is the signed volume spanned", 6 * m, -v)


POS = [(0, 1), (0, 2), (1, 2)]


def unit_colinear(E):
    a, b, p = pts(E, "a", "b", "p")
    i, j = E.choice("plane", POS)
    E.cover()
    m = tester().colinear_measurement(a, b, p, np.array([i, j]))
    w = (a[i] - p[i]) * (b[j] - p[j]) - (a[j] - p[j]) * (b[i] - p[i])
    E.prove("not negative", m >= 0)
    E.prove_eq("twice the measure is the projected area spanned", 4 * m * m, w * w)


def unit_member(E):
    """point of the triangle's plane, away from the lines of its edges"""
    a, b, c = pts(E, "a", "b", "c")
    u, v = (E.real(n, gen=lambda r: r.uniform(-0.7, 1.4)) for n in "uv")
    p = a + (b - a) * v + (c - a) * u
    i, j = E.choice("plane", POS)
    pos = np.array([i, j])
    area = (b[i] - a[i]) * (c[j] - a[j]) - (b[j] - a[j]) * (c[i] - a[i])
    E.assume(E.or_(area >= EPS, area <= -EPS))
    t = tester()
    if E.symbolic:
        # contracts: no measure is near zero in general position
        t.colinear_measurement = lambda x, y, z, q: far(E)
        t.norm_far = True
    for x in (u, v, 1 - u - v):
        E.assume(E.or_(x * area >= 4 * EPS, x * area <= -4 * EPS))
    for x in (a, b, c):
        E.assume(E.norm(x - p) >= EPS)
    E.cover()
    r = t.point_in_triangle(a, b, c, p, pos)
    E.prove("member exactly when no barycentric coordinate is negative", E.eqv(r, E.conj([u >= 0, v >= 0, u + v <= 1])) if hasattr(E, "eqv") else iff(E, r, E.conj([u >= 0, v >= 0, u + v <= 1])))


def iff(E, r, spec):
    if isinstance(r, (bool, np.bool_)):
        return spec if r else E.not_(spec)
    return E.and_(E.implies(r, spec), E.implies(spec, r))


def far(E):
    m = E.fresh("measure")
    E.assume(m >= EPS)
    return m


def unit_plane(E):
    """crossing of a line with the plane of a triangle, ends on different sides"""
    a, b, c, p, q = pts(E, "a", "b", "c", "p", "q")
    n = E.cross(b - a, c - a)
    dp, dq = E.dot(n, p - a), E.dot(n, q - a)
    if E.choice("side", [0, 1]):
        E.assume(dp >= EPS)
        E.assume(dq <= -EPS)
    else:
        E.assume(dp <= -EPS)
        E.assume(dq >= EPS)
    E.cover()
    x = np.asarray(tester().line_plane_intersection(np.array([a, b, c]), p, q))
    E.prove_eq("a point", np.array(x.shape), np.array([3]))
    E.prove_eq("the crossing point of segment and plane", x * (dp - dq), p * (dp - dq) + (q - p) * dp)


# ---------------------------------------------------------------- segment in the plane of a triangle
class Clip:
    """the methods the clipping uses, by contract, on barycentric coordinates"""

    def __init__(self, E, t):
        self.E = E
        self.tri = dict(zip("abc", pts(E, "a", "b", "c")))
        self.p, self.q = E.vec("p", 3), E.vec("q", 3)
        some = [x for x in itertools.product((1, -1), repeat=3) if 1 in x]
        sides = E.choice("sides of the edges the ends lie on", [(x, y) for x in some for y in some])
        self.l, self.m, self.sign = {}, {}, [dict(zip("abc", x)) for x in sides]
        for w, nm, sg in ((self.l, "l", self.sign[0]), (self.m, "m", self.sign[1])):
            w["a"], w["b"] = E.real(nm + "a"), E.real(nm + "b")
            w["c"] = 1 - w["a"] - w["b"]
            for k in "abc":
                E.assume(w[k] * sg[k] >= EPS)
        self.X, self.t = {}, {}
        for k in "abc":                                 # the edge opposite to vertex k: coordinate k vanishes
            if self.sign[0][k] == self.sign[1][k]:
                continue
            self.X[k] = E.vec("X" + k, 3)
            self.t[k] = E.real("t" + k)
            E.assume(E.eq(self.at(self.t[k])[k], 0))
            E.assume(self.t[k] > 0)
            E.assume(self.t[k] < 1)
            for o in "abc":
                if o != k:                              # the line passes no vertex
                    w = self.at(self.t[k])[o]
                    E.assume(E.or_(w >= EPS, w <= -EPS))
            for z in (self.p, self.q):                  # crossings are apart from the ends and each other
                E.assume(E.norm(z - self.X[k]) >= EPS)
        for k, o in itertools.combinations(sorted(self.X), 2):
            E.assume(E.norm(self.X[k] - self.X[o]) >= EPS)
        t.point_in_triangle = self.member
        t.colinear_measurement = lambda *a: far(E)
        t.line_line_intersection = self.cross
        E.contract("colinear_measurement, point_in_triangle (own units)")
        E.contract("TriangleTriangleIntersectionTest.line_line_intersection (C21, unit 'crossing of two segments')")

    def at(self, t):
        return {k: self.l[k] + t * (self.m[k] - self.l[k]) for k in "abc"}

    def vertex(self, x):
        for k in "abc":
            if ident(self.E, x, self.tri[k]):
                return k
        raise Unsupported("not a vertex of the triangle")

    def inside(self, t):
        w = self.at(t)
        return self.E.conj([w[k] >= 0 for k in "abc"] + [t >= 0, t <= 1])

    def member(self, a, b, c, p, pos):
        if sorted(self.vertex(x) for x in (a, b, c)) != ["a", "b", "c"]:
            raise ValueError("membership in something that is not the triangle")
        w = self.l if ident(self.E, p, self.p) else self.m if ident(self.E, p, self.q) else None
        if w is None:
            raise Unsupported("membership of another point")
        sg = self.sign[0] if w is self.l else self.sign[1]
        return all(sg[k] > 0 for k in "abc")

    def cross(self, a, b, p, q, pos, render=False):
        E = self.E
        if not (ident(E, p, self.p) and ident(E, q, self.q) or ident(E, p, self.q) and ident(E, q, self.p)):
            raise Unsupported("crossing with another segment")
        (k,) = set("abc") - {self.vertex(a), self.vertex(b)}
        if k in self.t and E.conj([self.at(self.t[k])[o] >= 0 for o in "abc" if o != k]):
            return (True, self.X[k].copy(), np.array)
        return (False, np.array, np.array)

    def param(self, x):
        E = self.E
        for z, t in [(self.p, 0), (self.q, 1)] + [(self.X[k], self.t[k]) for k in self.X]:
            if ident(E, x, z):
                return t
        return None


def check_clip(E, env, r, any_t):
    if not r[0]:
        E.prove("no intersection only when no point of the segment is in the triangle", E.not_(env.inside(any_t)))
        return
    ts = [env.param(x) if not callable(x) and x is not None else None for x in (r[1], r[2])]
    E.prove("two points are returned, both of the segment", None not in ts)
    if None in ts:
        return
    E.prove("both returned points are in the triangle and the segment", E.conj([env.inside(t) for t in ts]))
    lo = E.and_(any_t >= ts[0], any_t <= ts[1])
    hi = E.and_(any_t >= ts[1], any_t <= ts[0])
    E.prove("every common point lies between them", E.implies(env.inside(any_t), E.or_(lo, hi)))


def unit_clip(E, one=False):
    t = tester()
    env = Clip(E, t)
    # the class takes a segment whose first crossing is the point (1,1,1) for a single point (known finding)
    off = [E.norm(X - np.ones(3, dtype=int)) for X in env.X.values()]
    E.assume(E.disj([x < EPS for x in off]) if one else E.conj([x >= EPS for x in off]))
    any_t = E.real("t")
    drop = E.choice("drop", [0, 1, 2])
    E.cover()
    r = t.intersect_with_coplanar_segment(np.array([env.tri[k] for k in "abc"]), np.array([env.p, env.q]), drop)
    check_clip(E, env, r, any_t)


# ---------------------------------------------------------------- triangle / triangle
def unit_dispatch(E):
    t = tester()
    o, s = {k: v for k, v in zip("pqr", pts(E, "p1", "q1", "r1"))}, {k: v for k, v in zip("pqr", pts(E, "p2", "q2", "r2"))}
    d = {1: dict(zip("pqr", E.vec("d1", 3, gen=lambda r: r.uniform(-1, 1)))), 2: dict(zip("pqr", E.vec("d2", 3, gen=lambda r: r.uniform(-1, 1))))}
    for w in d.values():
        for k in "pqr":
            E.assume(E.or_(w[k] >= EPS, w[k] <= -EPS))
    n = np.cross(s["p"] - s["q"], s["r"] - s["q"]) if not E.symbolic else E.cross(s["p"] - s["q"], s["r"] - s["q"])
    N = E.norm(n)
    E.assume(N >= EPS)
    E.cover()

    def name(x):
        for i, tri in ((1, o), (2, s)):
            for k in "pqr":
                if ident(E, x, tri[k]):
                    return i, k
        raise Unsupported("not a vertex")

    def volume(a, b, c, x):
        ns, (i, k) = [name(y) for y in (a, b, c)], name(x)
        if {y[0] for y in ns} != {3 - i} or len({y[1] for y in ns}) != 3:
            raise Unsupported("volume over mixed vertices")
        w = "".join(y[1] for y in ns)
        return d[i][k] if w in ("pqr", "qrp", "rpq") else -d[i][k]

    made = []

    def crossing(plane, x, y):
        ns, (i, k), (j, h) = [name(z) for z in plane], name(x), name(y)
        E.prove("planes are crossed by edges of the other triangle", i == j and k != h and {z[0] for z in ns} == {3 - i} and len({z[1] for z in ns}) == 3)
        E.prove("crossings are only asked for edges with ends on both sides", E.or_(E.and_(d[i][k] > 0, d[i][h] < 0), E.and_(d[i][k] < 0, d[i][h] > 0)))
        X = E.vec("X%d%s" % (i, min(k + h, h + k)), 3)
        made.append(((i, frozenset((k, h))), X))
        return X

    got = []

    def clip(tri, seg, drop):
        ks = sorted(name(x)[1] for x in tri)
        side = {name(x)[0] for x in tri}
        E.prove("the segment is clipped by a whole triangle", ks == ["p", "q", "r"] and len(side) == 1)
        if side == {2}:
            facts = [SBool(f) for f in E.pc if any(lift(n[k]).id in subterms(f) for k in range(3))] if E.symbolic else []
            E.prove_from("projection along a direction that does not lie in the plane", E.or_(n[int(drop)] > 0, n[int(drop)] < 0),
                         facts + [E.eq(N * N, E.dot(n, n)), N >= EPS], hide=[n[0], n[1], n[2], N])
        ends = []
        for x in seg:
            ends += [key for key, X in made if ident(E, x, X)][:1]
        got.append((side, ends))
        return token

    token = (True, object(), object())
    t.coplanar_measurement, t.line_plane_intersection, t.intersect_with_coplanar_segment = volume, crossing, clip
    E.contract("coplanar_measurement, line_plane_intersection, intersect_with_coplanar_segment (own units)")
    r = t.triangle_triangle_intersection(np.array([o[k] for k in "pqr"]), np.array([s[k] for k in "pqr"]))
    same = lambda w: E.or_(E.conj([w[k] > 0 for k in "pqr"]), E.conj([w[k] < 0 for k in "pqr"]))
    if not got:
        E.prove("rejected only when one triangle is on one side of the other's plane", E.and_(not r[0], E.or_(same(d[1]), same(d[2]))))
        return
    E.prove("the result of the clipping is returned", r is token or (r[0] is True and r[1] is token[1] and r[2] is token[2]))
    E.prove("one clipping", len(got) == 1)
    side, ends = got[0]
    (k,) = side
    i = 3 - k
    E.prove("the segment joins the plane crossings of two edges of the other triangle", len(ends) == 2 and all(e[0] == i for e in ends) and len(set(ends)) == 2)
    for e in [frozenset(x) for x in itertools.combinations("pqr", 2)]:
        x, y = sorted(e)
        opp = E.or_(E.and_(d[i][x] > 0, d[i][y] < 0), E.and_(d[i][x] < 0, d[i][y] > 0))
        E.prove("exactly the edges that cross the plane are used", opp if (i, e) in ends else E.not_(opp))


# ---------------------------------------------------------------- quadrilaterals
FRAMES = [((0, 0, 1), (1, 0, 0)), ((0, 0, -2), (1, 3, 0)), ((0, 1, 0), (0, 0, 1)), ((3, 0, 0), (0, -1, 1)), ((1, 1, 1), (1, -1, 0)),
          ((1, 2, 3), (3, 0, -1)), ((1, 2, -3), (-5, 1, -1)), ((-4, 1, 1), (1, 1, 3)), ((1, -5, 2), (2, 0, -1)), ((1, 0, 1), (0, 1, 0))]
TILINGS = [{frozenset((0, 1, 3)), frozenset((1, 2, 3))}, {frozenset((0, 1, 2)), frozenset((0, 2, 3))}]


def unit_polygon(hits):
    def fn(E):
        from geometry.operations.polygon_polygon_intersection_test import PolygonPolygonIntersectionTest

        pp = PolygonPolygonIntersectionTest()
        # the plane of the first quadrilateral and the direction of the common line: one of the stated ones
        n, u = [np.array(x) for x in E.choice("plane and direction", FRAMES)]
        w = np.cross(n, u)
        base = E.vec("base", 3)
        co = np.array([(0, 0), (4, 0), (5, 3), (-1, 2)])
        O = np.array([base + u * int(co[i, 0]) + w * int(co[i, 1]) for i in range(4)])
        S = E.arr("S", (4, 3), gen=lambda r: r.uniform(-1, 1))
        t = E.arr("t", (max(hits, 1), 2), gen=lambda r: r.uniform(-1, 1))
        for i in range(hits):
            E.assume(E.or_(t[i, 0] >= t[i, 1] + EPS, t[i, 0] <= t[i, 1] - EPS))
        where = E.choice("pairs that meet", list(itertools.combinations(range(4), hits)))
        E.cover()
        asked = []

        def corner(x, quad):
            for i in range(4):
                if ident(E, x, quad[i]):
                    return i
            raise Unsupported("not a corner")

        def meet(a, b):
            i, j = frozenset(corner(x, O) for x in a), frozenset(corner(x, S) for x in b)
            asked.append((i, j))
            k = len(asked) - 1
            if k in where:
                h = where.index(k)
                return (True, base + u * t[h, 0], base + u * t[h, 1])
            return (False, np.array, np.array)

        pp.tt_intersector.triangle_triangle_intersection = meet
        E.contract("triangle_triangle_intersection (own unit); a convex quadrilateral is the union of the two triangles on one diagonal")
        r = pp.polygon_polygon_intersection(O, S)
        so, st = {a for a, b in asked}, {b for a, b in asked}
        E.prove("both quadrilaterals are tiled by two triangles", so in TILINGS and st in TILINGS)
        E.prove("every pair of triangles is tested once", len(asked) == 4 and len(set(asked)) == 4)
        if hits == 0:
            E.prove("no common point, no intersection", not r[0])
            return
        E.prove("a common point is an intersection", r[0] is True or r[0] is np.True_)
        ts = []
        for x in (r[1], r[2]):
            ts += [v for v in t.ravel() if ident(E, x, base + u * v)][:1]
        E.prove("ends of the common segments are returned", len(ts) == 2)
        if len(ts) == 2:
            lo = E.conj([E.and_(v >= ts[0], v <= ts[1]) for v in t.ravel()])
            hi = E.conj([E.and_(v >= ts[1], v <= ts[0]) for v in t.ravel()])
            E.prove("nothing common lies beyond them", E.or_(lo, hi))

    return fn


UNITS = [
    Unit("signed volume", unit_volume, [T + "coplanar_measurement"], samples=100),
    Unit("projected area", unit_colinear, [T + "colinear_measurement"], samples=100),
    Unit("point in a triangle's plane", unit_member, [T + "point_in_triangle"], samples=200, assumptions=[MARGIN], timeout=120),
    Unit("crossing of a plane", unit_plane, [T + "line_plane_intersection"], samples=100, assumptions=[MARGIN]),
    Unit("segment in a triangle's plane", unit_clip, [T + "intersect_with_coplanar_segment"], samples=0, replayable=False, assumptions=[MARGIN], timeout=200),
    Unit("segment in a triangle's plane, crossing at (1,1,1)", lambda E: unit_clip(E, True), [T + "intersect_with_coplanar_segment"], samples=0, replayable=False, assumptions=[MARGIN], timeout=200),
    Unit("two triangles", unit_dispatch, [T + "triangle_triangle_intersection"], samples=0, replayable=False, assumptions=[MARGIN, "the part of a triangle in a plane that separates its vertices is the segment between the crossings of two edges"], timeout=200),
]
for _h in (0, 1, 2):
    UNITS.append(Unit("two quadrilaterals, %d triangle pairs meet" % _h, unit_polygon(_h), [P + "polygon_polygon_intersection", P + "reduce_poly_line"], samples=0, replayable=False,
                      kind="bounded-size", bounds="up to 2 of the 4 triangle pairs meet, in any order along the line; 10 planes and directions, any position", assumptions=[MARGIN], timeout=200))


# ---------------------------------------------------------------- whole class on numbers
def plane_of(t):
    n = np.cross(t[1] - t[0], t[2] - t[0])
    return n / np.linalg.norm(n), t[0]


def common_segment(A, B, gap):
    """ends of the common segment of two convex polygons in different planes, None when there is none,
    'near' when some comparison of the decision is closer than gap"""
    (nA, oA), (nB, oB) = plane_of(A), plane_of(B)
    u = np.cross(nA, nB)
    if np.linalg.norm(u) < 0.05:
        return "near"
    u /= np.linalg.norm(u)
    o = np.linalg.solve(np.array([nA, nB, u]), [nA @ oA, nB @ oB, 0])
    iv = []
    for poly, n, o0 in ((A, nB, oB), (B, nA, oA)):
        s = [(p - o0) @ n for p in poly]
        if min(abs(x) for x in s) < gap:
            return "near"
        ts = [((a + (b - a) * sa / (sa - sb)) - o) @ u for a, b, sa, sb in zip(poly, np.roll(poly, -1, axis=0), s, np.roll(s, -1)) if sa * sb < 0]
        iv.append((min(ts), max(ts)) if ts else None)
    if None in iv:
        return None
    (a, b), (c, d) = iv
    if min(abs(a - c), abs(b - d), abs(a - d), abs(b - c), abs(a - b), abs(c - d)) < gap:
        return "near"
    lo, hi = max(a, c), min(b, d)
    return None if lo >= hi else (o + lo * u, o + hi * u)


def through(rng, nrng, n):
    """a triangle cut from edge to edge at two points of a lattice by another triangle"""
    while True:
        X = nrng.integers(-1, 2, size=(2, 3)).astype(float)
        a = nrng.integers(-3, 4, size=3).astype(float)
        if np.linalg.norm(np.cross(X[1] - X[0], a - X[0])) < 0.1:
            continue
        t = np.array([a, X[0] + rng.choice([1, 2, 0.5]) * (X[0] - a), X[1] + rng.choice([1, 2, 0.5]) * (X[1] - a)])
        w, e, mid = nrng.integers(-2, 3, size=3).astype(float), X[1] - X[0], (X[0] + X[1]) / 2
        if abs(w @ np.cross(t[1] - t[0], t[2] - t[0])) < 0.1:
            continue
        o = np.array([X[0] - 2 * e - w, X[1] + 2 * e - w, mid + w])
        return o[nrng.permutation(3)], t[nrng.permutation(3)]


def quad(rng, nrng):
    while True:
        t = np.sort(nrng.uniform(0, 2 * np.pi, 4))
        if np.min(np.diff(np.append(t, t[0] + 2 * np.pi))) > 0.3 and np.max(np.diff(np.append(t, t[0] + 2 * np.pi))) < 3:
            break
    f = np.linalg.qr(nrng.normal(size=(3, 3)))[0]
    return nrng.uniform(-0.6, 0.6, 3) + np.outer(np.cos(t), f[0]) + rng.uniform(0.4, 1) * np.outer(np.sin(t), f[1])


def boxes(rng, nrng):
    """two rectangles in coordinate planes (any order of the corners around), the common segment along an axis"""
    ax = list(nrng.permutation(3))
    v = lambda: nrng.uniform(-1, 1) if rng.random() < 0.5 else rng.randint(-6, 6) / 7

    along = sorted([v(), v(), v(), v()])
    along = (along[0], along[rng.choice([2, 3])], along[1], along[rng.choice([2, 3])])
    if rng.random() < 0.5:
        along = along[2:] + along[:2]
    at = v(), v()

    def rect(i, j, k):
        o = np.zeros((4, 3))
        first = j == ax[1]
        (a, b), h, g = along[:2] if first else along[2:], at[0 if first else 1], at[1 if first else 0]
        c, d = g - rng.uniform(0.1, 1), g + rng.uniform(-0.05 if rng.random() < 0.2 else 0.1, 1)
        o[:, i], o[:, j], o[:, k] = [a, b, b, a], [c, c, d, d], h
        o = np.roll(o, rng.randint(0, 3), axis=0)
        return o if rng.random() < 0.5 else o[::-1].copy()

    return rect(ax[0], ax[1], ax[2]), rect(ax[0], ax[2], ax[1])


def bounded_pairs(B):
    from geometry.operations.polygon_polygon_intersection_test import PolygonPolygonIntersectionTest

    while B.more() and B.evaluations < (20000 if B.thorough else 3000):
        kind = B.rng.choice(["triangles", "lattice", "quadrilaterals", "rectangles"])
        quads = kind in ("quadrilaterals", "rectangles")
        if kind == "rectangles":
            o, t = boxes(B.rng, B.nrng)
            gap = 1e-3
            if min(np.linalg.norm(x[i] - x[i - 1]) for x in (o, t) for i in range(4)) < 0.05:
                continue
        elif kind == "lattice":
            o, t = through(B.rng, B.nrng, 3)
            gap = 1e-6
        else:
            make = (lambda: quad(B.rng, B.nrng)) if kind == "quadrilaterals" else (lambda: B.nrng.uniform(-1, 1, size=(3, 3)))
            k = 10 ** B.rng.uniform(-1, 1.5)
            shift = B.nrng.uniform(-2, 2, 3) * B.rng.choice([0, 1])
            o, t = make() * k + shift, make() * k + shift
            gap = 1e-3 * k
        if not quads and min(np.linalg.norm(np.cross(x[1] - x[0], x[2] - x[0])) for x in (o, t)) < 50 * gap * gap:
            continue
        want = common_segment(o, t, gap)
        if want == "near":
            continue

        def run():
            import warnings

            x, y = o.copy(), t.copy()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = tester().triangle_triangle_intersection(x, y) if not quads else PolygonPolygonIntersectionTest().polygon_polygon_intersection(x, y)
            assert np.array_equal(x, o) and np.array_equal(y, t), "the arguments are modified"
            assert bool(r[0]) == (want is not None), "reported %s, common segment %s" % (r[0], want)
            if want is not None:
                d = min(np.abs(r[1] - a).max() + np.abs(r[2] - b).max() for a, b in (want, want[::-1]))
                assert d <= 1e-7 * (1 + np.abs(o).max()), (r[1], r[2], want)

        one = want is not None and min(np.abs(x - 1).max() for x in want) < 1e-9
        B.case("pairs:" + kind + (", crossing at (1,1,1)" if one else ""), dict(o=o.tolist(), t=t.tolist()), run)


BOUNDED = [Bounded("pairs", bounded_pairs, [T + "triangle_triangle_intersection", P + "polygon_polygon_intersection"],
                   "random triangles and convex quadrilaterals of sizes 0.1 to 30, rectangles in coordinate planes, triangles crossed at lattice points; interval arithmetic on the common line as the oracle", budget=20)]
