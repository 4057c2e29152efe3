"""C11: polygon triangulation tiles the polygon; convexity is decided right."""
import itertools
import math

import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C11"
IMPORTS = ["geometry.operations.polygon_geometry_operations"]
M = "geometry.operations.polygon_geometry_operations."


def planar(E, n, degenerate_ok=False):
    """An arbitrary planar n-gon: p_i = x0 + u_i q0 + v_i q1; returns points, 2D coordinates, frame."""
    Q = rotation(E)
    x0 = E.vec("x", 3)
    if E.symbolic or E.model is not None:
        # the first vertex is the origin of the plane's frame, the second lies on its first axis
        uv = np.zeros((n, 2), dtype=object if E.symbolic else float)
        uv[1, 0] = E.real("w_1_0")
        E.assume(uv[1, 0] > 0)
        for i in range(2, n):
            uv[i] = [E.real("w_%d_0" % i), E.real("w_%d_1" % i)]
    else:
        r = E.rng
        star = r.random() < 0.8
        th = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
        rad = [r.uniform(0.3, 2) if r.random() < 0.5 else 1.0 for _ in range(n)]
        sgn = r.choice([1, -1])
        k = r.randrange(n)
        pts = [(rad[i] * math.cos(th[i]), rad[i] * math.sin(th[i])) if star else (float(r.randint(-3, 3)), float(r.randint(-3, 3))) for i in range(n)]
        pts = [pts[(k + sgn * i) % n] for i in range(n)]
        uv = np.empty((n, 2))
        for i in range(n):
            for j in range(2):
                uv[i, j] = E.real("w_%d_%d" % (i, j), gen=lambda r, i=i, j=j: pts[i][j])
    P = np.empty((n, 3), dtype=object if E.symbolic else float)
    for i in range(n):
        P[i] = x0 + Q[:, 0] * uv[i, 0] + Q[:, 1] * uv[i, 1]
    return P, uv, Q


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def area2(uv):
    n = len(uv)
    s = 0
    for i in range(1, n - 1):
        s = s + orient(uv[0], uv[i], uv[i + 1])
    return s


def unit_normal(n):
    def fn(E):
        from geometry.operations.polygon_geometry_operations import polygon_normal

        P, uv, Q = planar(E, n)
        A = area2(uv)
        E.assume(E.not_(E.eq(A, 0)))
        E.cover()
        nv = np.asarray(polygon_normal(P))
        E.prove("unit length", E.eq(E.dot(nv, nv), 1))
        for i in range(n):
            E.prove("orthogonal to the plane", E.eq(E.dot(nv, P[i] - P[0]), 0))
        E.prove("orthogonal to the plane directions", E.eq(E.dot(nv, Q[:, 0]), 0))
        E.prove("orthogonal to the plane directions", E.eq(E.dot(nv, Q[:, 1]), 0))

    return fn


def unit_convex(n):
    def fn(E):
        from geometry.operations.polygon_geometry_operations import convex_q

        P, uv, Q = planar(E, n)
        A = area2(uv)
        if not E.symbolic:
            E.assume(abs(A) > 1e-3)
        E.assume(E.not_(E.eq(A, 0)))
        turns = [orient(uv[i], uv[(i + 1) % n], uv[(i + 2) % n]) for i in range(n)]
        if not E.symbolic:  # rounding decides exactly collinear vertices: exercised over the reals only
            for t in turns:
                E.assume(abs(t) > 1e-6)
        E.cover()
        import geometry.operations.polygon_geometry_operations as m

        old = m.polygon_normal
        if E.symbolic:
            E.contract("polygon_normal: a unit normal of the plane (units polygon_normal n=..)")
            side = E.choice("normal side", [1, -1])
            m.polygon_normal = lambda points: Q[:, 2] * side
        try:
            r = convex_q(P)
        finally:
            m.polygon_normal = old
        allpos = E.conj([t > 0 for t in turns])
        allneg = E.conj([t < 0 for t in turns])
        if n == 3:
            E.prove("a triangle is convex", bool(r) is True)
            return
        if r:
            E.prove("yes only for turns of one strict sign", E.or_(allpos, allneg))
        else:
            E.prove("no only for turns of different signs", E.not_(E.or_(allpos, allneg)))

    return fn


def check_tiles(E, T, P, uv, Q, positive):
    """the triangles are in the polygon's plane and their oriented areas add up to the polygon's"""
    total = 0
    for k in range(len(T)):
        t = T[k]
        v = E.cross(t[1] - t[0], t[2] - t[0])
        total = total + v
        E.prove("triangle in the plane of the polygon", E.conj([E.eq(E.dot(t[j] - P[0], Q[:, 2]), 0) for j in range(3)]))
        if positive is not None:
            E.prove("triangle has the orientation of the polygon", positive(k, E.dot(v, Q[:, 2])))
    E.prove_eq("areas add up to the polygon's", total, Q[:, 2] * area2(uv))


def convex_uv(E, uv, n, sgn):
    """strictly convex, orientation sgn: every other vertex strictly on one side of every edge"""
    for i in range(n):
        for k in range(n):
            if k not in (i, (i + 1) % n):
                E.assume(orient(uv[i], uv[(i + 1) % n], uv[k]) * sgn > 0)


def unit_fan(n):
    def fn(E):
        from geometry.operations.polygon_geometry_operations import triangulate_convex_polygon

        sgn = E.choice("orientation", [1, -1])
        P, uv, Q = planar(E, n)
        convex_uv(E, uv, n, sgn)
        if not E.symbolic:
            E.assume(abs(area2(uv)) > 1e-4)
        E.cover()
        T = np.asarray(triangulate_convex_polygon(P))
        E.prove_eq("n triangles", np.array(T.shape[1:]), np.array([3, 3]))
        check_convex_tiles(E, T, P, uv, Q, sgn)

    return fn


def check_convex_tiles(E, T, P, uv, Q, sgn):
    """every corner inside or on the polygon, every triangle with the polygon's orientation and the
    oriented areas adding up to the polygon's: the triangles tile the (convex) polygon"""
    n = len(uv)
    o = {(i, k): orient(uv[i], uv[(i + 1) % n], uv[k]) * sgn for i in range(n) for k in range(n) if k not in (i, (i + 1) % n)}
    facts = [v > 0 for v in o.values()]
    if not E.symbolic:
        o, facts = {}, []

    def positive(name, value, strict):
        goal = value > 0 if strict else E.le(0, value)
        if not E.symbolic:
            return E.prove(name, goal)
        cands = [(0, [])] + [(v * f, [v]) for v in o.values() for f in (1,)] + [
            (sum(o[i, k] for k in range(n) if (i, k) in o) / n, [o[i, k] for k in range(n) if (i, k) in o]) for i in range(n)]
        for c, vs in cands:
            if E._identity(lift(value), lift(c)):
                if not vs:
                    return E.prove(name, not strict)
                E.prove(name + " (rewriting)", E.eq(value, c))
                return E.prove_from(name, c > 0 if strict else c >= 0, [v > 0 for v in vs], hide=vs)
        E.prove(name, goal)

    for k in range(len(T)):
        t = T[k]
        positive("triangle has the orientation of the polygon", E.dot(E.cross(t[1] - t[0], t[2] - t[0]), Q[:, 2]) * sgn, True)
        for c in t:
            for i in range(n):
                positive("corner inside the polygon", E.dot(E.cross(P[(i + 1) % n] - P[i], c - P[i]), Q[:, 2]) * sgn, False)
    check_tiles(E, T, P, uv, Q, None)


def unit_dispatch(n):
    """triangulate_polygon on strictly convex polygons (convex_q by contract) tiles the polygon"""
    def fn(E):
        import geometry.operations.polygon_geometry_operations as m

        sgn = E.choice("orientation", [1, -1])
        P, uv, Q = planar(E, n)
        convex_uv(E, uv, n, sgn)
        if not E.symbolic:
            E.assume(abs(area2(uv)) > 1e-4)
        E.cover()
        old = m.convex_q
        if E.symbolic:
            E.contract("convex_q: strictly convex polygons are convex (units convex_q n=..)")
            m.convex_q = lambda points: True
        try:
            T = np.asarray(m.triangulate_polygon(P))
        finally:
            m.convex_q = old
        check_convex_tiles(E, T, P, uv, Q, sgn)

    return fn


class _Tri:
    def __init__(self, s):
        self.simplices = np.array(s)


def unit_dart(E):
    """triangulate_polygon on every non-convex quadrilateral: Delaunay and winding_number by contract"""
    import geometry.operations.polygon_geometry_operations as m

    sgn = E.choice("orientation", [1, -1])
    k = E.choice("reflex", [0, 1, 2, 3])
    if E.symbolic or E.model is not None:
        P, uv, Q = planar(E, 4)
    else:
        Q = rotation(E)
        x0 = E.vec("x", 3)
        r = E.rng
        tri = [(r.uniform(-2, 2), r.uniform(-2, 2)) for _ in range(3)]
        l = [r.uniform(0.05, 1) for _ in range(3)]
        s = sum(l)
        inner = tuple(sum(l[i] * tri[i][j] for i in range(3)) / s for j in range(2))
        pts = {k: inner, (k + 1) % 4: tri[0], (k + 2) % 4: tri[1], (k + 3) % 4: tri[2]}
        uv = np.array([[E.real("w_%d_%d" % (i, j), gen=lambda r, i=i, j=j: pts[i][j]) for j in range(2)] for i in range(4)])
        P = np.array([x0 + Q[:, 0] * uv[i, 0] + Q[:, 1] * uv[i, 1] for i in range(4)])
    a, b, c, d = k, (k + 1) % 4, (k + 2) % 4, (k + 3) % 4
    # vertex a strictly inside the triangle b c d
    lim = 0 if E.symbolic else 1e-2
    for x, y in ((b, c), (c, d), (d, b)):
        E.assume(orient(uv[x], uv[y], uv[a]) * sgn > lim)
    E.cover()
    simp = [[a, b, c], [a, c, d], [a, d, b]]
    old = m.Delaunay, m.convex_q, m.winding_number
    try:
        if E.symbolic:
            E.external.add("scipy Delaunay: the triangulation of three points with a fourth strictly inside is unique")
            E.contract("convex_q (units convex_q n=..)")
            E.contract("winding_number: non-zero exactly inside (bounded check)")
            E.contract("__projection_directions: an injective projection of the plane")
            order = E.choice("simplex order", [(0, 1, 2), (2, 0, 1), (1, 2, 0)])
            s = [simp[i] for i in order]
            m.Delaunay = lambda pts: _Tri(s)
            m.convex_q = lambda pts: False
            def wind(p, polygon_points=None):
                for tri in s:
                    if all(E._identity(lift(p[j] * 3), lift(sum(polygon_points[v][j] for v in tri))) for j in range(2)):
                        return 0 if tri == simp[2] else 1
                raise Unsupported("winding number of another point")

            m.winding_number = wind
            # any projection that drops one coordinate will do: the plane is arbitrary
            proj = [x for x in vars(m) if x.endswith("projection_directions")]
            oldp = {x: getattr(m, x) for x in proj}
            for x in proj:
                setattr(m, x, lambda pts: np.array([0, 1]))
            try:
                T = np.asarray(m.triangulate_polygon(P))
            finally:
                for x in proj:
                    setattr(m, x, oldp[x])
        else:
            T = np.asarray(m.triangulate_polygon(P))
    finally:
        m.Delaunay, m.convex_q, m.winding_number = old
    E.prove("triangles kept", len(T) >= 1)
    tot = 0
    for t in T:
        v = E.dot(E.cross(t[1] - t[0], t[2] - t[0]), Q[:, 2])
        tot = tot + abs(v)
    E.prove("areas add up to the polygon's", E.eq(tot, abs(area2(uv))))


UNITS = [Unit("polygon_normal n=%d" % n, unit_normal(n), [M + "polygon_normal"], samples=100) for n in (3, 4, 5, 6)]
UNITS += [Unit("convex_q n=%d" % n, unit_convex(n), [M + "convex_q"], samples=150, timeout=120, kind="bounded-size", bounds="%d vertices, arbitrary coordinates" % n) for n in (3, 4, 5)]
UNITS += [Unit("triangulate_convex_polygon n=%d" % n, unit_fan(n), [M + "triangulate_convex_polygon"], samples=60, timeout=120, kind="bounded-size", bounds="%d vertices, arbitrary coordinates" % n) for n in (3, 4, 5, 6, 7)]
UNITS += [Unit("triangulate_polygon convex n=%d" % n, unit_dispatch(n), [M + "triangulate_polygon"], samples=60, timeout=120, kind="bounded-size", bounds="%d vertices" % n) for n in (3, 4, 5)]
UNITS += [Unit("triangulate_polygon quadrilateral with a reflex vertex", unit_dart, [M + "triangulate_polygon"], samples=150, timeout=120, kind="bounded-size", bounds="4 vertices, arbitrary coordinates")]
for u in UNITS:
    if u.name.startswith("polygon_normal"):
        u.kind, u.bounds = "bounded-size", "up to 6 vertices, arbitrary coordinates"


# ---------------------------------------------------------------- bounded part
def seg_cross(a, b, c, d):
    o = orient
    return o(a, b, c) * o(a, b, d) < 0 and o(c, d, a) * o(c, d, b) < 0


def simple_polygon(rng, n):
    """random simple polygon (2-opt of random points), no nearly collinear consecutive vertices"""
    for _ in range(200):
        pts = [(rng.uniform(-2, 2), rng.uniform(-2, 2)) for _ in range(n)]
        for _ in range(200):
            bad = None
            for i in range(n):
                for j in range(i + 2, n):
                    if i == 0 and j == n - 1:
                        continue
                    if seg_cross(pts[i], pts[(i + 1) % n], pts[j], pts[(j + 1) % n]):
                        bad = (i, j)
            if not bad:
                break
            i, j = bad
            pts[i + 1: j + 1] = pts[i + 1: j + 1][::-1]
        else:
            continue
        if good_polygon(pts):
            return pts
    return None


def seg_dist(p, a, b):
    a, b, p = map(np.array, (a, b, p))
    t = np.clip(np.dot(p - a, b - a) / np.dot(b - a, b - a), 0, 1)
    return np.linalg.norm(p - a - t * (b - a))


def good_polygon(pts):
    n = len(pts)
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        for k in range(n):
            if k not in (i, (i + 1) % n) and seg_dist(pts[k], a, b) < 0.03:
                return False
    return all(abs(orient(pts[i], pts[(i + 1) % n], pts[(i + 2) % n])) > 1e-2 for i in range(n))


SPECIAL = [
    [(2, 0), (0, 1), (-2, 0), (0, -1)], [(0, 0), (1, 0), (1, 1), (0, 1)], [(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)],
    [(0, 0), (3, 0), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)], [(0, 0), (5, 0), (5, 3), (2.5, 0.2), (0, 3)],
    [(2, -2), (2, 2), (0, 1), (-2, 2), (-2, -2), (0, -1)], [(0, 0), (6, 0), (6, 0.5), (1, 0.5), (6, 1), (6, 1.5), (0, 1.5)],
]


def regular(n, a, b, ph):
    return [(a * math.cos(ph + 2 * math.pi * i / n), b * math.sin(ph + 2 * math.pi * i / n)) for i in range(n)]


def embed(B, pts):
    Q, _ = np.linalg.qr(B.nrng.normal(size=(3, 3)))
    if B.rng.random() < 0.2:
        Q = np.eye(3)[:, B.nrng.permutation(3)]
    x0 = B.nrng.uniform(-2, 2, 3) * (B.rng.random() < 0.8)
    s = 10 ** B.rng.uniform(-1, 1)
    return x0 + s * (np.array(pts, float) @ Q[:, :2].T), Q, x0, s


def inside(p, pts):
    """even-odd rule"""
    r = False
    n = len(pts)
    for i in range(n):
        (x1, y1), (x2, y2) = pts[i], pts[(i + 1) % n]
        if (y1 > p[1]) != (y2 > p[1]) and p[0] < (x2 - x1) * (p[1] - y1) / (y2 - y1) + x1:
            r = not r
    return r


def pick(B):
    k = B.rng.random()
    if k < 0.2:
        pts = [(float(x), float(y)) for x, y in B.rng.choice(SPECIAL)]
    elif k < 0.5:
        pts = regular(B.rng.randint(3, 9), B.rng.uniform(0.5, 2), B.rng.uniform(0.5, 2), B.rng.uniform(0, 7))
    else:
        pts = simple_polygon(B.rng, B.rng.randint(3, 9))
        if pts is None:
            return None
    n = len(pts)
    r = B.rng.randrange(n)
    pts = pts[r:] + pts[:r]
    if B.rng.random() < 0.5:
        pts = pts[::-1]
    return pts


def bounded_tiling(B):
    from geometry.operations.polygon_geometry_operations import polygon_normal, convex_q, triangulate_polygon

    while B.more() and B.evaluations < (20000 if B.thorough else 1500):
        pts = pick(B)
        if pts is None:
            continue
        n = len(pts)
        P, Q, x0, s = embed(B, pts)
        turns = [orient(pts[i], pts[(i + 1) % n], pts[(i + 2) % n]) for i in range(n)]
        convex = all(t > 0 for t in turns) or all(t < 0 for t in turns)

        def run():
            keep = P.copy()
            nv = polygon_normal(P)
            assert abs(np.linalg.norm(nv) - 1) < 1e-9, "unit normal"
            assert np.max(np.abs((P - P[0]) @ nv)) < 1e-8 * (1 + s), "normal orthogonal to the plane"
            assert bool(convex_q(P)) == convex, "convexity test"
            T = triangulate_polygon(P)
            assert np.array_equal(P, keep), "input untouched"
            W = (np.asarray(T) - x0) @ Q[:, :2] / s
            assert np.max(np.abs(np.asarray(T) - x0 - s * W @ Q[:, :2].T)) < 1e-8 * (1 + s), "triangles in the plane"
            A = abs(sum(pts[i][0] * pts[(i + 1) % n][1] - pts[i][1] * pts[(i + 1) % n][0] for i in range(n))) / 2
            ar = [abs(orient(*t)) / 2 for t in W]
            assert abs(sum(ar) - A) < 1e-8 * (1 + A), ("areas", sum(ar), A)
            # random points: exactly one triangle for points in the polygon, none outside
            for _ in range(12):
                p = (B.rng.uniform(-2.2, 2.2), B.rng.uniform(-2.2, 2.2))
                d = [np.sign(a) for t in W for a in (orient(t[0], t[1], p), orient(t[1], t[2], p), orient(t[2], t[0], p)) if abs(a) < 1e-7]
                if d or min(seg_dist(p, pts[i], pts[(i + 1) % n]) for i in range(n)) < 1e-6:
                    continue
                cnt = sum(len({np.sign(orient(t[i], t[(i + 1) % 3], p)) for i in range(3)}) == 1 for t in W)
                assert cnt == (1 if inside(p, pts) else 0), ("covering", p, cnt)

        B.case("triangulate_polygon", dict(points=P.tolist()), run)


def bounded_winding(B):
    from geometry.operations.polygon_geometry_operations import winding_number

    while B.more() and B.evaluations < (20000 if B.thorough else 2000):
        pts = pick(B)
        if pts is None:
            continue
        n = len(pts)
        p = (B.rng.uniform(-2.2, 2.2), B.rng.uniform(-2.2, 2.2))
        if min(seg_dist(p, pts[i], pts[(i + 1) % n]) for i in range(n)) < 1e-2:
            continue

        def run():
            w = winding_number(np.array(p), np.array(pts))
            assert (w != 0) == inside(p, pts), w

        B.case("winding_number", dict(points=pts, p=p), run)


BOUNDED = [Bounded("tiling of random simple polygons", bounded_tiling, [M + "triangulate_polygon", M + "convex_q", M + "polygon_normal"],
                   "random simple polygons with 3..9 vertices (2-opt, regular, combs, rhombus), every start vertex and orientation, random planes", budget=30),
           Bounded("winding number", bounded_winding, [M + "winding_number"], "random simple polygons and points away from the boundary", budget=10)]
