"""C09: point-in-segment/triangle/polygon predicates decide membership."""
import itertools
import math

import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C09"
IMPORTS = ["geometry.operations.point_geometry_operations"]
M = "geometry.operations.point_geometry_operations."
TOL = 1e-6  # "well above the tolerance" (1e-10) for the sizes below
ASSUME = "lengths of at least 0.01 (segments), areas of at least 1e-3, coordinates of at most 1000: the absolute tolerance 1e-10 of the code is then far below 1e-6"


def mod():
    import geometry.operations.point_geometry_operations as m

    return m


def bounded_coords(E, *pts):
    for p in pts:
        for x in p:
            E.assume(x <= 1000)
            E.assume(x >= -1000)


def near_pt(E, r, p):
    """coordinatewise within tolerance"""
    return E.conj([E.and_(r[k] - p[k] <= TOL, p[k] - r[k] <= TOL) for k in range(3)])


# ---------------------------------------------------------------- segment
def unit_segment(E):
    m = mod()
    Q = rotation(E, opaque=True)
    a = E.vec("a", 3)
    L = E.real("L", gen=lambda r: 10 ** r.uniform(-1.5, 1.5))
    E.assume(L >= 0.01)
    E.assume(L <= 1000)
    kind = None if E.symbolic else E.rng.choice(["on", "end", "out", "off", "any"])
    x = E.real("x", gen=lambda r: {"on": r.uniform(0, L), "end": r.choice([0.0, L]), "out": r.choice([-r.uniform(1e-4, 3), L + r.uniform(1e-4, 3)]), "off": r.uniform(-1, L + 1), "any": r.uniform(-2, 2 + L)}[kind])
    y = E.real("y", gen=lambda r: {"on": 0.0, "end": 0.0, "out": 0.0, "off": r.choice([-1, 1]) * 10 ** r.uniform(-4, 0), "any": r.uniform(-1, 1)}[kind])
    b = a + Q[:, 0] * L
    p = a + Q[:, 0] * x + Q[:, 1] * y
    bounded_coords(E, p, a, b)
    E.cover()
    r = m.point_line_intersection(p, a, b)
    eps0 = 0 if E.symbolic else 1e-12
    on = E.conj([E.and_(y <= eps0, y >= -eps0), x >= -eps0, x <= L + eps0])
    if r is None:
        E.prove("no intersection only off the segment", E.not_(E.conj([E.eq(y, 0) if E.symbolic else abs(y) == 0, x >= 0, x <= L]) if E.symbolic else on))
        return
    r = np.asarray(r)
    E.prove_eq("a point", np.array(r.shape), np.array([3]))
    E.prove("reported point coincides with the query point", near_pt(E, r, p))
    if same_vec(E, r, p):
        # neither end is within the collapse tolerance
        E.prove("reported only near the segment (across)", E.and_(y <= TOL, y >= -TOL))
        n0, n1 = E.norm(p - a), E.norm(p - b)
        for v, n in ((x, n0), (-x, n0), (x - L, n1), (L - x, n1)):
            E.lemma("distance to an end bounds the offset along", v <= n)
        E.prove("reported only near the segment (along)", E.and_(x >= -TOL * (1 + L), x <= L + TOL * (1 + L)))
    else:
        E.prove("otherwise an end of the segment", E.or_(E.conj([E.eq(u, v) for u, v in zip(r, a)]), E.conj([E.eq(u, v) for u, v in zip(r, b)])))


def same_vec(E, r, p):
    if E.symbolic:
        return all(E._identity(lift(u), lift(v)) for u, v in zip(r, p))
    return np.array_equal(r, p)


class Stub:
    """temporarily replaces module functions by their contracts"""

    def __init__(self, m, **kw):
        self.m, self.kw = m, kw

    def __enter__(self):
        self.old = {k: getattr(self.m, k) for k in self.kw if hasattr(self.m, k)}
        for k in self.old:
            setattr(self.m, k, self.kw[k])
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)


def unit_colinear(E):
    """the collinearity measure is the area spanned; incidence is its comparison with the tolerance"""
    m = mod()
    p, a, b = E.vec("p", 3), E.vec("a", 3), E.vec("b", 3)
    E.cover()
    s = m.colinear_measurement(p, a, b)
    n = E.cross(a - p, b - p)
    E.prove("twice the measure squared is the squared cross product", E.eq(4 * s * s, E.dot(n, n)))
    E.prove("non-negative", s >= 0)


def unit_coplanar(E):
    m = mod()
    p, a, b, c = E.vec("p", 3), E.vec("a", 3), E.vec("b", 3), E.vec("c", 3)
    E.cover()
    v = m.coplanar_measurement(p, a, b, c)
    d = E.dot(E.cross(b - a, c - a), p - a)
    E.prove("the measure is the signed tetrahedron volume", E.or_(E.eq(6 * v, d), E.eq(6 * v, -d)))


# ---------------------------------------------------------------- triangle
def triangle_param(E):
    Q = rotation(E, opaque=True)
    a = E.vec("a", 3)
    r = E.real("r", gen=lambda g: 10 ** g.uniform(-1, 1))
    h = E.real("h", gen=lambda g: 10 ** g.uniform(-1, 1))
    s = E.real("s")
    E.assume([r >= 0.01, h >= 0.01, r <= 1000, h <= 1000])
    ab, ac = Q[:, 0] * r, Q[:, 0] * s + Q[:, 1] * h
    return Q, a, ab, ac, r, h, s


def unit_triangle(E):
    m = mod()
    Q, a, ab, ac, r, h, s = triangle_param(E)
    b, c = a + ab, a + ac
    if E.symbolic:
        u, v, w = E.real("u"), E.real("v"), E.real("w")
    else:
        g = E.rng
        l = [g.random() for _ in range(3)]
        for k in range(3):
            if g.random() < 0.15:
                l[k] = 0.0
        t = sum(l) or 1.0
        l = [x / t for x in l] if sum(l) else [1.0, 0, 0]
        kind = g.choice(["in", "out", "above"])
        u = E.real("u", gen=lambda g: l[0] if kind != "out" else g.uniform(-1, 2))
        v = E.real("v", gen=lambda g: l[1] if kind != "out" else g.uniform(-1, 2))
        w = E.real("w", gen=lambda g: 0.0 if kind != "above" else g.choice([-1, 1]) * 10 ** g.uniform(-3, 0))
        if kind == "out":
            E.assume(min(abs(u), abs(v), abs(1 - u - v)) > 1e-3)
    p = a + ab * u + ac * v + Q[:, 2] * w
    bounded_coords(E, p, a, b, c)
    E.cover()
    state = {}

    def edge_contract(q, x, y, *rest, **kw):
        """point_line_intersection by contract: None only when q is off the segment; otherwise a point
        equal to q up to tolerance which is within tolerance of the segment"""
        E.contract("point_line_intersection (unit 'segment')")
        ends = [k for k, z in enumerate((a, b, c)) for e in (x, y) if same_vec(E, e, z)]
        if not same_vec(E, q, p) or len(ends) != 2 or ends[0] == ends[1]:
            raise Unsupported("query of another segment")
        k = 3 - sum(ends)
        lam = [1 - u - v, u, v]
        on = E.conj([E.eq(w, 0), E.eq(lam[k], 0), lam[ends[0]] >= 0, lam[ends[1]] >= 0])
        if E.choice("edge", [True, False]):
            state["edge"] = k
            res = np.array([E.fresh("edge_pt") for _ in range(3)], dtype=object)
            E.assume(near_pt(E, res, p))
            state["res"] = res
            return res
        E.assume(E.not_(on))
        return None

    if E.symbolic:
        with Stub(m, point_line_intersection=edge_contract):
            r_ = m.point_triangle_intersection(p, a, b, c)
    else:
        r_ = m.point_triangle_intersection(p, a, b, c)
    if r_ is None:
        if E.symbolic:
            E.prove("no intersection only off the triangle", E.not_(E.conj([E.eq(w, 0), u >= 0, v >= 0, u + v <= 1])))
        else:
            E.prove("no intersection only off the triangle", not (w == 0 and min(u, v, 1 - u - v) >= 0))
        return
    R = np.asarray(r_)
    E.prove("reported point coincides with the query point", near_pt(E, R, p))
    if E.symbolic and "edge" in state:
        E.prove("the edge query decides", R is state["res"] or same_vec(E, R, state["res"]))
        return  # near an edge, hence near the triangle, by the contract of the edge query
    if same_vec(E, R, p):
        t = TOL
        E.prove("reported only near the triangle's plane", E.and_(w <= 1e-5, w >= -1e-5))
        lim = 0 if E.symbolic else 1e-6
        E.prove("reported only inside (barycentric coordinates)", E.conj([u >= -lim, v >= -lim, u + v <= 1 + lim]))
    else:
        E.prove("otherwise a vertex", E.disj([E.conj([E.eq(x, y) for x, y in zip(R, z)]) for z in (a, b, c)]) if E.symbolic else
                min(np.linalg.norm(R - z) for z in (a, b, c)) < 1e-5)


# ---------------------------------------------------------------- polygon and vectorised queries
def unit_polygon(E):
    """point_polygon_intersection: reported exactly when one of the triangles of the tiling reports it"""
    m = mod()
    k = E.choice("triangles", [1, 2, 3, 5])
    p = E.vec("p", 3)
    poly = E.arr("poly", (4, 3))
    if not E.symbolic:
        return
    tri = np.empty((k, 3, 3), dtype=object)
    for i in np.ndindex(k, 3, 3):
        tri[i] = E.fresh("corner")
    hit = [E.choice("hit%d" % i, [False, True]) for i in range(k)]
    E.cover()
    E.contract("triangulate_polygon: tiles the polygon (C11)")
    E.contract("point_triangle_intersection (unit 'triangle')")
    seen = []

    def tri_contract(q, a, b, c, *r, **kw):
        if not same_vec(E, q, p):
            raise Unsupported("query of another point")
        for i in range(k):
            if all(any(same_vec(E, x, y) for y in tri[i]) for x in (a, b, c)):
                seen.append(i)
                return (q if i % 2 == 0 else np.array([E.fresh("near") for _ in range(3)], dtype=object)) if hit[i] else None
        raise Unsupported("query of another triangle")

    def tri_poly(pts, *r):
        if not (np.shape(pts) == (4, 3) and all(same_vec(E, pts[i], poly[i]) for i in range(4))):
            raise Unsupported("triangulation of another polygon")
        return tri

    with Stub(m, triangulate_polygon=tri_poly, point_triangle_intersection=tri_contract):
        r = m.point_polygon_intersection(p, poly)
    E.prove("reported exactly when some triangle contains the point", (r is not None) == any(hit))
    if r is not None and hit[0]:
        E.prove("a point with three coordinates", np.shape(r) == (3,))
    if r is not None and all(i % 2 == 0 for i in range(k) if hit[i]):
        E.prove("reported point coincides with the query point", near_pt(E, np.asarray(r), p))


def unit_vec(vec_name, scalar_name, nargs):
    def fn(E):
        m = mod()
        n = E.choice("points", [0, 1, 2, 3, 4])
        pts = E.arr("pts", (n, 3))
        args = [E.arr("arg%d" % i, (3,) if nargs > 1 else (4, 3)) for i in range(nargs)]
        if not E.symbolic:
            return
        hit = [E.choice("hit%d" % i, [False, True]) for i in range(n)]
        E.cover()
        E.contract(scalar_name)
        res = {}

        def scalar(q, *a, **kw):
            a = list(a) + [kw[x] for x in ("a", "b", "c", "polygon_points") if x in kw]
            if len(a) < nargs or not all(np.shape(x) == np.shape(y) and same_vec(E, np.ravel(x), np.ravel(y)) for x, y in zip(a, args)):
                raise Unsupported("query of another set")
            for i in range(n):
                if same_vec(E, q, pts[i]):
                    if i not in res:
                        res[i] = np.array([E.fresh("near") for _ in range(3)], dtype=object) if hit[i] else None
                    return res[i]
            raise Unsupported("query of another point")

        with Stub(m, **{scalar_name: scalar}):
            out, mask = getattr(m, vec_name)(pts, *args)
        E.prove("mask has one entry per point", len(mask) == n)
        E.prove("mask marks exactly the intersected points", [bool(x) for x in mask] == hit)
        want = [res[i] for i in range(n) if hit[i]]
        E.prove("one result per intersected point", len(out) == len(want))
        for x, y in zip(out, want):
            E.prove_eq("results in input order", np.asarray(x), y)

    return fn


def unit_sort(n):
    def fn(E):
        m = mod()
        a, d = E.vec("a", 3), E.vec("d", 3)
        E.assume(E.dot(d, d) > 0.01)
        t = [E.real("t%d" % i, lo=0, hi=1) for i in range(n)]
        pts = np.array([a + d * x for x in t], dtype=object if E.symbolic else float)
        back = E.choice("from the other end", [False, True])
        E.cover()
        idx = m.points_line_argsort(pts, a, a + d, back) if back else m.points_line_argsort(pts, a, a + d)
        idx = [int(i) for i in idx]
        E.prove("a permutation", sorted(idx) == list(range(n)))
        for i, j in zip(idx, idx[1:]):
            if not E.symbolic:
                E.prove("ordered by distance from the chosen end", t[j] <= t[i] + 1e-9 if back else t[i] <= t[j] + 1e-9)
            else:
                E.prove("ordered by distance from the chosen end", t[j] <= t[i] if back else t[i] <= t[j])

    return fn


SZ = "up to 4 points per query; the scalar query by contract"
UNITS = [
    Unit("collinearity measure", unit_colinear, [M + "colinear_measurement"], samples=60),
    Unit("coplanarity measure", unit_coplanar, [M + "coplanar_measurement"], samples=60),
    Unit("segment", unit_segment, [M + "point_line_intersection", M + "point_line_incidence"], samples=600, timeout=120, assumptions=[ASSUME]),
    Unit("triangle", unit_triangle, [M + "point_triangle_intersection", M + "point_triangle_incidence"], samples=600, timeout=150, assumptions=[ASSUME]),
    Unit("polygon", unit_polygon, [M + "point_polygon_intersection"], samples=0, replayable=False, kind="bounded-size", bounds="up to 5 triangles"),
    Unit("points and segment", unit_vec("points_line_intersection", "point_line_intersection", 2), [M + "points_line_intersection"], samples=0, replayable=False, kind="bounded-size", bounds=SZ),
    Unit("points and triangle", unit_vec("points_triangle_intersection", "point_triangle_intersection", 3), [M + "points_triangle_intersection"], samples=0, replayable=False, kind="bounded-size", bounds=SZ),
    Unit("points and polygon", unit_vec("points_polygon_intersection", "point_polygon_intersection", 1), [M + "points_polygon_intersection"], samples=0, replayable=False, kind="bounded-size", bounds=SZ),
]
UNITS += [Unit("sorting %d points" % n, unit_sort(n), [M + "points_line_argsort"], samples=60, kind="bounded-size", bounds="%d points" % n) for n in (1, 2, 3, 4)]


# ---------------------------------------------------------------- bounded
def dist_seg(p, a, b):
    t = np.clip(np.dot(p - a, b - a) / np.dot(b - a, b - a), 0, 1)
    return np.linalg.norm(p - a - t * (b - a))


def dist_tri(p, a, b, c):
    n = np.cross(b - a, c - a)
    n = n / np.linalg.norm(n)
    q = p - n * np.dot(p - a, n)
    s = [np.dot(np.cross(y - x, q - x), n) for x, y in ((a, b), (b, c), (c, a))]
    if min(s) >= 0:
        return abs(np.dot(p - a, n))
    return min(dist_seg(p, a, b), dist_seg(p, b, c), dist_seg(p, c, a))


def check_vec(f, scal, pts, args, B):
    out, mask = f(pts, *args)
    want = [scal(p, *args) for p in pts]
    assert len(mask) == len(pts) and [bool(x) for x in mask] == [w is not None for w in want], "mask"
    sel = [w for w in want if w is not None]
    assert len(out) == len(sel), "count"
    for x, y in zip(out, sel):
        assert np.array_equal(x, y), "order"


def bounded_points(B):
    m = mod()
    from .c11 import pick, embed, inside, seg_dist, orient

    while B.more() and B.evaluations < (20000 if B.thorough else 2500):
        kind = B.rng.choice(["segment", "triangle", "polygon"])
        sc = 10 ** B.rng.uniform(-1, 1)
        if kind == "polygon":
            pts2 = pick(B)
            if pts2 is None:
                continue
            P, Q, x0, s = embed(B, pts2)
            n = len(pts2)
            cand = []
            for _ in range(6):
                k = B.rng.random()
                i = B.rng.randrange(n)
                a, b = np.array(pts2[i]), np.array(pts2[(i + 1) % n])
                if k < 0.15:
                    z, w = a, True
                elif k < 0.4:
                    z, w = a + B.rng.random() * (b - a), True
                else:
                    z = B.nrng.uniform(-2.2, 2.2, 2)
                    if min(seg_dist(z, pts2[j], pts2[(j + 1) % n]) for j in range(n)) < 1e-3:
                        continue
                    w = inside(z, pts2)
                off = 0.0
                if B.rng.random() < 0.15:
                    off, w = B.rng.choice([-1, 1]) * 10 ** B.rng.uniform(-3, 0), False
                cand.append((x0 + s * (Q[:, :2] @ z) + off * Q[:, 2], w))

            def run():
                keep = P.copy()
                for p, w in cand:
                    r = m.point_polygon_intersection(p, P)
                    assert (r is not None) == w, ("polygon", p, w)
                    if r is not None:
                        assert np.linalg.norm(np.asarray(r) - p) < 1e-8 * (1 + s)
                if cand:
                    check_vec(m.points_polygon_intersection, m.point_polygon_intersection, np.array([c[0] for c in cand]), [P], B)
                assert np.array_equal(P, keep)

            B.case(kind, dict(polygon=P.tolist(), points=[c[0].tolist() for c in cand]), run)
            continue
        k = 2 if kind == "segment" else 3
        V = B.nrng.uniform(-1, 1, (k, 3)) * sc + B.nrng.uniform(-1, 1, 3)
        if B.rng.random() < 0.3:
            V = np.round(V * 2) / 1.0
        if kind == "segment" and np.linalg.norm(V[1] - V[0]) < 0.05:
            continue
        if kind == "triangle" and (np.linalg.norm(np.cross(V[1] - V[0], V[2] - V[0])) < 0.02 or min(np.linalg.norm(V[i] - V[j]) for i in range(3) for j in range(i)) < 0.1):
            continue
        dist = dist_seg if kind == "segment" else dist_tri
        cand = []
        for _ in range(6):
            q = B.rng.random()
            l = np.array([B.rng.random() if B.rng.random() < 0.75 else 0.0 for _ in range(k)])
            if l.sum() == 0:
                l[0] = 1.0
            p = (l / l.sum()) @ V
            if q < 0.4:
                p = p + B.nrng.normal(size=3) * 10 ** B.rng.uniform(-3, 0) * sc
            elif q < 0.6:
                l = B.nrng.normal(size=k)
                p = (l + (1 - l.sum()) / k) @ V
            dd = dist(p, *V)
            if 1e-13 < dd < 1e-5 * (1 + sc):
                continue
            if dd <= 1e-13 and False:
                continue
            cand.append((p, dd < 1e-9))

        def run():
            f = m.point_line_intersection if kind == "segment" else m.point_triangle_intersection
            fv = m.points_line_intersection if kind == "segment" else m.points_triangle_intersection
            keep = V.copy()
            for p, w in cand:
                r = f(p, *V)
                assert (r is not None) == w, (kind, p.tolist(), w)
                if r is not None:
                    assert np.linalg.norm(np.asarray(r) - p) < 1e-8 * (1 + sc)
            check_vec(fv, f, np.array([c[0] for c in cand]).reshape(-1, 3), list(V), B)
            if kind == "segment":
                t = B.nrng.uniform(0, 1, 5)
                P = V[0] + t[:, None] * (V[1] - V[0])
                assert list(m.points_line_argsort(P, *V)) == list(np.argsort(t)), "sort"
                assert list(m.points_line_argsort(P, *V, True)) == list(np.argsort(-t)), "sort from b"
            assert np.array_equal(V, keep)

        B.case(kind, dict(vertices=V.tolist(), points=[c[0].tolist() for c in cand]), run)


BOUNDED = [Bounded("membership on random sets", bounded_points, [M + "point_line_intersection", M + "point_triangle_intersection", M + "point_polygon_intersection"],
                   "random segments, triangles, simple polygons of size 0.1..10; points on vertices, edges, inside, outside (at least 1e-5 away), above", budget=30)]
