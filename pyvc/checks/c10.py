"""C10: segment intersection queries return exactly the common points."""
import itertools
import math

import numpy as np

from ..harness import Unit, Bounded
from .common import *
from .c09 import Stub, same_vec, bounded_coords, dist_seg, dist_tri

PID = "C10"
IMPORTS = ["geometry.operations.line_geometry_operations"]
M = "geometry.operations.line_geometry_operations."
TOL = 1e-6
ASSUME = ("segments at least 0.01 long, angle between them / slope of the crossing at least 0.01, triangle areas at least 1e-4, "
          "coordinates of at most 1000: the absolute tolerance 1e-10 of the code is then far below 1e-6")


def mod():
    import geometry.operations.line_geometry_operations as m

    return m


def near(E, u, v, tol=TOL):
    return E.conj([E.and_(u[k] - v[k] <= tol, v[k] - u[k] <= tol) for k in range(3)])


def rel_close(E, u, v, t):
    """|u - v| <= t + t |v| coordinatewise (what the closeness test of the point query says)"""
    out = []
    for k in range(3):
        for d in (u[k] - v[k], v[k] - u[k]):
            out.append(E.or_(d <= t + t * v[k], d <= t - t * v[k]))
    return E.conj(out)


# ---------------------------------------------------------------- two segments
def unit_lines(E):
    m = mod()
    Q = rotation(E, opaque=True)
    a = E.vec("a", 3)
    r = E.real("r", gen=lambda g: 10 ** g.uniform(-1, 1))
    h = E.real("h", gen=lambda g: 10 ** g.uniform(-1, 1))
    s0 = E.real("s0")
    E.assume([r >= 0.01, h >= 0.01, r <= 1000, h <= 1000, s0 <= 1000, s0 >= -1000])
    if E.symbolic:
        T, S, z = E.real("T"), E.real("S"), E.real("z")
    else:
        g = E.rng
        kind = g.choice(["cross", "miss", "apart", "end"])
        T, S = g.random(), g.random()
        if kind == "end":
            T, S = g.choice([(0.0, S), (1.0, S), (T, 0.0), (T, 1.0), (0.0, 0.0), (1.0, 1.0)])
        if kind == "miss":
            T, S = g.choice([(T, g.choice([-1, 2]) + S / 2), (g.choice([-1, 2]) + T / 2, S)])
        T, S = E.real("T", gen=lambda g: T), E.real("S", gen=lambda g: S)
        z = E.real("z", gen=lambda g: g.choice([-1, 1]) * 10 ** g.uniform(-3, 0) if kind == "apart" else 0.0)
    # T, S: parameters of the closest points of the two lines; any c - a is reached by some (T, S, z)
    x, y = T * r - S * s0, -S * h
    b = a + Q[:, 0] * r
    c = a + Q[:, 0] * x + Q[:, 1] * y + Q[:, 2] * z
    d2 = Q[:, 0] * s0 + Q[:, 1] * h
    d = c + d2
    bounded_coords(E, a, b, c, d)
    E.cover()
    sig, t = S, T
    hits = {}

    def points_contract(pts, p0, p1, *rest, **kw):
        """points_line_intersection by contract (C09)"""
        E.contract("points_line_intersection (C09)")
        if not (len(pts) == 2 and same_vec(E, pts[0], a) and same_vec(E, pts[1], b) and
                ((same_vec(E, p0, c) and same_vec(E, p1, d)) or (same_vec(E, p0, d) and same_vec(E, p1, c)))):
            raise Unsupported("query of other points")
        out, mask = [], []
        for k, (P, tt) in enumerate(((a, 0), (b, 1))):
            hit = E.choice("end%d on the other segment" % k, [False, True])
            mask.append(hit)
            if hit:
                R = np.array([E.fresh("near") for _ in range(3)], dtype=object)
                E.assume(rel_close(E, R, P, 1e-10))
                hits[k] = R
                out.append(R)
            else:
                E.assume(E.not_(E.conj([E.eq(z, 0), E.eq(t, tt), sig >= 0, sig <= 1])))
        return np.array(out, dtype=object) if out else np.array([]), np.array(mask)

    if E.symbolic:
        with Stub(m, points_line_intersection=points_contract):
            res = m.line_line_intersection(a, b, c, d)
    else:
        res = m.line_line_intersection(a, b, c, d)
    if res is None:
        if E.symbolic:
            E.prove("missed only when there is no common point", E.not_(E.conj([E.eq(z, 0), t >= 0, t <= 1, sig >= 0, sig <= 1])))
        else:
            E.prove("missed only when there is no common point", not (z == 0 and -1e-13 < t < 1 + 1e-13 and -1e-13 < sig < 1 + 1e-13))
        return
    if isinstance(res, tuple):
        out, mask = res
        E.prove("both ends reported", len(out) == 2 and all(bool(v) for v in mask))
        if E.symbolic:
            E.prove("only when both ends are on the other segment", len(hits) == 2)
        E.prove("first end returned", near(E, out[0], a))
        E.prove("second end returned", near(E, out[1], b))
        return
    R = np.asarray(res)
    E.prove("one point", R.shape == (1, 3))
    R = R[0]
    if E.symbolic and hits:
        E.prove("exactly one end on the other segment", len(hits) == 1)
        k = list(hits)[0]
        E.prove("the end on the other segment is returned", same_vec(E, R, hits[k]))
        E.prove("the returned point is an end of the first segment", near(E, R, (a, b)[k]))
        return
    if E.symbolic:
        E.prove("the returned point is the point of the first line closest to the second", all(E._identity(lift(u), lift(v)) for u, v in zip(R, a + Q[:, 0] * (t * r))))
        E.prove("the returned point is within the first segment", E.and_(t >= -TOL, t <= 1 + TOL))
        E.prove("its foot is within the second segment", E.and_(sig >= -TOL, sig <= 1 + TOL))
        E.lemma("unit direction", E.eq(E.dot(Q[:, 2], Q[:, 2]), 1))
        g = [z * Q[k, 2] for k in range(3)]
        E.lemma("the gap along the common normal", E.eq(z * z, g[0] * g[0] + g[1] * g[1] + g[2] * g[2]))
        for k in range(3):
            E.lemma("first line's point bounded", E.conj([Q[k, 0] * r <= 2000, Q[k, 0] * r >= -2000]))
            E.lemma("gap component small", E.and_(g[k] <= 1e-6 / 2, g[k] >= -1e-6 / 2))
        E.prove_from("the two lines meet", E.and_(z <= TOL, z >= -TOL), [E.eq(z * z, g[0] * g[0] + g[1] * g[1] + g[2] * g[2])] + [E.and_(v <= 1e-6 / 2, v >= -1e-6 / 2) for v in g], hide=g)
    else:
        E.prove("on the first segment", dist_seg(R, a, b) < 1e-6)
        E.prove("on the second segment", dist_seg(R, c, d) < 1e-6)


# ---------------------------------------------------------------- vectorised over segments
def unit_lines_line(E):
    m = mod()
    n = E.choice("segments", [0, 1, 2, 3, 4])
    L = E.arr("l", (n, 2, 3))
    a, b = E.vec("a", 3), E.vec("b", 3)
    if not E.symbolic:
        return
    hit = [E.choice("hit%d" % i, [False, True]) for i in range(n)]
    E.cover()
    E.contract("line_line_intersection")
    res = {}

    def stub(p, q, c, d, *r, **kw):
        if not (same_vec(E, c, a) and same_vec(E, d, b) or same_vec(E, c, b) and same_vec(E, d, a)):
            raise Unsupported("query against another segment")
        for i in range(n):
            if same_vec(E, p, L[i, 0]) and same_vec(E, q, L[i, 1]) or same_vec(E, q, L[i, 0]) and same_vec(E, p, L[i, 1]):
                if i not in res:
                    res[i] = np.array([[E.fresh("pt") for _ in range(3)]], dtype=object) if hit[i] else None
                return res[i]
        raise Unsupported("query of another segment")

    with Stub(m, line_line_intersection=stub):
        out = m.lines_line_intersection(L, a, b)
    want = [res[i] for i in range(n) if hit[i]]
    E.prove("one result per crossing segment", len(out) == len(want))
    for u, v in zip(out, want):
        E.prove_eq("results in input order", np.asarray(u, dtype=object).reshape(-1), v.reshape(-1))


def unit_lines_lines(E):
    """every segment of the second list against the segments of the first that are not itself"""
    m = mod()
    n, k = E.choice("segments", [1, 2, 3]), E.choice("queries", [0, 1, 2])
    L = E.arr("l", (n, 2, 3))
    own = [E.choice("own%d" % i, [None] + list(range(n))) for i in range(k)]
    if not E.symbolic:
        return
    Q = np.empty((k, 2, 3), dtype=object)
    for i in range(k):
        Q[i] = E.arr("q%d" % i, (2, 3)) if own[i] is None else L[own[i]]
        for j in range(n):          # other segments are visibly other segments
            if j != own[i]:
                E.assume(E.disj([E.or_(x - y >= 1e-4 * (1 + abs(y)), y - x >= 1e-4 * (1 + abs(y))) for x, y in zip(L[j].ravel(), Q[i].ravel())]))
    E.cover()
    E.contract("lines_line_intersection")
    calls = []

    def stub(lines, c, d, *r, **kw):
        hits = [i for i in range(k) if same_vec(E, c, Q[i, 0]) and same_vec(E, d, Q[i, 1])]
        if not hits:
            raise Unsupported("query against another segment")
        js = [[j for j in range(n) if same_vec(E, x[0], L[j, 0]) and same_vec(E, x[1], L[j, 1])] for x in lines]
        if any(len(j) != 1 for j in js):
            raise Unsupported("query of another segment")
        calls.append((hits, [j[0] for j in js], object()))
        return calls[-1][2]

    with Stub(m, lines_line_intersection=stub):
        out = m.lines_lines_intersection(L, Q)
    E.prove("one result per query", len(out) == k)
    for i in range(k):
        mine = [c for c in calls if len(out) > i and c[2] is out[i]]
        E.prove("the result of its own query", len(mine) == 1 and i in mine[0][0])
        if len(mine) == 1:
            E.prove("against all other segments, in order", mine[0][1] == [j for j in range(n) if j != own[i]])


# ---------------------------------------------------------------- segment and triangle
def unit_tri(E):
    m = mod()
    Q = rotation(E, opaque=True)
    a = E.vec("a", 3)
    r = E.real("r", gen=lambda g: 10 ** g.uniform(-0.5, 1))
    h = E.real("h", gen=lambda g: 10 ** g.uniform(-0.5, 1))
    s = E.real("s")
    E.assume([r >= 0.01, h >= 0.01, r <= 1000, h <= 1000])
    ab, ac = Q[:, 0] * r, Q[:, 0] * s + Q[:, 1] * h
    b, c = a + ab, a + ac
    # p and q by the crossing point (u, v), the direction and the crossing parameter
    if E.symbolic:
        u, v, k0, k1, k2, d = [E.real(x) for x in ("u", "v", "k0", "k1", "k2", "d")]
    else:
        g = E.rng
        lam = [g.random() + 0.01 for _ in range(3)]
        kind = g.choice(["in", "out", "short"])
        lam = [z / sum(lam) for z in lam]
        u = E.real("u", gen=lambda g: lam[0] if kind != "out" else g.uniform(-1, 2))
        v = E.real("v", gen=lambda g: lam[1] if kind != "out" else g.uniform(-1, 2))
        k0, k1 = E.real("k0"), E.real("k1")
        k2 = E.real("k2", gen=lambda g: g.choice([-1, 1]) * 10 ** g.uniform(-1, 0.5))
        d = E.real("d", gen=lambda g: g.choice([0.0, 1.0, g.random(), g.random()]) if kind != "short" else g.choice([-1, 2]) + g.random() * 0.5)
        E.assume(min(abs(u), abs(v), abs(1 - u - v)) > 1e-3)
    E.assume(E.or_(k2 >= 0.01, k2 <= -0.01))
    E.assume([k0 <= 1000, k1 <= 1000, k2 <= 1000, k0 >= -1000, k1 >= -1000, k2 >= -1000])
    K = Q[:, 0] * k0 + Q[:, 1] * k1 + Q[:, 2] * k2
    X = a + ab * u + ac * v
    p = X - K * d
    q = p + K
    bounded_coords(E, a, b, c, p, q)
    E.cover()
    hits = []

    def inside(al, be):
        return E.conj([al >= 0, be >= 0, al + be <= 1])

    def frame_of(pt):
        w = [pt[k] - a[k] for k in range(3)]
        f = [E.dot(w, Q[:, j]) for j in range(3)]
        return (f[0] - f[1] / h * s) / r, f[1] / h, f[2]

    def point_contract(pt, x, y, z, *rest, **kw):
        E.contract("point_triangle_intersection (C09)")
        if not all(any(same_vec(E, i, j) for j in (a, b, c)) for i in (x, y, z)):
            raise Unsupported("query of another triangle")
        if same_vec(E, pt, p):
            al, be, ga = frame_of(p)
            name = "p"
        elif same_vec(E, pt, q):
            al, be, ga = frame_of(q)
            name = "q"
        elif same_vec(E, pt, X):
            al, be, ga = u, v, 0
            name = "X"
        else:
            raise Unsupported("query of another point")
        if E.choice("point " + name, [False, True]):
            R = np.array([E.fresh("near") for _ in range(3)], dtype=object)
            E.assume(near(E, R, pt))
            E.assume(E.and_(ga <= 1e-5, ga >= -1e-5))
            hits.append((name, R))
            return R
        E.assume(E.not_(E.and_(E.eq(ga, 0), inside(al, be))))
        return None

    def lines_contract(lines, x, y, *rest, **kw):
        E.contract("lines_line_intersection / line_line_intersection")
        if not (same_vec(E, x, p) and same_vec(E, y, q) or same_vec(E, x, q) and same_vec(E, y, p)):
            raise Unsupported("query against another segment")
        out = []
        edges = set()
        bary = [1 - u - v, u, v]
        for ln in lines:
            e = [k for w in ln for k, z in enumerate((a, b, c)) if same_vec(E, w, z)]
            if len(e) != 2 or e[0] == e[1]:
                raise Unsupported("another edge")
            k = 3 - sum(e)
            edges.add(k)
            if E.choice("edge %d" % k, [False, True]):
                R = np.array([E.fresh("edge_pt") for _ in range(3)], dtype=object)
                hits.append(("edge", R))
                out.append(R.reshape(1, 3))
            else:  # no common point of the segment and the edge
                E.assume(E.not_(E.conj([d >= 0, d <= 1, E.eq(bary[k], 0)] + [bary[j] >= 0 for j in e])))
        return np.array(out, dtype=object) if out else np.array([])

    line = np.array([p, q], dtype=object if E.symbolic else float)
    E.abstract_unique = True
    if E.symbolic:
        with Stub(m, point_triangle_intersection=point_contract, lines_line_intersection=lines_contract):
            res = m.line_triangle_intersection(line, a, b, c)
        if res is None:
            E.prove("missed only when the crossing point is not common", E.not_(E.conj([d >= 0, d <= 1, inside(u, v)])))
            E.prove("nothing found is dropped", not [n for n, _ in hits if n in ("edge", "X")])
            return
        R = np.asarray(res, dtype=object)
        E.prove("points in space", R.shape[-1] == 3)
        pts = R.reshape(-1, 3)
        E.prove("at least one point", len(pts) >= 1)
        edge = [h_ for n, h_ in hits if n == "edge"]
        for z in pts:
            if edge:  # points common to an edge and the segment, by contract
                E.prove("only points common to the segment and the boundary", any(same_vec(E, z, w) for w in edge))
                continue
            cands = [(n, w) for n, w in hits]
            E.prove("a membership query succeeded", len(cands) >= 1)
            names = [n for n, _ in cands]
            if "X" in names:
                E.prove("the crossing point is returned", near(E, z, X))
                E.prove("only when it is on the segment", E.and_(d >= -0.001, d <= 1.001))
            else:
                E.prove("an end of the segment in the triangle is returned", E.disj([near(E, z, w) for w in ([p] if "p" in names else []) + ([q] if "q" in names else [])]))
    else:
        res = m.line_triangle_intersection(line, a, b, c)
        common = -1e-12 <= d <= 1 + 1e-12 and min(u, v, 1 - u - v) >= 0
        E.prove("reported exactly when the crossing point is common", (res is not None) == common)
        if res is not None:
            E.prove("the crossing point is returned", all(np.linalg.norm(z - X) < 1e-5 for z in np.asarray(res).reshape(-1, 3)))
            E.prove("as an array of points", np.shape(res) == (1, 3))


def unit_incidence(E):
    """the plane-side test: same strict side of the plane (well away from it) -> not incident; the plane between them -> incident"""
    m = mod()
    Q = rotation(E, opaque=True)
    a = E.vec("a", 3)
    r, h, s = E.real("r", lo=0.01, hi=1000), E.real("h", lo=0.01, hi=1000), E.real("s")
    b, c = a + Q[:, 0] * r, a + Q[:, 0] * s + Q[:, 1] * h
    P = [E.real("p%d" % k) for k in range(3)]
    S = [E.real("s%d" % k) for k in range(3)]
    if not E.symbolic:
        E.assume([abs(x[2]) * max(r * h, 1) > 1e-6 * (1 + abs(s)) * max(r, h, 1) ** 2 for x in (P, S)])
    p = a + Q[:, 0] * P[0] + Q[:, 1] * P[1] + Q[:, 2] * P[2]
    q = a + Q[:, 0] * S[0] + Q[:, 1] * S[1] + Q[:, 2] * S[2]
    E.cover()
    mp, mq = m.coplanar_measurements(np.array([p, q], dtype=object if E.symbolic else float), a, b, c)
    E.prove("signed volumes on a common scale", E.or_(E.and_(E.eq(6 * mp, r * h * P[2]), E.eq(6 * mq, r * h * S[2])), E.and_(E.eq(6 * mp, -r * h * P[2]), E.eq(6 * mq, -r * h * S[2]))))
    res = m.line_triangle_incidence(np.array([p, q], dtype=object if E.symbolic else float), a, b, c)
    if bool(res):
        E.prove("incident only when the plane is met (up to tolerance)", E.disj([P[2] * S[2] <= 0, E.and_(P[2] <= 1e-4, P[2] >= -1e-4), E.and_(S[2] <= 1e-4, S[2] >= -1e-4)]))
    else:
        E.prove("not incident only when the plane is not met", P[2] * S[2] > 0)


# ---------------------------------------------------------------- polygon
def unit_polygon(E):
    """line_polygon_intersection: reported exactly when one of the triangles of the tiling is hit; only points found there"""
    m = mod()
    k = E.choice("triangles", [1, 2, 3])
    line = E.arr("line", (2, 3))
    poly = E.arr("poly", (4, 3))
    if not E.symbolic:
        return
    tri = np.empty((k, 3, 3), dtype=object)
    for i in np.ndindex(k, 3, 3):
        tri[i] = E.fresh("corner")
    kinds = [E.choice("hit%d" % i, ["none", "point", "two"] if i == 0 else ["none", "point"]) for i in range(k)]
    E.cover()
    E.contract("triangulate_polygon: tiles the polygon (C11)")
    E.contract("line_triangle_intersection")
    res = {}

    def tri_contract(ln, a, b, c, *r, **kw):
        if not (same_vec(E, np.ravel(ln), np.ravel(line)) or same_vec(E, np.ravel(ln[::-1]), np.ravel(line))):
            raise Unsupported("another segment")
        for i in range(k):
            if all(any(same_vec(E, x, y) for y in tri[i]) for x in (a, b, c)):
                if i not in res:
                    shape = {"point": (1, 3), "two": (2, 1, 3)}.get(kinds[i])
                    res[i] = None
                    if shape:
                        z = np.empty(shape, dtype=object)
                        for j in np.ndindex(*shape):
                            z[j] = E.fresh("pt")
                        res[i] = z
                return res[i]
        raise Unsupported("another triangle")

    def tri_poly(pts, *r):
        if not (np.shape(pts) == (4, 3) and all(same_vec(E, pts[i], poly[i]) for i in range(4))):
            raise Unsupported("triangulation of another polygon")
        return tri

    def sort_contract(pts, *r, **kw):
        E.contract("points_line_argsort: a permutation by distance (C09)")
        perms = list(itertools.permutations(range(len(pts))))
        return np.array(E.choice("order", perms))

    E.abstract_unique = True
    with Stub(m, triangulate_polygon=tri_poly, line_triangle_intersection=tri_contract, points_line_argsort=sort_contract):
        out = m.line_polygon_intersection(line, poly)
    E.prove("reported exactly when some triangle is hit", (out is not None) == any(z != "none" for z in kinds))
    if out is not None:
        pool = [w for v in res.values() if v is not None for w in v.reshape(-1, 3)]
        out = np.asarray(out, dtype=object)
        E.prove("an array of points", out.ndim == 2 and out.shape[1] == 3 and 1 <= len(out) <= 2)
        for z in out.reshape(-1, 3):
            E.prove("only points found on a triangle", any(same_vec(E, z, w) for w in pool))


def unit_vec(vec_name, scalar_name, nargs):
    def fn(E):
        m = mod()
        n = E.choice("segments", [0, 1, 2, 3])
        L = E.arr("l", (n, 2, 3))
        args = [E.arr("arg%d" % i, (3,) if nargs > 1 else (4, 3)) for i in range(nargs)]
        if not E.symbolic:
            return
        hit = [E.choice("hit%d" % i, [False, True]) for i in range(n)]
        E.cover()
        E.contract(scalar_name)
        res = {}

        def scalar(ln, *a, **kw):
            a = list(a) + [kw[x] for x in ("a", "b", "c", "polygon_points") if x in kw]
            if len(a) < nargs or not all(np.shape(x) == np.shape(y) and same_vec(E, np.ravel(x), np.ravel(y)) for x, y in zip(a, args)):
                raise Unsupported("query of another set")
            for i in range(n):
                if same_vec(E, np.ravel(ln), np.ravel(L[i])):
                    if i not in res:
                        res[i] = np.array([[E.fresh("pt") for _ in range(3)]], dtype=object) if hit[i] else None
                    return res[i]
            raise Unsupported("query of another segment")

        with Stub(m, **{scalar_name: scalar}):
            out, mask = getattr(m, vec_name)(L, *args)
        E.prove("mask has one entry per segment", len(mask) == n)
        E.prove("mask marks exactly the crossing segments", [bool(x) for x in mask] == hit)
        want = [res[i] for i in range(n) if hit[i]]
        E.prove("one result per crossing segment", len(out) == len(want))
        for x, y in zip(out, want):
            E.prove_eq("results in input order", np.asarray(x, dtype=object).reshape(-1), y.reshape(-1))

    return fn


UNITS = [
    Unit("two segments", unit_lines, [M + "line_line_intersection"], samples=600, timeout=60, query_timeout=5, assumptions=[ASSUME]),
    Unit("segments and segment", unit_lines_line, [M + "lines_line_intersection"], samples=0, replayable=False, kind="bounded-size", bounds="up to 4 segments"),
    Unit("plane side", unit_incidence, [M + "line_triangle_incidence", M + "coplanar_measurements"], samples=60, timeout=120, query_timeout=20),
    Unit("segment and triangle", unit_tri, [M + "line_triangle_intersection"], samples=600, timeout=300, query_timeout=20, assumptions=[ASSUME]),
    Unit("segments and segments", unit_lines_lines, [M + "lines_lines_intersection"], samples=0, replayable=False, kind="bounded-size", bounds="up to 3 segments against up to 2", assumptions=["segments of the two lists are identical or differ in a coordinate by more than 1e-4 (relative)"]),
    Unit("segment and polygon", unit_polygon, [M + "line_polygon_intersection"], samples=0, replayable=False, kind="bounded-size", bounds="tilings of up to 3 triangles", timeout=120),
    Unit("segments and triangle", unit_vec("lines_triangle_intersection", "line_triangle_intersection", 3), [M + "lines_triangle_intersection"], samples=0, replayable=False, kind="bounded-size", bounds="up to 3 segments"),
    Unit("segments and polygon", unit_vec("lines_polygon_intersection", "line_polygon_intersection", 1), [M + "lines_polygon_intersection"], samples=0, replayable=False, kind="bounded-size", bounds="up to 3 segments"),
]


# ---------------------------------------------------------------- bounded
def bounded_lines(B):
    m = mod()
    from .c11 import pick, embed, inside, seg_dist

    while B.more() and B.evaluations < (20000 if B.thorough else 2500):
        rng, nr = B.rng, B.nrng
        kind = rng.choice(["segments", "segments", "lists", "triangle", "polygon"])
        sc = 10 ** rng.uniform(-1, 1)
        if kind == "lists" and rng.random() < 0.3:      # many segments against many, any size and closeness
            flat = rng.random() < 0.7
            T_ = nr.uniform(-1, 1, (rng.randint(2, 6), 2, 3)) * 10 ** rng.uniform(-2.5, 1) + nr.uniform(-3, 3, 3) * rng.choice([0, 1])
            if flat:
                T_[:, :, 2] = 0
            O_ = np.array([T_[i] if rng.random() < 0.6 else nr.uniform(-1, 1, (2, 3)) * np.abs(T_).max() for i in range(len(T_) - 1)])
            if rng.random() < 0.5:      # a box's diagonals, coordinates in common
                t = T_[0]
                k = rng.randint(0, 1 if flat else 2)
                t2 = t.copy()
                t2[:, k] = t[::-1, k]
                T_ = np.append(T_, [t2], axis=0)
                O_ = np.append(O_, [t2, t], axis=0)[nr.permutation(len(O_) + 2)]
            same = lambda x, y: np.abs(x - y).max() <= 1e-8
            if any(not same(x, y) and np.abs(x - y).max() < 2e-4 * (1 + np.abs(y).max()) for x in T_ for y in O_):
                continue

            def run():
                t0, o0 = T_.copy(), O_.copy()
                got = m.lines_lines_intersection(T_, O_)
                assert np.array_equal(t0, T_) and np.array_equal(o0, O_), "arguments"
                assert len(got) == len(O_), "one list per segment"
                for o, g in zip(O_, got):
                    w = [x for x in (m.line_line_intersection(t[0], t[1], o[0], o[1]) for t in T_ if not same(t, o)) if x is not None]
                    assert len(g) == len(w) and all(np.array_equal(x, y) for x, y in zip(g, w)), "agrees with the single queries"

            B.case("lists", dict(tools=T_.tolist(), objects=O_.tolist()), run)
            continue
        if kind in ("segments", "lists"):
            n = 1 if kind == "segments" else rng.randint(2, 5)
            flat = rng.random() < 0.5
            c, d = nr.uniform(-1, 1, (2, 3)) * sc
            if flat:
                c[2] = d[2] = 0
            if np.linalg.norm(d - c) < 0.1 * sc:
                continue
            L, W = [], []
            for _ in range(n * 10):
                if len(L) == n:
                    break
                k = rng.choice(["rand", "cross", "endon", "endc"])
                a, b = nr.uniform(-1, 1, (2, 3)) * sc
                if flat:
                    a[2] = b[2] = 0
                X = c + rng.random() * (d - c)
                if k == "cross":
                    b = a + (X - a) * rng.uniform(1.05, 2)
                elif k == "endon":
                    a, b = (X, b) if rng.random() < 0.5 else (a, X)
                elif k == "endc":
                    X = rng.choice([c, d])
                    if rng.random() < 0.4:
                        a = X.copy()
                    else:
                        b = a + (X - a) * rng.uniform(1.05, 2)
                u, v = b - a, d - c
                N = np.cross(u, v)
                if np.linalg.norm(u) < 0.1 * sc or np.linalg.norm(N) < 0.05 * np.linalg.norm(u) * np.linalg.norm(v):
                    continue
                w = c - a
                gap = abs(w @ N) / np.linalg.norm(N)
                t, s = np.cross(w, v) @ N / (N @ N), np.cross(w, u) @ N / (N @ N)
                inn = lambda z: -1e-13 <= z <= 1 + 1e-13
                off = lambda z: z < -1e-4 or z > 1 + 1e-4
                if gap < 1e-13 * (1 + sc) and inn(t) and inn(s):
                    W.append(a + t * u)
                elif gap > 1e-4 * (1 + sc) or off(t) or off(s):
                    W.append(None)
                else:
                    continue
                L.append((a, b))
            if len(L) < n:
                continue

            def run():
                outs = []
                for (a, b), w in zip(L, W):
                    for e, f in ((a, b), (b, a)):
                        for g, h in ((c, d), (d, c)):
                            o = m.line_line_intersection(e, f, g, h)
                            assert (o is not None) == (w is not None), ("segments", e, f, g, h, w, o)
                            if o is not None:
                                assert np.shape(o) == (1, 3) and np.linalg.norm(o[0] - w) < 1e-7 * (1 + sc), (o, w)
                    outs.append(m.line_line_intersection(a, b, c, d))
                r = m.lines_line_intersection(np.array(L), c, d)
                want = [o for o in outs if o is not None]
                assert len(r) == len(want) and all(np.array_equal(x, y) for x, y in zip(r, want)), "list"
                if n > 1:
                    obj = np.array([[c, d]] + [L[0]])
                    tools = np.array(L)
                    got = m.lines_lines_intersection(tools, obj)
                    assert len(got) == 2 and len(got[0]) == len(want), "lists"
                    assert all(np.array_equal(x, y) for x, y in zip(got[0], want)), "lists"
                    r0 = m.lines_line_intersection(tools[1:], L[0][0], L[0][1])
                    assert len(got[1]) == len(r0), "a segment is not intersected with itself"
                    if len(want):
                        dd = m.lines_lines_intersection(tools, obj[:1], True)
                        pts = np.array([x[0] for x in want])
                        assert all(np.min(np.linalg.norm(dd - x, axis=1)) < 1e-7 * (1 + sc) for x in pts)
                        assert all(np.min(np.linalg.norm(pts - x, axis=1)) < 1e-7 * (1 + sc) for x in dd)
                        assert len(dd) <= len(pts)
                        for i in range(len(pts)):
                            if not any(np.linalg.norm(pts[i] - pts[j]) < 1e-6 for j in range(i)):
                                pass
                        far = []
                        for x in pts:
                            if all(np.linalg.norm(x - y) > 1e-6 for y in far):
                                far.append(x)
                        assert len(dd) >= len(far)

            B.case("line_line", dict(lines=[[x.tolist() for x in l] for l in L], other=[c.tolist(), d.tolist()]), run)
            continue
        if kind == "triangle":
            V = nr.uniform(-1, 1, (3, 3)) * sc
            nn = np.cross(V[1] - V[0], V[2] - V[0])
            if np.linalg.norm(nn) < 0.05 * sc * sc:
                continue
            nn = nn / np.linalg.norm(nn)
            if rng.random() < 0.2:
                # triangle in a coordinate plane
                V[:, 2] = 0
                nn = np.cross(V[1] - V[0], V[2] - V[0])
                if np.linalg.norm(nn) < 0.05 * sc * sc:
                    continue
                nn = nn / np.linalg.norm(nn)
        else:
            p2 = pick(B)
            if p2 is None:
                continue
            P, Q, x0, s_ = embed(B, p2)
            nn = Q[:, 2]
            sc = s_
            from .c11 import orient

            ncv = len(p2)
            tn = [orient(p2[i], p2[(i + 1) % ncv], p2[(i + 2) % ncv]) for i in range(ncv)]
            if not (all(t > 0 for t in tn) or all(t < 0 for t in tn)):
                continue
        lines, W = [], []
        for _ in range(30):
            if len(lines) == 4:
                break
            if kind == "triangle":
                l = nr.random(3) + 0.002
                k = rng.choice(["in", "edge", "vertex", "out"])
                if k == "edge":
                    l[rng.randrange(3)] = 0
                if k == "vertex":
                    l[:] = 0
                    l[rng.randrange(3)] = 1
                if k == "out":
                    l = nr.normal(size=3)
                    l += (1 - l.sum()) / 3
                    if min(abs(l)) < 1e-3:
                        continue
                l = l / l.sum()
                X, inn = l @ V, min(l) >= 0
            else:
                z = nr.uniform(-2.2, 2.2, 2)
                if min(seg_dist(z, p2[j], p2[(j + 1) % len(p2)]) for j in range(len(p2))) < 1e-3:
                    continue
                X, inn = x0 + s_ * (Q[:, :2] @ z), inside(z, p2)
            K = nr.normal(size=3) * sc
            if abs(K @ nn) < 0.1 * np.linalg.norm(K) or abs(K @ nn) < 0.05 * sc:
                continue
            d = rng.choice([0.0, 1.0, rng.random(), rng.random(), -0.5, 1.5, 1.001, -0.001])
            if not inn and False:
                continue
            pp = X - d * K
            lines.append((pp, pp + K))
            W.append(X if inn and 0 <= d <= 1 else None)
        if not lines:
            continue

        def run():
            L = np.array(lines)
            if kind == "triangle":
                f = lambda ln: m.line_triangle_intersection(ln, *V)
                fv = lambda: m.lines_triangle_intersection(L, *V)
            else:
                f = lambda ln: m.line_polygon_intersection(ln, P)
                fv = lambda: m.lines_polygon_intersection(L, P)
            outs = []
            for ln, w in zip(L, W):
                for e in (ln, ln[::-1]):
                    o = f(e)
                    assert (o is not None) == (w is not None), (kind, e.tolist(), w, o)
                    if o is not None:
                        for z in np.asarray(o).reshape(-1, 3):
                            assert np.linalg.norm(z - w) < 1e-6 * (1 + sc), (o, w)
                outs.append(f(ln))
            want = [o for o in outs if o is not None]
            if len({np.shape(o) for o in want}) <= 1:
                r, mask = fv()
                assert [bool(x) for x in mask] == [o is not None for o in outs], "mask"
                assert len(r) == len(want) and all(np.array_equal(x, y) for x, y in zip(r, want)), "vectorised"

        B.case(kind, dict(set=(V if kind == "triangle" else P).tolist(), lines=[[x.tolist() for x in l] for l in lines]), run)


BOUNDED = [Bounded("crossings of random sets", bounded_lines, [M + "line_line_intersection", M + "lines_line_intersection", M + "lines_lines_intersection", M + "line_triangle_intersection", M + "line_polygon_intersection", M + "lines_triangle_intersection", M + "lines_polygon_intersection"],
                   "random segments (crossing, touching at ends, apart, in a common plane or not), triangles and convex polygons crossed inside, on edges, at vertices, outside, too short; size 0.1..10", budget=40)]
