"""C21: fracture networks record exactly the crossings; the integer pairing is a bijection onto its image."""
import itertools
import math

import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C21"
IMPORTS = ["geometry.fracture_network", "geometry.operations.triangle_triangle_intersection_test"]
F = "geometry.fracture_network.FractureNetwork."
TT = "geometry.operations.triangle_triangle_intersection_test.TriangleTriangleIntersectionTest."


# ------------------------------------------------------------------ pairing
def net():
    from geometry.fracture_network import FractureNetwork

    return FractureNetwork(dimension=2)


def big(r):
    return r.choice([r.randint(0, 6), r.randint(0, 400), r.randint(0, 10 ** 6), 94906266, 10 ** 9 + 7, r.randint(0, 2 ** 31)])


def unit_pair(E):
    x, y = E.int("x", lo=0, hi=None if E.symbolic else 2 ** 40, gen=big), E.int("y", lo=0, hi=None if E.symbolic else 2 ** 40, gen=big)
    E.cover()
    z = net().pair_intergers(x, y)
    # the interval of codes of a pair is that of its maximum, and the position inside determines the pair
    m = x if x >= y else y
    E.prove("code in the shell of the maximum", E.and_(E.le(m * m, z), z < (m + 1) * (m + 1)) if E.symbolic else m * m <= z < (m + 1) ** 2)
    d = z - m * m
    if x >= y:
        E.prove("position in the shell", d == x + y)
    else:
        E.prove("position in the shell", d == x)


def unit_inj(E):
    """injectivity from the shell contract: two pairs with equal codes are equal"""
    hi = None if E.symbolic else 6
    x, y, u, v = (E.int(k, lo=0, hi=hi) for k in ("x", "y", "u", "v"))
    n = net()
    z, w = n.pair_intergers(x, y), n.pair_intergers(u, v)
    E.cover()
    m, k = (x if x >= y else y), (u if u >= v else v)
    if E.symbolic:
        same = E.eq(z, w)
        E.lemma("lower shells have smaller codes", E.implies(m < k, (m + 1) * (m + 1) <= k * k))
        E.lemma("lower shells have smaller codes", E.implies(k < m, (k + 1) * (k + 1) <= m * m))
        E.lemma("code in its shell", E.and_(m * m <= z, z < (m + 1) * (m + 1)))
        E.lemma("code in its shell", E.and_(k * k <= w, w < (k + 1) * (k + 1)))
        E.lemma("equal codes lie in the same shell", E.implies(same, E.eq(m, k)))
        E.prove("injective", E.implies(same, E.and_(E.eq(x, u), E.eq(y, v))))
    else:
        E.prove("injective", (z != w) or ((x, y) == (u, v)))


def unit_unpair(E):
    x, y = E.int("x", lo=0, hi=None if E.symbolic else 2 ** 40, gen=big), E.int("y", lo=0, hi=None if E.symbolic else 2 ** 40, gen=big)
    E.cover()
    n = net()
    z = n.pair_intergers(x, y)
    m = x if x >= y else y
    if E.symbolic:
        E.lemma("code in its shell", E.and_(m * m <= z, z < (m + 1) * (m + 1)))
    r = n.unpair_intergers(z)
    if E.symbolic:
        for (key, k) in list(E.sqrt_memo.items()):
            if isinstance(key, tuple) and key[0] == "isqrt":
                E.lemma("shell below", E.implies(k < m, (k + 1) * (k + 1) <= m * m))
                E.lemma("shell above", E.implies(m < k, (m + 1) * (m + 1) <= k * k))
                E.lemma("integer root is the maximum", E.eq(k, m))
    E.prove("a pair", len(r) == 2)
    E.prove("first number recovered", r[0] == x)
    E.prove("second number recovered", r[1] == y)


# ------------------------------------------------------------------ segment crossing
def unit_cross(E):
    """line_line_intersection of non-parallel coplanar segments: yes exactly when they meet, at that point"""
    from geometry.operations.triangle_triangle_intersection_test import TriangleTriangleIntersectionTest

    pos = np.array(E.choice("pos", [(0, 1), (0, 2), (1, 2)]))
    a, d1 = E.vec("a", 3), E.vec("d", 3)
    d2 = E.vec("e", 3)
    t, u = E.real("t", gen=lambda r: r.uniform(-1, 2)), E.real("u", gen=lambda r: r.uniform(-1, 2))
    b = a + d1
    p = a + d1 * t - d2 * u
    q = p + d2
    i, j = pos
    dv = d1[i] * d2[j] - d1[j] * d2[i]
    obj = TriangleTriangleIntersectionTest()
    E.assume(E.or_(dv >= 0.01, dv <= -0.01) if E.symbolic else abs(dv) > 0.01)
    if not E.symbolic:  # away from the decision boundary of floating point
        E.assume(min(abs(t), abs(t - 1), abs(u), abs(u - 1)) > 1e-6)
    else:  # segments that do not meet are not nearer than the tolerance allows for rounding
        for x in (t, u):
            E.assume([E.or_(x >= 0, x <= -1e-9), E.or_(x <= 1, x >= 1 + 1e-9)])
    E.cover()
    out = obj.line_line_intersection(a, b, p, q, pos)
    inside = E.conj([t >= 0, t <= 1, u >= 0, u <= 1])
    if out[0]:
        E.prove("reported only when the segments meet", inside)
        E.prove_eq("the common point", np.asarray(out[1]), a + d1 * t)
    else:
        E.prove("not reported only when they do not meet", E.not_(inside))


# ------------------------------------------------------------------ network
def general_position(E, n, pattern):
    """n segments with arbitrary end points; pattern: set of crossing pairs (i<j)."""
    fr = np.empty((n, 2, 3), dtype=object if E.symbolic else float)
    A, D = [], []
    for i in range(n):
        a, d = E.vec("a%d" % i, 3), E.vec("d%d" % i, 3)
        A.append(a)
        D.append(d)
        fr[i, 0], fr[i, 1] = a, a + d
    cross = {}
    for (i, j) in pattern:
        t = E.real("t_%d_%d" % (i, j), gen=lambda r: r.uniform(0.1, 0.9))
        E.assume([t > 0, t < 1])
        cross[(i, j)] = (t, A[i] + D[i] * t)
    return fr, A, D, cross


def check_network(E, netw, fr, cross, tag0, ident, ordered):
    """cross: {(i,j): point}; ident(p,q): same point; ordered(i, pts): points advance along fracture i"""
    n = len(fr)
    pts = [np.asarray(x) for x in netw.points]
    want = [fr[i][k] for i in range(n) for k in range(2)] + list(cross.values())
    E.prove("one point per end and one per crossing", len(pts) == len(want))
    owner = []
    for w in want:
        hit = [k for k, p in enumerate(pts) if ident(p, w)]
        E.prove("each end and each crossing is a point of the network, once", len(hit) == 1)
        owner.append(hit[0] if len(hit) == 1 else None)
    if None in owner:
        return
    cells = list(netw.cells)
    E.prove("cells are numbered by their position", all(int(c.id) == k for k, c in enumerate(cells)))
    v = [c for c in cells if c.dimension == 0]
    E.prove("one vertex cell per point", sorted(int(c.point_id) for c in v) == list(range(len(pts))))
    by_ends = {}
    for c in cells:
        if c.dimension == 1:
            e = [int(x.point_id) for x in c.boundary_cells]
            E.prove("an edge has two ends", len(e) == 2)
            by_ends.setdefault(tuple(e), []).append(c)
    crossed = {i: [k for k in cross if i in k] for i in range(n)}
    total = 0
    for i in range(n):
        ends = (owner[2 * i], owner[2 * i + 1])
        # the cell of the fracture itself is the first with its tag whose ends are the fracture's ends
        own = [c for c in cells if c.dimension == 1 and c.physical_tag == tag0 + i and tuple(int(x.point_id) for x in c.boundary_cells) == ends]
        E.prove("the fracture is an edge between its ends with its own tag", len(own) == 1)
        if len(own) != 1:
            continue
        im = list(own[0].immersed_cells)
        total += 1 + len(im)
        if not crossed[i]:
            E.prove("a fracture without crossings is not divided", len(im) == 0)
            continue
        mids = [owner[2 * n + list(cross).index(k)] for k in crossed[i]]
        E.prove("one piece more than crossing points", len(im) == len(mids) + 1)
        chain = [[int(x.point_id) for x in c.boundary_cells] for c in im]
        E.prove("pieces run from one end to the other", chain[0][0] == ends[0] and chain[-1][1] == ends[1])
        E.prove("consecutive pieces share a point", all(chain[k][1] == chain[k + 1][0] for k in range(len(chain) - 1)))
        E.prove("pieces pass through all crossing points", sorted(c[1] for c in chain[:-1]) == sorted(mids))
        E.prove("pieces carry the fracture's tag", all(c.physical_tag == tag0 + i for c in im))
        E.prove("pieces are cells of the network", all(any(c is x for x in cells) for c in im))
        ordered(i, [want[owner.index(c[1])] for c in chain[:-1]])
    E.prove("no other edges", sum(len(x) for x in by_ends.values()) == total)
    tags = {}
    for k, (ij, p) in enumerate(cross.items()):
        o = owner[2 * n + k]
        tags[ij] = [c.physical_tag for c in v if int(c.point_id) == o][0]
    E.prove("crossing tags are unique per pair of fractures", len(set(tags.values())) == len(tags))
    for i in range(n):
        for k in range(2):
            E.prove("an end point carries its fracture's tag", [c.physical_tag for c in v if int(c.point_id) == owner[2 * i + k]] == [tag0 + i])


def unit_network(n):
    pairs = list(itertools.combinations(range(n), 2))

    def fn(E):
        import geometry.fracture_network as m

        E.lazy_sqrt = True
        pat = [p for p in pairs if E.choice("cross_%d_%d" % p, [False, True])]
        if not E.symbolic:
            return
        fr, A, D, cr = general_position(E, n, pat)
        shift = E.choice("shift", [1, 7])
        nw = m.FractureNetwork(dimension=2, physical_tag_shift=shift)
        allp = [(fr[i][k]) for i in range(n) for k in range(2)] + [p for _, p in cr.values()]
        for k in range(len(allp)):
            for l in range(k):
                E.assume(E.norm(allp[k] - allp[l]) >= 1e-6)
        # parameters of the crossings on the second fracture
        par = {}
        for (i, j), (t, p) in cr.items():
            par[(i, (i, j))] = t
            u = E.real("u_%d_%d" % (i, j))
            E.assume([u > 0, u < 1])
            for k in range(3):
                E.assume(E.eq(A[j][k] + D[j][k] * u, p[k]))
            par[(j, (i, j))] = u
        for i in range(n):
            ks = [k for k in cr if i in k]
            L = E.norm(D[i])
            E.assume(L > 0)
            for k in ks:  # distance from the first end = parameter times length (contract of the norm)
                E.assume(E.eq(E.norm(cr[k][1] - fr[i][0]), par[(i, k)] * L))
        E.cover()
        E.contract("TriangleTriangleIntersectionTest.line_line_intersection (unit 'crossing of two segments')")

        def find(a, b):
            for i in range(n):
                if all(a[k] is fr[i][0][k] or E._identity(lift(a[k]), lift(fr[i][0][k])) for k in range(3)) and all(
                        E._identity(lift(b[k]), lift(fr[i][1][k])) for k in range(3)):
                    return i
            raise Unsupported("segment is not a fracture")

        def stub(self, a, b, p, q, pos, render=False):
            i, j = find(a, b), find(p, q)
            key = (min(i, j), max(i, j))
            if i != j and key in cr:
                return (True, cr[key][1].copy(), np.array)
            return (False, np.array, np.array)

        cls = m.tt_intersector.TriangleTriangleIntersectionTest
        old = cls.line_line_intersection
        cls.line_line_intersection = stub
        try:
            nw.intersect_1D_fractures(fr)
        finally:
            cls.line_line_intersection = old

        def ident(p, q):
            return len(p) == len(q) and all(E._identity(lift(x), lift(y)) for x, y in zip(p, q))

        def ordered(i, mids):
            ks = []
            for w in mids:
                ks.append([k for k in cr if i in k and ident(cr[k][1], w)][0])
            for x, y in zip(ks, ks[1:]):
                L = E.norm(D[i])
                E.prove("crossing points in the order of the fracture", E.le(par[(i, x)] * L, par[(i, y)] * L))

        check_network(E, nw, list(fr), {k: v[1] for k, v in cr.items()}, shift, ident, ordered)

    return fn


UNITS = [
    Unit("pairing: shells", unit_pair, [F + "pair_intergers"], samples=400),
    Unit("pairing: injective", unit_inj, [F + "pair_intergers"], samples=400),
    Unit("unpairing recovers the pair", unit_unpair, [F + "pair_intergers", F + "unpair_intergers"], samples=400, tol=0),
    Unit("crossing of two segments", unit_cross, [TT + "line_line_intersection"], samples=300),
]
for n in (1, 2, 3):
    UNITS.append(Unit("network of %d fractures" % n, unit_network(n), [F + "intersect_1D_fractures", F + "insert_vertex_cell"], samples=0, timeout=150,
                      kind="bounded-size", bounds="%d fractures, every crossing pattern, arbitrary coordinates" % n, replayable=False,
                      assumptions=["networks: distinct end and crossing points are at least 1e-6 apart (general position)"]))


# ------------------------------------------------------------------ bounded
from ..engine import ConcEngine


class Rec(ConcEngine):
    pass


def bounded_network(B):
    from geometry.fracture_network import FractureNetwork

    while B.more() and B.evaluations < (6000 if B.thorough else 600):
        n = B.rng.randint(1, 7)
        Q, _ = np.linalg.qr(B.nrng.normal(size=(3, 3)))
        flat = B.rng.random() < 0.5
        if flat:
            Q = np.eye(3)
        x0 = B.nrng.uniform(-1, 1, 3) * (not flat)
        seg = B.nrng.uniform(-1, 1, size=(n, 2, 2))
        if B.rng.random() < 0.3:
            seg = np.round(seg * 4)
        scale = 10 ** B.rng.uniform(-1, 2)
        seg = seg * scale
        cr, ok = {}, True
        for i in range(n):
            if np.linalg.norm(seg[i, 1] - seg[i, 0]) < 0.05 * scale:
                ok = False
            for j in range(i + 1, n):
                d, e = seg[i, 1] - seg[i, 0], seg[j, 1] - seg[j, 0]
                det = d[0] * e[1] - d[1] * e[0]
                if abs(det) < 1e-3 * scale * scale:
                    ok = False
                    continue
                w = seg[j, 0] - seg[i, 0]
                t, u = (w[0] * e[1] - w[1] * e[0]) / det, (w[0] * d[1] - w[1] * d[0]) / det
                if min(abs(t), abs(1 - t), abs(u), abs(1 - u)) < 1e-4:
                    ok = False
                if 0 < t < 1 and 0 < u < 1:
                    cr[(i, j)] = seg[i, 0] + t * d
        pts = [p for s in seg for p in s] + list(cr.values())
        if not ok or any(np.linalg.norm(pts[a] - pts[b]) < 1e-4 * scale for a in range(len(pts)) for b in range(a)):
            continue
        up = lambda p: x0 + Q[:, :2] @ p
        fr = np.array([[up(a), up(b)] for a, b in seg])
        nz = np.abs(Q[:, 2])
        drop = int(np.argmax(nz))
        pos = np.array([k for k in range(3) if k != drop])
        c3 = {k: up(p) for k, p in cr.items()}
        shift = B.rng.choice([1, 1, 5, 300])

        def run():
            E = Rec()
            nw = FractureNetwork(dimension=2, physical_tag_shift=shift)
            keep = fr.copy()
            if B.rng.random() < 0.3:  # the network held other fractures before
                nw.intersect_1D_fractures(fr[::-1][: B.rng.randint(1, len(fr))] + 0.25 * scale, pos)
                nw.build_grahp(all_fixed_d_cells_q=True)
            if flat and B.rng.random() < 0.5:
                nw.intersect_1D_fractures(fr)
            else:
                nw.intersect_1D_fractures(fr, pos)
            assert np.array_equal(keep, fr), "input untouched"

            def ordered(i, mids):
                s = [np.linalg.norm(p - fr[i][0]) for p in mids]
                E.prove("crossing points in the order of the fracture", s == sorted(s))

            check_network(E, nw, list(fr), c3, shift, lambda p, q: len(p) == 3 and np.linalg.norm(p - q) < 1e-7 * scale, ordered)
            assert not E.failures, E.failures
            # incidence graph: an arc exactly from a piece to its ends
            nw.build_grahp(all_fixed_d_cells_q=True)
            want = set()
            for c in nw.cells:
                if c.dimension == 1:
                    want |= {(c.id, x.id) for x in c.boundary_cells} | {(c.id, x.id) for x in c.immersed_cells}
            assert set(nw.graph.edges) == want, "graph"

        B.case("network", dict(fractures=fr.tolist(), shift=shift), run)


def bounded_pairing(B):
    n = net()
    m = 400 if B.thorough else 120
    seen = {}

    def run():
        for x in range(m):
            for y in range(m):
                z = n.pair_intergers(x, y)
                assert z not in seen, ("not injective", seen.get(z), (x, y))
                seen[z] = (x, y)
                assert list(n.unpair_intergers(z)) == [x, y], ("unpair", x, y)

    B.case("pairing", dict(range=m), run)


BOUNDED = [Bounded("random networks", bounded_network, [F + "intersect_1D_fractures", F + "build_grahp"], "up to 7 random segments in general position in random planes", budget=25),
           Bounded("pairing table", bounded_pairing, [F + "pair_intergers", F + "unpair_intergers"], "all pairs below 120", budget=20)]
