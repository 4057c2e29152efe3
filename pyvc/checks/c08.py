"""C08: facet normals are unit, orthogonal to the facet, tangential to the cell and outward."""
import itertools

import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C08"
IMPORTS = ["geometry.compute_normal"]


def facet_param(E, d):
    """An arbitrary non-degenerate d-simplex written from its facet opposite to the last vertex:
    facet centre xf, facet edge vectors in an orthonormal frame (QR), o = (xf - xc) with
    xc the cell centre. Bijective with the non-degenerate simplices."""
    xf = E.vec("xf", 3)
    Q = rotation(E, "q")
    q0, q1, q2 = Q[:, 0], Q[:, 1], Q[:, 2]
    P = np.empty((d + 1, 3), dtype=object if E.symbolic else float)
    if d == 1:
        h = E.real("h", gen=lambda r: 10 ** r.uniform(-2, 2))
        E.assume(h > 0)
        o = q0 * h
        P[0] = xf
    elif d == 2:
        r = E.real("r", gen=lambda r: 10 ** r.uniform(-1, 1))
        E.assume(r > 0)
        o0, h = E.real("o0"), E.real("h", gen=lambda r: 10 ** r.uniform(-1, 1))
        E.assume(h > 0)
        o = q0 * o0 + q1 * h
        P[0], P[1] = xf - q0 * (r / 2), xf + q0 * (r / 2)
    else:
        r0, r1, s = E.real("r0", gen=lambda r: 10 ** r.uniform(-1, 1)), E.real("r1", gen=lambda r: 10 ** r.uniform(-1, 1)), E.real("s")
        E.assume([r0 > 0, r1 > 0])
        o0, o1, h = E.real("o0"), E.real("o1"), E.real("h", gen=lambda r: 10 ** r.uniform(-1, 1))
        E.assume(h > 0)
        hand = E.choice("hand", [1, -1])
        h_ = h * hand
        o = q0 * o0 + q1 * o1 + q2 * h_
        P[0], P[1] = xf + q0 * r0, xf + q0 * s + q1 * r1
        P[2] = xf * 3 - P[0] - P[1]
    P[d] = xf - o * (d + 1)
    return P, o, Q


def unit_normal(d):
    def fn(E):
        from geometry.compute_normal import normal

        tags = E.choice("cell_order", list(itertools.permutations(range(d + 1))) if d < 3 else
                        [(0, 1, 2, 3), (3, 0, 1, 2), (1, 3, 2, 0), (2, 3, 0, 1)])
        ftags = E.choice("facet_order", list(itertools.permutations(range(d))))
        P, o, Q = facet_param(E, d)
        E.cover()
        mesh = NS(points=P)
        c0 = NS(dimension=d, node_tags=np.array(tags))
        c1 = NS(dimension=d - 1, node_tags=np.array(ftags))
        n = np.asarray(normal(mesh, c0, c1))
        E.prove_eq("shape", np.array(n.shape), np.array([3]))
        E.prove("unit length", E.eq(E.dot(n, n), 1))
        for i in range(1, d):
            E.prove("orthogonal to facet edge %d" % i, E.eq(E.dot(n, P[i] - P[0]), 0))
        for j in range(d, 3):
            E.prove("tangential to the cell", E.eq(E.dot(n, Q[:, j]), 0))
        E.prove("points outward", E.dot(n, o) > (0 if E.symbolic else 1e-9))

    return fn


UNITS = [Unit("normal dim%d" % d, unit_normal(d), ["geometry.compute_normal.normal"], timeout=150, query_timeout=15, samples=300, tol=1e-7,
              assumptions=["labelled simplices are renamings of the facet opposite to the last vertex", "lemma: every facet edge pair has a QR factorisation with positive diagonal (frame of the facet), quaternion parametrisation of rotations"]) for d in (1, 2, 3)]


def bounded_normals(B):
    from types import SimpleNamespace as NS
    from geometry.compute_normal import normal

    while B.more() and B.evaluations < (30000 if B.thorough else 4000):
        d = B.rng.choice([1, 2, 3])
        p = rand_simplex_points(B.nrng, d)
        off = B.rng.randint(0, 4)
        store = np.vstack([B.nrng.normal(size=(off, 3)), p]) if off else p
        tags = [off + i for i in range(d + 1)]
        B.rng.shuffle(tags)
        opp = B.rng.choice(tags)
        f = [t for t in tags if t != opp]
        B.rng.shuffle(f)

        def run():
            n = normal(NS(points=store), NS(dimension=d, node_tags=np.array(tags)), NS(dimension=d - 1, node_tags=np.array(f)))
            assert abs(np.linalg.norm(n) - 1) < 1e-10, "unit"
            h = store[f[0]] - store[opp]
            sc = np.linalg.norm(h)
            for t in f[1:]:
                assert abs(n @ (store[t] - store[f[0]])) < 1e-8 * sc * 10, "orthogonal"
            J = np.array([store[t] - store[tags[0]] for t in tags[1:]]).T
            q, _ = np.linalg.qr(J)
            assert np.allclose(q @ (q.T @ n), n, atol=1e-9), "tangent space"
            assert n @ h > 1e-6 * sc, "outward"

        B.case("normal:d%d" % d, dict(points=store.tolist(), cell=tags, facet=f), run)


BOUNDED = [Bounded("normals of random simplices", bounded_normals, ["geometry.compute_normal.normal"],
                   "random non-degenerate simplices, random facet, random node orders", budget=15)]
