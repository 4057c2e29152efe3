"""C05: the cell map reproduces the affine simplex."""
import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C05"
IMPORTS = ["geometry.mapping", "basis.finite_element", "mesh.mesh", "spaces.discrete_space"]


def _element_stub(E, pts, d):
    """self for FiniteElement.evaluate_mapping: exactly the attributes the method may read."""
    perm = list(E.choice("node_perm", [tuple(range(d + 1)), tuple(reversed(range(d + 1)))]))
    store = np.empty((d + 3, 3), dtype=object if E.symbolic else float)
    store[...] = 7.0
    tags = np.array([1 + i for i in perm])
    store[tags] = pts
    mesh = NS(points=store)
    cell = NS(dimension=d, node_tags=tags, id=0)
    return NS(data=NS(cell=cell, mesh=mesh, mapping=NS(), quadrature=NS()), mesh=mesh)


def unit_map(d, via):
    def fn(E):
        import basix
        import geometry.mapping as gm
        from basis.finite_element import FiniteElement

        pts, J, Q, R = simplex(E, d)
        X = E.arr("X", (2, d))
        E.cover()
        if E.symbolic:
            install_qr(E, J, Q, R)
            gm.basix = fake_basix(E, basix)
        try:
            if via == "element":
                storage = E.choice("storage", [False, True])
                el = _element_stub(E, pts, d)
                x, jac, det, inv = FiniteElement.evaluate_mapping(el, X, storage=storage)
                if storage:
                    mp = el.data.mapping
                    E.prove_eq("stored map = returned map", mp.x, x)
                    E.prove_eq("stored jacobian = returned", mp.jac, jac)
                    E.prove_eq("stored determinant = returned", mp.det_jac, det)
                    E.prove_eq("stored inverse = returned", mp.inv_jac, inv)
            else:
                data = NS(cell=NS(dimension=d), mapping=NS(cell_points=pts))
                phi = gm.evaluate_linear_shapes(X, data)
                x, jac, det, inv = gm.evaluate_mapping(d, phi, pts)
        finally:
            gm.basix = basix
        x, jac, inv, det = np.asarray(x), np.asarray(jac), np.asarray(inv), np.asarray(det)
        for k in range(2):
            s = 0
            for j in range(d):
                s = s + X[k, j]
            want = pts[0] * (1 - s)
            for j in range(d):
                want = want + pts[j + 1] * X[k, j]
            E.prove_eq("mapped point is the affine combination", x[k], want)
            E.prove_eq("jacobian columns are the edge vectors", jac[k], np.array([pts[j + 1] - pts[0] for j in range(d)]).T)
            G = J.T @ J
            E.prove("determinant positive", det[k] > 0)
            E.prove_eq("determinant squared is the Gram determinant", det[k] * det[k], _det(G))
            E.prove_eq("inverse is a left inverse", inv[k] @ J, np.eye(d))
            E.prove_eq("inverse is the pseudo inverse (rows tangential)", G @ inv[k], J.T)

    return fn


def _det(a):
    from ..npx import _det as f

    return f(np.asarray(a, dtype=object))


def unit_point(E):
    """dimension 0: the point itself, unit measure"""
    import geometry.mapping as gm

    p = E.arr("p", (1, 3))
    E.cover()
    x, jac, det, inv = gm.evaluate_mapping(0, None, p)
    E.prove_eq("point is mapped to itself", x, p)
    E.prove_eq("unit determinant", det, np.array([1.0]))


UNITS = [Unit("evaluate_mapping dim0", unit_point, ["geometry.mapping.evaluate_mapping"], samples=5)]
for d in (1, 2, 3):
    UNITS.append(Unit("evaluate_mapping dim%d" % d, unit_map(d, "mapping"),
                      ["geometry.mapping.evaluate_linear_shapes", "geometry.mapping.evaluate_mapping", "geometry.mapping._compute_det_and_pseudo_inverse"],
                      timeout=120, samples=150,
                      assumptions=["basix P1 tabulation contract", "lemma: existence of QR with positive diagonal, quaternion parametrisation of rotations"]))
    UNITS.append(Unit("FiniteElement.evaluate_mapping dim%d" % d, unit_map(d, "element"),
                      ["basis.finite_element.FiniteElement.evaluate_mapping"], modules=["geometry.mapping", "basis.finite_element"],
                      timeout=120, samples=150))


def bounded_measure(B):
    """Real meshless cells: measure by quadrature, storage, many scales and all node orders."""
    import itertools
    import math
    import basix
    from types import SimpleNamespace as NS
    from basis.finite_element import FiniteElement
    import geometry.mapping as gm

    while B.more() and B.evaluations < (20000 if B.thorough else 2500):
        d = B.rng.choice([1, 2, 3])
        p = rand_simplex_points(B.nrng, d)
        nq = B.rng.choice([1, 2, 4])
        ct = [None, basix.CellType.interval, basix.CellType.triangle, basix.CellType.tetrahedron][d]
        q, w = basix.make_quadrature(ct, nq)
        tags = list(range(d + 1))
        B.rng.shuffle(tags)

        def run():
            data = NS(cell=NS(dimension=d, node_tags=np.array(tags)), mesh=NS(points=p), mapping=NS(), quadrature=NS())
            el = NS(data=data, mesh=data.mesh)
            x, jac, det, inv = FiniteElement.evaluate_mapping(el, q, storage=B.rng.random() < 0.5)
            P = p[tags]
            J = (P[1:] - P[0]).T
            meas = math.sqrt(np.linalg.det(J.T @ J)) / math.factorial(d)
            assert np.allclose(np.sum(w * det), meas, rtol=1e-9), (np.sum(w * det), meas)
            assert np.all(det > 0)
            bary = np.column_stack([1 - q.sum(axis=1), q])
            assert np.allclose(x, bary @ P, rtol=1e-10, atol=1e-10 * abs(P).max())
            for k in range(len(q)):
                assert np.allclose(jac[k], J)
                assert np.allclose(inv[k] @ J, np.eye(d), atol=1e-8)
                assert np.allclose(inv[k], np.linalg.pinv(J), rtol=1e-6, atol=1e-9 * abs(inv[k]).max())

        B.case("measure:d%d" % d, dict(d=d, points=p.tolist(), tags=tags, nq=nq), run)


BOUNDED = [Bounded("cell measure by quadrature", bounded_measure, ["basis.finite_element.FiniteElement.evaluate_mapping", "geometry.mapping.*"],
                   "random non-degenerate simplices (four scales/positions), random node order, real basix quadrature", budget=15)]
