"""C22: element bases are the pushed-forward reference bases with the reference moments."""
import itertools

import numpy as np

from ..harness import Unit, Bounded
from .c01 import REF
from .c02 import complex_cells
from .common import *

PID = "C22"
IMPORTS = ["basis.finite_element", "basis.permute_and_transform", "basis.element_family", "basis.element_type", "mesh.mesh"]
FAMS = {1: ["Lagrange", "RT", "BDM", "N1E", "N2E"], 2: ["Lagrange", "RT", "BDM", "N1E", "N2E"], 3: ["Lagrange", "RT", "BDM", "N1E", "N2E"]}
PIOLA = {"RT": "contravariant", "BDM": "contravariant", "N1E": "covariant", "N2E": "covariant", "Lagrange": "identity"}


def one_cell(d, perm, tagged=()):
    """a cell of dimension d listing its nodes in the order perm, with its closure (contract of C01:
    edges and facets list their nodes in ascending order), inside a mesh-like container"""
    nodes = [(3, 5, 8, 12)[i] for i in perm]
    cells, ids = complex_cells(d, [tuple(nodes)], lambda n: list(range(n)))
    by_id = [None] * len(cells)
    for c in cells:
        by_id[c.id] = c
    for f in tagged:
        by_id[f].set_material_id(4)
    cell = next(c for c in cells if c.dimension == d)
    return NS(cells=by_id, points=None, dimension=d), cell


def perms(d, E=None, few=False):
    p = list(itertools.permutations(range(d + 1)))
    if few and d == 3:
        p = [p[i] for i in (0, 1, 5, 9, 14, 16, 23)]
    return p


def make_element(mesh, cell, fam, k):
    from basis.finite_element import FiniteElement
    from basis.element_family import family_by_name

    return FiniteElement(cell.id, family_by_name(fam), k, mesh)


class Generator:
    """The basix element seen through its contract: tabulate is a function of the points, push_forward
    is the family's pull-back applied with the given Jacobian data; everything else is the real element."""

    def __init__(self, E, real, tables, kind, vector):
        self.E, self.real, self.tables, self.kind, self.vector = E, real, tables, kind, vector

    def __getattr__(self, k):
        return getattr(self.real, k)

    def tabulate(self, n, X):
        for P, T in self.tables:
            if X is P or (np.shape(X) == np.shape(P) and all(self.E._identity(lift(a), lift(b)) if self.E.symbolic else a == b for a, b in zip(np.ravel(X), np.ravel(P)))):
                self.E.external.add("basix tabulate: a function of the points (values, then first derivatives per reference direction)") if self.E.symbolic else None
                self.E.prove("first derivatives are requested", n >= 1) if n < 1 else None
                return T.copy()
        raise AssertionError("tabulated at points nobody asked for")

    def push_forward(self, U, J, detJ, K):
        if self.E.symbolic:
            self.E.external.add("basix push_forward = %s map of the family with the given J, det, K (checked on real basix in the bounded part)" % self.kind)
        return push(self.kind, np.asarray(U), J, detJ, K)


def push(kind, U, J, detJ, K):
    U = np.asarray(U)
    if kind == "identity":
        return U.copy()
    out = np.empty(U.shape[:2] + (3,), dtype=object if U.dtype == object or np.asarray(J).dtype == object else float)
    for p in range(U.shape[0]):
        for i in range(U.shape[1]):
            for a in range(3):
                s = 0
                for b in range(U.shape[2]):
                    s = s + (J[p][a, b] * U[p, i, b] / detJ[p] if kind == "contravariant" else K[p][b, a] * U[p, i, b])
                out[p, i, a] = s
    return out


def orientation_map(el):
    """the linear map of the local functions applied by the real permute_and_transform"""
    from basis.permute_and_transform import permute_and_transform

    n = el.basis_generator.dim
    phi = np.zeros((1, n, n, 1))
    phi[0, :, :, 0] = np.eye(n)  # "point" p sees function i as delta_ip
    return permute_and_transform(phi, el.data)[0, :, :, 0].T  # M[i, p]: new i = sum_p M[i,p] old p


def pad(v):
    return np.concatenate([v, [0] * (3 - len(v))]) if len(v) in (2,) else v


def unit_values(d, fam, orders):
    def fn(E):
        perm = E.choice("node_order", perms(d, few=True))
        k = E.choice("order", orders)
        n = E.choice("points", [1, 3] if d == 1 else [2])
        mesh, cell = one_cell(d, perm)
        el = make_element(mesh, cell, fam, k)
        real = el.basis_generator
        vs = d if fam != "Lagrange" and d > 1 else 1
        kind = PIOLA[fam] if d > 1 else "identity"
        m = real.dim
        # two different evaluation points (concrete runs: from disjoint ranges)
        A = [(E.arr("X%d" % i, (n, d), **({} if E.symbolic else dict(gen=lambda r, i=i: i + r.uniform(0.1, 0.9)))), E.arr("u%d" % i, (1 + d, n, m, vs))) for i in range(2)]
        J = E.arr("J", (n, 3, d))
        det = E.arr("det", (n,), **({} if E.symbolic else dict(gen=lambda r: r.uniform(0.1, 3))))
        K = E.arr("K", (n, d, 3))
        for x in det:
            E.assume(x > 0)
        E.cover()
        el.basis_generator = Generator(E, real, A, kind, vs > 1)
        M = orientation_map_of(el, real)
        for rep, (X, U) in enumerate([A[0], A[1], A[0]]):
            X0, J0, det0, K0 = X.copy(), J.copy(), det.copy(), K.copy()
            r = np.asarray(el.evaluate_basis(X, J, det, K))
            nm = "" if rep == 0 else (" (other points)" if rep == 1 else " (independent of earlier evaluations)")
            comps = 3 if vs > 1 else 1
            E.prove("values and first derivatives per point, function and component" + nm, r.shape == (1 + d, n, m, comps))
            val = push(kind, U[0], J, det, K)
            if d == 1 and fam != "Lagrange":
                val = val.copy()
                for p in range(n):
                    for i in range(m):
                        val[p, i, 0] = U[0][p, i, 0] * J[p][0, 0] / det[p]
            E.prove_eq("values are the family's transform of the reference values" + nm, r[0], mix(M, val))
            for a in range(d):
                want = U[1 + a]
                if comps == 3 and vs == 2:
                    want = np.concatenate([want, np.zeros((n, m, 1), dtype=int).astype(object)], axis=2)
                E.prove_eq("derivatives follow the same functions" + nm, r[1 + a], mix(M, want))
            for a, b in ((X, X0), (J, J0), (det, det0), (K, K0)):
                E.prove_eq("arguments are left alone" + nm, a, b)

    return fn


def orientation_map_of(el, real):
    return orientation_map(NS(basis_generator=real, data=el.data))


def mix(M, val):
    out = np.empty(val.shape, dtype=object if val.dtype == object else float)
    m = len(M)
    for i in range(m):
        nz = [p for p in range(m) if M[i, p] != 0]
        s = 0
        for p in nz:
            s = s + M[i, p] * val[:, p, :]
        out[:, i, :] = s
    return out


def unit_point(E):
    mesh, cell = one_cell(0, (0,))
    fam = E.choice("family", ["Lagrange", "RT", "BDM", "N1E", "N2E"])
    E.cover()
    from basis.finite_element import FiniteElement
    from basis.element_family import family_by_name

    el = FiniteElement.__new__(FiniteElement)
    el.generator_family, el.k_order, el.data, el.mesh = family_by_name(fam), 0, NS(cell=cell, mesh=mesh), mesh
    r = el.evaluate_basis(np.array([[1.0]]), np.zeros((1, 3, 0)), np.array([1.0]), np.zeros((1, 0, 3)))
    E.prove_eq("a point carries the constant one", np.asarray(r), np.ones((1, 1, 1, 1)))


def unit_moments(d, fam):
    """with the Jacobian, determinant and inverse of the cell map (contract of C05), the real basis
    values have exactly the reference moments on every facet (RT, BDM) or edge (N1E, N2E)"""

    def fn(E):
        perm = E.choice("node_order", perms(d)[:2] if d == 2 else [perms(3)[0], perms(3)[9]])
        mesh, cell = one_cell(d, perm)
        el = make_element(mesh, cell, fam, 1)
        real = el.basis_generator
        m = real.dim
        pts, J, Q, R = simplex(E, d)
        X = E.arr("X", (1, d))
        U = E.arr("u", (1 + d, 1, m, d))
        E.cover()
        det = 1
        for i in range(d):
            det = det * R[i, i]
        Ri = upper_inverse(R)
        K = Ri @ Q.T
        el.basis_generator = Generator(E, real, [(X, U)], PIOLA[fam], True)
        Jp, Kp = np.array([J]), np.array([K])
        dp = np.array([det], dtype=object if E.symbolic else float)
        r = np.asarray(el.evaluate_basis(X, Jp, dp, Kp))[0, 0]
        M = orientation_map_of(el, real)
        ref = mix(M, U[0])[0]
        V = [np.zeros(d)] + [np.eye(d)[i] for i in range(d)]
        if PIOLA[fam] == "covariant":
            for e in REF[d][1]:
                t = V[e[1]] - V[e[0]]
                T = J @ t
                for i in range(m):
                    E.prove_eq("tangential component along an edge equals the reference one", E.dot(r[i], T), E.dot(ref[i], t))
            return
        for f in range(d + 1):
            loc = [i for i in range(d + 1) if i != f]
            t = [V[i] - V[loc[0]] for i in loc[1:]]
            n = np.array([t[0][1], -t[0][0]]) if d == 2 else np.cross(t[0], t[1])
            if np.dot(n, V[f] - V[loc[0]]) > 0:
                n = -n  # outward area vector of the reference facet (twice the area in 3D)
            N = det * (K.T @ n)
            # N is the outward area vector of the mapped facet
            T = [J @ x for x in t]
            for x in T:
                E.prove_eq("area vector is orthogonal to the facet", E.dot(N, x), 0)
            E.prove("area vector points outward", E.dot(N, J @ (V[f] - V[loc[0]])) < 0)
            A2 = E.dot(T[0], T[0]) if d == 2 else E.dot(T[0], T[0]) * E.dot(T[1], T[1]) - E.dot(T[0], T[1]) * E.dot(T[0], T[1])
            E.prove_eq("area vector has the length of the facet's measure", E.dot(N, N), A2)
            if d == 2:
                E.prove_eq("area vector is tangential to the cell", J @ (K @ N), N)
            for i in range(m):
                E.prove_eq("outward flux density through a facet equals the reference one", E.dot(r[i], N), E.dot(ref[i], n))

    return fn


def upper_inverse(R):
    k = R.shape[0]
    out = np.zeros((k, k), dtype=R.dtype)
    for j in range(k):
        out[j, j] = 1 / R[j, j]
        for i in range(j - 1, -1, -1):
            s = 0
            for l in range(i + 1, j + 1):
                s = s + R[i, l] * out[l, j]
            out[i, j] = -s / R[i, i]
    return out


def unit_orientation(E):
    """finite: every cell dimension, family, order, node order and tagged facet: the orientation step is a
    fixed invertible recombination; for Lagrange a permutation, so bases sum to one, derivatives to zero"""
    d = E.choice("dim", [1, 2, 3])
    fam = E.choice("family", ["Lagrange", "RT", "BDM", "N1E", "N2E"])
    k = E.choice("order", [1, 2, 3, 4] if d < 3 else ([1, 2, 3] if fam != "Lagrange" else [1, 2, 3, 4]))
    perm = E.choice("node_order", perms(d))
    facets = range(d + 1)
    tag = E.choice("tagged_facet", [None] + list(facets) if d > 1 else [None])
    E.cover()
    mesh, cell = one_cell(d, perm)
    if tag is not None:
        mesh.cells[int(cell.sub_cells_ids[d - 1][tag])].set_material_id(3)
    el = make_element(mesh, cell, fam, k)
    real = el.basis_generator
    E.prove("one function per degree of freedom", el.data.dof.n_dof == real.dim)
    want_fam = fam if d > 1 else "Lagrange"
    import basix

    wanted = {"Lagrange": basix.ElementFamily.P, "RT": basix.ElementFamily.RT, "BDM": basix.ElementFamily.BDM, "N1E": basix.ElementFamily.N1E, "N2E": basix.ElementFamily.N2E}
    E.prove("the element is of the requested family and order", real.family == wanted[want_fam] and real.degree == k)
    M = orientation_map(el)
    s = np.linalg.svd(M, compute_uv=False)
    E.prove("the recombination is invertible", s[-1] > 1e-8)
    if want_fam == "Lagrange":
        P = np.round(M)
        E.prove("Lagrange functions are only permuted", np.allclose(M, P, atol=1e-12) and np.all(P.sum(axis=0) == 1) and np.all(P.sum(axis=1) == 1) and np.all((P == 0) | (P == 1)))
    else:
        blocks = np.zeros_like(M)
        for row in real.entity_dofs:
            for ds in row:
                blocks[np.ix_(ds, ds)] = 1
        E.prove("functions are mixed only within a mesh entity", np.allclose(M * (1 - blocks), 0, atol=1e-13))
    # contract of basix used above, on the real element at these points
    X = REFPTS[d]
    T = real.tabulate(1, X)
    if want_fam == "Lagrange":
        E.prove("reference Lagrange functions sum to one", np.allclose(T[0, :, :, 0].sum(axis=1), 1, atol=1e-11))
        for a in range(d):
            E.prove("reference derivatives sum to zero", np.allclose(T[1 + a, :, :, 0].sum(axis=1), 0, atol=1e-9))


REFPTS = {1: np.array([[0.0], [0.3], [1.0]]), 2: np.array([[0.2, 0.3], [0.0, 1.0], [0.5, 0.1]]), 3: np.array([[0.2, 0.3, 0.1], [0.0, 0.0, 1.0], [0.1, 0.6, 0.15]])}

FE = "basis.finite_element.FiniteElement."
PT = "basis.permute_and_transform."
UNITS = []
for d in (1, 2, 3):
    for fam in FAMS[d]:
        orders = {1: [1, 2, 4], 2: [1, 2, 3] if fam in ("Lagrange", "N1E") else [1, 2], 3: [1, 2] if fam not in ("BDM", "N2E") else [1]}[d]
        if d == 3 and fam == "Lagrange":
            orders = [1, 2, 3]
        UNITS.append(Unit("evaluate_basis %s dim%d" % (fam, d), unit_values(d, fam, orders), [FE + "evaluate_basis", FE + "family", PT + "permute_and_transform"] + ([PT + "_permute_and_transform_%dd" % d] if d > 1 else []),
                          timeout=150, samples=60, max_paths=6000, assumptions=["node numbers enter only through their relative order"]))
UNITS.append(Unit("evaluate_basis point", unit_point, [FE + "evaluate_basis"], samples=5))
for d in (2, 3):
    for fam in ("RT", "BDM", "N1E", "N2E"):
        UNITS.append(Unit("moments %s dim%d" % (fam, d), unit_moments(d, fam), [FE + "evaluate_basis"], timeout=150, samples=60,
                          assumptions=["contract of the cell map (C05)", "lemma: QR parametrisation of simplices"]))
UNITS.append(Unit("orientation recombination", unit_orientation, [FE + "_build_structures", FE + "_fill_element_dof_data", FE + "family", PT + "permute_and_transform",
                                                                   PT + "_validate_edge_orientation_2d", PT + "_validate_edge_orientation_3d", PT + "_validate_face_orientation_3d",
                                                                   "basis.element_family.family_by_name", "basis.element_type.type_by_dimension"],
                  timeout=200, samples=0, max_paths=20000, kind="bounded-size", bounds="orders up to 4 (vector families in 3D: 3); every node order, every single tagged facet"))


def bounded_basis(B):
    """real basix: push_forward equals the contract, partition of unity, fluxes and circulations by quadrature"""
    import basix
    from basis.finite_element import FiniteElement
    from basis.element_family import family_by_name
    from .meshes import random_mesh

    while B.more() and B.evaluations < (4000 if B.thorough else 500):
        d = B.rng.choice([1, 2, 2, 3, 3])
        mesh, info = random_mesh(B.rng, B.nrng, d, n=None if d < 3 else 5, boundary_tags=B.rng.random() < 0.5)
        fam = B.rng.choice(["Lagrange", "RT", "BDM", "N1E", "N2E"])
        k = B.rng.choice([1, 2, 3])
        c = B.rng.choice([c for c in mesh.cells if c.dimension == d])
        n = B.rng.choice([1, 2, 3, 5])
        X = B.nrng.dirichlet(np.ones(d + 1), size=n)[:, 1:]

        def run():
            el = FiniteElement(c.id, family_by_name(fam), k, mesh)
            want = {"Lagrange": basix.ElementFamily.P, "RT": basix.ElementFamily.RT, "BDM": basix.ElementFamily.BDM, "N1E": basix.ElementFamily.N1E, "N2E": basix.ElementFamily.N2E}[fam]
            assert el.basis_generator.family == (want if d > 1 else basix.ElementFamily.P), "family"
            x, jac, det, inv = el.evaluate_mapping(X)
            keep = [a.copy() for a in (X, jac, det, inv)]
            r = el.evaluate_basis(X, jac, det, inv)
            for a, b in zip((X, jac, det, inv), keep):
                assert np.array_equal(a, b), "arguments untouched"
            other = B.nrng.dirichlet(np.ones(d + 1), size=n)[:, 1:]
            el.evaluate_basis(other, *el.evaluate_mapping(other)[1:])
            assert np.array_equal(r, el.evaluate_basis(X, jac, det, inv)), "stateless"
            back = el.evaluate_basis(X[::-1].copy(), *el.evaluate_mapping(X[::-1].copy())[1:])
            assert np.allclose(back[:, ::-1], r, atol=1e-10), "points in another order"
            one = np.concatenate([el.evaluate_basis(X[i:i + 1], jac[i:i + 1], det[i:i + 1], inv[i:i + 1]) for i in range(n)], axis=1)
            assert np.allclose(r, one, atol=1e-10), "point by point"
            M = orientation_map(el)
            T = el.basis_generator.tabulate(1, X)
            kind = "identity" if d == 1 or fam == "Lagrange" else ("contravariant" if fam in ("RT", "BDM") else "covariant")
            val = push(kind, T[0], jac, det, inv)
            if d == 1 and fam != "Lagrange":
                val = val * (jac[:, 0, 0] / det)[:, None, None]
            assert np.allclose(r[0], mix(M, val), atol=1e-9 * (1 + abs(val).max())), "pushed-forward values"
            if fam == "Lagrange":
                assert np.allclose(r[0].sum(axis=1), 1, atol=1e-10), "partition of unity"
                for a in range(d):
                    assert np.allclose(r[1 + a].sum(axis=1), 0, atol=1e-8), "derivatives sum to zero"

        B.case("basis:d%d:%s" % (d, fam), dict(d=d, family=fam, k=k, nodes=c.node_tags.tolist(), points=mesh.points[c.node_tags].tolist(), X=X.tolist()), run)


BOUNDED = [Bounded("basis on random meshes", bounded_basis, [FE + "evaluate_basis", PT + "permute_and_transform"], "random meshes of dimension 1..3, random cell/family/order/points", budget=20)]
