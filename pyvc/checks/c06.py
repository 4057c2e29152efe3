"""C06: facet points map to the same physical point from cell and facet; restricted traces."""
import itertools

import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C06"
IMPORTS = ["basis.parametric_transformation", "basis.basis_trace", "spaces.discrete_space", "mesh.mesh"]

ORDERS = {1: [(4, 9), (9, 4)], 2: list(itertools.permutations((2, 5, 9))), 3: list(itertools.permutations((1, 2, 5, 9)))}


def bary(E, P, X):
    """contract of the cell map (property C05): affine combination with barycentric weights"""
    d = len(P) - 1
    s = 0
    for j in range(d):
        s = s + X[j]
    r = P[0] * (1 - s)
    for j in range(d):
        r = r + P[j + 1] * X[j]
    return r


def setting(E, d):
    """a cell of dimension d with arbitrary node numbering and one of its facets in any node order"""
    tags = E.choice("cell_tags", ORDERS[d])
    fi = E.choice("facet", list(range(d + 1)))
    loc = [i for i in range(d + 1) if i != fi]
    fperm = E.choice("facet_order", list(itertools.permutations(range(d))))
    ftags = np.array([tags[loc[i]] for i in fperm])
    ids = np.array([30 + 7 * ((i + 2) % (d + 1)) for i in range(d + 1)])
    if d == 1:
        ids = np.array([tags[1], tags[0]])  # facet i is opposite to vertex i
        sub = np.array(tags)                # a segment lists its vertices in its own node order
        fid = tags[loc[0]]
        sub_ids = [sub, np.array([99])]
        fid_ = fid
    else:
        sub_ids = [np.array(tags)] + [np.array([50 + i for i in range(6)]) if k < d - 1 else ids for k in range(1, d)] + [np.array([99])]
        fid_ = int(ids[fi])
    cell = NS(dimension=d, node_tags=np.array(tags), sub_cells_ids=sub_ids, id=99)
    facet = NS(dimension=d - 1, node_tags=ftags, id=fid_)
    P = E.arr("p", (d + 1, 3))
    pos = {t: P[i] for i, t in enumerate(tags)}
    PF = [pos[t] for t in ftags]
    return cell, facet, P, PF


def unit_lift(d):
    def fn(E):
        from basis.parametric_transformation import transform_lower_to_higher

        cell, facet, P, PF = setting(E, d)
        n = 2
        X = E.arr("X", (n, max(d - 1, 0)))
        E.cover()
        pts = np.array([1.0]) if d == 1 else X  # the code's reference point of a vertex
        Y = np.asarray(transform_lower_to_higher(pts, NS(cell=facet), NS(cell=cell)))
        E.prove_eq("one lifted point per facet point", np.array(Y.shape), np.array([len(pts), d]))
        for k in range(len(pts)):
            E.prove_eq("same physical point from cell and facet", bary(E, P, Y[k]), bary(E, PF, X[k]) if d > 1 else PF[0])

    return fn


def unit_trace(d):
    """_trace against the contracts of evaluate_mapping (C05) and evaluate_basis (C22): it evaluates the
    cell's basis at the lifted points with the cell's own Jacobian and keeps the facet's functions."""

    def fn(E):
        import basis.basis_trace as bt

        cell, facet, P, PF = setting(E, d)
        n_pts, nf = (2, 2) if d < 3 else (1, 1)
        dofs, k = [], 0
        ents = {0: d + 1, 1: [1, 1, 3, 6][d], 2: [0, 0, 1, 4][d], 3: 1}
        per = E.choice("dofs_per_entity", [{0: 1, 1: 2, 2: 1, 3: 1}, {0: 0, 1: 1, 2: 2, 3: 0}, {0: 1, 1: 0, 2: 0, 3: 2}])
        for q in range(d + 1):
            row = []
            for _ in range(ents[q] if q < d else 1):
                row.append(list(range(k, k + per[q])))
                k += per[q]
            dofs.append(row)
        X = E.arr("X", (n_pts, max(d - 1, 0)))
        pts = np.array([1.0]) if d == 1 else X
        phi = E.arr("phi", (2 if d < 3 else 1, len(pts), max(k, 1), nf))
        log = {}

        class El:
            data = NS(cell=cell, dof=NS(entity_dofs=dofs))

            def evaluate_mapping(self, points, storage=False):
                log["map_points"] = np.asarray(points)
                E.prove("evaluation leaves the stored mapping alone", not storage)
                return ("x", "jac", "det", "inv")

            def evaluate_basis(self, points, jac, det, inv):
                log["basis_points"] = np.asarray(points)
                E.prove("basis is evaluated with the cell's own mapping", (jac, det, inv) == ("jac", "det", "inv"))
                return phi

        whole = E.choice("all_dofs", [True, False])
        E.cover()
        r = np.asarray(bt._trace(pts, NS(cell=facet), El(), whole))
        for nm in ("map_points", "basis_points"):
            Y = log[nm]
            for i in range(len(pts)):
                E.prove_eq("evaluated at the physical facet points", bary(E, P, Y[i]), bary(E, PF, X[i]) if d > 1 else PF[0])
        fidx = list(cell.sub_cells_ids[d - 1]).index(facet.id)
        keep = list(range(phi.shape[2])) if whole else dofs[d - 1][fidx]
        E.prove_eq("keeps exactly the facet's functions", r, phi[:, :, keep, :])

    return fn


UNITS = []
for d in (1, 2, 3):
    UNITS.append(Unit("lift dim%d" % d, unit_lift(d), ["basis.parametric_transformation.transform_lower_to_higher", "basis.parametric_transformation._R%d_to_R%d" % (d - 1, d)],
                      timeout=120, samples=200, assumptions=["node numbers enter only through equality and order (every order type of a cell's nodes is explored)"]))
    UNITS.append(Unit("trace dim%d" % d, unit_trace(d), ["basis.basis_trace._trace"], modules=["basis.basis_trace", "basis.parametric_transformation"],
                      timeout=150, samples=100, max_paths=6000))


def unit_select(E):
    """trace_discrete_space hands _trace the element of the requested neighbour cell"""
    import networkx as nx
    import basis.basis_trace as bt

    ids = E.choice("ids", [(7, 3), (3, 7), (12, 40)])
    order = E.choice("order", [(0, 1), (1, 0)])
    k = E.choice("neigh_idx", [0, 1])
    whole = E.choice("all_dofs", [True, False])
    g = nx.DiGraph()
    for i in order:
        g.add_edge((2, ids[i]), (1, 55))
    cell = NS(dimension=1, id=55, index=lambda: (1, 55))
    els = [NS(data=NS(cell=NS(id=i, dimension=2))) for i in ids]
    sp = NS(dof_map=NS(mesh_topology=NS(entity_map_by_dimension=lambda d_: g)), elements=els,
            id_to_element={i: n for n, i in enumerate(ids)})
    seen = []
    old = bt._trace
    bt._trace = lambda points, c1, el, w: seen.append((points, c1, el, w)) or E_val
    E_val = np.array([1.0])
    E.cover()
    try:
        c1 = NS(cell=cell)
        r = bt.trace_discrete_space(sp, "pts", c1, whole, k)
        ps = NS(discrete_spaces={"u": sp, "v": sp})
        m = bt.trace_product_space(["u", "v"], ps, "pts", c1, whole, k)
    finally:
        bt._trace = old
    E.prove("three traces", len(seen) == 3)
    want = ids[order[k]]
    for p, c, el, w in seen:
        E.prove("element of the requested neighbour", el.data.cell.id == want)
        E.prove("arguments handed through", p == "pts" and c is c1 and w == whole)
    E.prove("one trace per field", sorted(m) == ["u", "v"] and r is E_val)


UNITS.append(Unit("trace_discrete_space", unit_select, ["basis.basis_trace.trace_discrete_space", "basis.basis_trace.trace_product_space"],
                  modules=["basis.basis_trace"], samples=10))


def bounded_trace(B):
    """Polynomial fields interpolated in real Lagrange spaces; vector fields by projection-free identity."""
    from basis.finite_element import FiniteElement
    from basis.element_data import ElementData
    from basis.element_family import family_by_name
    from basis.basis_trace import _trace
    from basis.parametric_transformation import transform_lower_to_higher
    from .meshes import random_mesh

    while B.more() and B.evaluations < (3000 if B.thorough else 400):
        d = B.rng.choice([1, 2, 3])
        m, info = random_mesh(B.rng, B.nrng, d, n=None if d < 3 else 5, boundary_tags=False)
        cells = [c for c in m.cells if c.dimension == d]
        c = B.rng.choice(cells)
        k = B.rng.choice([1, 2, 3])
        fam = B.rng.choice(["Lagrange"] + (["RT", "BDM", "N1E"] if d > 1 else []))
        fid = int(B.rng.choice(list(c.sub_cells_ids[d - 1])))
        f = m.cells[fid]
        if d > 1 and B.rng.random() < 0.5:  # a facet may list its nodes in any order
            f = f.clone()
            nt = list(f.node_tags)
            B.rng.shuffle(nt)
            f.set_node_tags(np.array(nt))
        pts = np.array([1.0]) if d == 1 else B.nrng.uniform(0, 1 / d, size=(3, d - 1))

        def run():
            el = FiniteElement(cell_id=c.id, family=family_by_name(fam), k_order=k, mesh=m)
            Y = transform_lower_to_higher(pts, NS(cell=f), el.data)
            x, jac, det, inv = el.evaluate_mapping(Y)
            PF = m.points[f.node_tags]
            want = np.array([PF[0] if d == 1 else PF[0] * (1 - sum(t)) + sum(t[j] * PF[j + 1] for j in range(d - 1)) for t in pts])
            assert np.allclose(x, want, atol=1e-10 * (1 + abs(PF).max())), "same physical point"
            full = el.evaluate_basis(Y, jac, det, inv)
            tr = _trace(pts, NS(cell=f), el, True)
            assert np.allclose(tr, full, atol=1e-10), "full trace"
            rt = _trace(pts, NS(cell=f), el, False)
            loc = el.data.dof.entity_dofs[d - 1][list(c.sub_cells_ids[d - 1]).index(fid)]
            assert np.allclose(rt, full[:, :, loc, :], atol=1e-10), "restricted trace"
            if fam == "Lagrange" and d > 1:
                # a linear function is reproduced on the facet by its nodal values
                a, b = B.nrng.normal(size=3), B.nrng.normal()
                ref = el.basis_generator.points
                xn = el.evaluate_mapping(ref)[0]
                # interpolation holds for the reference ordering before the orientation transform
                from basis.permute_and_transform import permute_and_transform
                tabn = el.evaluate_basis(ref, *el.evaluate_mapping(ref)[1:])[0, :, :, 0]
                coef = np.linalg.solve(tabn, xn @ a + b)
                assert np.allclose(tr[0, :, :, 0] @ coef, want @ a + b, atol=1e-8), "trace value"

        B.case("trace:d%d:%s" % (d, fam), dict(d=d, family=fam, k=k, cell=c.node_tags.tolist(), facet=f.node_tags.tolist(), points=m.points[c.node_tags].tolist(), X=np.asarray(pts).tolist()), run)


BOUNDED = [Bounded("traces on random meshes", bounded_trace, ["basis.basis_trace._trace", "basis.parametric_transformation.transform_lower_to_higher", "basis.finite_element.FiniteElement.evaluate_mapping"],
                   "random meshes of dimension 1..3, random cell/facet/order/family", budget=25)]
