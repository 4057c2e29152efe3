"""C07: finite element functions conform across shared entities.

Decomposition (all geometry, all degrees of freedom, all node numberings up to order type):
  A. on one cell, the trace on a facet of the mapped function is the trace of the oriented reference
     function (value / flux density through the facet / component along its edges): postcondition of the
     real evaluate_basis for arbitrary reference values and arbitrary simplices (units below, shared with C22);
  B. the oriented reference traces do not depend on the cell's node order or on which of its facets is
     shared, once expressed on the facet with its vertices in ascending order, and functions not attached
     to the facet's closure vanish: exhaustive over node orders, facets, families, orders (real
     permute_and_transform on the real reference element);
  C. equal global degrees of freedom sit at corresponding entities (C02).
A, B, C give: two cells sharing an untagged facet see the same trace.
"""
import itertools

import numpy as np

from ..harness import Unit, Bounded
from .c01 import REF
from .c22 import Generator, mix, one_cell, make_element, orientation_map_of, orientation_map, perms, PIOLA, unit_moments, FE, PT
from .common import *

PID = "C07"
IMPORTS = ["basis.finite_element", "basis.permute_and_transform", "basis.element_family", "spaces.discrete_space", "spaces.dof_map", "mesh.mesh"]

VERT = {2: np.array([[0, 0], [1, 0], [0, 1]], float), 3: np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float)}


def lattice(nv, k):
    """barycentric points, unisolvent for polynomials of degree k on a simplex with nv vertices"""
    return np.array([i for i in itertools.product(range(k + 1), repeat=nv) if sum(i) == k], float) / k


def kind_of(fam):
    return "Lagrange" if fam == "Lagrange" else ("flux" if fam in ("RT", "BDM") else "tangent")


def attached(d, sub):
    """sub-entities (dimension, local index) of the reference cell contained in the vertex set"""
    out = []
    for q in range(d):
        for i, e in enumerate(REF[d][q] if q else [(v,) for v in range(d + 1)]):
            if set(e) <= set(sub):
                out.append((q, i, tuple(e)))
    return out


def canonical(el, d, fam, k, nodes, sub):
    """traces of the oriented reference functions on the sub-entity with local vertices sub, with its
    vertices in ascending node number: {(entity as positions, i): values}, and the others' maximum"""
    order = sorted(sub, key=lambda v: nodes[v])
    lam = lattice(len(order), max(k, 1))
    X = lam @ VERT[d][order]
    T = el.basis_generator.tabulate(0, X)[0]
    M = orientation_map(el)
    phi = np.einsum("ip,xpc->xic", M, T)
    t = [VERT[d][v] - VERT[d][order[0]] for v in order[1:]]
    kd = kind_of(fam)
    if kd == "Lagrange":
        tr = phi[:, :, 0][:, :, None]
    elif kd == "flux":
        n = np.array([t[0][1], -t[0][0]]) if d == 2 else np.cross(t[0], t[1])
        tr = (phi @ n)[:, :, None]
    else:
        tr = np.stack([phi @ x for x in t], axis=2)
    out, used = {}, set()
    ed = el.data.dof.entity_dofs
    for q, i, e in attached(d, sub) + ([(len(sub) - 1, None, tuple(sub))] if False else []):
        for j, dof in enumerate(ed[q][i]):
            out[(tuple(sorted(order.index(v) for v in e)), j)] = tr[:, dof, :]
            used.add(dof)
    rest = [i for i in range(phi.shape[1]) if i not in used]
    return out, (np.max(np.abs(tr[:, rest, :])) if rest else 0.0)


def unit_reference(d, fam, orders):
    def fn(E):
        k = E.choice("order", orders)
        facets = list(range(d + 1))
        f = E.choice("shared_facet", facets)
        others = [None] + [g for g in facets if g != f]
        tag = E.choice("other_tagged_facet", others)
        E.cover()
        base = None
        for p in perms(d):
            mesh, cell = one_cell(d, p)
            if tag is not None:
                mesh.cells[int(cell.sub_cells_ids[d - 1][tag])].set_material_id(3)
            el = make_element(mesh, cell, fam, k)
            nodes = list(cell.node_tags)
            sub = [v for v in range(d + 1) if v != f]
            if base is None:  # reference: ascending node order, facet opposite to the last vertex, nothing tagged
                m0, c0 = one_cell(d, tuple(range(d + 1)))
                base, z = canonical(make_element(m0, c0, fam, k), d, fam, k, list(c0.node_tags), list(range(d)))
                E.prove("functions not attached to the facet have no trace on it", z < 1e-9)
            C, z = canonical(el, d, fam, k, nodes, sub)
            E.prove("functions not attached to the facet have no trace on it", z < 1e-9)
            E.prove("the facet's functions are the same ones for every cell", set(C) == set(base))
            for key in base:
                E.prove("the trace does not depend on node order or facet", C[key].shape == base[key].shape and np.allclose(C[key], base[key], atol=1e-8))

    return fn


def unit_listing(fam):
    """2D: a shared edge may be listed in the mesh in either node order; both neighbours then see that order"""

    def fn(E):
        k = E.choice("order", [1, 2, 3, 4])
        f = E.choice("shared_edge", [0, 1, 2])
        others = E.choice("other_edges_reversed", [(False, False), (True, False), (False, True)])
        E.cover()
        base = None
        for p in perms(2):
            mesh, cell = one_cell(2, p)
            o = list(others)
            for g in range(3):
                e = mesh.cells[int(cell.sub_cells_ids[1][g])]
                if g == f or o.pop(0):
                    e.set_node_tags(np.array(e.node_tags)[::-1].copy())
            el = make_element(mesh, cell, fam, k)
            nodes = list(cell.node_tags)
            neg = [-n for n in nodes]
            sub = [v for v in range(3) if v != f]
            C, z = canonical(el, 2, fam, k, neg, sub)  # descending order = the listed order of the edge
            if base is None:
                m0, c0 = one_cell(2, (0, 1, 2))
                base, _ = canonical(make_element(m0, c0, fam, k), 2, fam, k, list(c0.node_tags), [0, 1])
            E.prove("functions not attached to the edge have no trace on it", z < 1e-9)
            for key in base:
                E.prove("the trace follows the listed order of the edge", np.allclose(C[key], base[key], atol=1e-8))

    return fn


def unit_subentity(fam):
    """tetrahedra meeting only in an edge (or vertex): continuity there as well"""

    def fn(E):
        k = E.choice("order", [1, 2, 3] if fam != "Lagrange" else [1, 2, 3, 4])
        n = E.choice("shared_vertices", [1, 2] if fam == "Lagrange" else [2])
        sub = E.choice("shared", list(itertools.combinations(range(4), n)))
        E.cover()
        base = None
        for p in perms(3):
            mesh, cell = one_cell(3, p)
            el = make_element(mesh, cell, fam, k)
            if base is None:
                m0, c0 = one_cell(3, (0, 1, 2, 3))
                base, _ = canonical(make_element(m0, c0, fam, k), 3, fam, k, list(c0.node_tags), list(range(n)))
            C, z = canonical(el, 3, fam, k, list(cell.node_tags), list(sub))
            E.prove("functions not attached to the entity have no trace on it", z < 1e-9)
            for key in base:
                E.prove("the trace does not depend on node order or entity", np.allclose(C[key], base[key], atol=1e-8))

    return fn


def unit_value(d):
    """Lagrange: the mapped functions take the values of the oriented reference functions, for any geometry"""

    def fn(E):
        perm = E.choice("node_order", perms(d)[:2] + perms(d)[-1:])
        k = E.choice("order", [1, 2, 3])
        mesh, cell = one_cell(d, perm)
        el = make_element(mesh, cell, "Lagrange", k)
        real = el.basis_generator
        X, U = E.arr("X", (2, d)), E.arr("u", (1 + d, 2, real.dim, 1))
        J, det, K = E.arr("J", (2, 3, d)), E.arr("det", (2,), **({} if E.symbolic else dict(gen=lambda r: r.uniform(0.1, 3)))), E.arr("K", (2, d, 3))
        E.cover()
        M = orientation_map_of(el, real)
        el.basis_generator = Generator(E, real, [(X, U)], "identity", False)
        r = np.asarray(el.evaluate_basis(X, J, det, K))
        E.prove_eq("values do not depend on the geometry", r[0], mix(M, U[0]))

    return fn


def unit_1d(E):
    """segments meeting in a vertex: end functions are nodal there, all others vanish"""
    k = E.choice("order", [1, 2, 3, 4])
    E.cover()
    for p in ((0, 1), (1, 0)):
        mesh, cell = one_cell(1, p)
        el = make_element(mesh, cell, "Lagrange", k)
        M = orientation_map(el)
        V = M @ el.basis_generator.tabulate(0, np.array([[0.0], [1.0]]))[0, :, :, 0].T
        ed = el.data.dof.entity_dofs[0]
        for v in (0, 1):
            want = np.zeros(el.basis_generator.dim)
            want[ed[v][0]] = 1
            E.prove("exactly the vertex function is one at the vertex", np.allclose(V[:, v], want, atol=1e-12))


UNITS = []
ASSUME = ["basix tabulation of the reference element taken as exact to 1e-8; polynomial traces compared at a unisolvent set of points"]
for d, fams in ((2, {"Lagrange": [1, 2, 3, 4], "RT": [1, 2, 3, 4], "BDM": [1, 2, 3, 4], "N1E": [1, 2, 3, 4], "N2E": [1, 2, 3]}),
                (3, {"Lagrange": [1, 2, 3, 4], "RT": [1, 2, 3], "BDM": [1, 2, 3], "N1E": [1, 2, 3], "N2E": [1, 2]})):
    for fam, orders in fams.items():
        UNITS.append(Unit("reference trace %s dim%d" % (fam, d), unit_reference(d, fam, orders),
                          [PT + "permute_and_transform", PT + "_permute_and_transform_%dd" % d, PT + "_validate_edge_orientation_%dd" % d, FE + "_build_structures"] + ([PT + "_validate_face_orientation_3d"] if d == 3 else []),
                          timeout=200, samples=0, max_paths=20000, kind="bounded-size", bounds="orders %s; every node order, facet, tag pattern" % orders, assumptions=ASSUME))
        if fam != "Lagrange":
            UNITS.append(Unit("mapped trace %s dim%d" % (fam, d), unit_moments(d, fam), [FE + "evaluate_basis"], timeout=150, samples=30,
                              assumptions=["contract of the cell map (C05)", "contract of basix push_forward (C22)"]))
    UNITS.append(Unit("mapped trace Lagrange dim%d" % d, unit_value(d), [FE + "evaluate_basis"], timeout=100, samples=30))
for fam in ("Lagrange", "RT", "BDM", "N1E", "N2E"):
    UNITS.append(Unit("edge listing %s dim2" % fam, unit_listing(fam), [PT + "_permute_and_transform_2d", PT + "_validate_edge_orientation_2d"], timeout=100, samples=0,
                      kind="bounded-size", bounds="orders 1..4", assumptions=ASSUME))
for fam in ("Lagrange", "N1E", "N2E"):
    UNITS.append(Unit("edge and vertex trace %s dim3" % fam, unit_subentity(fam), [PT + "_permute_and_transform_3d", PT + "_validate_edge_orientation_3d"], timeout=100, samples=0,
                      kind="bounded-size", bounds="orders 1..3 (Lagrange 4)", assumptions=ASSUME))
UNITS.append(Unit("vertex trace dim1", unit_1d, [PT + "permute_and_transform", FE + "_build_structures"], timeout=30, samples=0, kind="bounded-size", bounds="orders 1..4"))


def orient(p, cells, d):
    """cells with consistent orientation (flat meshes): positive determinant in a common frame"""
    out = cells.copy()
    P = p - p.mean(axis=0)
    q = np.linalg.svd(P)[2][:d].T if d == 2 else np.eye(3)
    for c in out:
        J = (p[c[1:]] - p[c[0]]) @ q
        if np.linalg.det(J) < 0:
            a, b = c[0], c[1]
            c[0], c[1] = b, a
    return out


def largest_jump(g, dim, fam, k, comp, seed, tags):
    from collections import defaultdict
    from spaces.discrete_space import DiscreteSpace

    s = DiscreteSpace(dim, comp, fam, k, g, integration_order=2 * k + 1)
    s.build_structures(tags)
    r = np.random.default_rng(seed)
    x = r.normal(size=s.dof_map.dof_number())
    fac = defaultdict(list)
    for e in s.elements:
        for f in e.data.cell.sub_cells_ids[dim - 1]:
            fac[int(f)].append(e)
    worst, where = 0.0, None
    for f, es in fac.items():
        if len(es) != 2 or g.cells[f].material_id is not None:
            continue
        nodes = sorted(int(i) for i in g.cells[f].node_tags) if dim > 1 else [int(np.ravel(g.cells[f].node_tags)[0])]
        P = g.points[nodes]
        X = r.dirichlet(np.ones(len(nodes)), size=4) @ P
        vals, n0 = [], None
        for e in es:
            Q = g.points[e.data.cell.node_tags]
            J = (Q[1:] - Q[0]).T
            xi = np.linalg.lstsq(J, (X - Q[0]).T, rcond=None)[0].T
            _, jac, det, inv = e.evaluate_mapping(xi)
            phi = e.evaluate_basis(xi, jac, det, inv)[0]
            dest = s.dof_map.destination_indices(e.data.cell.id)
            for c in range(comp):
                v = np.einsum("pfd,f->pd", phi, x[dest[c::comp]])
                if fam in ("RT", "BDM"):
                    q = np.linalg.qr((P[1:] - P[0]).T)[0]
                    n = Q.mean(axis=0) - P.mean(axis=0)
                    n = n - q @ (q.T @ n)
                    n /= np.linalg.norm(n)
                    if n0 is not None and n @ n0 < 0:
                        n = -n
                    n0 = n if n0 is None else n0
                    v = v @ n
                elif fam != "Lagrange":
                    v = v @ ((P[1:] - P[0]) / np.linalg.norm(P[1:] - P[0], axis=1)[:, None]).T
                vals.append(np.ravel(v))
        h = len(vals) // 2
        j = max(np.max(np.abs(a - b)) / (1 + np.max(np.abs(a)) + np.max(np.abs(b))) for a, b in zip(vals[:h], vals[h:]))
        if j > worst:
            worst, where = j, (f, nodes, [e.data.cell.node_tags.tolist() for e in es])
    return worst, where


def bounded_jump(B):
    from .meshes import raw_mesh, write_mesh, load, faces_of, cleanup

    while B.more() and B.evaluations < (2000 if B.thorough else 250):
        d = B.rng.choice([1, 2, 2, 3, 3])
        fam = B.rng.choice(["Lagrange", "RT", "BDM", "N1E", "N2E"]) if d > 1 else "Lagrange"
        k = B.rng.choice([1, 2, 3, 4] if d < 3 else [1, 2, 3])
        comp = B.rng.choice([1, 1, 2, 3])
        p, cells = raw_mesh(B.rng, B.nrng, d, n=None if d < 3 else 6, embed=B.rng.choice(["flat", "shifted"] + (["rotated"] if d > 1 else [])))
        if fam in ("RT", "BDM"):
            cells = orient(p, cells, d)
        blocks = []
        if d > 1:
            fs = faces_of(cells, d - 1)
            cnt = {f: 0 for f in fs}
            for c in cells:
                for f in itertools.combinations(sorted(int(i) for i in c), d):
                    cnt[f] += 1
            tagged = [list(f) for f in fs if cnt[f] == 1 and B.rng.random() < 0.6]
            if tagged:
                for f in tagged:
                    B.rng.shuffle(f)
                blocks.append((d - 1, np.array(tagged), [9] * len(tagged)))
        blocks.append((d, cells, [1] * len(cells)))
        seed = B.rng.randrange(10**6)

        def run():
            g = load(d, write_mesh(p, blocks))
            w, at = largest_jump(g, d, fam, k, comp, seed, [1])
            assert w < 1e-7, ("jump", w, at)

        B.case("jump:d%d:%s" % (d, fam), dict(d=d, family=fam, k=k, components=comp, points=p.tolist(), cells=cells.tolist(), blocks=[(a, np.asarray(b).tolist()) for a, b, _ in blocks[:-1]]), run)


def bounded_opposite(B):
    """two neighbouring cells that list their nodes with opposite orientation"""
    from .meshes import write_mesh, load, cleanup

    for d, fam in ((2, "RT"), (2, "BDM"), (3, "RT"), (3, "BDM"), (2, "Lagrange"), (2, "N1E"), (3, "Lagrange"), (3, "N1E"), (2, "N2E"), (3, "N2E")):
        p = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0.0]]) if d == 2 else np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0], [1, 1, 1]])
        cells = np.array([[0, 1, 2], [1, 2, 3]] if d == 2 else [[0, 1, 2, 3], [1, 2, 3, 4]])
        J = [p[c[1:]] - p[c[0]] for c in cells]
        if d == 2:
            opp = np.cross(J[0][0], J[0][1])[2] * np.cross(J[1][0], J[1][1])[2] < 0
        else:
            opp = np.linalg.det(J[0]) * np.linalg.det(J[1]) < 0
        if not opp:
            cells[1][[0, 1]] = cells[1][[1, 0]]

        def run():
            g = load(d, write_mesh(p, [(d, cells, [1, 1])]))
            w, at = largest_jump(g, d, fam, 1, 1, 3, [1])
            assert w < 1e-7, ("jump", w, at)

        B.case("opposite-orientation:d%d:%s" % (d, fam), dict(d=d, family=fam, points=p.tolist(), cells=cells.tolist()), run)


FUNS = ["basis.finite_element.FiniteElement.evaluate_basis", PT + "permute_and_transform", "spaces.dof_map.DoFMap.destination_indices", "spaces.discrete_space.DiscreteSpace.build_structures"]
BOUNDED = [Bounded("jumps on random meshes", bounded_jump, FUNS, "random meshes of dimension 1..3, all families/orders/components, boundary facets randomly tagged; RT/BDM on consistently oriented cells", budget=40),
           Bounded("cells of opposite orientation", bounded_opposite, FUNS, "two cells, one per family and dimension", budget=10)]
