"""C02: degree-of-freedom numbering is a gap-free partition by mesh entity."""
import itertools

import numpy as np

from ..harness import Unit, Bounded
from .c01 import REF
from .common import *

PID = "C02"
IMPORTS = ["spaces.dof_map", "spaces.discrete_space", "mesh.mesh_topology"]
D = "spaces.dof_map.DoFMap."
FIELDS = ["vertex_map", "edge_map", "face_map", "volume_map"]


def new_map(**kw):
    from spaces.dof_map import DoFMap

    m = DoFMap.__new__(DoFMap)
    m.vertex_map, m.edge_map, m.face_map, m.volume_map, m.n_dof = {}, {}, {}, {}, 0
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def topology(mesh, dim, maps=None, ids=None):
    from mesh.mesh_topology import MeshTopology

    t = MeshTopology.__new__(MeshTopology)
    t.mesh, t.dimension, t.entity_maps, t.entity_ids = mesh, dim, maps or [], ids or {}
    return t


def ref_element(dim, k):
    """a reference element that owns k[d] degrees of freedom on every sub-entity of dimension d"""
    n = [len(REF[dim][d]) if d < dim else 1 for d in range(dim)] + [1] if dim else [1]
    out, j = [], 0
    for d in range(dim + 1):
        row = []
        for _ in range(n[d]):
            row.append(list(range(j, j + k[d])))
            j += k[d]
        out.append(row)
    return NS(num_entity_dofs=[[len(x) for x in r] for r in out], entity_dofs=out, dim=j)


def unit_numbering(dim):
    def fn(E):
        counts = [E.choice("n%d" % d, [1, 3] if d else [2, 4]) for d in range(dim + 1)]
        k = [E.choice("k%d" % d, [0, 2] if d in (1, 2) else [0, 1]) for d in range(dim + 1)]
        comp = E.choice("components", [1, 3] if dim == 3 else [1, 2, 3])
        shift = E.choice("shift", [0, 2**33])
        ids, at = {}, 11
        for d in range(dim, -1, -1):  # arbitrary distinct ids, in no particular order
            ids[d] = [at + (7 * i) % 29 for i in range(counts[d])]
            at += 29
        E.cover()
        m = new_map(mesh_topology=topology(NS(dimension=3, cells=None), dim, [], ids), ref_element=ref_element(dim, k), dimension=dim)
        if E.choice("built before", [False, True]):
            m.build_entity_maps(n_components=comp + 1, n_dof_shift=9)
        if shift:
            m.build_entity_maps(n_components=comp, n_dof_shift=shift)
        else:
            m.build_entity_maps(n_components=comp)
        seen = []
        for d in range(dim + 1):
            mp = getattr(m, FIELDS[d])
            E.prove("an entry for no other entity", set(mp) <= set(ids[d]))
            for e in ids[d]:
                b = [int(i) for i in np.ravel(mp.get(e, []))]
                E.prove("a block of the same size for every entity of its dimension", len(b) == k[d] * comp)
                seen += b
        for d in range(dim + 1, 4):
            E.prove("no entity above the space's dimension", len(getattr(m, FIELDS[d])) == 0)
        n = sum(c * kk * comp for c, kk in zip(counts, k))
        E.prove("the blocks are disjoint", len(set(seen)) == len(seen))
        E.prove("and cover the range", sorted(seen) == list(range(shift, shift + n)))
        E.prove("number of degrees of freedom", m.dof_number() == n and m.n_dof == n)

    return fn


def complex_cells(dim, cells, numbering):
    """MeshCells of a closed complex (contract of C01): ids by position"""
    from mesh.mesh_cell import MeshCell

    ids, out = {}, []
    for d in range(dim + 1):
        for f in sorted({f for c in cells for f in itertools.combinations(sorted(c), d + 1)}):
            ids[f] = None
    order = list(ids)
    for f, i in zip(order, numbering(len(order))):
        ids[f] = i
    local = {tuple(sorted(c)): tuple(c) for c in cells}
    for f in order:
        nodes = local.get(f, f)
        c = MeshCell(len(f) - 1)
        c.id = ids[f]
        c.node_tags = np.array(nodes)
        for d in range(len(f)):
            ref = [tuple(range(len(f)))] if d == len(f) - 1 else REF[len(f) - 1][d]
            c.sub_cells_ids[d] = np.array([ids[tuple(sorted(nodes[i] for i in r))] for r in ref])
        out.append(c)
    return out, ids


def graphs(dim, cells, by_id):
    """contract of C14: cell -> sub-entity arcs, in the cell's own order"""
    import networkx as nx

    out = []
    for d in range(dim + 1):
        g = nx.DiGraph()
        for c in cells:
            for s in c.sub_cells_ids[d]:
                g.add_edge(c.index(), (d, int(s)))
        out.append(g)
    return out


CELLS = {0: [(0,)], 1: [(1, 0), (1, 2)], 2: [(2, 0, 1), (1, 3, 2)], 3: [(3, 0, 2, 1), (1, 3, 4, 2)]}


def setup_dest(E, dim, k):
    scramble = E.choice("numbering", [0, 1])
    cells, ids = complex_cells(dim, CELLS[dim], lambda n: [(5 * i + 3) % n if scramble and n % 5 else i for i in range(n)])
    store = {c.id: c for c in cells}
    top = [c for c in cells if c.dimension == dim]
    m = new_map(mesh_topology=topology(NS(dimension=max(dim, 1), cells=store), dim, graphs(dim, top, store)), ref_element=ref_element(dim, k), dimension=dim)
    for d in range(dim + 1):
        mp = getattr(m, FIELDS[d])
        for c in cells:
            if c.dimension == d:
                b = np.empty(k[d], dtype=object if E.symbolic else int)
                for j in range(k[d]):
                    b[j] = E.int("g%d_%d_%d" % (d, c.id, j), lo=0)
                mp[c.id] = b
    return m, cells, ids, store, top


def unit_destination(dim):
    def fn(E):
        k = [E.choice("k%d" % d, [0, 1, 2, 3]) for d in range(dim + 1)]
        m, cells, ids, store, top = setup_dest(E, dim, k)
        E.cover()
        for c in top:
            got = list(m.destination_indices(c.id))
            want = []
            for d in range(dim + 1):
                for s in c.sub_cells_ids[d]:
                    want += list(getattr(m, FIELDS[d])[int(s)])
            E.prove("as many indices as local functions", len(got) == len(want))
            for g, w in zip(got, want):
                E.prove("block of the entity, in reference order", E.eq(g, w))

    return fn


def unit_bc(dim):
    def fn(E):
        k = [E.choice("k%d" % d, [0, 2] if dim == 3 else [0, 1, 2, 3]) for d in range(dim)] + [1]
        m, cells, ids, store, top = setup_dest(E, dim, k)
        facets = [c for c in cells if c.dimension == dim - 1]
        f = E.choice("facet", facets)
        if dim > 1:  # the facet's own node order
            p = E.choice("order", list(itertools.permutations(range(dim))))
            nodes = [int(f.node_tags[i]) for i in p]
            f.node_tags = np.array(nodes)
            for d in range(dim - 1):
                f.sub_cells_ids[d] = np.array([ids[tuple(sorted(nodes[i] for i in r))] for r in REF[dim - 1][d]])
        E.cover()
        for c in top:
            if f.id not in [int(i) for i in c.sub_cells_ids[dim - 1]]:
                continue
            got = list(m.bc_destination_indices(c.id, f.id))
            want = []
            for d in range(dim):
                for s in f.sub_cells_ids[d]:
                    want += list(getattr(m, FIELDS[d])[int(s)])
            E.prove("exactly the indices of the facet's closure", len(got) == len(want))
            for g, w in zip(got, want):
                E.prove("block of the entity, in the facet's own order", E.eq(g, w))

    return fn


FAMILIES = [("Lagrange", [1, 2, 3, 4]), ("RT", [1, 2, 3]), ("BDM", [1, 2]), ("N1E", [1, 2]), ("N2E", [1, 2])]


def bounded_spaces(B):
    from .meshes import random_mesh, cleanup
    from spaces.discrete_space import DiscreteSpace

    while B.more() and B.evaluations < (3000 if B.thorough else 260):
        dim = B.rng.choice([1, 2, 2, 3, 3])
        st = {}

        def run():
            m, info = random_mesh(B.rng, B.nrng, dim, n=B.rng.randint(dim + 1, 6))
            fam, orders = B.rng.choice(FAMILIES)
            k = B.rng.choice(orders[: 3 if dim == 3 else 4])
            comp = B.rng.choice([1, 1, 2, 3])
            disc = B.rng.random() < 0.25
            here = sorted({c.material_id for c in m.cells if c.dimension == dim})
            tags = B.rng.choice([here, [B.rng.choice(here)]])
            bc = B.rng.choice([[10, 11], [10], []])
            st.update(mesh=info.desc, family=fam, order=k, components=comp, discontinuous=disc, tags=tags, bc=bc)
            sp = DiscreteSpace(dim, comp, fam, k, m, integration_order=2)
            if disc:
                sp.make_discontinuous()
            sp.build_structures(tags)
            sp.build_boundary_structures(bc)
            check_space(m, sp, dim, comp, tags, bc)
            if B.rng.random() < 0.3:            # the same numbering behind many other unknowns
                dm, shift = sp.dof_map, B.rng.choice([40000, 70000, 2**33])
                ask = lambda: [np.array(dm.destination_indices(i)) for i in sp.element_ids] + [np.array(dm.bc_destination_indices(n, b)) for n, b in near]
                near = [(c.id, f) for c in m.cells if c.id in set(sp.element_ids) for f in c.sub_cells_ids[dim - 1]] if dim > 0 else []
                old = ask()
                dm.build_entity_maps(n_components=comp, n_dof_shift=shift)
                for x, y in zip(old, ask()):
                    assert [int(i) + shift for i in x] == [int(i) for i in y], "indices behind a shift"

        B.case("space", st, run)
    cleanup()


def check_space(m, sp, dim, comp, tags, bc):
    dm = sp.dof_map
    num = dm.ref_element.num_entity_dofs
    top = [c for c in m.cells if c.dimension == dim and c.material_id in tags]
    assert sorted(sp.element_ids) == [c.id for c in top], "one element per selected cell"
    assert len(sp.elements) == len(sp.element_ids)
    for e, i in zip(sp.elements, sp.element_ids):
        assert e.data.cell is m.cells[i] and sp.elements[sp.id_to_element[i]] is e, "element of its id"
    ents = {d: sorted({int(s) for c in top for s in c.sub_cells_ids[d]}) for d in range(dim + 1)}
    seen, block = [], {}
    for d in range(dim + 1):
        mp = getattr(dm, FIELDS[d])
        assert set(mp) <= set(ents[d]), "entries of other entities"
        for e in ents[d]:
            b = [int(i) for i in np.ravel(mp.get(e, []))]
            assert len(b) == num[d][0] * comp, ("block size", d, len(b))
            block[d, e] = b
            seen += b
    assert sorted(seen) == list(range(len(seen))), "a partition of 0..n-1"
    assert sp.n_dof == dm.dof_number() == len(seen), "number of degrees of freedom"
    for c in top:
        want = [i for d in range(dim + 1) for s in c.sub_cells_ids[d] for i in block[d, int(s)]]
        got = [int(i) for i in dm.destination_indices(c.id)]
        assert got == want, ("destinations", c.id, got, want)
        assert len(want) == dm.ref_element.dim * comp, "as many as local functions"
    sel = {int(s) for c in top for s in c.sub_cells_ids[dim - 1]}
    facets = [c for c in m.cells if c.dimension == dim - 1 and c.material_id in bc and c.id in sel]
    if bc:
        assert sorted(sp.bc_element_ids) == [c.id for c in facets], "boundary elements"
    for f in facets:
        for c in top:
            if f.id in [int(i) for i in c.sub_cells_ids[dim - 1]]:
                want = [i for d in range(dim) for s in f.sub_cells_ids[d] for i in block[d, int(s)]]
                got = [int(i) for i in dm.bc_destination_indices(c.id, f.id)]
                assert got == want, ("boundary destinations", f.id, got, want)


SZ = "block contents are arbitrary symbolic integers; the number of entities and of functions per entity is enumerated"
UNITS = [Unit("numbering dim %d" % d, unit_numbering(d), [D + "build_entity_maps", D + "dof_number"], modules=["spaces.dof_map"], samples=30, kind="bounded-size",
              bounds="1, 3 (vertices 2, 4) entities per dimension, 0-2 functions per entity, 1-3 components, with and without shift", max_paths=6000, timeout=100, tol=0) for d in range(4)]
UNITS += [Unit("destination indices dim %d" % d, unit_destination(d), [D + "destination_indices", "mesh.mesh_topology.MeshTopology.entity_map_by_dimension"], modules=["spaces.dof_map", "mesh.mesh_topology"], samples=30,
               kind="bounded-size", bounds="two cells sharing a facet, 0-3 functions per entity", assumptions=[SZ, "graphs by the contract of C14, cells by the contract of C01"], tol=0) for d in range(4)]
UNITS += [Unit("boundary destination indices dim %d" % d, unit_bc(d), [D + "bc_destination_indices"], modules=["spaces.dof_map", "mesh.mesh_topology"], samples=30, max_paths=40000, timeout=150,
               kind="bounded-size", bounds="two cells sharing a facet, every facet in every node order, 0-3 functions per entity", assumptions=[SZ, "graphs by the contract of C14, cells by the contract of C01"], tol=0) for d in (1, 2, 3)]
BOUNDED = [Bounded("spaces", bounded_spaces, [D + "__init__", "spaces.discrete_space.DiscreteSpace.build_structures", "mesh.mesh_topology.MeshTopology.build_data_on_pysical_tags"],
                   "random meshes, families, orders, components, discontinuity, tag selections", budget=30)]
