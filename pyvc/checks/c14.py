"""C14: incidence graphs represent exactly the mesh incidence."""
import itertools

import numpy as np

from ..harness import Unit, Bounded
from .c01 import REF, same
from .c02 import complex_cells
from .common import *

PID = "C14"
IMPORTS = ["mesh.mesh", "mesh.mesh_topology", "mesh.topological_queries"]
M = "mesh.mesh.Mesh."
T = "mesh.mesh_topology.MeshTopology."


def unit_gather(E):
    """one cell, every dimension: exactly its own arcs are appended, in its own order, for all ids"""
    from mesh.mesh import Mesh
    from mesh.mesh_cell import MeshCell

    d = E.choice("dim", [0, 1, 2, 3])
    k = E.choice("sub", list(range(d + 1)))
    c = MeshCell(d)
    c.id = E.int("id", lo=0)
    n = 1 if k == d else len(REF[d][k])
    subs = [c.id] if k == d else [E.int("s%d" % i, lo=0) for i in range(n)]
    for i, x in enumerate(subs):
        for y in subs[:i] + ([c.id] if k != d else []):
            E.assume(E.not_(E.eq(x, y)) if E.symbolic else x != y)
    for j in range(d + 1):
        c.sub_cells_ids[j] = np.array([-7 - j], dtype=object)
    c.sub_cells_ids[k] = np.array(subs, dtype=object)
    E.cover()

    class Store:
        def __getitem__(self, key):
            for s in subs:
                if same(E, key, s):
                    return NS(dimension=k, id=s, sub_cells_ids=[np.array([s], dtype=object) if j == k else np.array([-9], dtype=object) for j in range(k + 1)])
            raise IndexError(key)

    m = Mesh.__new__(Mesh)
    m.cells, m.dimension = Store(), 3
    lst = [((9, 9), (8, 8))]
    m.gather_graph_edges(k, c, lst)
    E.prove("earlier arcs are kept", lst[0] == ((9, 9), (8, 8)))
    E.prove("one arc per listed sub-entity", len(lst) == 1 + n)
    for (a, b), s in zip(lst[1:], subs):
        E.prove("from the cell", a[0] == d and same(E, a[1], c.id))
        E.prove("to the sub-entity, in the cell's own order", b[0] == k and same(E, b[1], s))


BASES = {1: [[(0, 1)], [(1, 0), (1, 2), (3, 2)]], 2: [[(2, 0, 1)], [(2, 0, 1), (1, 3, 2)], [(0, 1, 2), (3, 4, 5), (2, 1, 5)]], 3: [[(3, 0, 2, 1)], [(3, 0, 2, 1), (1, 3, 4, 2)]]}


def build(E, dim, symbolic_tags=True):
    from mesh.mesh import Mesh

    base = E.choice("complex", BASES[dim])
    scr = E.choice("numbering", [0, 1])
    cells, ids = complex_cells(dim, base, lambda n: [(5 * i + 3) % n if scr and n % 5 else i for i in range(n)])
    by = {c.id: c for c in cells}
    m = Mesh.__new__(Mesh)
    m.dimension = dim
    m.cells = np.array([by[i] for i in range(len(cells))], dtype=object)
    return m, cells, by


def arcs_of(cells, k):
    return {(c.index(), (k, int(s))) for c in cells for s in c.sub_cells_ids[k]}


def check_graph(E, g, cells, k, what):
    want = arcs_of(cells, k)
    got = {((a[0], int(a[1])), (b[0], int(b[1]))) for a, b in g.edges()}
    E.prove(what + ": an arc exactly for every listed sub-entity", got == want)
    E.prove(what + ": directed", g.is_directed() and g.number_of_edges() == len(want))
    nodes = {x for a in want for x in a}
    E.prove(what + ": no other node", {(n[0], int(n[1])) for n in g.nodes()} == nodes and g.number_of_nodes() == len(nodes))
    for c in cells:
        E.prove(what + ": successors in the cell's own order", [int(n[1]) for n in g.successors(c.index())] == [int(s) for s in c.sub_cells_ids[k]])
        for s in c.sub_cells_ids[k]:
            E.prove(what + ": predecessors are the selected cells that list it", sorted(p[1] for p in g.predecessors((k, int(s)))) == sorted(x.id for x in cells if int(s) in [int(y) for y in x.sub_cells_ids[k]]))


def unit_graphs(dim):
    def fn(E):
        m, cells, by = build(E, dim)
        d = E.choice("d", list(range(dim + 1)))
        k = E.choice("k", list(range(d + 1)))
        mine = [c for c in cells if c.dimension == d]
        few = mine[:3]
        how = E.choice("how", ["all", "tags", "any tags", "ids", "materials"])
        if how == "all":
            for i, c in enumerate(few):
                c.material_id = [None, 3, 4][i]
            E.cover()
            check_graph(E, m.build_graph(d, d - k), mine, k, "all cells")
            # the mesh changes: one more cell of the dimension, one cell less a sub-entity it listed
            if mine:
                new = NS(**vars(mine[0]))
                new.id = len(m.cells)
                new.sub_cells_ids = [np.array(x) for x in mine[0].sub_cells_ids]
                new.sub_cells_ids[d] = np.array([new.id])
                new.index = lambda: (d, new.id)
                m.cells = np.append(m.cells, np.array([new], dtype=object))
                check_graph(E, m.build_graph(d, d - k), mine + [new], k, "all cells of the changed mesh")
            return
        if how == "ids":
            pick = [c.id for i, c in enumerate(few) if E.choice("pick%d" % i, [True, False])]
            other = [c.id for c in cells if c.dimension != d][:2]
            seq = pick[::-1] + other
            E.cover()
            check_graph(E, m.build_graph_from_cell_ids(np.array(seq, dtype=int), d, d - k), [by[i] for i in pick], k, "listed cells")
            return
        if how == "materials":
            for i, c in enumerate(few):
                c.material_id = E.int("t%d" % i, lo=1) if E.choice("tagged%d" % i, [True, False]) else None
            for c in cells:
                if c.dimension != d:
                    c.material_id = 5
            E.cover()
            check_graph(E, m.build_graph_on_materials(d, d - k), [c for c in few if c.material_id is not None], k, "tagged cells")
            return
        if how == "any tags":
            tags = [E.int("want%d" % i, lo=0, gen=lambda r: r.randint(0, 3)) for i in range(E.choice("n tags", [1, 2, 3]))]
            for i, c in enumerate(few):
                c.material_id = E.int("t%d" % i, lo=0, gen=lambda r: r.randint(0, 3)) if i < 2 else None
            for c in cells:
                if c.dimension != d:
                    c.material_id = tags[0]
            E.cover()
            g = m.build_graph_on_physical_tags(tags, d, d - k)
            sel = [c for c in few if c.material_id is not None and any(bool(c.material_id == t) for t in tags)]
            check_graph(E, g, sel, k, "cells of the tags")
            return
        tags = E.choice("tags", [[None], [5], [5, 6], [7, 5], [6, 8, 4], [5, None], []])
        for i, c in enumerate(few):
            c.material_id = E.choice("tag%d" % i, [None, 5, 6, 7])
        for c in cells:
            if c.dimension != d:
                c.material_id = 5
        E.cover()
        check_graph(E, m.build_graph_on_physical_tags(tags, d, d - k), [c for c in mine if c.material_id in tags], k, "cells of the tags")

    return fn


def unit_topology(dim):
    def fn(E):
        from mesh.mesh_topology import MeshTopology
        from mesh import topological_queries as tq

        m, cells, by = build(E, dim)
        d = E.choice("topology dimension", list(range(1, dim + 1)))
        mine = [c for c in cells if c.dimension == d]
        for i, c in enumerate(mine):
            c.material_id = E.choice("tag%d" % i, [None, 5, 6]) if i < 3 else 6
        for c in cells:
            if c.dimension != d:
                c.material_id = 5
        t = MeshTopology(m, d)
        tags = E.choice("tags", ["all", [None], [5], [5, 6]])
        E.cover()
        before = E.choice("used before", ["no", "all", "tags"])
        if before == "all":
            t.build_data()
        elif before == "tags":
            t.build_data_on_pysical_tags([6])
        if tags == "all":
            t.build_data()
            sel = mine
        else:
            t.build_data_on_pysical_tags(tags)
            sel = [c for c in mine if c.material_id in tags]
        check_topology(E, t, tq, sel, d, by)

    return fn


def check_topology(E, t, tq, sel, d, by):
    for k in range(d + 1):
        check_graph(E, t.entity_map_by_dimension(k), sel, k, "map by dimension")
        E.prove("by codimension: the same map", t.entity_map_by_codimension(d - k) is t.entity_map_by_dimension(k) or set(t.entity_map_by_codimension(d - k).edges()) == set(t.entity_map_by_dimension(k).edges()))
        clos = sorted({int(s) for c in sel for s in c.sub_cells_ids[k]})
        E.prove("each entity of the closure exactly once", sorted(int(i) for i in t.entities_by_dimension(k)) == clos)
        E.prove("by codimension: the same entities", sorted(int(i) for i in t.entities_by_codimension(d - k)) == clos)
        for s in clos:
            got = tq.find_higher_dimension_neighs(by[s], t)
            E.prove("neighbours are the selected cells containing the entity", sorted((n[0], int(n[1])) for n in got) == sorted(c.index() for c in sel if s in [int(x) for x in c.sub_cells_ids[k]]))
    for c in sel:
        for k in range(d + 1):
            E.prove("sub-entities by codimension", [int(i) for i in tq.sub_entity_by_co_dimension(c, d - k)] == [int(i) for i in c.sub_cells_ids[k]])


def unit_reject(E):
    """a topology above the mesh's dimension is refused, and so is an entity list above the topology's"""
    from mesh.mesh_topology import MeshTopology

    md = E.choice("mesh dimension", [1, 2, 3])
    d = E.choice("dimension", [0, 1, 2, 3])
    E.cover()
    try:
        MeshTopology(NS(dimension=md), d)
        ok = True
    except ValueError:
        ok = False
    E.prove("accepted exactly up to the mesh's dimension", ok == (d <= md))


class Raise:
    def prove(self, name, cond):
        assert cond, name


def bounded_meshes(B):
    from .meshes import random_mesh, cleanup
    from mesh.mesh_topology import MeshTopology
    from mesh import topological_queries as tq

    R = Raise()
    while B.more() and B.evaluations < (3000 if B.thorough else 250):
        dim = B.rng.choice([1, 2, 3, 3])
        st = {}

        def run():
            m, info = random_mesh(B.rng, B.nrng, dim, n=B.rng.choice([36, 64]) if B.rng.random() < 0.04 else B.rng.randint(dim + 1, 7), interior_tags=True)
            by = {c.id: c for c in m.cells}
            d = B.rng.randint(1, dim)
            tags = B.rng.choice([None, [1], [2], [1, 2], [10], [None], [10, 11, 20], [10, 20, 5], [4, 1, 9]])
            st.update(mesh=info.desc, d=d, tags=tags)
            t = MeshTopology(m, d)
            for earlier in B.rng.choice([[], [], ["all"], [[1]], ["all", [2, 10]]]):
                t.build_data() if earlier == "all" else t.build_data_on_pysical_tags(earlier)
            if tags is None:
                t.build_data()
                sel = [c for c in m.cells if c.dimension == d]
            else:
                t.build_data_on_pysical_tags(tags)
                sel = [c for c in m.cells if c.dimension == d and c.material_id in tags]
            check_topology(R, t, tq, sel, d, by)
            k = B.rng.randint(0, d)
            ids = np.array([c.id for c in m.cells if B.rng.random() < 0.4], dtype=int)
            check_graph(R, m.build_graph_from_cell_ids(ids, d, d - k), [by[int(i)] for i in ids if by[int(i)].dimension == d], k, "listed cells")
            check_graph(R, m.build_graph_on_materials(d, d - k), [c for c in m.cells if c.dimension == d and c.material_id is not None], k, "tagged cells")

        B.case("graphs", st, run)
    cleanup()


UNITS = [Unit("arcs of a cell", unit_gather, [M + "gather_graph_edges"], modules=["mesh.mesh", "mesh.mesh_cell"], samples=100, tol=0,
              assumptions=["cells are simplices: the number of sub-entities is that of the simplex; sub-entities are closed under their own listing (C01)"])]
UNITS += [Unit("graphs dim %d" % d, unit_graphs(d), [M + "build_graph", M + "build_graph_on_physical_tags", M + "build_graph_from_cell_ids", M + "build_graph_on_materials", M + "gather_graph_edges"],
               modules=["mesh.mesh", "mesh.mesh_cell"], samples=60, kind="bounded-size", bounds="complexes of up to 3 cells, every tag assignment to the first 3 cells, every selection", max_paths=20000, timeout=120, tol=0) for d in (1, 2, 3)]
UNITS += [Unit("topology dim %d" % d, unit_topology(d), [T + "build_data", T + "build_data_on_pysical_tags", T + "entity_map_by_dimension", T + "entity_map_by_codimension", T + "entities_by_dimension", T + "entities_by_codimension",
                                                        "mesh.topological_queries.find_higher_dimension_neighs", "mesh.topological_queries.sub_entity_by_co_dimension"],
               modules=["mesh.mesh", "mesh.mesh_topology", "mesh.topological_queries"], samples=60, kind="bounded-size", bounds="complexes of up to 3 cells, every tag assignment to the first 3 cells", max_paths=20000, timeout=120, tol=0) for d in (1, 2, 3)]
UNITS.append(Unit("dimension check", unit_reject, [T + "__init__"], modules=["mesh.mesh_topology"], samples=20, tol=0))
BOUNDED = [Bounded("meshes", bounded_meshes, [M + "build_graph", T + "build_data_on_pysical_tags"], "random meshes, dimensions, tag selections, cell selections", budget=40)]
