"""C01: mesh cells form a closed, duplicate-free simplicial complex."""
import itertools

import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C01"
IMPORTS = ["mesh.mesh", "mesh.mesh_cell"]
M = "mesh.mesh.Mesh."
REF = {  # local sub-entities in reference order
    1: {0: [(0,), (1,)]},
    2: {0: [(0,), (1,), (2,)], 1: [(1, 2), (0, 2), (0, 1)]},
    3: {0: [(0,), (1,), (2,), (3,)], 1: [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)], 2: [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]},
}


def same(E, x, y):
    r = x == y
    return r if isinstance(r, (bool, np.bool_)) else bool(r)


class Ids:
    """Ghost numbering: the id of every face of the cell, by the set of its local vertices.
    As a map it answers only to ascending tuples of node tags, like the maps built by build_conformal_mesh."""

    def __init__(self, E, tags, dim, base):
        self.E, self.tags, self.dim = E, tags, dim
        n = len(tags)
        self.ids = {frozenset(s): base + 7 * i for i, s in enumerate(itertools.combinations(range(n), dim + 1))}

    def local(self, key):
        if self.dim == 0 and not isinstance(key, tuple):
            key = (key,)
        out = []
        for k in key:
            m = [i for i, t in enumerate(self.tags) if same(self.E, k, t)]
            if len(m) != 1:
                raise KeyError("not a node of the cell")
            out.append(m[0])
        if len(set(out)) != self.dim + 1:
            raise KeyError("not an entity of dimension %d" % self.dim)
        for a, b in zip(key, key[1:]):
            if not bool(a < b):
                raise KeyError("key not ascending")
        return out

    def __getitem__(self, key):
        loc = self.local(key)
        if self.dim == 0:
            return self.tags[loc[0]]
        return self.ids[frozenset(loc)]

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        return self.get(key) is not None

    def of(self, loc):
        return self.tags[loc[0]] if self.dim == 0 else self.ids[frozenset(loc)]


class Cells:
    """the cell store: the cell under insertion may or may not be there; every other slot is out of bounds for the caller"""

    def __init__(self, E, key, cell):
        self.E, self.key, self.cell, self.writes = E, key, cell, 0

    def __getitem__(self, k):
        if not same(self.E, k, self.key):
            raise Unsupported("another cell read")
        return self.cell

    def __setitem__(self, k, v):
        self.E.prove("only the cell's own slot is written", same(self.E, k, self.key))
        self.cell = v
        self.writes += 1


def unit_insert(d):
    name = ["insert_vertex", "insert_edge", "insert_polygon", "insert_polyhedron"][d]

    def fn(E):
        from mesh.mesh import Mesh
        from mesh.mesh_cell import MeshCell

        n = d + 1
        tags = [E.int("n%d" % i, lo=0, hi=1000) for i in range(n)]
        for i in range(n):
            for j in range(i):
                E.assume(E.not_(E.eq(tags[i], tags[j])) if E.symbolic else tags[i] != tags[j])
        arr = np.array(tags, dtype=object if E.symbolic else int)
        maps = [Ids(E, tags, k, 2000 + 1000 * k) for k in range(d + 1)]
        own = maps[d].of(tuple(range(n)))
        present = E.choice("present", [False, True])
        tag = None if E.choice("untagged", [True, False]) else E.int("tag", lo=1)
        old_tag = None
        cell = None
        if present:
            cell = MeshCell(d)
            cell.id = own
            cell.node_tags = arr.copy()
            for k in range(d + 1):
                ref = [tuple(range(n))] if k == d else REF[d][k]
                cell.sub_cells_ids[k] = np.array([maps[k].of(r) for r in ref], dtype=object if E.symbolic else int)
            old_tag = None if E.choice("was untagged", [True, False]) else E.int("old_tag", lo=1)
            cell.material_id = old_tag
        E.cover()
        m = Mesh.__new__(Mesh)
        m.dimension = d
        m.entities_0d, m.entities_1d, m.entities_2d, m.entities_3d = (maps + [None] * 4)[:4]
        m.cells = Cells(E, own, cell)
        exists = set()
        calls = []

        def stub(k):
            def stub_insert(node_tags, physical_tag=None):
                E.contract(["insert_vertex", "insert_edge", "insert_polygon"][k])
                key = (node_tags,) if k == 0 and np.ndim(node_tags) == 0 else tuple(node_tags)
                E.prove("a face of the cell is inserted", len(key) == k + 1)
                loc = []
                for x in key:
                    mm = [i for i, t in enumerate(tags) if same(E, x, t)]
                    E.prove("of nodes of the cell", len(mm) == 1)
                    loc.append(mm[0])
                E.prove("with distinct nodes", len(set(loc)) == k + 1)
                E.prove("without a physical tag", physical_tag is None)
                for q in range(k + 1):
                    for f in itertools.combinations(sorted(loc), q + 1):
                        exists.add(f)
                return maps[k].of(tuple(loc))

            return stub_insert

        for k in range(d):
            setattr(m, ["insert_vertex", "insert_edge", "insert_polygon"][k], stub(k))
        ret = getattr(m, name)(tags[0] if d == 0 else arr, tag)
        E.prove("returns the cell's id", same(E, ret, own))
        c = m.cells.cell
        E.prove("the cell is stored", c is not None)
        E.prove("dimension", c.dimension == d)
        E.prove("stored at its own id", same(E, c.id, own))
        E.prove("own nodes in the given order", len(c.node_tags) == n and all(same(E, x, y) for x, y in zip(c.node_tags, tags)))
        want = tag if tag is not None else old_tag
        E.prove("tag attached exactly when given", (c.material_id is None) == (want is None) and (want is None or same(E, c.material_id, want)))
        E.prove("one table per dimension", len(c.sub_cells_ids) == d + 1)
        for k in range(d + 1):
            ref = [tuple(range(n))] if k == d else REF[d][k]
            got = list(c.sub_cells_ids[k])
            E.prove("entity table of dimension %d: count" % k, len(got) == len(ref))
            for g, r in zip(got, ref):
                E.prove("entity table of dimension %d: reference order" % k, same(E, g, maps[k].of(r)))
        if not present:
            for k in range(d):
                for f in itertools.combinations(range(n), k + 1):
                    E.prove("every face exists afterwards", f in exists)
            p = [int(i) for i in c.perm]
            E.prove("node permutation sorts the nodes", sorted(p) == list(range(n)) and all(bool(tags[i] < tags[j]) for i, j in zip(p, p[1:])))
        else:
            E.prove("an existing cell is kept", c is cell)

    return fn


def unit_block(E):
    """insert_simplex_cell_from_block: every element of the block is inserted once, in order, with its own tag"""
    from mesh.mesh import Mesh

    d = E.choice("dim", [0, 1, 2, 3])
    n = E.choice("elements", [0, 1, 2, 3])
    data = np.empty((n, d + 1), dtype=object if E.symbolic else int)
    for i in np.ndindex(n, d + 1):
        data[i] = E.int("n%d_%d" % i, lo=0)
    tags = [E.int("t%d" % i, lo=1) for i in range(n)]
    E.cover()
    m = Mesh.__new__(Mesh)
    calls = []
    names = ["insert_vertex", "insert_edge", "insert_polygon", "insert_polyhedron"]
    for k in range(4):
        setattr(m, names[k], lambda nodes, physical_tag=None, k=k: calls.append((k, nodes, physical_tag)))
    m.insert_simplex_cell_from_block(NS(dim=d, data=data), np.array(tags, dtype=object if E.symbolic else int))
    E.prove("one insertion per element", len(calls) == n)
    for (k, nodes, t), row, tt in zip(calls, data, tags):
        E.prove("by the inserter of its dimension", k == d)
        E.prove("its nodes", len(np.ravel(nodes)) == d + 1 and all(same(E, x, y) for x, y in zip(np.ravel(nodes), row)))
        E.prove("a vertex is passed as a number", d > 0 or np.ndim(nodes) == 0)
        E.prove("its tag", t is not None and same(E, t, tt))


def assert_complex(m, points, blocks, dim, identity_vertices=True):
    """the whole statement of C01, as a run-time contract on a built mesh"""
    ents, tags = {}, {}
    for d, con, tg in blocks:
        for c, t in zip(con, tg):
            c = [int(i) for i in c]
            for k in range(d + 1):
                for f in itertools.combinations(sorted(c), k + 1):
                    ents.setdefault(f, k)
            tags[tuple(sorted(c))] = int(t)
    for i in range(len(points)):
        ents.setdefault((i,), 0)
    by_id, by_nodes = {}, {}
    for i, c in enumerate(m.cells):
        assert c is not None, ("empty slot", i)
        assert c.id == i, ("cell at position differs from its id", i, c.id)
        key = tuple(sorted(int(x) for x in c.node_tags))
        assert len(key) == c.dimension + 1 and len(set(key)) == len(key), ("nodes", key)
        assert key in ents and ents[key] == c.dimension, ("not an entity of the input", key)
        assert key not in by_nodes, ("duplicate", key)
        by_nodes[key] = i
    missing = set(ents) - set(by_nodes)
    # a point that belongs to no element needs no cell
    used = {f for f in ents}
    assert not missing, ("missing", sorted(missing)[:3])
    for c in m.cells:
        nt = [int(x) for x in c.node_tags]
        d = c.dimension
        for k in range(d + 1):
            ref = [tuple(range(d + 1))] if k == d else REF[d][k]
            got = [int(x) for x in c.sub_cells_ids[k]]
            want = [by_nodes[tuple(sorted(nt[i] for i in r))] for r in ref]
            assert got == want, ("sub-entities", d, k, got, want)
        t = tags.get(tuple(sorted(nt)))
        assert c.material_id == t, ("tag", sorted(nt), c.material_id, t)
        if d == 0:
            assert np.array_equal(m.points[nt[0]], points[nt[0]]), "vertex coordinates"
        perm = [int(i) for i in c.perm]
        assert [nt[i] for i in perm] == sorted(nt), "permutation"
    assert np.array_equal(m.points, points), "points"


def fake_build(points, blocks, dim):
    """build_conformal_mesh on a meshio-like object (no file)"""
    from mesh.mesh import Mesh

    names = {"vertex": 0, "line": 1, "triangle": 2, "tetra": 3}
    bl = [b for b in blocks if len(b[1])]
    cm = NS(points=points, cells=[NS(dim=d, data=np.array(con)) for d, con, tg in bl],
            cell_data={"gmsh:physical": [np.array(tg) for d, con, tg in bl]},
            get_cells_type=lambda nm: np.array([c for d, con, tg in bl if d == names[nm] for c in con], dtype=int).reshape(-1, names[nm] + 1))
    m = Mesh.__new__(Mesh)
    m.dimension, m.cells, m.cell_data, m.duplicated_ids = dim, np.array([]), {}, {}
    m.conformal_mesh, m.points = cm, points
    m.entities_0d, m.entities_1d, m.entities_2d, m.entities_3d = {}, {}, {}, {}
    m.build_conformal_mesh()
    return m


BASES = {
    1: [[(0, 1)], [(0, 1), (1, 2)], [(0, 1), (1, 2), (0, 3)]],
    2: [[(0, 1, 2)], [(0, 1, 2), (1, 2, 3)], [(0, 1, 2), (0, 2, 3), (0, 3, 1)]],
    3: [[(0, 1, 2, 3)], [(0, 1, 2, 3), (1, 2, 3, 4)], [(0, 1, 2, 3), (0, 1, 3, 4), (0, 1, 4, 2)]],
}


def bounded_small(B):
    """one and two cells in every local order, three cells in random orders; every tagged sub-entity choice"""
    for dim in (1, 2, 3):
        for base in BASES[dim]:
            orders = [list(itertools.permutations(c)) for c in base]
            combos = list(itertools.product(*orders)) if len(base) <= (2 if dim < 3 else 1) else None
            n = len(combos) if combos else (400 if not B.thorough else 4000)
            for i in range(n):
                if not B.more():
                    return
                cells = combos[i] if combos else [B.rng.choice(o) for o in orders]
                npt = max(max(c) for c in base) + 1
                ren = list(range(npt))
                B.rng.shuffle(ren)
                cells = [[ren[v] for v in c] for c in cells]
                blocks = []
                for k in range(dim):
                    fs = sorted({f for c in cells for f in itertools.combinations(sorted(c), k + 1)})
                    fs = [list(f) for f in fs if B.rng.random() < 0.4]
                    for f in fs:
                        B.rng.shuffle(f)
                    B.rng.shuffle(fs)
                    blocks.append((k, fs, [B.rng.randint(1, 40) for _ in fs]))
                top = (dim, cells, [B.rng.randint(1, 5) for _ in cells])
                if len(cells) > 1 and B.rng.random() < 0.3:  # several blocks of the same dimension
                    blocks += [(dim, cells[:1], top[2][:1]), (dim, cells[1:], top[2][1:])]
                else:
                    blocks.append(top)
                if B.rng.random() < 0.5:
                    B.rng.shuffle(blocks)
                pts = B.nrng.normal(size=(npt, 3))
                B.case("build_conformal_mesh:d%d" % dim, dict(blocks=blocks), lambda: assert_complex(fake_build(pts, blocks, dim), pts, blocks, dim))


def bounded_files(B):
    from .meshes import random_mesh, cleanup

    while B.more() and B.evaluations < (6000 if B.thorough else 500):
        d = B.rng.choice([1, 2, 3])
        st = {}

        def run():
            m, info = random_mesh(B.rng, B.nrng, d, interior_tags=True)
            st["d"] = info.desc
            pts = np.array(m.conformal_mesh.points)
            assert np.allclose(pts, info.points), "coordinates from the file"
            assert_complex(m, pts, info.blocks, d)

        B.case("mesh file:d%d" % d, st, run)
    cleanup()


DI = "node tags enter only through equality and order (symbolic integers, every order explored); ids are opaque distinct numbers, the vertex id of a node being the node tag as build_conformal_mesh numbers it"
UNITS = [Unit(n, unit_insert(d), [M + n, M + "create_cell", "mesh.mesh_cell.MeshCell.set_node_tags", "mesh.mesh_cell.MeshCell.set_sub_cells_ids"], modules=["mesh.mesh", "mesh.mesh_cell"], samples=100, timeout=150, assumptions=[DI], tol=0)
         for d, n in enumerate(["insert_vertex", "insert_edge", "insert_polygon", "insert_polyhedron"])]
UNITS.append(Unit("element blocks", unit_block, [M + "insert_simplex_cell_from_block"], modules=["mesh.mesh"], samples=60, kind="bounded-size", bounds="blocks of up to 3 elements", tol=0))
BOUNDED = [
    Bounded("small complexes", bounded_small, [M + "build_conformal_mesh"], "complexes of 1-3 cells in dimension 1-3, all (or random) local orders, random numbering, random tagged sub-entities, any block order", budget=40),
    Bounded("mesh files", bounded_files, [M + "__init__", M + "build_conformal_mesh"], "random Delaunay meshes written to gmsh files, random numbering and local orders", budget=25),
]
