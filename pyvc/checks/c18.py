"""C18: opening a mesh along a fracture separates exactly the two sides and keeps a closed complex."""
import contextlib
import io
import itertools
import os
import types

import numpy as np

from ..harness import Unit, Bounded
from .common import *
from . import meshes
from .c02 import complex_cells
from .c09 import Stub
from .c12 import arr

PID = "C18"
IMPORTS = ["mesh.mesh", "mesh.mesh_cell", "mesh.mesh_metrics", "mesh.mesh_operations", "geometry.operations.point_geometry_operations"]
MODS = IMPORTS
OP = "mesh.mesh_operations."
MS = "mesh.mesh.Mesh."
EDGES = [(1, 2), (0, 2), (0, 1)]


# ---------------------------------------------------------------- the contract
def snapshot(m):
    return [dict(dim=c.dimension, nodes=[int(t) for t in c.node_tags], sub=[[int(i) for i in s] for s in c.sub_cells_ids], tag=c.material_id, xyz=m.points[c.node_tags].copy()) for c in m.cells]


def corners(old, fracture_edges):
    """class of every (volume cell, vertex): cells around the vertex joined through edges that stay"""
    par = {}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x

    vol = [i for i, c in enumerate(old) if c["dim"] == 2]
    for i in vol:
        for v in old[i]["sub"][0]:
            par[i, v] = (i, v)
    by_edge = {}
    for i in vol:
        for e in old[i]["sub"][1]:
            by_edge.setdefault(e, []).append(i)
    for e, cs in by_edge.items():
        if e not in fracture_edges and len(cs) == 2:
            for v in old[e]["sub"][0]:
                par[find((cs[0], v))] = find((cs[1], v))
    return {k: find(k) for k in par}


def check_complex(E, m):
    for i, c in enumerate(m.cells):
        E.prove("cell ids are positions", c.id == i)
        E.prove("a cell lists itself in its own dimension", [int(x) for x in c.sub_cells_ids[c.dimension]] == [i])
        if c.dimension == 0:
            continue
        nodes = [int(t) for t in c.node_tags]
        vs = [m.cells[s] for s in c.sub_cells_ids[0]]
        E.prove("vertices sit at the nodes of their cell, in order", all(v.dimension == 0 for v in vs) and [int(v.node_tags[0]) for v in vs] == nodes)
        E.prove("a cell has distinct nodes", len(set(nodes)) == len(nodes))
        if c.dimension == 2:
            es = [m.cells[s] for s in c.sub_cells_ids[1]]
            E.prove("three edges", len(es) == 3 and all(e.dimension == 1 for e in es))
            E.prove("edges join the nodes opposite to each corner", all({int(t) for t in e.node_tags} == {nodes[a], nodes[b]} for e, (a, b) in zip(es, EDGES)))
            E.prove("edge vertices are vertices of the cell", all({int(x) for x in e.sub_cells_ids[0]} == {int(c.sub_cells_ids[0][a]), int(c.sub_cells_ids[0][b])} for e, (a, b) in zip(es, EDGES)))


def check_cut(E, old, m, fracture_edges, n_points):
    """fracture_edges: ids of the tagged edges"""
    vol = [i for i, c in enumerate(old) if c["dim"] == 2]
    E.prove("the volume cells are the same", [i for i, c in enumerate(m.cells) if c.dimension == 2] == vol)
    E.prove("no cell disappears", len(m.cells) >= len(old) and all(m.cells[i].dimension == c["dim"] for i, c in enumerate(old)))
    check_complex(E, m)
    for i, c in enumerate(old):
        now = m.cells[i]
        E.prove("physical tags of the existing cells stay", now.material_id == c["tag"])
        E.prove("every cell keeps its geometry", E.conj([E.eq(p, q) for p, q in zip(m.points[now.node_tags].ravel(), c["xyz"].ravel())]))
    cls = corners(old, fracture_edges)
    at = {(i, v): int(m.cells[i].sub_cells_ids[0][k]) for i in vol for k, v in enumerate(old[i]["sub"][0])}
    whole = {}
    for (i, v), r in cls.items():
        whole.setdefault(v, set()).add(r)
    for v, rs in whole.items():
        around = [i for (i, w) in cls if w == v]
        for i, j in itertools.combinations(around, 2):
            if cls[i, v] == cls[j, v]:
                E.prove("cells joined around a vertex share it", at[i, v] == at[j, v])
            else:
                E.prove("cells separated by the fracture share no vertex", at[i, v] != at[j, v])
        if len(rs) == 1:
            E.prove("vertices that separate nothing stay", all(at[i, v] == v for i in around))
    for i in vol:
        for e, f in zip(old[i]["sub"][1], m.cells[i].sub_cells_ids[1]):
            if e in fracture_edges:
                E.prove("the fracture edge is replaced by a copy", int(f) >= len(old))
            else:
                E.prove("other edges stay", int(f) == e)
    used = [int(f) for i in vol for e, f in zip(old[i]["sub"][1], m.cells[i].sub_cells_ids[1]) if e in fracture_edges]
    E.prove("the two sides have different copies", len(set(used)) == len(used))
    touched = {v for e in fracture_edges for v in old[e]["sub"][0]}
    for i, c in enumerate(old):
        if not touched & set(c["sub"][0]) or c["dim"] == 0:
            now = m.cells[i]
            E.prove("cells that do not touch the fracture are unchanged", [int(t) for t in now.node_tags] == c["nodes"] and [[int(x) for x in s] for s in now.sub_cells_ids] == c["sub"])


# ---------------------------------------------------------------- patches
def grid(cols, rows, diag, numbering):
    """triangles of a cols x rows grid of vertices; diag: one bit per box; numbering: permutation of the nodes"""
    num = {g: numbering[i] for i, g in enumerate(itertools.product(range(cols), range(rows)))}
    cells = []
    for k, (i, j) in enumerate(itertools.product(range(cols - 1), range(rows - 1))):
        a, b, c, d = num[i, j], num[i + 1, j], num[i + 1, j + 1], num[i, j + 1]
        cells += [(a, b, c), (a, c, d)] if diag[k % len(diag)] else [(a, b, d), (b, c, d)]
    return num, cells


def mixed(n, seed):
    import random

    p = list(range(n))
    random.Random(seed).shuffle(p)
    return p


def assemble(cells, points):
    from mesh.mesh import Mesh

    out, ids = complex_cells(2, cells, lambda n: list(range(n)))
    m = Mesh.__new__(Mesh)
    m.dimension = 2
    m.points = points
    m.cells = arr(out)
    for c in out:
        if c.dimension == 2:
            c.material_id = 1
    return m, ids


def tag_entities(m, ids, fracture, tip, crossing=None, line=10):
    """fracture: list of node lists"""
    edges = []
    for f in fracture:
        e = [ids[tuple(sorted(p))] for p in zip(f, f[1:])]
        for i in e:
            m.cells[i].material_id = line
        edges.append(e)
    return edges


PT = {"line": 10, "line_clones": 50, "point": 30, "point_clones": 100, "internal_bc": 20}


def contracts(E, m, groups):
    """the fracture edges whose centroid is on the line, and any ordering along it (contracts of C09)"""
    turn = iter(groups)

    def points_line_intersection(points, a, b, *r, **k):
        on = set(next(turn))
        raw = [c.id for c in m.cells if c.material_id == PT["line"]]
        E.prove("centroids of the tagged edges are looked up", len(points) == len(raw))
        mask = np.array([i in on for i in raw])
        return points[mask], mask

    def points_line_argsort(points, a, b, *r, **k):
        return np.arange(len(points))[:: E.choice("sort", [1, -1])]

    return dict(points_line_intersection=points_line_intersection, points_line_argsort=points_line_argsort)


def direction(E, name):
    return E.arr(name, (2,), gen=lambda r: r.uniform(0.5, 2) * r.choice([1, -1]))


def flat(x, y, z):
    a = np.empty(3, dtype=object)
    a[:] = [x, y, z]
    return a


def rows_to_points(E, pts):
    if E.symbolic:
        out = np.empty((len(pts), 3), dtype=object)
        for i, p in enumerate(pts):
            out[i, :] = p
        return out
    return np.array([[float(c) for c in p] for p in pts])


def line_patch(E, cols, first, last, diag, seed):
    """3 x cols grid; the fracture runs along the middle row between two columns"""
    num, cells = grid(cols, 3, diag, mixed(3 * cols, seed))
    tx, ty = direction(E, "t")
    E.assume(tx * tx + ty * ty > 0)
    ox, oy, z = E.real("ox", lo=-5, hi=5), E.real("oy", lo=-5, hi=5), E.real("z", lo=-2, hi=2)
    pts = [None] * (3 * cols)
    at, s_prev = {first: 0, last: 1}, None
    for i in range(cols):
        w = last - first
        s = at[i] if i in at else E.real("s%d" % i, gen=lambda r, i=i: (i - first + r.uniform(-0.2, 0.2)) / w)
        if s_prev is not None and not (i in at and i - 1 in at):
            E.assume(s > s_prev)
        s_prev = s
        for j in range(3):
            r = E.real("r%d_%d" % (i, j), lo=0.25, hi=2) if j != 1 else 0
            r = -r if j == 0 else r
            sj = s if j == 1 else s + E.real("d%d_%d" % (i, j), lo=-0.1, hi=0.1)
            pts[num[i, j]] = flat(ox + sj * tx - r * ty, oy + sj * ty + r * tx, z)
    m, ids = assemble(cells, rows_to_points(E, pts))
    nodes = [num[i, 1] for i in range(first, last + 1)]
    for k, i in ((0, first), (-1, last)):
        v = m.cells[ids[(nodes[k],)]]
        v.material_id = PT["internal_bc"] if 0 < i < cols - 1 else 2 + (k == 0)
    a, b = m.points[nodes[0]], m.points[nodes[-1]]
    edges = tag_entities(m, ids, [nodes], None)
    return m, ids, nodes, edges[0], (a, b)


SHAPES = [(4, 1, 2), (5, 1, 3), (3, 0, 1), (3, 0, 2), (4, 0, 3), (5, 1, 4)]


def check_interface(E, old, m, itf, edges, side, vertices):
    c1, c2 = itf["c1"], itf["c2"]
    E.prove("interface: the fracture edges and one copy per side", sorted(int(c.id) for c in c1[0]) == sorted(edges) and [len(x) for x in c1] == [len(edges)] * 3)
    for k, sign in ((1, 1), (2, -1)):
        for o, c in zip(c1[0], c1[k]):
            E.prove("copies are cells of the mesh", m.cells[c.id] is c)
            owners = [i for i, x in enumerate(old) if x["dim"] == 2 and c.id in m.cells[i].sub_cells_ids[1]]
            E.prove("a copy belongs to the cell on its side", [(i, side[i]) for i in owners] == [(i, sign) for i, x in enumerate(old) if x["dim"] == 2 and o.id in x["sub"][1] and side[i] == sign])
            E.prove("copies carry the clone tag", c.material_id == PT["line_clones"])
            E.prove("copies lie on the fracture edge", E.conj([E.eq(p, q) for p, q in zip(m.points[c.node_tags].ravel(), m.points[o.node_tags].ravel())]))
    E.prove("interface: the separated vertices and one copy per side", sorted(int(c.id) for c in c2[0]) == sorted(vertices) and [len(x) for x in c2] == [len(vertices)] * 3)
    for k in (1, 2):
        for o, c in zip(c2[0], c2[k]):
            E.prove("copies are cells of the mesh", m.cells[c.id] is c)
            E.prove("copied vertices keep their tag, crossings get the clone tag", c.material_id == (PT["point_clones"] if o.material_id == PT["point"] else o.material_id))
            E.prove("copied vertices lie on the vertex", E.conj([E.eq(p, q) for p, q in zip(m.points[c.node_tags].ravel(), m.points[o.node_tags].ravel())]))
    ids = [int(c.id) for c in c1[1]] + [int(c.id) for c in c1[2]] + [int(c.id) for c in c2[1]] + [int(c.id) for c in c2[2]]
    E.prove("all copies are different new cells", len(set(ids)) == len(ids) and all(i >= len(old) for i in ids))


def unit_line(shape):
    cols, first, last = shape

    def fn(E):
        import mesh.mesh_operations as mo

        diag = E.choice("diag", [(0,), (1,), (0, 1, 1)])
        seed = E.choice("numbering", [1, 2])
        m, ids, nodes, edges, line = line_patch(E, cols, first, last, diag, seed)
        old = snapshot(m)
        flip = E.choice("reversed line", [1, -1])
        line = line[::flip]
        E.cover()
        with Stub(mo, **(contracts(E, m, [edges]) if E.symbolic else {})):
            itf = mo.cut_conformity_along_c1_line(rows_to_points(E, line), dict(PT), m)
        check_cut(E, old, m, set(edges), len(old))
        for e in edges:
            c = m.cells[e]
            E.prove("the fracture's own mesh is unchanged", [int(t) for t in c.node_tags] == old[e]["nodes"] and [[int(x) for x in s] for s in c.sub_cells_ids] == old[e]["sub"])
        row = {}
        for (i, j), n in grid(cols, 3, diag, mixed(3 * cols, seed))[0].items():
            row[n] = j - 1
        side = {i: flip * (1 if sum(row[n] for n in x["nodes"]) > 0 else -1) for i, x in enumerate(old) if x["dim"] == 2}
        check_interface(E, old, m, itf, edges, side, [ids[(n,)] for n in nodes if old[ids[(n,)]]["tag"] != PT["internal_bc"]])

    return fn


def cross_patch(E, half, diag, seed):
    """(2 half + 1)^2 grid in two directions; both fractures pass the centre"""
    n = 2 * half + 1
    num, cells = grid(n, n, diag, mixed(n * n, seed))
    ux, uy = direction(E, "u")
    wx, wy = direction(E, "w")
    E.assume(ux * wy - uy * wx > 0.01)
    ox, oy, z = E.real("ox", lo=-5, hi=5), E.real("oy", lo=-5, hi=5), E.real("z", lo=-2, hi=2)
    pts = [None] * (n * n)
    for (i, j), k in num.items():
        s, r = i - half, j - half
        s = s + E.real("s%d_%d" % (i, j), lo=-0.2, hi=0.2) if s else 0
        r = r + E.real("r%d_%d" % (i, j), lo=-0.2, hi=0.2) if r else 0
        pts[k] = flat(ox + s * ux + r * wx, oy + s * uy + r * wy, z)
    m, ids = assemble(cells, rows_to_points(E, pts))
    return m, ids, num, n


def unit_cross(E):
    """two fractures one after the other: crossing, and one ending on the first"""
    import mesh.mesh_operations as mo

    kind = E.choice("kind", ["cross", "through", "tee"])
    m, ids, num, n = cross_patch(E, 2, E.choice("diag", [(0,), (0, 1, 1)]), 3)
    lo = 0 if kind == "through" else 1
    h = [num[i, 2] for i in range(lo, n - lo)]
    v = [num[2, j] for j in range(2 if kind == "tee" else lo, n - lo)]
    for f in (h, v):
        for k in (f[0], f[-1]):
            m.cells[ids[(k,)]].material_id = PT["internal_bc"] if lo else 2
    m.cells[ids[(num[2, 2],)]].material_id = PT["point"]
    edges = tag_entities(m, ids, [h, v], None)
    lines = [rows_to_points(E, [m.points[f[0]], m.points[f[-1]]]) for f in (h, v)]
    old = snapshot(m)
    E.cover()
    with Stub(mo, **(contracts(E, m, edges) if E.symbolic else {})):
        out = mo.cut_conformity_along_c1_lines(lines, dict(PT), m)
    E.prove("one interface per line", len(out) == 2)
    check_cut(E, old, m, set(edges[0] + edges[1]), len(old))
    for o, e in zip(out, edges):
        E.prove("interface: the edges of its line", sorted(int(c.id) for c in o["c1"][0]) == sorted(e))
        for k in (1, 2):
            E.prove("copies lie on the fracture edges", all(bool(E.eq(p, q)) for a, b in zip(o["c1"][0], o["c1"][k]) for p, q in zip(m.points[a.node_tags].ravel(), m.points[b.node_tags].ravel())))


def network(m, lines):
    """the part of the fracture network the mesh reads"""
    from geometry.geometry_cell import GeometryCell

    pts = np.array([m.points[n] for l in lines for n in (l[0], l[-1])])
    cells = []
    for k in range(len(lines)):
        v = [GeometryCell(0, 2 * k + q, point_id=2 * k + q) for q in (0, 1)]
        cells += v
    for k in range(len(lines)):
        e = GeometryCell(1, len(cells), physical_tag=10 + k)
        e.boundary_cells = arr(cells[2 * k : 2 * k + 2])
        cells.append(e)
    graph = types.SimpleNamespace(nodes=lambda: list(range(len(cells))))
    return types.SimpleNamespace(fracture_network=types.SimpleNamespace(graph=graph, cells=arr(cells), points=pts, fracture_tags=[10 + k for k in range(len(lines))]))


def quarter_turn(vector, theta, axis=2):
    return np.array([-vector[1], vector[0], vector[2]])


def unit_network(E):
    """cut_conformity_on_fractures_mds_ec: one fracture, or two crossing"""
    import mesh.mesh as mm

    kind = E.choice("kind", ["one", "short", "cross", "tee"])
    m, ids, num, n = cross_patch(E, 2, E.choice("diag", [(0,), (0, 1, 1)]), 5)
    h = [num[i, 2] for i in (range(1, 4) if kind != "short" else (1, 2))]
    v = [num[2, j] for j in range(2 if kind == "tee" else 1, 4)]
    lines = [h, v] if kind in ("cross", "tee") else [h]
    edges = []
    for k, f in enumerate(lines):
        edges += tag_entities(m, ids, [f], None, line=10 + k)
        for q in (f[0], f[-1]):
            m.cells[ids[(q,)]].material_id = 10 + k
    if len(lines) == 2:
        m.cells[ids[(num[2, 2],)]].material_id = 30
    m.conformal_mesher = network(m, lines)
    m.fracture_normals = {}
    old = snapshot(m)
    E.cover()
    with Stub(mm, **(dict(rotate_vector=quarter_turn) if E.symbolic else {})):
        out = m.cut_conformity_on_fractures_mds_ec()
    check_cut(E, old, m, {e for f in edges for e in f}, len(old))
    E.prove("one pair of copies per fracture edge", sorted(int(k) for k in out) == sorted(e for f in edges for e in f))
    for k, f in enumerate(edges):
        for e in f:
            p, q = (m.cells[i] for i in out[e])
            E.prove("copies carry the tags of their side", p.material_id == 10 * (10 + k) + 1 and q.material_id == 10 * (10 + k) - 1)
            for c in (p, q):
                E.prove("copies lie on the fracture edge", E.conj([E.eq(a, b) for a, b in zip(m.points[c.node_tags].ravel(), m.points[m.cells[e].node_tags].ravel())]))
                E.prove("a copy bounds one volume cell", len([i for i, x in enumerate(old) if x["dim"] == 2 and c.id in m.cells[i].sub_cells_ids[1]]) == 1)


# ---------------------------------------------------------------- pieces
def unit_update(E):
    """in-place renumbering of one cell: exactly the mapped ids change"""
    from mesh.mesh import Mesh

    m = Mesh.__new__(Mesh)
    cells, ids = complex_cells(2, [(4, 1, 3)], lambda n: list(range(n)))
    m.cells = arr(cells)
    c = cells[-1]
    which = [E.choice("m%d" % k, [None, 50 + k]) for k in range(3)]
    dim = E.choice("dim", [0, 1])
    before = [[int(i) for i in s] for s in c.sub_cells_ids]
    nodes = [int(t) for t in c.node_tags]
    mp = {before[dim][k]: which[k] for k in range(3) if which[k] is not None}
    mp[999] = 7
    E.cover()
    m.update_entity_with_dimension(dim, c.id, mp)
    E.prove("mapped ids replaced, others kept", [int(i) for i in c.sub_cells_ids[dim]] == [mp.get(i, i) for i in before[dim]])
    E.prove("other dimensions kept", all([int(i) for i in c.sub_cells_ids[d]] == before[d] for d in range(3) if d != dim) and [int(t) for t in c.node_tags] == nodes)
    mn = {nodes[k]: 70 + k for k in range(3) if which[k] is not None}
    m.update_nodes_ids(c.id, mn)
    E.prove("mapped nodes replaced, others kept", [int(t) for t in c.node_tags] == [mn.get(t, t) for t in nodes])


def unit_points(E):
    """copies of points: appended in order, the given vertices renumbered, nothing else moves"""
    import mesh.mesh_operations as mo
    from mesh.mesh import Mesh
    from mesh.mesh_cell import MeshCell

    n, k = 4, E.choice("k", [0, 1, 2, 3])
    m = Mesh.__new__(Mesh)
    m.points = E.arr("p", (n, 3), gen=lambda r: r.uniform(-2, 2))
    old = m.points.copy()
    src = [2, 0, 3][:k]
    cs = []
    for i, s in enumerate(src):
        c = MeshCell(0)
        c.id, c.node_tags = 20 + i, np.array([s])
        cs.append(c)
    E.cover()
    mo.duplicate_mesh_points_from_0d_cells(cs, m)
    E.prove("one new point per vertex", m.points.shape == (n + k, 3))
    for i in range(n):
        E.prove("existing points stay", E.conj([E.eq(a, b) for a, b in zip(m.points[i], old[i])]))
    for i, s in enumerate(src):
        E.prove("the copy is at its vertex", E.conj([E.eq(a, b) for a, b in zip(m.points[n + i], old[s])]))
        E.prove("vertices point to their copy", [int(t) for t in cs[i].node_tags] == [n + i])


# ---------------------------------------------------------------- bounded: generated meshes
class Plain:
    symbolic = False

    def prove(self, name, cond):
        assert cond, name

    eq = staticmethod(lambda a, b: abs(a - b) < 1e-12)
    conj = staticmethod(lambda xs: all(xs))
    and_ = staticmethod(lambda *a: all(a))


def sizes(r):
    w, h = r.uniform(0.7, 3), r.uniform(0.7, 3)
    x0, y0 = r.uniform(-2, 2), r.uniform(-2, 2)
    box = np.array([[x0, y0, 0], [x0 + w, y0, 0], [x0 + w, y0 + h, 0], [x0, y0 + h, 0]])
    at = lambda s, t: [x0 + w * s, y0 + h * t, 0.0]
    return box, at, min(w, h)


def fractures(r, kind, at):
    u = lambda a, b: r.uniform(a, b)
    if kind == "inside":
        return [[at(u(0.15, 0.3), u(0.2, 0.8)), at(u(0.6, 0.85), u(0.2, 0.8))]]
    if kind == "axis":
        t = r.choice([0.5, 0.25])
        return [[at(t, 0.0), at(t, 1.0)]] if r.random() < 0.5 else [[at(0.0, t), at(0.6, t)]]
    if kind == "through":
        return [[at(u(-0.3, -0.1), u(0.3, 0.7)), at(u(1.1, 1.3), u(0.3, 0.7))]]
    if kind == "cross":
        return [[at(0.15, u(0.3, 0.5)), at(0.85, u(0.5, 0.7))], [at(u(0.3, 0.45), 0.85), at(u(0.5, 0.7), 0.12)]]
    if kind == "three":
        return [[at(0.1, u(0.3, 0.4)), at(0.9, u(0.3, 0.45))], [at(0.12, u(0.6, 0.7)), at(0.88, u(0.55, 0.72))], [at(u(0.3, 0.6), 0.08), at(u(0.4, 0.6), 0.93)]]
    p, q = np.array(at(0.15, u(0.3, 0.5))), np.array(at(0.85, u(0.3, 0.5)))
    s = p + u(0.4, 0.6) * (q - p)
    bar, stem = [list(p), list(q)], [list(s), at(u(0.3, 0.7), 0.85)]
    return [bar, stem] if kind == "tee" else [stem, bar]


def brep_mesh(box, lines, lc, n):
    import topology.domain_market as dm
    from mesh.discrete_domain import DiscreteDomain
    from mesh.mesh import Mesh

    with contextlib.redirect_stdout(io.StringIO()):
        dom = dm.create_md_box_2D(box, {"area": 1, "bc_0": 2, "bc_1": 3, "bc_2": 4, "bc_3": 5}, np.array(lines), {"line": 10, "internal_bc": 20, "point": 30})
        dd = DiscreteDomain(dimension=2)
        dd.domain = dom
        fn = os.path.join(meshes.scratch(), "cut.msh")
        dd.generate_mesh({"lc": lc, "curves_refinement": ([10], {"n_points": n, "meshType": "Bump", "coef": 1.0})})
        dd.write_mesh(fn)
        m = Mesh(dimension=2, file_name=fn)
        m.build_conformal_mesh()
    os.remove(fn)
    return m


def bounded_lines(B):
    import mesh.mesh_operations as mo

    while B.more():
        r = B.rng
        kind = r.choice(["inside", "inside", "axis", "through", "cross", "three", "tee", "stem first"])
        box, at, size = sizes(r)
        lines = fractures(r, kind, at)
        lc, n = size * r.choice([0.3, 0.6]), r.choice([2, 3, 4, 5])

        def run(kind=kind, box=box, lines=lines, lc=lc, n=n):
            m = brep_mesh(box, lines, lc, n)
            E = Plain()
            check_complex(E, m)
            old = snapshot(m)
            edges = [i for i, c in enumerate(old) if c["dim"] == 1 and c["tag"] == 10]
            assert edges, "no fracture edges"
            out = mo.cut_conformity_along_c1_lines(np.array(lines), dict(PT), m)
            check_cut(E, old, m, set(edges), len(old))
            assert sorted(int(c.id) for o in out for c in o["c1"][0]) == sorted(edges), "interfaces list the fracture edges"
            if len(lines) == 1:
                a, b = np.array(lines[0])
                nrm = np.array([-(b - a)[1], (b - a)[0], 0])
                side = {i: int(np.sign(np.dot(np.mean(c["xyz"], axis=0) - a, nrm))) for i, c in enumerate(old) if c["dim"] == 2}
                vs = {v for e in edges for v in old[e]["sub"][0] if old[v]["tag"] != 20}
                check_interface(E, old, m, out[0], edges, side, sorted(vs))
                for e in edges:
                    assert [int(t) for t in m.cells[e].node_tags] == old[e]["nodes"], "the fracture's own mesh is unchanged"

        B.case("lines:%s" % kind, "box %s lines %s size %g points %d" % (box.tolist(), np.array(lines).tolist(), lc, n), run)


def bounded_network(B):
    import geometry.fracture_network as fnw
    from geometry.geometry_builder import GeometryBuilder
    from mesh.conformal_mesher import ConformalMesher
    from mesh.mesh import Mesh

    while B.more():
        r = B.rng
        kind = r.choice(["inside", "cross", "three"])
        box, at, size = sizes(r)
        lines = fractures(r, kind, at)
        lc = size * r.choice([0.3, 0.6])

        def run(box=box, lines=lines, lc=lc):
            with contextlib.redirect_stdout(io.StringIO()):
                g = GeometryBuilder(dimension=2)
                g.build_box_2D(box)
                net = fnw.FractureNetwork(dimension=2, physical_tag_shift=10)
                net.intersect_1D_fractures([np.array(l) for l in lines])
                net.build_grahp(all_fixed_d_cells_q=True)
                c = ConformalMesher(dimension=2)
                c.set_geometry_builder(g)
                c.set_fracture_network(net)
                c.set_points()
                c.generate(lc)
                fn = os.path.join(meshes.scratch(), "net.msh")
                c.write_mesh(fn)
                m = Mesh(dimension=2, file_name=fn)
                m.set_conformal_mesher(c)
                m.build_conformal_mesh()
            os.remove(fn)
            E = Plain()
            check_complex(E, m)
            old = snapshot(m)
            tags = list(net.fracture_tags)
            edges = [i for i, x in enumerate(old) if x["dim"] == 1 and x["tag"] in tags]
            assert edges, "no fracture edges"
            out = m.cut_conformity_on_fractures_mds_ec()
            check_cut(E, old, m, set(edges), len(old))
            assert sorted(int(k) for k in out) == sorted(edges), "one pair of copies per fracture edge"
            if len(edges) < 200:
                assert m.circulate_internal_bc()[0], "the skin of the fractures is closed"

        B.case("network:%s" % kind, "box %s fractures %s size %g" % (box.tolist(), np.array(lines).tolist(), lc), run)


AS = ["points_line_intersection and points_line_argsort by their contracts (C09)"]
C1 = [OP + f for f in ("cut_conformity_along_c1_line", "update_cells_with_cell_pairs", "duplicate_mesh_points_from_0d_cells", "__duplicate_cells")] + [MS + f for f in ("build_graph", "build_graph_from_cell_ids", "append_cells", "append_points")] + ["mesh.mesh_cell.MeshCell.clone"]
UNITS = [Unit("line on %d columns from %d to %d" % s, unit_line(s), C1, modules=MODS, samples=12, kind="bounded-size", bounds="grid patches of 3 rows, any in-plane line and coordinates", assumptions=AS, max_paths=20000, timeout=200, tol=1e-9) for s in SHAPES]
UNITS += [
    Unit("two lines", unit_cross, C1 + [OP + "cut_conformity_along_c1_lines"], modules=MODS, samples=12, kind="bounded-size", bounds="5x5 grid patches, any two directions", assumptions=AS, max_paths=20000, timeout=300, tol=1e-9),
    Unit("fracture network", unit_network, [MS + f for f in ("cut_conformity_on_fractures_mds_ec", "compute_fracture_normals", "update_entity_with_dimension", "update_nodes_ids", "build_graph")], modules=MODS, samples=12, kind="bounded-size", bounds="5x5 grid patches, any two directions", assumptions=["rotate_vector by its contract (C20)"], max_paths=20000, timeout=300, tol=1e-9),
    Unit("renumbering a cell", unit_update, [MS + "update_entity_with_dimension", MS + "update_nodes_ids"], modules=MODS, samples=30),
    Unit("copies of points", unit_points, [OP + "duplicate_mesh_points_from_0d_cells", MS + "append_points"], modules=MODS, samples=20, kind="bounded-size", bounds="up to three vertices"),
]
BOUNDED = [
    Bounded("fracture lines", bounded_lines, C1 + [OP + "cut_conformity_along_c1_lines"], "generated meshes of random rectangles with fractures inside, through, crossing and ending on one another", budget=60),
    Bounded("fracture networks", bounded_network, [MS + "cut_conformity_on_fractures_mds_ec", MS + "circulate_internal_bc"], "generated meshes of random rectangles with one to three fractures", budget=40),
]
