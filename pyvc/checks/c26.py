"""C26: exported meshes hold exactly the tagged cells."""
import contextlib
import io
import os
import re

import numpy as np

from ..harness import Unit, Bounded
from .c09 import Stub
from .c23 import Recorder
from .common import *

PID = "C26"
IMPORTS = ["mesh.mesh"]
M = "mesh.mesh.Mesh."
TYPES = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}


def bare(cells, points, dim):
    from mesh.mesh import Mesh

    m = Mesh.__new__(Mesh)
    m.dimension, m.cells, m.points = dim, cells, points
    return m


def cell(d, i, nodes, tag):
    from mesh.mesh_cell import MeshCell

    c = MeshCell(d)
    c.set_id(i)
    c.node_tags = nodes
    c.set_material_id(tag)
    return c


def blocks_of(mesh):
    """(type, connectivity) pairs of a recorded meshio mesh"""
    c = mesh.cells
    c = list(c.items()) if isinstance(c, dict) else [((b.type, b.data) if hasattr(b, "type") else (b[0], b[1])) for b in c]
    return c


def same(x, y):
    return x is y or (isinstance(x, Sym) and isinstance(y, Sym) and x.n is y.n) or (not isinstance(x, Sym) and not isinstance(y, Sym) and x == y)


def unit_vtk(E):
    """any cells: one file per dimension with a tagged cell, its rows the tagged cells, one each"""
    import mesh.mesh as m

    dim = E.choice("dim", [1, 2, 3])
    focus = E.choice("dimension of interest", list(range(dim + 1)))
    n = E.choice("cells", [0, 1, 2, 3])
    cells, want = [], {d: [] for d in range(4)}
    nid = 0
    for d in range(dim, -1, -1):
        for i in range(n if d == focus else 1):
            nodes = np.array([E.int("n%d_%d_%d" % (d, i, k), lo=0, hi=50) for k in range(d + 1)], dtype=object if E.symbolic else int)
            if d == focus:
                tag = E.choice("tag%d" % i, [None, "any"])
                tag = E.int("t%d" % i, lo=1, hi=90) if tag == "any" else tag
            else:
                tag = None if (d + focus) % 2 else 40 + d
            c = cell(d, nid, nodes, tag)
            cells.append(c)
            nid += 1
    order = E.choice("order", ["as made", "mixed, with a cell without id"])
    if order != "as made":
        cells.append(cell(focus, None, np.zeros(focus + 1, dtype=int), 5))
        cells = cells[::2] + cells[1::2]
    for c in cells:
        if c.id is not None and c.material_id is not None:
            want[c.dimension].append(c)
    points = E.arr("P", (4, 3))
    mesh = bare(np.array(cells + [None], dtype=object)[:-1], points, dim)
    name = None if n == 2 else "out"
    E.cover()
    before = [(c, c.dimension, c.id, c.material_id, list(c.node_tags)) for c in cells]
    rec = Recorder()
    with Stub(m, meshio=rec):
        mesh.write_vtk(name) if name is not None else mesh.write_vtk()
    prefix = "geometric_mesh" if name is None else name
    files = [f for f, _ in rec.written]
    E.prove("one file for each dimension that has tagged cells", sorted(files) == sorted("%s_%dd.vtk" % (prefix, d) for d in range(4) if want[d]))
    for f, w in rec.written:
        d = int(f[-6])
        rows = [(t, row) for t, con in blocks_of(w) for row in con]
        E.prove("cells of the dimension only", all(t == TYPES[d] for t, _ in rows))
        E.prove("every tagged cell once", len(rows) == len(want[d]))
        data = {}
        for key in ("physical_tag", "entity_tag"):
            E.prove("the %s is given" % key, key in w.cell_data)
            data[key] = [x for b in w.cell_data[key] for x in b]
            E.prove("one %s per cell" % key, len(data[key]) == len(rows))
        E.prove("the mesh's points", np.shape(w.points) == (4, 3) and all(same(x, y) for x, y in zip(np.ravel(np.asarray(w.points, dtype=object)), np.ravel(np.asarray(points, dtype=object)))))
        left = {c.id: c for c in want[d]}
        for (t, row), ph, ent in zip(rows, data["physical_tag"], data["entity_tag"]):
            c = left.pop(int(ent), None)
            E.prove("the entity tag is the id of a tagged cell, once", c is not None)
            if c is None:
                continue
            E.prove("its physical tag", E.eq(ph, c.material_id))
            E.prove("its own nodes in its own order", len(row) == d + 1 and E.conj([E.eq(x, y) for x, y in zip(row, c.node_tags)]))
    E.prove("the mesh is not modified", len(mesh.cells) == len(before) and mesh.points is points
            and all(c.dimension == d and c.id == i and same(c.material_id, t) and len(c.node_tags) == len(nd) and all(same(x, y) for x, y in zip(c.node_tags, nd)) for c, d, i, t, nd in before))


def bounded_written(B):
    from .meshes import cleanup, random_mesh, scratch

    while B.more() and B.evaluations < (2000 if B.thorough else 150):
        dim = B.rng.randint(1, 3)
        mesh, info = random_mesh(B.rng, B.nrng, dim, boundary_tags=B.rng.random() < 0.8, regions=True, interior_tags=B.rng.random() < 0.3)
        desc = dict(dim=dim, points=len(mesh.points), cells=len(mesh.cells), tags=sorted({(c.dimension, c.material_id) for c in mesh.cells if c.material_id is not None}))
        if B.rng.random() < 0.4:                      # some of the volume cells carry no tag
            top = [c for c in mesh.cells if c.dimension == dim]
            for c in top[1:]:
                if B.rng.random() < 0.3:
                    c.set_material_id(None)
            desc["untagged"] = [c.id for c in top if c.material_id is None]
        tagged = [c for c in mesh.cells if c.material_id is not None]
        if not tagged:
            continue

        def run():
            import meshio

            out = os.path.join(scratch(), "m")
            for d in range(4):
                if os.path.exists("%s_%dd.vtk" % (out, d)):
                    os.remove("%s_%dd.vtk" % (out, d))
            before = [(c.id, c.material_id, [int(x) for x in c.node_tags]) for c in mesh.cells]
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                mesh.write_vtk(out)
            for d in range(4):
                want = {c.id: c for c in tagged if c.dimension == d}
                fn = "%s_%dd.vtk" % (out, d)
                assert os.path.exists(fn) == bool(want), ("file of dimension", d)
                if not want:
                    continue
                with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                    r = meshio.read(fn)
                assert np.allclose(r.points, mesh.points), "points"
                assert all(b.type == TYPES[d] for b in r.cells), "cell types"
                con = np.vstack([b.data for b in r.cells])
                ent, ph = np.concatenate(r.cell_data["entity_tag"]), np.concatenate(r.cell_data["physical_tag"])
                assert sorted(int(x) for x in ent) == sorted(want), "each tagged cell once"
                for row, e, p in zip(con, ent, ph):
                    assert p == want[int(e)].material_id, "physical tag"
                    assert row.tolist() == [int(x) for x in want[int(e)].node_tags], "nodes"
            txt = out + ".txt"
            mesh.write_data(txt)
            check_text(open(txt).read(), mesh)
            assert before == [(c.id, c.material_id, [int(x) for x in c.node_tags]) for c in mesh.cells], "mesh modified"

        B.case("written meshes", desc, run)
    cleanup()


def check_text(text, mesh):
    num = lambda s: [float(x) for x in re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", s)]
    part, rest = text.split("Cell data")
    lines = [l for l in part.splitlines() if l.startswith("tag:")]
    assert len(lines) == len(mesh.points), "points listed"
    for i, l in enumerate(lines):
        v = num(l)
        assert v[0] == i and np.array_equal(v[1:], mesh.points[i]), "point"
    dims, tdims = [c.dimension for c in mesh.cells], [c.dimension for c in mesh.cells if c.material_id is not None]
    head = [int(num(l)[-1]) for l in part.splitlines() if "entity dimension" in l]
    assert head == [min(dims), max(dims), min(tdims), max(tdims)], "dimensions"
    recs = [r for r in rest.split("\n\n") if "Entity_type" in r]
    assert len(recs) == len(mesh.cells), "every cell listed"
    for r, c in zip(recs, mesh.cells):
        f = {}
        sub = []
        for l in r.splitlines():
            if ":" not in l:
                continue
            k, v = l.split(":", 1)
            if k.startswith("Entities of dimension"):
                sub.append((int(num(k)[0]), [int(x) for x in v.split()]))
            else:
                f[k.strip()] = v.strip()
        assert f["Entity_type"] == c.type and int(f["Dimension"]) == c.dimension and int(f["Tag"]) == c.id, "cell"
        assert f["Physical_tag"] == str(c.material_id), "physical tag"
        assert [int(x) for x in f["Node_tags"].split()] == [int(x) for x in c.node_tags], "nodes"
        assert sub == [(d, list(map(int, s))) for d, s in enumerate(c.sub_cells_ids)], "sub cells"


UNITS = [
    Unit("write_vtk", unit_vtk, [M + "write_vtk"], modules=["mesh.mesh", "mesh.mesh_cell"], samples=150, kind="bounded-size", bounds="up to 3 cells of one dimension and one of every other", max_paths=20000, timeout=200, tol=0,
         assumptions=["meshio by a recording contract: Mesh(points, cells, cell_data) and write(file, mesh)", "no colouring"]),
]
BOUNDED = [Bounded("written meshes", bounded_written, [M + "write_vtk", M + "write_data"], "random meshes with tagged and untagged cells, files written, read back and compared cell by cell", budget=40)]
