"""C20: cell metrics and rigid rotations are geometrically exact."""
import itertools
import math

import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C20"
IMPORTS = ["mesh.mesh_metrics", "mesh.mesh_cell", "mesh.mesh"]


def _cell(E, n):
    tags = E.choice("tags", [tuple(range(n)), tuple(reversed(range(n))), tuple((2 * i + 1) % (n + 3) for i in range(n))][:2 if n < 2 else 2])
    store = np.empty((n + 2, 3), dtype=object if E.symbolic else float)
    store[...] = 5.0
    P = E.arr("p", (n, 3))
    idx = np.array([t + 1 for t in tags])
    store[idx] = P
    return NS(node_tags=idx, dimension=n - 1), NS(points=store), P


def unit_centroid(n):
    def fn(E):
        from mesh.mesh_metrics import cell_centroid
        from mesh.mesh_cell import barycenter

        c, m, P = _cell(E, n)
        E.cover()
        x = cell_centroid(c, m)
        E.prove_eq("centroid is the vertex average", np.asarray(x) * n, sum(P[i] for i in range(n)))
        E.prove_eq("barycenter is the average", np.asarray(barycenter(P)) * n, sum(P[i] for i in range(n)))

    return fn


def unit_diam(n):
    def fn(E):
        from mesh.mesh_metrics import cell_diam

        c, m, P = _cell(E, n)
        E.lazy_sqrt = True
        E.cover()
        h = cell_diam(c, m)
        d2 = [E.dot(P[i] - P[j], P[i] - P[j]) for i in range(n) for j in range(i)]
        E.prove("diameter non-negative", h >= 0)
        if not E.symbolic:
            E.prove("attained", min(abs(math.sqrt(x) - h) for x in d2) < 1e-9 * (1 + h))
            E.prove("upper bound", all(math.sqrt(x) <= h + 1e-9 * (1 + h) for x in d2))
            return
        dist = [E.norm(P[i] - P[j]) for i in range(n) for j in range(i)]
        E.prove("attained by a pair of vertices", E.disj([E.eq(h, x) for x in dist]))
        for x in dist:
            E.prove("no pair is farther apart", x <= h)

    return fn


def unit_size(E):
    """mesh_size: min, mean, max of the diameters of exactly the selected cells (contract of cell_diam)"""
    import mesh.mesh_metrics as mm

    dims = E.choice("dims", [(2, 2, 1), (1, 2, 2, 3), (2,), (3, 2, 2)])
    tags = E.choice("tags", [(1,) * 4, (1, 2, 1, None), (None, 5, 5, 1)])
    ask_dim = E.choice("ask_dim", [None, 2])
    ask_tag = E.choice("ask_tag", [None, 1, 5])
    mdim = 2
    cells = [NS(dimension=d, material_id=t, k=i, id=i, node_tags=np.array([0])) for i, (d, t) in enumerate(zip(dims, tags))]
    diam = [E.real("h%d" % i, gen=lambda r: r.uniform(0.1, 5)) for i in range(len(cells))]
    for h in diam:
        E.assume(h >= 0)
    sel = [i for i, c in enumerate(cells) if c.dimension == (mdim if ask_dim is None else ask_dim) and (ask_tag is None or c.material_id == ask_tag)]
    if not sel:
        return
    E.cover()
    old = mm.cell_diam
    mesh = NS(dimension=mdim, cells=np.array(cells, dtype=object), points=None)
    mm.cell_diam = lambda cell, mesh: diam[cell.k]
    try:
        if ask_dim is None and ask_tag is None:
            lo, mean, hi = mm.mesh_size(mesh)
        else:
            lo, mean, hi = mm.mesh_size(mesh, ask_dim, ask_tag)
    finally:
        mm.cell_diam = old
    E.prove("mean over exactly the selected cells", E.eq(mean * len(sel), sum(diam[i] for i in sel)))
    E.prove("minimum attained", E.disj([E.eq(lo, diam[i]) for i in sel]))
    E.prove("maximum attained", E.disj([E.eq(hi, diam[i]) for i in sel]))
    for i in sel:
        E.prove("minimum is a lower bound", E.le(lo, diam[i]))
        E.prove("maximum is an upper bound", E.le(diam[i], hi))


def unit_rot(axis):
    def fn(E):
        from mesh.mesh_cell import rotate_vector, x_rotation, y_rotation, z_rotation

        u, v = E.vec("u", 3), E.vec("v", 3)
        a, b = E.real("a"), E.real("b")
        E.cover()
        rot = lambda w, t: np.asarray(rotate_vector(w, t, axis))
        ru, rv = rot(u, a), rot(v, a)
        direct = [x_rotation, y_rotation, z_rotation][axis]
        E.prove_eq("axis selects the matching rotation", ru, np.asarray(direct(u, a)))
        if axis == 2:
            E.prove_eq("default axis is z", np.asarray(rotate_vector(u, a)), ru)
        E.prove("inner products preserved", E.eq(E.dot(ru, rv), E.dot(u, v)))
        E.prove("lengths preserved", E.eq(E.dot(ru, ru), E.dot(u, u)))
        E.prove_eq("right-handed: cross products are rotated", E.cross(ru, rv), rot(E.cross(u, v), a))
        E.prove("component along the axis kept", E.eq(ru[axis], u[axis]))
        e = np.zeros(3)
        e[axis] = 1.0
        E.prove_eq("axis fixed", rot(np.array([1.0 if i == axis else 0.0 for i in range(3)]), a), e)
        E.prove_eq("rotations about the same axis add up", rot(ru, b), rot(u, a + b))
        E.prove_eq("zero angle is the identity", rot(u, a - a), u)
        i, j = (axis + 1) % 3, (axis + 2) % 3
        # positive sense: the next axis moves towards the one after it
        w = np.array([1.0 if k == i else 0.0 for k in range(3)])
        rw = rot(w, a)
        if E.symbolic:
            c, s = E.trig(a)
        else:
            c, s = math.cos(a), math.sin(a)
        E.prove("counter-clockwise", E.eq(rw[j], s))
        E.prove("cosine on the moved axis", E.eq(rw[i], c))

    return fn


UNITS = [Unit("centroid n%d" % n, unit_centroid(n), ["mesh.mesh_metrics.cell_centroid", "mesh.mesh_cell.barycenter"], samples=60) for n in (1, 2, 3, 4)]
UNITS += [Unit("diameter n%d" % n, unit_diam(n), ["mesh.mesh_metrics.cell_diam"], samples=150, timeout=100) for n in (2, 3, 4)]
UNITS += [Unit("mesh_size", unit_size, ["mesh.mesh_metrics.mesh_size"], samples=200, timeout=100, kind="bounded-size", bounds="meshes of up to 4 cells with arbitrary diameters")]
UNITS += [Unit("rotation about axis %d" % k, unit_rot(k), ["mesh.mesh_cell.rotate_vector", "mesh.mesh_cell.%s_rotation" % "xyz"[k]], samples=150) for k in range(3)]


def bounded_metrics(B):
    from mesh.mesh_metrics import mesh_size, cell_diam, cell_centroid
    from .meshes import random_mesh, cleanup

    while B.more() and B.evaluations < (4000 if B.thorough else 400):
        d = B.rng.choice([1, 2, 3])
        m, info = random_mesh(B.rng, B.nrng, d, interior_tags=True)

        def run():
            metrics()
            old = m.points
            m.points = old * 1.5 + B.nrng.uniform(-1, 1, 3)      # the mesh is moved and asked again
            try:
                metrics()
            finally:
                m.points = old

        def metrics():
            for q in range(d + 1):
                for tag in (None, 1, 2, 10, 20):
                    sel = [c for c in m.cells if c.dimension == q and (tag is None or c.material_id == tag)]
                    if not sel or q == 0:
                        continue
                    hs = [max(np.linalg.norm(m.points[i] - m.points[j]) for i in c.node_tags for j in c.node_tags) for c in sel]
                    for c, h in zip(sel, hs):
                        assert abs(cell_diam(c, m) - h) < 1e-12, "diameter"
                        assert np.allclose(cell_centroid(c, m), np.mean([m.points[i] for i in c.node_tags], axis=0)), "centroid"
                    r = mesh_size(m, q, tag)
                    assert np.allclose(r, [min(hs), np.mean(hs), max(hs)]), ("mesh size", q, tag, r, hs)
            r0 = mesh_size(m)
            assert np.allclose(r0, mesh_size(m, d)), "default dimension"

        B.case("mesh_size:d%d" % d, info.desc, run)
    cleanup()


BOUNDED = [Bounded("metrics on random meshes", bounded_metrics, ["mesh.mesh_metrics.mesh_size", "mesh.mesh_metrics.cell_diam", "mesh.mesh_metrics.cell_centroid"],
                   "random tagged meshes of dimension 1..3, every dimension and tag, asked again after the points moved", budget=20)]
