"""Random simplicial meshes of every dimension, through the real Mesh constructor (bounded checks)."""
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

import numpy as np

_dir = []


def scratch():
    if not _dir:
        d = tempfile.mkdtemp(prefix="vmesh_")
        _dir.append(d)
        import atexit

        atexit.register(shutil.rmtree, d, True)
    return _dir[0]


def cleanup():
    while _dir:
        shutil.rmtree(_dir.pop(), ignore_errors=True)


def tri_area_ok(p, cells, d):
    J = p[cells[:, 1:]] - p[cells[:, :1]]
    s = np.linalg.svd(J.reshape(len(cells), d, 3), compute_uv=False)
    return s[:, -1] > 0.03 * s[:, 0]


def lattice(shape):
    """integer points of a box and its Kuhn subdivision into simplices"""
    import itertools

    dim = len(shape)
    grid = list(itertools.product(*[range(k) for k in shape]))
    num = {g: i for i, g in enumerate(grid)}
    p = np.zeros((len(grid), 3))
    p[:, :dim] = np.array(grid)
    cells = []
    for g in itertools.product(*[range(k - 1) for k in shape]):
        for way in itertools.permutations(range(dim)):
            q, c = list(g), [num[g]]
            for a in way:
                q[a] += 1
                c.append(num[tuple(q)])
            cells.append(c)
    return p, np.array(cells)


def raw_mesh(rng, nrng, dim, n=None, jitter=True, embed=None, order="random"):
    """points (N,3) and cells (M,dim+1); every simplex non-degenerate, conforming.

    embed: None -> random; 'flat' -> standard axes; 'rotated'."""
    from scipy.spatial import Delaunay

    while True:
        if dim > 1 and n is not None and n >= 20:
            k = max(2, round(n ** (1.0 / dim)))
            p, cells = lattice([k] * dim)
            p[:, :dim] = p[:, :dim] / (k - 1.0) + nrng.uniform(-0.1, 0.1, size=(len(p), dim)) / (k - 1.0)
        elif dim > 1 and (n is None or n > dim + 1) and rng.random() < 0.15:
            # regular boxes: congruent cells, equal lengths, exact ties
            p, cells = lattice(rng.choice([[2, 2], [2, 3], [3, 2], [3, 3]]) if dim == 2 else [2, 2, 2])
            p[:, :dim] = (p[:, :dim] + rng.choice([0, -1])) * [rng.choice([0.5, 1, 1, 2]) for _ in range(dim)]
            if rng.random() < 0.5:
                p[:, 0] *= -1
        elif dim == 1:
            k = n or rng.randint(1, 6)
            x = np.sort(nrng.uniform(-2, 2, k + 1))
            if np.min(np.diff(x)) < (0.05 if k < 20 else 1e-5):
                continue
            p = np.zeros((k + 1, 3))
            p[:, 0] = x
            cells = np.array([[i, i + 1] for i in range(k)])
        else:
            k = n or (rng.randint(3, 9) if dim == 2 else rng.randint(4, 8))
            q = nrng.uniform(-1, 1, size=(max(k, dim + 1), dim))
            if rng.random() < 0.3:
                q *= rng.uniform(0.05, 3)
            try:
                cells = Delaunay(q).simplices
            except Exception:
                continue
            p = np.zeros((len(q), 3))
            p[:, :dim] = q
            if not np.all(tri_area_ok(p, cells, dim)):
                continue
            used = np.unique(cells)
            if len(used) != len(p):
                continue
        break
    if embed is None:
        embed = rng.choice(["flat", "rotated", "shifted"])
    if embed == "rotated":
        Q, _ = np.linalg.qr(nrng.normal(size=(3, 3)))
        p = p @ Q.T
    if embed in ("rotated", "shifted"):
        p = p + nrng.uniform(-2, 2, size=3)
    # arbitrary node numbering and arbitrary local orders
    perm = nrng.permutation(len(p))
    p2 = np.empty_like(p)
    p2[perm] = p
    cells = perm[cells]
    cells = np.array(cells, dtype=int)
    if order == "random":
        for c in cells:
            nrng.shuffle(c)
    elif order == "sorted":
        cells = np.sort(cells, axis=1)
    nrng.shuffle(cells)
    return p2, cells


def faces_of(cells, k):
    """sorted unique k-faces (as sorted node tuples) of the cells"""
    import itertools

    out = set()
    for c in cells:
        for f in itertools.combinations(sorted(int(i) for i in c), k + 1):
            out.add(f)
    return sorted(out)


def count_facets(cells):
    import itertools

    d = len(cells[0]) - 1
    cnt = {}
    for c in cells:
        for f in itertools.combinations(sorted(int(i) for i in c), d):
            cnt[f] = cnt.get(f, 0) + 1
    return cnt


NAMES = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}


def write_mesh(points, blocks):
    """blocks: list of (dim, connectivity list, tag list). Returns the file name."""
    import meshio

    cells, tags = [], []
    for dim, con, tg in blocks:
        if len(con) == 0:
            continue
        cells.append((NAMES[dim], np.array(con, dtype=int)))
        tags.append(np.array(tg, dtype=int))
    m = meshio.Mesh(points, cells, cell_data={"gmsh:physical": tags, "gmsh:geometrical": tags})
    fn = os.path.join(scratch(), "m%d.msh" % os.getpid())
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        meshio.write(fn, m, file_format="gmsh22", binary=False)
    return fn


def load(dim, fn):
    from mesh.mesh import Mesh

    m = Mesh(dimension=dim, file_name=fn)
    m.build_conformal_mesh()
    return m


def random_mesh(rng, nrng, dim, n=None, boundary_tags=True, regions=True, embed=None, order="random", interior_tags=False, shuffle_facets=True):
    """Returns (Mesh, info) where info has points, cells, tags (by sorted node tuple)."""
    p, cells = raw_mesh(rng, nrng, dim, n, embed=embed, order=order)
    tags = {d: {} for d in range(dim + 1)}
    for c in cells:
        tags[dim][tuple(sorted(int(i) for i in c))] = rng.choice([1, 2]) if regions else 1
    cnt = count_facets(cells)
    facets = []
    if boundary_tags:
        facets = [f for f, k in cnt.items() if k == 1]
        for f in facets:
            tags[dim - 1][f] = rng.choice([10, 11])
    if interior_tags:
        inner = [f for f, k in cnt.items() if k == 2]
        rng.shuffle(inner)
        for f in inner[: rng.randint(0, 2)]:
            tags[dim - 1][f] = 20
    blocks = []
    for d in range(dim):
        fs = list(tags[d])
        rng.shuffle(fs)
        con = []
        for f in fs:
            f = list(f)
            if shuffle_facets:
                rng.shuffle(f)
            con.append(f)
        blocks.append((d, con, [tags[d][tuple(sorted(c))] for c in con]))
    blocks.append((dim, [list(map(int, c)) for c in cells], [tags[dim][tuple(sorted(int(i) for i in c))] for c in cells]))
    if rng.random() < 0.3:
        rng.shuffle(blocks)
    fn = write_mesh(p, blocks)
    m = load(dim, fn)
    return m, NS(points=p, cells=cells, tags=tags, blocks=blocks, desc=dict(points=p.round(6).tolist(), blocks=blocks))
