"""C23: exported fields are the discrete solution and the exact functions, at the right points and cells.

The real exporters of postprocess.solution_post_processor run end to end (averages, cell values, table
of data, written mesh) on a patch of cells with arbitrary coordinates, coefficients, geometry and basis
values; meshio is seen through its constructor (it records what it is given).  Elements, spaces and
topology are contract objects (C02, C05, C14, C22).
"""
import contextlib
import importlib
import io
import sys
from types import SimpleNamespace as NS

from .. import tnp as np
from ..harness import Unit, Bounded
from .c02 import complex_cells, graphs
from .c09 import Stub
from .c15 import Cell, Elem, family, num

PID = "C23"
IMPORTS = ["postprocess.solution_post_processor"]
MOD = "postprocess.solution_post_processor."
PATCH = {1: [(1, 0), (1, 2), (3, 2)], 2: [(2, 0, 1), (1, 3, 2), (4, 1, 3)], 3: [(3, 0, 2, 1), (1, 3, 4, 2), (5, 4, 3, 2)]}
NUMBER = [4, 0, 5, 2, 6, 1, 3]     # node i of the patch is mesh point NUMBER[i]; one point belongs to no cell
MESHIO = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}
FIELD, OUTSIDE, BOUNDARY = 5, 6, 9


def equal(E, a, b):
    """the same number by normal form (symbolic) or up to rounding"""
    if E.symbolic:
        from ..sym import lift

        return bool(E._identity(lift(a), lift(b)))
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))


class PointsCell(Cell):
    def __init__(self, E, name, d, spaces):
        import basix
        from basis.element_type import type_by_dimension

        ref = np.array(basix.geometry(type_by_dimension(d)), dtype=float)
        super().__init__(E, name, d, d + 2, spaces)
        self.points = np.concatenate([ref, [ref.mean(axis=0)]])

    def rows(self, points):
        out = []
        for p in np.asarray(points, dtype=float).reshape(len(points), -1):
            hit = [i for i in range(self.n) if np.allclose(self.points[i], p, atol=1e-9)]
            if not hit:
                raise ValueError("evaluated neither at a vertex nor at the centroid of the reference cell")
            out.append(hit[0])
        return out


class Recorder:
    """meshio.Mesh seen from the caller: remembers what it is given and whether it is written"""

    def __init__(self):
        self.made, self.written = [], []
        rec = self

        class Mesh:
            def __init__(self, points, cells, point_data=None, cell_data=None, **kw):
                self.points, self.cells = points, cells
                self.point_data, self.cell_data = dict(point_data or {}), dict(cell_data or {})
                rec.made.append(self)

            def write(self, name, *a, **k):
                rec.written.append((name, self))

        self.Mesh = Mesh

    def write(self, name, mesh, *a, **k):
        self.written.append((name, mesh))

    def write_points_cells(self, name, points, cells, point_data=None, cell_data=None, **k):
        self.written.append((name, self.Mesh(points, cells, point_data, cell_data)))


class Patch:
    def __init__(self, E, d, mesh_dim, fields, partial=False):
        """fields: name -> (components, functions per cell, vector family)"""
        self.E, self.d, self.fields = E, d, fields
        nodes = [tuple(NUMBER[i] for i in c) for c in PATCH[d]]
        extra = []
        if mesh_dim > d:                    # a mesh of higher dimension that contains the cells of the field
            apex = NUMBER[5]
            extra = [tuple(c) + (apex,) for c in nodes]
        cells, ids = complex_cells(mesh_dim, nodes + extra, lambda n: [(5 * i + 2) % n for i in range(n)] if n % 5 else [(7 * i + 2) % n for i in range(n)])
        by = [None] * len(cells)
        for c in cells:
            by[c.id] = c
        self.pts = E.arr("P", (7, 3), gen=lambda r: r.uniform(-3, 3))
        self.mesh = NS(cells=by, points=self.pts, dimension=mesh_dim)
        own = [by[ids[tuple(sorted(c))]] for c in nodes]
        for c in cells:
            if c.dimension == mesh_dim and mesh_dim > d:
                c.material_id = OUTSIDE
            elif c.dimension == d - 1 and c.id % 2:
                c.material_id = BOUNDARY
        for i, c in enumerate(own):
            c.material_id = OUTSIDE if partial and i == 1 else FIELD
        self.field_cells = [c for c in own if c.material_id == FIELD]
        self.all_cells = own if mesh_dim == d else [c for c in cells if c.dimension == mesh_dim]
        order = list(reversed(self.field_cells[1:])) + self.field_cells[:1]     # element order is not cell order
        self.data = {c.id: PointsCell(E, "c%d_" % c.id, d, fields) for c in self.field_cells}
        g = graphs(d, self.field_cells, by)
        ents = {k: sorted({int(s) for c in self.field_cells for s in c.sub_cells_ids[k]}, reverse=True) for k in range(d + 1)}
        top = NS(mesh=self.mesh, dimension=d, entities_by_dimension=lambda k: list(ents[k]), entity_map_by_dimension=lambda k: g[k],
                 entity_maps=g, entity_ids=ents)
        from basis.element_type import type_by_dimension

        ds, size = {}, 0
        for s, (nc, nphi, vec) in fields.items():
            els = [Elem(self.data[c.id], s, NS(cell=c, mesh=self.mesh, dimension=d)) for c in order]
            ds[s] = NS(n_comp=nc, elements=els, family=family(vec), dimension=d, name=s, k_order=1, mesh_topology=top,
                       element_type=type_by_dimension(d), id_to_element={c.id: i for i, c in enumerate(order)}, element_ids=[c.id for c in order])
            size += nc * nphi * len(order)
        self.dest, N = {}, size + 3
        mult = next(m for m in (5, 7, 11, 13) if N % m)
        perm, k = [(mult * i + 3) % N for i in range(N)], 0
        for i, c in enumerate(order):
            self.dest[i] = {}
            for s, (nc, nphi, vec) in fields.items():
                self.dest[i][s] = np.array(perm[k:k + nc * nphi])
                k += nc * nphi
        self.element_of = {c.id: i for i, c in enumerate(order)}
        self.alpha = E.vec("alpha", N, gen=lambda r: r.uniform(-2, 2))
        env = self

        class Space:
            discrete_spaces = ds
            names = list(ds)
            n_dof = N
            dof_shift = 0
            fields_physical_tags = {s: [FIELD] for s in ds}

            def dimension(self):
                return d

            def discrete_spaces_destination_indexes(self, i):
                return {s: v.copy() for s, v in env.dest[i].items()}

            def destination_indexes(self, i, field=None):
                v = env.dest[i]
                return v[field].copy() if field else np.concatenate(list(v.values()))

        self.space = Space()
        self.exact = {}
        for s, (nc, nphi, vec) in fields.items():
            self.exact[s] = ExactFun(E, s, self, (nc, d) if vec else (nc,))

    # ---- module functions of other properties, by contract
    def mapping(self, dimension, phi, cell_points):
        if not (isinstance(phi, tuple) and phi[0] == "shapes"):
            raise ValueError("shapes expected")
        for c in self.field_cells:
            p = self.pts[np.array(c.node_tags)]
            if dimension == self.d and np.shape(cell_points) == np.shape(p) and all(equal(self.E, a, b) for a, b in zip(np.ravel(cell_points), np.ravel(p))):
                return self.data[c.id].mapping(phi[1])
        raise ValueError("mapping of something that is not a cell of the field")

    def run(self, fn, *a):
        m = importlib.import_module(MOD[:-1])
        rec = Recorder()
        before, points = list(self.alpha), list(np.ravel(self.pts))
        if self.E.symbolic:
            self.E.external.add("meshio.Mesh(points, cells, point_data, cell_data).write stores what it is given (real files: bounded part)")
        self.E.contract("geometry.mapping.evaluate_mapping")
        with Stub(m, evaluate_linear_shapes=lambda points, data: ("shapes", points, data), evaluate_mapping=self.mapping), \
                Stub(sys.modules["meshio"], Mesh=rec.Mesh, write=rec.write, write_points_cells=rec.write_points_cells):
            getattr(m, fn)(*a)
        E = self.E
        E.prove("one file is written, under the given name", len(rec.written) == 1 and rec.written[0][0] == "out.vtk")
        E.prove_eq("neither the coefficients nor the points are modified", num(E, list(self.alpha) + list(np.ravel(self.pts))), num(E, before + points))
        return rec.written[0][1] if rec.written else None

    # ---- specification
    def value(self, cell, p, s):
        nc, nphi, vec = self.fields[s]
        tab, a = self.data[cell.id].tab[s], self.alpha[self.dest[self.element_of[cell.id]][s]].reshape(nphi, nc)
        if not vec:
            return num(self.E, [sum(a[j, c] * tab[0, p, j, 0] for j in range(nphi)) for c in range(nc)])
        return num(self.E, [sum(a[j, c] * tab[0, p, j, k] for j in range(nphi)) for c in range(nc) for k in range(self.d)])

    def at_node(self, node, s):
        vals = [self.value(c, list(c.node_tags).index(node), s) for c in self.field_cells if node in list(c.node_tags)]
        return sum(vals[1:], vals[0]) / len(vals) if vals else None

    def at_cell(self, cell, s):
        return self.value(cell, self.d + 1, s)

    def check_mesh(self, w, cells):
        """written cells = the given ones, each once; returns them in the written order"""
        E = self.E
        E.prove_eq("the points of the mesh are written", np.asarray(w.points), self.pts)
        blocks = list(w.cells.items()) if isinstance(w.cells, dict) else [(b[0], b[1]) if isinstance(b, (tuple, list)) else (b.type, b.data) for b in w.cells]
        dim = cells[0].dimension
        E.prove("one block of cells of the right kind", [b[0] for b in blocks] == [MESHIO[dim]])
        got = [tuple(int(i) for i in r) for r in blocks[0][1]]
        by = {tuple(int(i) for i in c.node_tags): c for c in cells}
        E.prove("every cell of the mesh once, with its own nodes", sorted(got) == sorted(by))
        return [by[g] for g in got if g in by]

    def check_nodes(self, table, want, what, outside="zero"):
        E = self.E
        rows = np.asarray(table)
        E.prove(what + ": one row per mesh point", len(rows) == len(self.pts))
        for i in range(len(self.pts)):
            v = want(i)
            if v is None:
                ok = all(isinstance(x, float) and x != x for x in rows[i]) if outside == "nan" else all(equal(E, x, 0) for x in rows[i])
                E.prove(what + ": nothing at points outside the field", ok)
            else:
                E.prove(what + ": as many columns as components", len(rows[i]) == len(v))
                E.prove_eq(what + ": value at the mesh point", rows[i], v)

    def check_cells(self, table, cells, want, what, outside="zero"):
        E = self.E
        E.prove(what + ": one array for the one block of cells", len(table) == 1)
        rows = np.asarray(table[0])
        E.prove(what + ": one row per written cell", len(rows) == len(cells))
        for r, c in zip(rows, cells):
            v = want(c)
            if v is None:
                E.prove(what + ": nothing at cells outside the field", all(isinstance(x, float) and x != x for x in r))
            else:
                E.prove(what + ": as many columns as components", len(r) == len(v))
                E.prove_eq(what + ": value of the cell of that row", r, v)


class ExactFun:
    """an exact function: arbitrary values at every mesh point and every cell centroid"""

    def __init__(self, E, name, env, shape):
        self.E, self.env, self.shape = E, env, shape
        self.node = [E.arr("f%s_n%d" % (name, i), shape, gen=lambda r: r.uniform(-2, 2)) for i in range(len(env.pts))]
        self.cell = {c.id: E.arr("f%s_c%d" % (name, c.id), shape, gen=lambda r: r.uniform(-2, 2)) for c in env.field_cells}

    def __call__(self, x, y, z):
        E = self.E
        for i, p in enumerate(self.env.pts):
            if all(equal(E, a, b) for a, b in zip((x, y, z), p)):
                return self.node[i].copy()
        for c in self.env.field_cells:
            t = self.env.pts[np.array(c.node_tags)]
            cen = sum(t[1:], t[0]) / len(t)
            if all(equal(E, a, b) for a, b in zip((x, y, z), cen)):
                return self.cell[c.id].copy()
        raise ValueError("exact function evaluated neither at a mesh point nor at the centroid of a cell of the field")


def layout(d):
    L = {"p": (1, 2, False), "u": (3, 2, False)}
    if d > 1:
        L["v"] = (2, 3, True)
    return L


def pick(E, d):
    """one field of every kind, alone or next to another one before or after it"""
    s = E.choice("field", list(layout(d)))
    other = E.choice("other_field", ["none", "before", "after"])
    L = {s: layout(d)[s]}
    o = {"o": (2, 2, False)}
    return s, {**o, **L} if other == "before" else ({**L, **o} if other == "after" else L)


def unit_export(fn, d):
    def run(E):
        s, L = pick(E, d)
        where = E.choice("data", ["points", "cells"])
        cc = [s] if where == "cells" else []
        lower = d < 3 and where == "points" and fn == "write_vtk_file_with_exact_solution" and s == "p" and E.choice("mesh", ["own", "higher dimension"]) == "higher dimension"
        partial = (where == "points" or fn.startswith("write_fe_spaces")) and E.choice("part", [False, True])
        env = Patch(E, d, d + 1 if lower else d, L, partial)
        E.cover()
        if fn == "write_vtk_file":
            args = ("out.vtk", env.mesh, env.space, env.alpha, cc)
        elif fn.startswith("write_fe_spaces"):
            args = ("out.vtk", env.mesh, [env.space], dict(env.exact), env.alpha, cc)
        else:
            args = ("out.vtk", env.mesh, env.space, dict(env.exact), env.alpha, cc)
        w = env.run(fn, *args)
        if w is None:
            return
        cells = env.check_mesh(w, env.field_cells if fn == "write_vtk_file_with_exact_solution" else env.all_cells)
        nan = "nan" if fn.startswith("write_fe_spaces") else "zero"
        inside = lambda c: c in env.field_cells
        for f in L:
            if fn == "write_vtk_file_pointwise_l2_error":
                tables = {"_error": (lambda i, f=f: diff(env, env.at_node(i, f), env.exact[f].node[i]),
                                     lambda c, f=f: diff(env, env.at_cell(c, f), env.exact[f].cell[c.id]))}
            else:
                tables = {"_h": (lambda i, f=f: env.at_node(i, f), lambda c, f=f: env.at_cell(c, f) if inside(c) else None)}
                if fn != "write_vtk_file":
                    tables["_e"] = (lambda i, f=f: env.exact[f].node[i].ravel() if env.at_node(i, f) is not None else None,
                                    lambda c, f=f: env.exact[f].cell[c.id].ravel() if inside(c) else None)
            for suffix, (node, cell) in tables.items():
                name = f + suffix
                E.prove("field %s is exported as %s data under its own name" % (name, "cell" if f in cc else "point"),
                        (name in w.cell_data) == (f in cc) and (name in w.point_data) == (f not in cc))
                if suffix == "_error":
                    check_norms(env, w, f, cells, f in cc, node, cell)
                elif f in cc:
                    env.check_cells(w.cell_data[name], cells, cell, name, nan)
                else:
                    env.check_nodes(w.point_data[name], node, name, nan)

    return run


def diff(env, a, b):
    return None if a is None else a - b.ravel()


def check_norms(env, w, f, cells, cc, node, cell):
    E = env.E
    rows = np.asarray(w.cell_data[f + "_error"][0] if cc else w.point_data[f + "_error"])
    items = list(cells) if cc else list(range(len(env.pts)))
    E.prove("error: one row per point or cell, one column", np.shape(rows) == (len(items), 1))
    for r, i in zip(rows, items):
        v = cell(i) if cc else node(i)
        if v is None:
            E.prove("error: nothing at points outside the field", equal(E, r[0], 0))
        else:
            E.prove("error: not negative", r[0] >= 0)
            E.prove_eq("error: its square is the squared difference of all components", r[0] * r[0], sum(x * x for x in v))


def unit_two_spaces(d):
    """several spaces on different cells into one file"""
    def run(E):
        cc = E.choice("cell_centered", [[], ["p"], ["o"]])
        env = Patch(E, d, d, {"p": (1, 2, False)}, True)
        env2 = Patch2(E, env, {"o": (2, 2, False)})
        E.cover()
        # one coefficient vector for both: the second space is shifted behind the first
        n = len(env.alpha)
        for v in env2.dest.values():
            for s in v:
                v[s] = v[s] + n
        alpha = num(E, list(env.alpha) + list(env2.alpha))
        env.alpha = env2.alpha = alpha
        m = env.mapping
        env.mapping = lambda *a: env2.mapping(*a) if env2.mine(a[2]) else m(*a)
        w = env.run("write_fe_spaces_on_vtk_file_with_exact_solution", "out.vtk", env.mesh, [env.space, env2.space], {**env.exact, **env2.exact}, alpha, cc or None)
        if w is None:
            return
        cells = env.check_mesh(w, env.all_cells)
        for e, f in ((env, "p"), (env2, "o")):
            for suffix, node, cell in (("_h", lambda i: e.at_node(i, f), lambda c: e.at_cell(c, f) if c in e.field_cells else None),
                                       ("_e", lambda i: e.exact[f].node[i] if e.at_node(i, f) is not None else None,
                                        lambda c: e.exact[f].cell[c.id] if c in e.field_cells else None)):
                E.prove("field %s: point or cell data as asked" % (f + suffix), ((f + suffix) in w.cell_data) == (f in cc) and ((f + suffix) in w.point_data) == (f not in cc))
                if f in cc:
                    e.check_cells(w.cell_data[f + suffix], cells, cell, f + suffix, "nan")
                else:
                    e.check_nodes(w.point_data[f + suffix], node, f + suffix, "nan")

    return run


class Patch2(Patch):
    """the cells the first space leaves out"""

    def __init__(self, E, first, fields):
        d = first.d
        self.E, self.d, self.fields, self.pts, self.mesh, self.all_cells = E, d, fields, first.pts, first.mesh, first.all_cells
        self.field_cells = [c for c in first.all_cells if c not in first.field_cells]
        self.data = {c.id: PointsCell(E, "b%d_" % c.id, d, fields) for c in self.field_cells}
        g = graphs(d, self.field_cells, self.mesh.cells)
        ents = {k: sorted({int(s) for c in self.field_cells for s in c.sub_cells_ids[k]}) for k in range(d + 1)}
        top = NS(mesh=self.mesh, dimension=d, entities_by_dimension=lambda k: list(ents[k]), entity_map_by_dimension=lambda k: g[k], entity_maps=g, entity_ids=ents)
        from basis.element_type import type_by_dimension

        ((s, (nc, nphi, vec)),) = fields.items()
        order = self.field_cells
        els = [Elem(self.data[c.id], s, NS(cell=c, mesh=self.mesh, dimension=d)) for c in order]
        ds = {s: NS(n_comp=nc, elements=els, family=family(vec), dimension=d, name=s, k_order=1, mesh_topology=top, element_type=type_by_dimension(d),
                    id_to_element={c.id: i for i, c in enumerate(order)}, element_ids=[c.id for c in order])}
        self.dest = {i: {s: np.arange(nc * nphi)[::-1] + i * nc * nphi} for i in range(len(order))}
        self.element_of = {c.id: i for i, c in enumerate(order)}
        self.alpha = E.vec("beta", nc * nphi * len(order), gen=lambda r: r.uniform(-2, 2))
        env = self
        self.space = NS(discrete_spaces=ds, names=list(ds), dof_shift=0, fields_physical_tags={s: [OUTSIDE]}, dimension=lambda: d,
                        discrete_spaces_destination_indexes=lambda i: {k: v.copy() for k, v in env.dest[i].items()})
        self.exact = {s: ExactFun(E, s, self, (nc,))}

    def mine(self, cell_points):
        return any(np.shape(cell_points) == (self.d + 1, 3) and all(equal(self.E, a, b) for a, b in zip(np.ravel(cell_points), np.ravel(self.pts[np.array(c.node_tags)])))
                   for c in self.field_cells)


def unit_exact_only(d):
    def run(E):
        env = Patch(E, d, d, {"p": (1, 1, False), "u": (2, 1, False)})
        E.cover()
        w = env.run("write_vtk_file_exact_solution", "out.vtk", env.mesh, {"p": 1, "u": 2}, dict(env.exact))
        if w is None:
            return
        env.check_mesh(w, env.all_cells)
        E.prove("the exact functions are the only data", sorted(w.point_data) == ["p_e", "u_e"] and not w.cell_data)
        for f in ("p", "u"):
            env.check_nodes(w.point_data[f + "_e"], lambda i: env.exact[f].node[i], f + "_e")

    return run


WRITERS = ["write_vtk_file", "write_vtk_file_with_exact_solution", "write_vtk_file_pointwise_l2_error", "write_fe_spaces_on_vtk_file_with_exact_solution"]
BOUNDS = "patches of 3 cells, 1-3 components, 2-3 functions per cell, one or two fields"
UNITS = []
for _d in (1, 2, 3):
    for _f in WRITERS:
        UNITS.append(Unit("%s dim %d" % (_f, _d), unit_export(_f, _d), [MOD + _f, MOD + "node_average_quatity", MOD + "cell_centered_quatity"],
                          kind="bounded-size", bounds=BOUNDS, timeout=150, samples=60))
    UNITS.append(Unit("several spaces dim %d" % _d, unit_two_spaces(_d), [MOD + WRITERS[3], MOD + "node_average_quatity", MOD + "cell_centered_quatity"],
                      kind="bounded-size", bounds=BOUNDS, timeout=150, samples=30))
    UNITS.append(Unit("write_vtk_file_exact_solution dim %d" % _d, unit_exact_only(_d), [MOD + "write_vtk_file_exact_solution"],
                      kind="bounded-size", bounds="patches of 3 cells, two fields of 1 and 2 components", samples=20))


# ---------------------------------------------------------------- real spaces, real files
def bounded_files(B):
    """the files read back: every point and cell value against an own evaluation of the real elements"""
    from .c17 import case, polynomial
    from .meshes import cleanup, scratch

    while B.more():
        d, fields, desc, build = case(B, embed="flat")
        seed = B.rng.randrange(10**6)
        names = list(fields)
        cc = [f for f in names if B.rng.random() < 0.4]
        which = B.rng.choice(WRITERS)
        desc["writer"], desc["cell_centered"] = which, cc

        def run():
            import basix
            import meshio
            import os
            import random

            m = importlib.import_module(MOD[:-1])
            space, r = build(), random.Random(seed)
            mesh = space.discrete_spaces[names[0]].mesh_topology.mesh
            alpha = np.random.default_rng(seed).normal(size=space.n_dof)
            vec = {f: v[1] != "Lagrange" for f, v in fields.items()}
            funs = {f: polynomial(r, d, (v[0], d) if vec[f] else (v[0],), 2) for f, v in fields.items()}
            out = os.path.join(scratch(), "out.vtk")
            if os.path.exists(out):
                os.remove(out)
            args = {WRITERS[0]: (space, alpha, cc), WRITERS[3]: ([space], funs, alpha, cc)}.get(which, (space, funs, alpha, cc))
            with contextlib.redirect_stderr(io.StringIO()):
                getattr(m, which)(out, mesh, *args)
            w = meshio.read(out)
            assert np.array_equal(w.points, mesh.points), "points"
            cells = [c for c in mesh.cells if c.dimension == d]
            by = {tuple(int(i) for i in c.node_tags): c for c in cells}
            assert len(w.cells) == 1 and w.cells[0].type == MESHIO[d]
            rows = [tuple(int(i) for i in x) for x in w.cells[0].data]
            assert sorted(rows) == sorted(by), "cells"

            def local(f, c, X):
                sp = space.discrete_spaces[f]
                i = sp.element_ids.index(c.id)
                el = sp.elements[i]
                x, jac, det, inv = el.evaluate_mapping(np.array([X]))
                phi = el.evaluate_basis(np.array([X]), jac, det, inv)[0, 0]
                a = alpha[space.destination_indexes(i, f)].reshape(len(phi), -1)
                return (a.T @ phi)[:, : d if vec[f] else 1].ravel()

            ref = basix.geometry(space.discrete_spaces[names[0]].element_type)
            for f in names:
                if f in cc:
                    num_h = [local(f, by[t], ref.mean(axis=0)) for t in rows]
                    pos = [mesh.points[list(t)].mean(axis=0) for t in rows]
                    data = {k: np.asarray(v[0]) for k, v in w.cell_data.items()}
                else:
                    num_h, pos, data = [], mesh.points, w.point_data
                    for n in range(len(pos)):
                        around = [(c, list(c.node_tags).index(n)) for c in cells if n in list(c.node_tags)]
                        num_h.append(np.mean([local(f, c, ref[i]) for c, i in around], axis=0))
                num_h = np.array(num_h)
                num_e = np.array([np.ravel(funs[f](*x)) for x in pos])
                want = {"_h": num_h, "_e": num_e, "_error": np.linalg.norm(num_h - num_e, axis=1)[:, None]}
                keys = {WRITERS[0]: ["_h"], WRITERS[2]: ["_error"]}.get(which, ["_h", "_e"])
                for k in keys:
                    assert f + k in data, "missing " + f + k
                    got = np.asarray(data[f + k], dtype=float).reshape(len(pos), -1)
                    n = want[k].shape[1]
                    assert got.shape[1] >= n and np.allclose(got[:, :n], want[k], rtol=1e-8, atol=1e-9 * (1 + np.abs(num_h).max())), (f + k, got[:2], want[k][:2])

        B.case("files:d%d %s" % (d, which), desc, run)
    cleanup()


BOUNDED = [Bounded("exported files", bounded_files, [MOD + f for f in WRITERS],
                   "random flat meshes of dimension 1..3, one or two fields of every family, random coefficients and polynomial exact functions; vtk files read back",
                   budget=20)]
