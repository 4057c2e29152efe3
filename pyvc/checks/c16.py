"""C16: the L2 projection solves the Galerkin system of its mass form.

Element level (real L2ProjectorWeakForm.evaluate_form, arbitrary geometry, tabulation, weights, function
values): residual + matrix c  =  sum_p w det (u_h(c) - f) . phi_i  for every coefficient vector c, and it
vanishes when f is u_h(c) at the quadrature points.  Global level (real l2_projector over the contract of
the form and of PETSc): the solved system is the sum of the element systems, so the returned vector x
satisfies sum_cells (matrix x_cell + residual) = 0, i.e. the error is orthogonal to every basis function.
"""
import contextlib
import importlib
import io
import itertools
from types import SimpleNamespace as NS

from .. import tnp as np
from ..harness import Unit, Bounded
from .c15 import VolumeEnv, cls_of, num, same
from .c17 import case, polynomial, discrete, rule

PID = "C16"
IMPORTS = ["postprocess.projectors", "weak_forms.l2_projector_weak_form"]
FORM, PROJ = "weak_forms.l2_projector_weak_form.L2ProjectorWeakForm.evaluate_form", "postprocess.projectors.l2_projector"


# ---------------------------------------------------------------- element level
def field_value(env, c, s, i):
    nc, nphi, vec = env.spaces[s]
    tab, b = env.cell.tab[s], env.base[s]
    if not vec:
        return num(env.E, [sum(c[b + k + nc * j] * tab[0, i, j, 0] for j in range(nphi)) for k in range(nc)])
    return num(env.E, [[sum(c[b + k + nc * j] * tab[0, i, j, a] for j in range(nphi)) for a in range(env.d)] for k in range(nc)])


class Given:
    """a user function with given values at the points of the cell, last axis the point"""

    def __init__(self, env, values):
        self.env, self.v = env, values

    def __call__(self, x, y, z):
        rows = []
        for p in zip(x, y, z):
            hit = [i for i in range(self.env.n) if all(same(a, b) for a, b in zip(p, self.env.cell.x[i]))]
            if not hit:
                raise ValueError("function evaluated away from the quadrature points of the cell")
            rows.append(hit[0])
        return self.v[..., rows]


def unit_element(d):
    def fn(E):
        fam = E.choice("fields", ["scalar", "vector", "both"] if d > 1 else ["scalar", "both"])
        nc = E.choice("components", [1, 2])
        member = E.choice("function", ["any", "of the space"])
        spaces = {}
        if fam != "vector":
            spaces["p"] = (nc, 3 if d else 1, False)
        if fam != "scalar":
            spaces["v"] = (nc if fam == "vector" else 1, 2 if d else 1, d > 1)
        env = VolumeEnv(E, d, 2 if d else 1, spaces)
        c = E.vec("c", env.ndof, gen=lambda r: r.uniform(-2, 2))
        E.cover()
        funs = {}
        for s, (n, nphi, vec) in spaces.items():
            uh = np.stack([field_value(env, c, s, i) for i in range(env.n)], axis=-1)
            if member == "any":
                shape = (n, d + (1 if nc == 2 and d == 2 else 0)) if vec else (n,)   # a third component may be given and is ignored
                v = E.arr("f_" + s, shape + (env.n,), gen=lambda r: r.uniform(-2, 2))
            else:
                v = uh
            funs[s] = (v, uh)
        form = cls_of("l2_projector_weak_form", "L2ProjectorWeakForm")(env.space)
        form.functions = {s: Given(env, v.copy()) for s, (v, _) in funs.items()}
        r, j = form.evaluate_form(1, env.alpha)
        r, j = np.asarray(r), np.asarray(j)
        E.prove("shape of the local system", r.shape == (env.ndof,) and j.shape == (env.ndof, env.ndof))
        want = num(E, [0] * env.ndof)
        for s, (n, nphi, vec) in spaces.items():
            v, uh = funs[s]
            tab = env.cell.tab[s]
            for i in range(env.n):
                k = env.w[i] * env.cell.det[i]
                for q in range(nphi):
                    for comp in range(n):
                        if vec:
                            t = sum((uh[comp, a, i] - v[comp, a, i]) * tab[0, i, q, a] for a in range(d))
                        else:
                            t = (uh[comp, i] - v[comp, i]) * tab[0, i, q, 0]
                        want[env.base[s] + comp + n * q] += k * t
        got = r + j @ c
        if member == "any":
            E.prove_eq("residual + matrix c is the integral of (u_h(c) - f) times each basis function", got, want)
        else:
            E.prove_eq("residual + matrix c vanishes when f is u_h(c)", got, num(E, [0] * env.ndof))
        for a in range(env.ndof):
            for b in range(a):
                E.prove_eq("the matrix is symmetric", j[a, b], j[b, a])
        x = c
        q = x @ (j @ x)
        terms = [((env.w[i], env.cell.det[i]), y) for s in spaces for i in range(env.n) for y in np.ravel(field_value(env, c, s, i))]
        E.prove_eq("c . matrix c is the integral of u_h(c)^2 (so the matrix is semi-definite)", q, sum(a * b * y * y for (a, b), y in terms))

    return fn


# ---------------------------------------------------------------- global level
class Vec:
    def __init__(self, E, n):
        self.E, self.array = E, num(E, [0] * n)

    def setArray(self, a):
        self.array = np.asarray(a)

    def getArray(self, *a, **k):
        return self.array

    def __getattr__(self, k):
        if k.startswith("assembl"):
            return lambda *a, **kw: None
        raise AttributeError(k)


class Mat:
    """petsc4py Mat by contract: AIJ stores every entry, SBAIJ stores the upper triangle of a symmetric matrix."""

    def __init__(self, E):
        self.E, self.kind, self.n = E, "aij", None

    def createAIJ(self, size, *a, **k):
        self.n = int(np.ravel(size)[0])
        self.a = num(self.E, [[0] * self.n for _ in range(self.n)])
        return self

    def create(self, *a, **k):
        return self

    def setSizes(self, size, *a):
        return self.createAIJ(size)

    def setType(self, t):
        self.kind = str(t).lower()

    @staticmethod
    def _add(addv):
        return addv is True or addv == 2 or str(addv).endswith("ADD_VALUES") or (addv not in (None, False) and bool(addv))

    def setValue(self, row=None, col=None, value=None, addv=None):
        row, col = int(row), int(col)
        if row < 0 or col < 0:
            return
        self.a[row, col] = (self.a[row, col] if self._add(addv) else 0) + value

    def setValues(self, rows, cols, values, addv=None):
        rows, cols = np.atleast_1d(rows), np.atleast_1d(cols)
        v = np.asarray(values, dtype=object).reshape(len(rows), len(cols))
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                self.setValue(r, c, v[i, j], addv)

    def createVecLeft(self):
        return Vec(self.E, self.n)

    createVecRight = createVecLeft

    def full(self):
        if "sbaij" not in self.kind:
            return self.a
        out = self.a.copy()
        for i in range(self.n):
            for j in range(i):
                out[i, j] = self.a[j, i]
        return out

    def __getattr__(self, k):
        if k.startswith(("assembl", "setOption", "setUp", "setFromOptions", "setPrealloc", "setSymm", "zeroEntries")):
            return lambda *a, **kw: None
        raise AttributeError(k)


class Quiet:
    def __getattr__(self, k):
        return lambda *a, **kw: None


class KSP:
    """petsc4py KSP by contract: solve(b, x) leaves in x some vector with A x = b."""
    log = None

    def __init__(self, E, log):
        self.E, self._log, self.A = E, log, None

    def create(self, *a, **k):
        return self

    def setOperators(self, A, *a):
        self.A = A

    def getPC(self):
        return Quiet()

    def solve(self, b, x):
        n = self.A.n
        self._log.append((self.A.full().copy(), np.asarray(b.array).copy()))
        if self.E.symbolic:
            for i in range(n):
                x.array[i] = self.E.fresh("x")
        else:
            x.array[:] = np.linalg.lstsq(np.asarray(self._log[-1][0], dtype=float), np.asarray(b.array, dtype=float), rcond=None)[0]

    def __getattr__(self, k):
        if k.startswith("set"):
            return lambda *a, **kw: None
        raise AttributeError(k)


def unit_global(E):
    sym_q = E.choice("symmetric", [True, False])
    lay = E.choice("dofs", [[[2, 0], [0, 1]], [[1, 2], [2, 1]], [[0], [2, 1], [0]]])
    shift = E.choice("dof_shift_of_space", [0, 4])
    N = 3
    E.symbolic and E.external.add("petsc4py Mat/Vec/KSP by contract: entries added, sbaij mirrors the upper triangle, solve returns a solution")
    loc = []
    for e, dofs in enumerate(lay):
        n = len(dofs)
        j = num(E, [[0] * n for _ in range(n)])
        for a in range(n):
            for b in range(a, n):
                big = a == b
                j[a, b] = j[b, a] = E.real("m%d_%d%d" % (e, a, b), gen=(lambda r: r.uniform(1, 2)) if big else (lambda r: r.choice([0, 0.5, 1e-9])))
        loc.append((E.vec("r%d" % e, n, gen=lambda r: r.uniform(-1, 1)), j))
    E.cover()
    seen, states = [], []
    m = importlib.import_module("postprocess.projectors")

    class FE:
        n_dof = N
        dof_shift = shift
        discrete_spaces = {"a": NS(elements=[NS(data=NS(cell=NS(id=10 + i))) for i in range(len(lay))], family=None, n_comp=1)}
        names = ["a"]

        def destination_indexes(self, i, field=None):
            return np.array(lay[i]) + self.dof_shift

    fe = FE()
    funs = {"a": object()}

    class Form:
        def __init__(self, space):
            self.space = space

        def evaluate_form(self, i, alpha):
            seen.append(int(i))
            states.append((self.functions is funs, len(alpha) == len(lay[i])))
            r, j = loc[i]
            return r.copy(), j.copy()

    log = []
    PET = NS(Mat=lambda *a: Mat(E), KSP=lambda *a: KSP(E, log), InsertMode=NS(ADD_VALUES=2, INSERT_VALUES=1), Vec=lambda *a: Vec(E, N))
    x = m_call(E, m, Form, PET, fe, funs, sym_q)
    E.prove("every cell is evaluated exactly once, with the given functions", sorted(seen) == list(range(len(lay))) and all(a and b for a, b in states))
    E.prove("the dof shift of the space is restored", fe.dof_shift == shift)
    E.prove("one system is solved", len(log) == 1)
    A, b = log[-1]
    x = np.asarray(x)
    E.prove("one coefficient per unknown", x.shape == (N,))
    res = num(E, [0] * N)
    M = num(E, [[0] * N for _ in range(N)])
    for dofs, (r, j) in zip(lay, loc):
        for p, P in enumerate(dofs):
            res[P] += r[p] + sum(j[p, q] * x[Q] for q, Q in enumerate(dofs))
            for q, Q in enumerate(dofs):
                M[P, Q] += j[p, q]
    E.prove_eq("the system matrix is the sum of the element matrices", A, M)
    E.prove_eq("A x - b is the sum of the element residuals at x", A @ x - b, res)


def m_call(E, m, Form, PET, fe, funs, sym_q):
    from .c09 import Stub

    with contextlib.redirect_stdout(io.StringIO()):
        with Stub(m, L2ProjectorWeakForm=Form, PETSc=PET):
            return m.l2_projector(fe, funs, symmetric_solver_q=sym_q)


BE = "one cell; 2 quadrature points, 1-3 basis functions per field, 1-2 components, 1-2 fields; all values"
UNITS = [Unit("element system %dD" % d, unit_element(d), [FORM], kind="bounded-size", bounds=BE, timeout=120) for d in (0, 1, 2, 3)]
UNITS.append(Unit("projector", unit_global, [PROJ], kind="bounded-size", bounds="3 unknowns, 2-3 cells of 1-2 unknowns; all values", timeout=200, max_paths=6000))


# ---------------------------------------------------------------- real projections
def degree_of(fam, k):
    return k if fam in ("Lagrange", "BDM", "N2E") else k - 1


def bounded_projection(B):
    """functions of the space are reproduced; other errors are orthogonal to the space; twice is once"""
    from .meshes import cleanup

    while B.more():
        d, fields, desc, build = case(B, scales=(1.0, 1.0, 1e-4, 1e3), embed="flat")
        seed = B.rng.randrange(10**6)
        inside = B.rng.random() < 0.6
        sym_q = B.rng.random() < 0.5
        P = np.asarray(desc["points"])
        scale = float(np.max(np.abs(P)))
        desc = dict(desc, function="in the space" if inside else "polynomial of higher degree", symmetric=sym_q)

        def run():
            import contextlib
            import io
            import random
            from postprocess.projectors import l2_projector

            space, r = build(), random.Random(seed)
            vec = {f: v[1] != "Lagrange" for f, v in fields.items()}
            funs = {f: polynomial(r, d, (v[0], 3) if vec[f] else (v[0],), degree_of(v[1], v[2]) if inside else v[2] + 2, scale)
                    for f, v in fields.items()}
            with contextlib.redirect_stdout(io.StringIO()):
                alpha = l2_projector(space, funs, symmetric_solver_q=sym_q)
            pts, w = space.quadrature[d]
            res, size = np.zeros(space.n_dof), np.zeros(space.n_dof)
            worst, big = 0.0, 0.0
            for f in fields:
                D = d if vec[f] else 1
                for iel, el in enumerate(space.discrete_spaces[f].elements):
                    x, det, v = discrete(space, f, alpha, iel, pts)
                    ex = np.moveaxis(np.asarray(funs[f](x[:, 0], x[:, 1], x[:, 2])), -1, 0)
                    ex = ex[:, :, None] if not vec[f] else ex
                    diff = (v - ex if not vec[f] else v[:, :, :D] - ex[:, :, :D])
                    worst, big = max(worst, np.max(np.abs(diff))), max(big, np.max(np.abs(ex)))
                    xx, jac, dt, inv = el.evaluate_mapping(pts)
                    phi = el.evaluate_basis(pts, jac, dt, inv)[0][:, :, :D]
                    dest = space.destination_indexes(iel, f)
                    t = np.einsum("p,pcd,pjd->jc", w * det, diff, phi).ravel()
                    s = np.einsum("p,pcd,pjd->jc", w * det, np.abs(ex[:, :, :D]) + np.abs(v[:, :, :D]), np.abs(phi)).ravel()
                    np.add.at(res, dest, t)
                    np.add.at(size, dest, s)
            if inside:
                assert worst <= 1e-6 * (big + 1e-300), ("a function of the space is not reproduced", worst, big)
            assert np.all(np.abs(res) <= 1e-7 * size + 1e-300), ("the error is not orthogonal to the space", float(np.max(np.abs(res) / (size + 1e-300))))

        B.case("projection:d%d:%s" % (d, "+".join(sorted({v[1] for v in fields.values()}))), desc, run)
    cleanup()


BOUNDED = [Bounded("projections on random meshes", bounded_projection, [PROJ, FORM],
                   "random meshes of dimension 1..3 at scales 1e-4..1e3, every family, orders 1-3, one or two fields, both solvers; polynomials in and outside the space",
                   budget=40)]
