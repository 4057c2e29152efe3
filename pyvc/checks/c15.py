"""C15: element matrices linearise element residuals, which are the quadrature of the stated forms.

Each real evaluate_form / evaluate_form_vectorized runs on a cell whose mapping, basis tabulation,
quadrature, material, source and state are arbitrary (one symbol per entry, sizes fixed); the result is
compared with  R_i = sum_p w_p det_p ( a(S(alpha), T_i) + l(T_i) )  and  J_ij = sum_p w_p det_p a(e_j, T_i)
where a and l are written down below, form by form, on the fields and not on matrices.  The real
auto_diff package executes symbolically.  Elements, spaces and helper functions that have their own
properties (mapping C01, trace map C06/C07, normal C08, neighbour queries C14) are used by contract.
"""
import importlib
import itertools
from types import SimpleNamespace as NS

from .. import npx
from .. import tnp as np
from ..harness import Unit

PID = "C15"
IMPORTS = ["weak_forms.laplace_primal_weak_form"]
BETA = 1.0e12
BOUNDED = []


# ---------------------------------------------------------------- environment
def num(E, a):
    return np.array(a, dtype=object if E.symbolic else float)


def same(a, b):
    n = getattr(a, "n", None)
    if n is not None or getattr(b, "n", None) is not None:
        return n is getattr(b, "n", None)
    return float(a) == float(b)


class Cell:
    """Geometry and basis data of one cell at the points of one quadrature rule."""

    def __init__(self, E, name, d, n, spaces, trace_of=None, label=0.0):
        self.E, self.name, self.d, self.n = E, name, d, n
        dec = lambda k: E.arr  # noqa
        self.points = np.array([[0.1 + 0.07 * i + 0.01 * a + label for a in range(max(d, 1))] for i in range(n)])
        if d == 0:
            self.points = np.array([1.0])
        small = lambda r: r.uniform(-1, 1)
        self.x = E.arr(name + "x", (n, 3), gen=lambda r: r.uniform(-3, 3))
        self.jac = E.arr(name + "jac", (n, 3, max(d, 1)), gen=small)
        self.det = E.vec(name + "det", n, gen=lambda r: r.uniform(0.3, 2))
        self.inv = E.arr(name + "inv", (n, max(d, 1), 3), gen=small)
        self.tab = {}
        for s, (ncomp, nphi, vec) in spaces.items():
            self.tab[s] = E.arr(name + "tab_" + s, (1 + max(d, 1), n, nphi, 3 if vec else 1), gen=small)
        for v in self.det:
            E.assume(v > 0)

    def rows(self, points):
        pts = np.asarray(points, dtype=float).reshape(len(points), -1)
        own = self.points.reshape(self.n, -1)
        out = []
        for p in pts:
            hit = [i for i in range(self.n) if np.array_equal(own[i], p)]
            if not hit:
                raise ValueError("evaluated at points that are not the quadrature points of this cell")
            out.append(hit[0])
        return out

    def mapping(self, points):
        r = self.rows(points)
        return self.x[r].copy(), self.jac[r].copy(), self.det[r].copy(), self.inv[r].copy()

    def basis(self, s, points, jac, det, inv):
        r = self.rows(points)
        out = self.tab[s][:, r].copy()
        ok = all(
            np.shape(a) == np.shape(b) and all(same(u, v) for u, v in zip(np.ravel(a), np.ravel(b)))
            for a, b in ((jac, self.jac[r]), (det, self.det[r]), (inv, self.inv[r]))
        )
        if not ok:                        # basis functions mapped with a foreign geometry: unrelated values
            for i in np.ndindex(*out.shape):
                out[i] = self.E.fresh("foreign") if self.E.symbolic else out[i] + 1.0 + 0.1 * sum(i)
        return out


class Elem:
    def __init__(self, cell, s, data):
        self.cell_, self.s, self.data = cell, s, data

    def evaluate_mapping(self, points):
        return self.cell_.mapping(points)

    def evaluate_basis(self, points, jac, det, inv):
        return self.cell_.basis(self.s, points, jac, det, inv)


class Fun:
    """A user function of position: arbitrary values, one per point of the cell; the last axis is the point."""

    def __init__(self, E, name, cell, shape, gen=None, positive=False):
        self.cell, self.shape = cell, shape
        self.v = E.arr("f_" + name, shape + (cell.n,), gen=gen or (lambda r: r.uniform(0.3, 2)))
        if positive:
            for y in self.v.ravel():
                E.assume(y > 0)
        self.given = []

    def row(self, x, y, z):
        for i in range(self.cell.n):
            if all(same(a, b) for a, b in zip((x, y, z), self.cell.x[i])):
                return i
        raise ValueError("function evaluated away from the quadrature points of the cell")

    def __call__(self, x, y, z):
        if np.ndim(x) == 0:
            r = self.v[..., self.row(x, y, z)]
            out = r.copy() if self.shape else r
        else:
            idx = [self.row(*p) for p in zip(x, y, z)]
            out = self.v[..., idx].copy()
        if isinstance(out, np.ndarray):
            self.given.append((out, out.copy()))
        return out

    def untouched(self):
        return all(same(a, b) for o, c in self.given for a, b in zip(o.ravel(), c.ravel()))


DECOY = {}


def decoy_cell(E, d, n, spaces):
    """Another cell of the same space, with its own numbers: nothing of it may enter."""
    c = object.__new__(Cell)
    rng = np.random.default_rng(7)
    k = max(d, 1)
    c.E, c.name, c.d, c.n = E, "decoy", d, n
    c.points = np.array([[0.1 + 0.07 * i + 0.01 * a for a in range(k)] for i in range(n)])
    if d == 0:
        c.points = np.array([1.0])
    c.x, c.jac = num(E, rng.random((n, 3))), num(E, rng.random((n, 3, k)))
    c.det, c.inv = num(E, 1 + rng.random(n)), num(E, rng.random((n, k, 3)))
    c.tab = {s: num(E, rng.random((1 + k, n, nphi, 3 if vec else 1))) for s, (nc, nphi, vec) in spaces.items()}
    return c


LAGRANGE, RT = None, None


def family(vec):
    fam = importlib.import_module("basis.element_family")
    return fam.family_by_name("RT" if vec else "Lagrange")


class VolumeEnv:
    def __init__(self, E, d, n, spaces):
        npx.use_auto_diff()
        self.E, self.d, self.n, self.spaces = E, d, n, spaces
        self.cell = Cell(E, "", d, n, spaces)
        self.w = E.vec("w", n, gen=lambda r: r.uniform(0.1, 1))
        dec = decoy_cell(E, d, n, spaces)
        wrong = (np.array([[0.9] * max(k, 1) for _ in range(n)]) for k in range(4))
        quad = [(p, num(E, [0.5] * n)) for p in wrong]
        quad[d] = (self.cell.points, self.w.copy())
        bad = [(np.array([[0.8] * 3]), num(E, [0.25]))] * 4
        ds = {}
        for s, (nc, nphi, vec) in spaces.items():
            data = NS(cell=NS(dimension=d, id=3, sub_cells_ids=[]), dof=NS(), mesh=None)
            dd = NS(cell=NS(dimension=d, id=2, sub_cells_ids=[]), dof=NS(), mesh=None)
            ds[s] = NS(n_comp=nc, elements=[Elem(dec, s, dd), Elem(self.cell, s, data)], bc_elements=[], family=family(vec),
                       dimension=d, name=s, quadrature=quad[d], id_to_element={2: 0, 3: 1}, k_order=1)
        self.space = NS(discrete_spaces=ds, quadrature=quad, bc_quadrature=bad, names=list(ds))
        self.base, b = {}, 0
        for s, (nc, nphi, vec) in spaces.items():
            self.base[s] = b
            b += nc * nphi
        self.ndof = b
        self.alpha = E.vec("alpha", b, gen=lambda r: r.uniform(-2, 2))
        self.funs, self.attrs = {}, {}

    def fun(self, name, shape=(), **kw):
        self.funs[name] = Fun(self.E, name, self.cell, shape, **kw)
        return self.funs[name]

    # ---- fields of one basis function at point i
    def basis_fields(self, i):
        """dof index -> {field: value or gradient data}"""
        out = {}
        for s, (nc, nphi, vec) in self.spaces.items():
            tab, c_ = self.cell.tab[s], self.cell
            for k in range(nphi):
                if vec:
                    val = [tab[0, i, k, a] for a in range(self.d)]
                    div = sum(tab[1 + a, i, k, a] for a in range(self.d)) / c_.det[i]
                else:
                    val = tab[0, i, k, 0]
                    grad = [sum(c_.inv[i][b, a] * tab[1 + b, i, k, 0] for b in range(self.d)) for a in range(3)]
                for c in range(nc):
                    f = {}
                    if vec:
                        f[s] = num(self.E, [[0] * self.d for _ in range(nc)])
                        f[s][c] = val
                        f["div " + s] = num(self.E, [0] * nc)
                        f["div " + s][c] = div
                    else:
                        f[s] = num(self.E, [0] * nc)
                        f[s][c] = val
                        f["grad " + s] = num(self.E, [[0] * 3 for _ in range(nc)])
                        f["grad " + s][c] = grad
                    out[self.base[s] + c + nc * k] = (s, f)
        return out


class Fields(dict):
    """A test or trial field: everything that is not its own space is zero."""

    def __init__(self, env, f):
        super().__init__(f)
        self.env = env

    def __missing__(self, key):
        s = key.split()[-1]
        nc, nphi, vec = self.env.spaces[s]
        d = self.env.d
        if key.startswith("div"):
            z = [0] * nc
        elif key.startswith("grad"):
            z = [[0] * 3 for _ in range(nc)]
        else:
            z = [[0] * d for _ in range(nc)] if vec else [0] * nc
        self[key] = num(self.env.E, z)
        return self[key]


def inner(a, b):
    r = 0
    for x, y in zip(np.ravel(a), np.ravel(b)):
        if not is0(x) and not is0(y):
            r = r + x * y
    return r


def is0(x):
    return not hasattr(x, "n") and x == 0


def spec(env, form):
    """(load, matrix) of the form: form(i) -> (a(S, T), l(T)) at point i."""
    E, n = env.E, env.ndof
    J = num(E, [[0] * n for _ in range(n)])
    l = num(E, [0] * n)
    for i in range(env.n):
        a, lo = form(i)
        bf = {e: Fields(env, f) for e, (s, f) in env.basis_fields(i).items()}
        k = env.w[i] * env.cell.det[i]
        for p, T in bf.items():
            v = lo(T)
            if not is0(v):
                l[p] = l[p] + k * v
            for q, S in bf.items():
                v = a(S, T)
                if not is0(v):
                    J[p, q] = J[p, q] + k * v
    return l, J


def frame_ok(env):
    return all(f.untouched() for f in env.funs.values())


def check(E, env, r, j, l, J, direct, name="", scale=1.0):
    n = env.ndof
    r, j = np.asarray(r), np.asarray(j)
    if r.shape != (n,) or j.shape != (n, n):
        E.fail(name + "shape of the local system", "%s %s" % (r.shape, j.shape))
        return
    if scale != 1.0:
        r, j, l, J = r / scale, j / scale, l / scale, J / scale
    E.prove_eq(name + "matrix", j, J)
    R = l
    if not direct:
        R = num(E, [l[p] + inner(J[p], env.alpha) for p in range(n)])
    E.prove_eq(name + "residual", r, R)


def run_form(E, env, cls, method, form, direct, extra=()):
    obj = cls(env.space)
    obj.functions = {k: f for k, f in env.funs.items()}
    for k, v in env.attrs.items():
        setattr(obj, k, v)
    before = [x for x in env.alpha]
    r, j = getattr(obj, method)(1, env.alpha, *extra)
    E.prove("state and function values are not modified", all(same(a, b) for a, b in zip(before, env.alpha)) and frame_ok(env))
    l, J = spec(env, form)
    check(E, env, r, j, l, J, direct)


def cls_of(mod, name):
    return getattr(importlib.import_module("weak_forms." + mod), name)


# ---------------------------------------------------------------- the stated forms
def dev(m, d):
    t = sum(m[a, a] for a in range(d))
    return num_like(m, [[m[a, b] - (t / d if a == b else 0) for b in range(d)] for a in range(d)])


def num_like(m, x):
    return np.array(x, dtype=m.dtype)


def tr(m):
    return sum(m[a, a] for a in range(m.shape[0]))


def iso(m, lam, two_mu, two_kap=None):
    """two_mu sym m + two_kap skew m + lam tr m I (symmetric part only when two_kap is None)"""
    d, t = m.shape[0], tr(m)
    out = m.copy()
    for a in range(d):
        for b in range(d):
            v = 0
            sy, sk = m[a, b] + m[b, a], m[a, b] - m[b, a]
            if not is0(sy):
                v = v + two_mu * sy / 2
            if two_kap is not None and not is0(sk):
                v = v + two_kap * sk / 2
            if a == b and not is0(t):
                v = v + lam * t
            out[a, b] = v
    return out


def compliance(m, lam, mu, kap=None):
    """inverse of iso for the material (lam, 2 mu, 2 kap)"""
    d, t = m.shape[0], tr(m)
    out = m.copy()
    for a in range(d):
        for b in range(d):
            v = 0
            sy, sk = m[a, b] + m[b, a], m[a, b] - m[b, a]
            if kap is None:
                if not is0(m[a, b]):
                    v = v + m[a, b] / (2 * mu)
            else:
                if not is0(sy):
                    v = v + sy / 2 / (2 * mu)
                if not is0(sk):
                    v = v + sk / 2 / (2 * kap)
            if a == b and not is0(t):
                v = v - lam * t / (2 * mu * (2 * mu + d * lam))
            out[a, b] = v
    return out


def theta(t, d, like):
    """the skew matrix of the rotation t"""
    if d == 2:
        return num_like(like, [[0, -t[0]], [t[0], 0]])
    return num_like(like, [[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]])


def theta_c(t, d, like):
    """the other orientation used by the primal Cosserat form in 3D"""
    if d == 2:
        return theta(t, d, like)
    return num_like(like, [[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]])


def laplace_primal(env):
    k, f = env.fun("kappa", positive=True), env.fun("rhs", (1,))
    comps = 2 if env.d == 2 else 3

    def form(i):
        return (lambda S, T: k.v[i] * inner(S["grad p"][:, :comps], T["grad p"][:, :comps]),
                lambda T: -f.v[0, i] * T["p"][0])
    return form


def laplace_dual(env):
    k, f = env.fun("kappa", positive=True), env.fun("rhs", (1,))

    def form(i):
        return (lambda S, T: inner(S["u"], T["u"]) / k.v[i] - S["p"][0] * T["div u"][0] + S["div u"][0] * T["p"][0],
                lambda T: -f.v[0, i] * T["p"][0])
    return form


def le_primal(env):
    d = env.d
    f, lam, mu = env.fun("rhs", (d,)), env.fun("lambda", positive=True), env.fun("mu", positive=True)

    def form(i):
        g = lambda F: F["grad u"][:, :d]
        return (lambda S, T: inner(iso(g(S), lam.v[i], 2 * mu.v[i]), g(T)), lambda T: inner(f.v[:, i], T["u"]))
    return form


def stress_constraint(env):
    d = env.d
    st, lam, mu = env.fun("s_target", (d, d)), env.fun("lambda", positive=True), env.fun("mu", positive=True)

    def form(i):
        g = lambda F: F["grad u"][:, :d]
        return (lambda S, T: 1.0e6 * inner(iso(g(S), lam.v[i], 2 * mu.v[i]), g(T)),
                lambda T: -1.0e6 * inner(st.v[:, :, i], g(T)))
    return form


def taylor_hood(env):
    d = env.d
    f, lam, mu = env.fun("rhs", (d,)), env.fun("lambda", positive=True), env.fun("mu", positive=True)

    def form(i):
        g = lambda F: F["grad u"][:, :d]
        return (lambda S, T: inner(dev(iso(g(S), lam.v[i], 2 * mu.v[i]), d), g(T)) + S["p"][0] * tr(g(T))
                + T["p"][0] * (tr(g(S)) - S["p"][0] / (lam.v[i] + mu.v[i])),
                lambda T: inner(f.v[:, i], T["u"]))
    return form


def lce_primal(env):
    d = env.d
    nt = 1 if d == 2 else 3
    f = env.fun("rhs", (d + nt,))
    lam, mu, kap, gam = (env.fun(k, positive=True) for k in ("lambda", "mu", "kappa", "gamma"))

    def form(i):
        e = lambda F: F["grad u"][:, :d] + theta(F["t"], d, F["grad u"])
        return (lambda S, T: inner(iso(e(S), lam.v[i], 2 * mu.v[i], 2 * kap.v[i]), e(T))
                + gam.v[i] * inner(S["grad t"][:, :d], T["grad t"][:, :d]),
                lambda T: inner(f.v[:d, i], T["u"]) + inner(f.v[d:, i], T["t"]))
    return form


def le_dual(env):
    d = env.d
    nt = 1 if d == 2 else 3
    f, lam, mu = env.fun("rhs", (d + nt,)), env.fun("lambda", positive=True), env.fun("mu", positive=True)

    def form(i):
        return (lambda S, T: inner(compliance(S["s"], lam.v[i], mu.v[i]), T["s"]) + inner(S["u"], T["div s"])
                - inner(theta(S["t"], d, T["s"]), T["s"]) + inner(T["u"], S["div s"]) - inner(theta(T["t"], d, S["s"]), S["s"]),
                lambda T: -inner(f.v[:d, i], T["u"]) - inner(f.v[d:, i], T["t"]))
    return form


def le_riesz(env):
    lam, mu = env.fun("lambda", positive=True), env.fun("mu", positive=True)
    env.fun("rhs", (env.d + (1 if env.d == 2 else 3),))

    def form(i):
        return (lambda S, T: inner(compliance(S["s"], lam.v[i], mu.v[i]), T["s"]) + inner(S["div s"], T["div s"])
                + inner(S["u"], T["u"]) + inner(S["t"], T["t"]), lambda T: 0)
    return form


def cosserat(scaled, riesz):
    def build(env):
        d = env.d
        nt = 1 if d == 2 else 3
        f = env.fun("rhs", (d + nt,))
        ls, ms, ks, lo, mo, ko, lc = (env.fun(k, positive=True) for k in ("lambda_s", "mu_s", "kappa_s", "lambda_o", "mu_o", "kappa_o", "l"))
        gl = env.fun("grad_l", (d,)) if scaled else None

        def form(i):
            As = lambda F: compliance(F["s"], ls.v[i], ms.v[i], ks.v[i])

            def Am(F):
                if d == 2:
                    r = F["m"] / (mo.v[i] + ko.v[i])
                else:
                    r = compliance(F["m"], lo.v[i], mo.v[i], ko.v[i])
                return r if scaled else r / lc.v[i]

            def div(F):
                if not scaled:
                    return F["div m"]
                return num_like(F["m"], [lc.v[i] * F["div m"][c] + inner(gl.v[:, i], F["m"][c]) for c in range(nt)])

            if riesz:
                a = lambda S, T: (inner(As(S), T["s"]) + inner(S["div s"], T["div s"]) + inner(Am(S), T["m"])
                                  + inner(div(S), div(T)) + inner(S["u"], T["u"]) + inner(S["t"], T["t"]))
                return a, lambda T: 0
            a = lambda S, T: (inner(As(S), T["s"]) + inner(S["u"], T["div s"]) - inner(theta(S["t"], d, T["s"]), T["s"])
                              + inner(Am(S), T["m"]) + inner(S["t"], div(T))
                              + inner(T["u"], S["div s"]) + inner(T["t"], div(S)) - inner(theta(T["t"], d, S["s"]), S["s"]))
            return a, lambda T: -inner(f.v[:d, i], T["u"]) - inner(f.v[d:, i], T["t"])
        return form
    return build


def close0(E, v):
    """numpy.isclose(v, 0.0)"""
    return E.and_(v <= 1e-8, -v <= 1e-8)


def porosity(r):
    return r.choice([0.0, 1e-9, -0.5, r.uniform(0.1, 2), r.uniform(0.1, 2), r.uniform(0.1, 2)])


def degenerate(env):
    E, d = env.E, env.d
    f, phi, de, gd = env.fun("rhs", (1,)), env.fun("porosity", gen=porosity), env.fun("d_phi", gen=lambda r: r.uniform(-2, 2)), env.fun("grad_d_phi", (d,))

    def form(i):
        void = bool(E.or_(close0(E, phi.v[i]), phi.v[i] <= 0))
        if void:
            D = lambda F: 0
        else:
            s = E.sqrt(phi.v[i])
            D = lambda F: (de.v[i] * F["div v"][0] + inner(gd.v[:, i], F["v"][0])) / s
        return (lambda S, T: inner(S["v"], T["v"]) - S["q"][0] * D(T) + D(S) * T["q"][0] + S["q"][0] * T["q"][0],
                lambda T: -f.v[0, i] * T["q"][0])
    return form


def unscaled(env):
    E, d = env.E, env.d
    f = env.fun("rhs", (1,))
    phi = env.fun("porosity", gen=lambda r: abs(porosity(r)))
    de, gd = env.fun("d_phi", gen=porosity), env.fun("grad_d_phi", (d,))
    for v in phi.v:
        E.assume(v >= 0)
    eps = E.real("threshold", gen=lambda r: r.uniform(0.1, 1))
    E.assume(eps > 0)
    env.attrs = {"phi_threshold": eps}

    def form(i):
        p = eps if bool(E.or_(close0(E, phi.v[i]), phi.v[i] < 0)) else phi.v[i]
        de_ = eps if bool(E.or_(close0(E, de.v[i]), de.v[i] < 0)) else de.v[i]
        s = E.sqrt(phi.v[i])
        return (lambda S, T: inner(S["u"], T["u"]) / (de_ * de_) - S["p"][0] * T["div u"][0] + S["div u"][0] * T["p"][0] + p * S["p"][0] * T["p"][0],
                lambda T: -s * f.v[0, i] * T["p"][0])
    return form


def scaled_to_physical(env):
    E = env.E
    phi, de = env.fun("porosity", gen=porosity), env.fun("d_phi", gen=lambda r: r.uniform(-2, 2))
    env.alpha_scaled = E.vec("alpha_scaled", env.ndof, gen=lambda r: r.uniform(-2, 2))

    def form(i):
        bf = env.basis_fields(i)
        pos = bool(phi.v[i] > 0)
        v = num(E, [0] * env.d)
        q = 0
        for e, (s, F) in bf.items():
            if s == "v":
                v = v + env.alpha_scaled[e] * F["v"][0]
            else:
                q = q + env.alpha_scaled[e] * F["q"][0]
        if pos:
            v, q = v * de.v[i], q / E.sqrt(phi.v[i])
        return (lambda S, T: inner(S["v"], T["v"]) + S["q"][0] * T["q"][0], lambda T: -inner(v, T["v"]) - q * T["q"][0])
    return form


def l2_projector(env):
    d = env.d
    fs = {s: env.fun(s, (nc, d) if vec else (nc,)) for s, (nc, nphi, vec) in env.spaces.items()}

    def form(i):
        return (lambda S, T: sum(inner(S[s], T[s]) for s in env.spaces),
                lambda T: -sum(inner(fs[s].v[..., i], T[s]) for s in env.spaces))
    return form


def volume(mod, cls, build, d, n, spaces, method="evaluate_form", direct=False, **kw):
    def fn(E):
        env = VolumeEnv(E, d, n, spaces)
        form = build(env)
        extra = (env.alpha_scaled,) if hasattr(env, "alpha_scaled") else ()
        E.cover()
        run_form(E, env, cls_of(mod, cls), method, form, direct, extra)

    size = ", ".join("%s %d x %d" % (s, nc, k) for s, (nc, k, v) in spaces.items())
    return Unit("%s.%s %dD" % (cls, method, d), fn, ["weak_forms.%s.%s.%s" % (mod, cls, method)], modules=["weak_forms." + mod],
                kind="bounded-size", bounds="dimension %d, %d quadrature points, components x functions: %s; all values" % (d, n, size),
                timeout=kw.pop("timeout", 150), query_timeout=10, samples=kw.pop("samples", 25), tol=1e-6, sample_time=10, **kw)


def sp(**k):
    return k



# ---------------------------------------------------------------- boundary forms
SUB = {1: {0: [(0,), (1,)], 1: [(0, 1)]},
       2: {0: [(0,), (1,), (2,)], 1: [(1, 2), (0, 2), (0, 1)], 2: [(0, 1, 2)]},
       3: {0: [(0,), (1,), (2,), (3,)], 1: [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
           2: [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)], 3: [(0, 1, 2, 3)]}}


class Topology:
    def __init__(self, facet, owner, d):
        self.facet, self.owner, self.d = facet, owner, d

    def entity_map_by_dimension(self, dim):
        t = self
        if dim != t.d - 1:
            raise ValueError("entity map of another dimension")
        return NS(predecessors=lambda i: iter([(t.d, t.owner)] if i == (t.d - 1, t.facet) else []))


class BoundaryEnv:
    """A facet of a d-cell; scalar fields carry dofs on every entity, vector fields on facets and inside."""

    def __init__(self, E, d, n, spaces, per_entity):
        npx.use_auto_diff()
        self.E, self.d, self.n = E, d, n
        self.local = E.choice("local facet", list(range(d + 1)))
        self.facet_id, self.owner = 40, 70
        ids = {k: [10 * (k + 1) + 5 - j for j in range(len(SUB[d][k]))] for k in range(d + 1)}
        ids[d - 1][self.local] = self.facet_id
        ids[d] = [self.owner]
        fverts = SUB[d][d - 1][self.local]
        fsub = []                          # the facet's own record of its sub-cells, in its own order
        for k in range(d):
            inside = [ids[k][j] for j, vs in enumerate(SUB[d][k]) if set(vs) <= set(fverts)]
            fsub.append(np.array(inside[::-1] if k == 0 else inside))
        mesh = NS(points=None)
        fcell = NS(dimension=d - 1, id=self.facet_id, sub_cells_ids=fsub, node_tags=fsub[0], index=lambda: (d - 1, self.facet_id))
        ocell = NS(dimension=d, id=self.owner, sub_cells_ids=[np.array(ids[k]) for k in range(d + 1)], node_tags=np.array(ids[0]), index=lambda: (d, self.owner))
        dofs, count, self.trace = {}, {}, {}
        for s, (nc, vec) in spaces.items():
            ent, c = [], 0
            for k in range(d + 1):
                m = per_entity[s][k]
                ent.append([])
                for j in range(len(SUB[d][k])):
                    ent[k].append(list(range(c, c + m)))
                    c += m
            if not vec:                    # functions are not numbered entity by entity
                perm = list(range(c))[::-1]
                ent = [[[perm[x] for x in e] for e in es] for es in ent]
            dofs[s], count[s] = ent, c
            if vec:
                self.trace[s] = list(ent[d - 1][self.local])
            else:
                self.trace[s] = [x for k in range(d) for j in fsub[k] for x in ent[k][ids[k].index(j)]]
        self.spaces = {s: (nc, len(self.trace[s]), vec) for s, (nc, vec) in spaces.items()}
        big = {s: (nc, count[s], vec) for s, (nc, vec) in spaces.items()}
        self.cell = Cell(E, "b_", d - 1, n, self.spaces)
        self.own = Cell(E, "o_", d, n, big, label=0.3)
        self.own.x = self.cell.x.copy()    # the same points of space
        for s, (nc, k, vec) in self.spaces.items():
            if not vec:                    # C07/C22: the basis of the facet element is the trace of its owner's
                self.cell.tab[s][0, :, :, 0] = self.own.tab[s][0][:, self.trace[s], 0]
        self.w = E.vec("w", n, gen=lambda r: r.uniform(0.1, 1))
        self.normal = E.vec("n", 3, gen=lambda r: r.uniform(-1, 1))
        bq = [(np.array([[0.9] * max(k, 1)] * n), num(E, [0.5] * n)) for k in range(4)]
        bq[d - 1] = (self.cell.points, self.w.copy())
        vq = [(np.array([[0.8] * max(k, 1)] * n), num(E, [0.25] * n)) for k in range(4)]
        bdec, odec = decoy_cell(E, d - 1, n, self.spaces), decoy_cell(E, d, n, big)
        ds = {}
        self.pairs = []
        for s, (nc, k, vec) in self.spaces.items():
            fdata = NS(cell=fcell, dof=NS(), mesh=mesh)
            odata = NS(cell=ocell, dof=NS(entity_dofs=dofs[s]), mesh=mesh)
            other = NS(cell=NS(dimension=d - 1, id=39, sub_cells_ids=[], index=lambda: (d - 1, 39)), dof=NS(), mesh=mesh)
            other2 = NS(cell=NS(dimension=d, id=69, sub_cells_ids=[], index=lambda: (d, 69)), dof=NS(entity_dofs=[]), mesh=mesh)
            els = [Elem(odec, s, other2), Elem(odec, s, other2), Elem(self.own, s, odata)]
            self.pairs.append((fdata, odata))
            ds[s] = NS(n_comp=nc, bc_elements=[Elem(bdec, s, other), Elem(self.cell, s, fdata)], elements=els, family=family(vec), dimension=d, name=s,
                       id_to_element={self.owner: 2, 69: 0}, bc_id_to_element={self.facet_id: 1, 39: 0},
                       dof_map=NS(mesh_topology=Topology(self.facet_id, self.owner, d)), mesh=mesh)
        self.mesh, self.fcell, self.ocell = mesh, fcell, ocell
        self.space = NS(discrete_spaces=ds, quadrature=vq, bc_quadrature=bq, names=list(ds))
        self.base, b = {}, 0
        for s, (nc, k, vec) in self.spaces.items():
            self.base[s] = b
            b += nc * k
        self.ndof = b
        self.alpha = E.vec("alpha", b, gen=lambda r: r.uniform(-2, 2))
        self.funs, self.attrs = {}, {}

    fun = VolumeEnv.fun

    def stubs(self, form_module):
        """contracts of the trace map (C07) and of the outward unit normal"""
        env = self

        def transform_lower_to_higher(points, data_c1, data_c0):
            if not any(data_c1 is a and data_c0 is b for a, b in env.pairs):
                raise ValueError("trace map between unrelated cells")
            return env.own.points[env.cell.rows(points)]

        def normal(mesh, c0, c1):
            if mesh is not env.mesh or c0 is not env.ocell or c1 is not env.fcell:
                raise ValueError("normal of unrelated cells")
            return env.normal.copy()

        import sys

        old = []
        for name, f in (("transform_lower_to_higher", transform_lower_to_higher), ("normal", normal)):
            src = "basis.parametric_transformation" if name[0] == "t" else "geometry.compute_normal"
            for m in (importlib.import_module(src), importlib.import_module("weak_forms." + form_module)):
                if hasattr(m, name):
                    old.append((m, name, getattr(m, name)))
                    setattr(m, name, f)
        return old

    def basis_fields(self, i):
        out = {}
        for s, (nc, k, vec) in self.spaces.items():
            for q in range(k):
                if vec:
                    v = self.own.tab[s][0, i, self.trace[s][q]]
                    v = sum(v[a] * self.normal[a] for a in range(self.d))
                else:
                    v = self.own.tab[s][0, i, self.trace[s][q], 0]
                for c in range(nc):
                    f = {s: num(self.E, [0] * nc)}
                    f[s][c] = v
                    out[self.base[s] + c + nc * q] = (s, f)
        return out


class BFields(dict):
    def __init__(self, env, f):
        super().__init__(f)
        self.env = env

    def __missing__(self, s):
        self[s] = num(self.env.E, [0] * self.env.spaces[s][0])
        return self[s]


def bspec(env, form):
    E, n = env.E, env.ndof
    J, l = num(E, [[0] * n for _ in range(n)]), num(E, [0] * n)
    for i in range(env.n):
        a, lo = form(i)
        bf = {e: BFields(env, f) for e, (s, f) in env.basis_fields(i).items()}
        k = env.w[i] * env.cell.det[i]
        for p, T in bf.items():
            v = lo(T)
            if not is0(v):
                l[p] = l[p] + k * v
            for q, S in bf.items():
                v = a(S, T)
                if not is0(v):
                    J[p, q] = J[p, q] + k * v
    return l, J


def zero(S, T):
    return 0


def penalty(*names):
    def build(env):
        fs = {s: env.fun(s, (env.spaces[s][0],), gen=lambda r: r.uniform(-2, 2)) for s in names}

        def form(i):
            return (lambda S, T: BETA * sum(inner(S[s], T[s]) for s in names), lambda T: -BETA * sum(inner(fs[s].v[:, i], T[s]) for s in names))
        return form
    build.scale = BETA
    return build


def neumann(env):
    t = env.fun("t", (env.spaces["u"][0],))
    return lambda i: (zero, lambda T: inner(t.v[:, i], T["u"]))


def normal_penalty(env):
    d = env.d
    u = env.fun("u", (d,), gen=lambda r: r.uniform(-2, 2))

    def form(i):
        un = sum(u.v[a, i] * env.normal[a] for a in range(d))
        return (lambda S, T: BETA * sum(S["u"][c] * T["u"][c] * env.normal[c] * env.normal[c] for c in range(d) if not is0(S["u"][c]) and not is0(T["u"][c])),
                lambda T: -BETA * un * sum(T["u"][c] * env.normal[c] for c in range(d)))
    return form


normal_penalty.scale = BETA


def flux(fname, sname, sign):
    def build(env):
        f = env.fun(fname, (env.spaces[sname][0],), gen=lambda r: r.uniform(-2, 2))
        return lambda i: (zero, lambda T: sign * inner(f.v[:, i], T[sname]))
    return build


def degenerate_flux(env):
    E = env.E
    q, phi, de = env.fun("q", (env.spaces["v"][0],)), env.fun("porosity", gen=porosity), env.fun("d_phi", gen=lambda r: r.uniform(-2, 2))

    def form(i):
        void = bool(E.or_(close0(E, phi.v[i]), phi.v[i] <= 0))
        k = 1 if void else de.v[i] / E.sqrt(phi.v[i])
        return zero, lambda T: k * inner(q.v[:, i], T["v"])
    return form


def cosserat_flux(scaled):
    def build(env):
        u, t = env.fun("u", (env.spaces["s"][0],)), env.fun("t", (env.spaces["m"][0],))
        if scaled:
            lc = env.fun("l", gen=lambda r: r.choice([0.0, r.uniform(0.3, 2)]))
            env.fun("grad_l", (env.d,))

        def form(i):
            k = lc.v[i] + 1.0e-16 if scaled else 1
            return zero, lambda T: -inner(u.v[:, i], T["s"]) - k * inner(t.v[:, i], T["m"])
        return form
    return build


def boundary(mod, cls, build, d, n, spaces, per_entity, **kw):
    def fn(E):
        env = BoundaryEnv(E, d, n, spaces, per_entity)
        form = build(env)
        E.cover()
        E.contract("basis.parametric_transformation.transform_lower_to_higher: points of the facet in its owner (C07)")
        E.contract("geometry.compute_normal.normal: outward unit normal of the facet")
        old = env.stubs(mod)
        try:
            obj = cls_of(mod, cls)(env.space)
            obj.functions = dict(env.funs)
            before = list(env.alpha)
            r, j = obj.evaluate_form(1, env.alpha)
        finally:
            for m, name, f in old:
                setattr(m, name, f)
        E.prove("state and function values are not modified", all(same(a, b) for a, b in zip(before, env.alpha)) and frame_ok(env))
        l, J = bspec(env, form)
        check(E, env, r, j, l, J, True, scale=getattr(build, "scale", 1.0))

    many = " several components" if not mod.startswith(("le_", "lce_")) and max(nc for nc, vec in spaces.values()) > 1 else ""
    return Unit("%s %s %dD%s" % (cls, mod[:-len("_weak_form")], d, many), fn, ["weak_forms.%s.%s.evaluate_form" % (mod, cls)], modules=["weak_forms." + mod],
                kind="bounded-size", bounds="facets of one %d-cell, every local facet, %d quadrature points, functions per entity %s; all values" % (d, n, per_entity),
                timeout=100, query_timeout=10, samples=30, tol=1e-6, sample_time=10, **kw)


UNITS = []
A = UNITS.append
for d in (1, 2, 3):
    A(volume("laplace_primal_weak_form", "LaplacePrimalWeakForm", laplace_primal, d, 2, sp(p=(1, 3, False))))
    A(volume("laplace_dual_weak_form", "LaplaceDualWeakForm", laplace_dual, d, 2, sp(u=(1, 3, True), p=(1, 2, False))))
    A(volume("degenerate_elliptic_weak_form", "DegenerateEllipticWeakForm", degenerate, d, 2, sp(v=(1, 2, True), q=(1, 2, False))))
    A(volume("unscaled_elliptic_weak_form", "UnscaledEllipticWeakForm", unscaled, d, 2, sp(u=(1, 2, True), p=(1, 2, False))))
    A(volume("scaled_to_physical_l2_projection", "ScaledToPhysicalL2Projection", scaled_to_physical, d, 2, sp(v=(1, 2, True), q=(1, 2, False))))
    A(volume("l2_projector_weak_form", "L2ProjectorWeakForm", l2_projector, d, 2, sp(a=(2, 2, False), b=(2, 2, True), c=(1, 3, False)), direct=True))
for d in (2, 3):
    nt = 1 if d == 2 else 3
    A(volume("le_primal_weak_form", "LEPrimalWeakForm", le_primal, d, 2, sp(u=(d, 3, False))))
    A(volume("le_primal_stress_constraint_weak_form", "LEPrimalStressConstraintWeakForm", stress_constraint, d, 2, sp(u=(d, 2, False))))
    A(volume("lce_primal_weak_form", "LCEPrimalWeakForm", lce_primal, d, 2, sp(u=(d, 2, False), t=(nt, 2, False))))
    le = sp(s=(d, 2, True), u=(d, 2, False), t=(nt, 1, False))
    if d == 2:
        A(volume("le_dual_weak_form", "LEDualWeakForm", le_dual, d, 2, le))
    A(volume("le_dual_weak_form", "LEDualWeakForm", le_dual, d, 2, le, "evaluate_form_vectorized", True))
    A(volume("le_riesz_map_weak_form", "LERieszMapWeakForm", le_riesz, d, 2, le))
    A(volume("le_riesz_map_weak_form", "LERieszMapWeakForm", le_riesz, d, 2, le, "evaluate_form_vectorized", True))
    lce = sp(s=(d, 2, True), m=(nt, 2, True), u=(d, 1, False), t=(nt, 1, False)) if d == 3 else sp(s=(d, 2, True), m=(nt, 3, True), u=(d, 2, False), t=(nt, 2, False))
    for mod, cls, sc, rz in (("lce_dual_weak_form", "LCEDualWeakForm", False, False), ("lce_riesz_map_weak_form", "LCERieszMapWeakForm", False, True),
                             ("lce_scaled_dual_weak_form", "LCEScaledDualWeakForm", True, False), ("lce_scaled_riesz_map_weak_form", "LCEScaledRieszMapWeakForm", True, True)):
        A(volume(mod, cls, cosserat(sc, rz), d, 2, lce))
        A(volume(mod, cls, cosserat(sc, rz), d, 2, lce, "evaluate_form_vectorized", True))
A(volume("le_taylor_hood_weak_form", "LETaylorHoodWeakForm", taylor_hood, 2, 2, sp(u=(2, 3, False), p=(1, 2, False))))

P1, P2 = [1, 0, 0, 0], [1, 1, 0, 1]
P3 = [1, 2, 1, 1]
for d in (1, 2, 3):
    n = 1 if d == 1 else 2
    pe = {1: [1, 2, 0, 0], 2: [1, 2, 1, 0], 3: [1, 2, 1, 1]}[d]
    rt = [0] * (d - 1) + [{1: 1, 2: 2, 3: 2}[d], 1, 0][: 2] + [0] * 3
    A(boundary("laplace_primal_weak_form", "LaplacePrimalWeakFormBCDirichlet", penalty("p"), d, n, sp(p=(1, False)), sp(p=pe)))
    A(boundary("laplace_primal_weak_form", "LaplacePrimalWeakFormBCDirichlet", penalty("p"), d, n, sp(p=(2, False)), sp(p=pe)))
    A(boundary("laplace_dual_weak_form", "LaplaceDualWeakFormBCDirichlet", flux("p", "u", 1), d, n, sp(u=(1, True)), sp(u=rt)))
    A(boundary("laplace_dual_weak_form", "LaplaceDualWeakFormBCDirichlet", flux("p", "u", 1), d, n, sp(u=(2, True)), sp(u=rt)))
    A(boundary("unscaled_elliptic_weak_form", "UnscaledEllipticWeakFormBCDirichlet", flux("p", "u", 1), d, n, sp(u=(2, True)), sp(u=rt)))
    A(boundary("unscaled_elliptic_weak_form", "UnscaledEllipticWeakFormBCDirichlet", flux("p", "u", 1), d, n, sp(u=(1, True)), sp(u=rt)))
    A(boundary("degenerate_elliptic_weak_form", "DegenerateEllipticWeakFormBCDirichlet", degenerate_flux, d, n, sp(v=(1, True)), sp(v=rt)))
    A(boundary("degenerate_elliptic_weak_form", "DegenerateEllipticWeakFormBCDirichlet", degenerate_flux, d, n, sp(v=(2, True)), sp(v=rt)))
    if d == 1:
        continue
    nt = 1 if d == 2 else 3
    A(boundary("le_primal_weak_form", "LEPrimalWeakFormBCDirichlet", penalty("u"), d, n, sp(u=(d, False)), sp(u=P2)))
    A(boundary("le_taylor_hood_weak_form", "LETaylorHoodWeakFormBCDirichlet", penalty("u"), d, n, sp(u=(d, False)), sp(u=P2)))
    A(boundary("le_primal_weak_form", "LEPrimalWeakFormBCNeumann", neumann, d, n, sp(u=(d, False)), sp(u=P2)))
    A(boundary("le_primal_weak_form", "LEPrimalWeakFormBCNormalDirichlet", normal_penalty, d, n, sp(u=(d, False)), sp(u=P2)))
    A(boundary("lce_primal_weak_form", "LCEPrimalWeakFormBCDirichlet", penalty("u", "t"), d, n, sp(u=(d, False), t=(nt, False)), sp(u=P2, t=P1)))
    A(boundary("le_dual_weak_form", "LEDualWeakFormBCDirichlet", flux("u", "s", -1), d, n, sp(s=(d, True)), sp(s=rt)))
    sm, pe = sp(s=(d, True), m=(nt, True)), sp(s=rt, m=[0] * (d - 1) + [1, 1])
    A(boundary("lce_dual_weak_form", "LCEDualWeakFormBCDirichlet", cosserat_flux(False), d, n, sm, pe))
    A(boundary("lce_scaled_dual_weak_form", "LCEScaledDualWeakFormBCDirichlet", cosserat_flux(True), d, n, sm, pe))
    A(boundary("le_dual_weak_form", "LCEDualWeakFormBCNeumann", penalty("s"), d, n, sp(s=(d, True)), sp(s=rt)))
    A(boundary("lce_dual_weak_form", "LCEDualWeakFormBCNeumann", penalty("s", "m"), d, n, sm, pe))
    A(boundary("lce_scaled_dual_weak_form", "LCEDualWeakFormBCNeumann", penalty("s", "m"), d, n, sm, pe))
