"""C17: reported norms are the quadrature of the pointwise difference, over every cell and component.

The real norm functions run on a space of several cells whose geometry, basis tabulation, quadrature
weights, coefficients and exact functions are arbitrary (one symbol per entry, sizes fixed); the square
of each reported number is compared with the sum over cells, points and components written down here.
"""
import importlib
from types import SimpleNamespace as NS

from .. import tnp as np
from ..harness import Unit, Bounded
from .c15 import Cell, Elem, family, num, same

PID = "C17"
IMPORTS = ["postprocess.l2_error_post_processor", "postprocess.solution_norms_post_processor"]
L2E, SNP = "postprocess.l2_error_post_processor.", "postprocess.solution_norms_post_processor."


class CellsFun:
    """An exact function: arbitrary values at the quadrature points of each cell; the last axis is the point."""

    def __init__(self, E, name, cells, shape, values=None):
        self.cells = cells
        self.v = values or [E.arr("f_%s_%d" % (name, i), shape + (c.n,), gen=lambda r: r.uniform(-2, 2)) for i, c in enumerate(cells)]

    def at(self, x, y, z):
        for c, v in zip(self.cells, self.v):
            for i in range(c.n):
                if all(same(a, b) for a, b in zip((x, y, z), c.x[i])):
                    return v[..., i]
        raise ValueError("function evaluated away from the quadrature points")

    def __call__(self, x, y, z):
        if np.ndim(x) == 0:
            r = self.at(x, y, z)
            return r.copy() if isinstance(r, np.ndarray) else r
        return np.stack([np.asarray(self.at(*p)) for p in zip(x, y, z)], axis=-1)


class SpaceEnv:
    def __init__(self, E, d, n, spaces, n_cells=2, shift=0):
        self.shift = shift
        self.E, self.d, self.n, self.spaces = E, d, n, spaces
        self.cells = [Cell(E, "c%d_" % i, d, n, spaces) for i in range(n_cells)]
        for c in self.cells[1:]:
            c.points = self.cells[0].points
        self.w = E.vec("w", n, gen=lambda r: r.uniform(0.1, 1))
        for y in self.w:
            E.assume(y > 0)
        quad = [(np.array([[0.9] * max(k, 1) for _ in range(n)]), num(E, [0.5] * n)) for k in range(4)]
        quad[d] = (self.cells[0].points, self.w.copy())
        foreign = NS(evaluate_mapping=self._foreign, evaluate_basis=self._foreign, data=NS(cell=NS(dimension=d - 1, id=5)))
        ds, size = {}, 0
        for s, (nc, nphi, vec) in spaces.items():
            els = [foreign] + [Elem(c, s, NS(cell=NS(dimension=d, id=7 + i))) for i, c in enumerate(self.cells)]
            ds[s] = NS(n_comp=nc, elements=els, family=family(vec), dimension=d, name=s, quadrature=quad[d], k_order=1)
            size += nc * nphi
        N = size * n_cells + 2
        order = [(5 * i + 3) % N for i in range(N)] if N % 5 else [(7 * i + 3) % N for i in range(N)]
        assert len(set(order)) == N
        self.dest, k = {0: {}}, 0
        for i in range(n_cells):
            self.dest[i + 1] = {}
            for s, (nc, nphi, vec) in spaces.items():
                self.dest[i + 1][s] = np.array(order[k:k + nc * nphi])
                k += nc * nphi
        first = next(iter(spaces))
        if n_cells > 1:                        # one shared unknown
            self.dest[2][first][0] = self.dest[1][first][-1]
        for s, (nc, nphi, vec) in spaces.items():
            self.dest[0][s] = np.array(order[-1:] * (nc * nphi))
        self.alpha = E.vec("alpha", N + shift, gen=lambda r: r.uniform(-2, 2))
        env = self

        class Space:
            quadrature = quad
            discrete_spaces = ds
            names = list(ds)
            n_dof = N
            dof_shift = 0

            def discrete_spaces_destination_indexes(self, i):
                return {s: v.copy() for s, v in env.dest[i].items()}

            def destination_indexes(self, i, field=None):
                v = env.dest[i]
                return v[field].copy() if field else np.concatenate(list(v.values()))

        self.space = Space()

    def _foreign(self, *a):
        raise ValueError("a cell of another dimension was evaluated")

    def coef(self, ci, s):
        nc, nphi, vec = self.spaces[s]
        return self.alpha[self.dest[ci + 1][s] + self.shift].reshape(nphi, nc)

    def value(self, ci, p, s, comps=None):
        """u_h of field s at point p of cell ci: (nc,) or (nc, d)"""
        nc, nphi, vec = self.spaces[s]
        tab, a = self.cells[ci].tab[s], self.coef(ci, s)
        if not vec:
            return num(self.E, [sum(a[j, c] * tab[0, p, j, 0] for j in range(nphi)) for c in range(nc)])
        return num(self.E, [[sum(a[j, c] * tab[0, p, j, k] for j in range(nphi)) for k in range(self.d)] for c in range(nc)])

    def ref_div(self, ci, p, j, s):
        tab = self.cells[ci].tab[s]
        return sum(tab[1 + k, p, j, k] for k in range(self.d)) if self.spaces[s][2] else tab[1, p, j, 0]

    def div(self, ci, p, s):
        nc, nphi, vec = self.spaces[s]
        a = self.coef(ci, s)
        det = self.cells[ci].det[p]
        return num(self.E, [sum(a[j, c] * self.ref_div(ci, p, j, s) for j in range(nphi)) / det for c in range(nc)])

    def grad(self, ci, p, s):
        nc, nphi, vec = self.spaces[s]
        tab, a, inv = self.cells[ci].tab[s], self.coef(ci, s), self.cells[ci].inv[p]
        comps = 2 if self.d == 2 else 3
        return num(self.E, [[sum(a[j, c] * sum(inv[b, k] * tab[1 + b, p, j, 0] for b in range(self.d)) for j in range(nphi))
                             for k in range(comps)] for c in range(nc)])

    def integral(self, g):
        """sum over cells and points of w det |g(cell, point)|^2"""
        terms = []
        for ci, c in enumerate(self.cells):
            for p in range(self.n):
                v = np.ravel(np.asarray(g(ci, p)))
                terms += [((self.w[p], c.det[p]), y) for y in v]
        self.E.nonneg_sum(terms)
        return sum(a * b * y * y for (a, b), y in terms)

    def mean(self, g):
        num_ = sum(self.w[p] * c.det[p] * g(ci, p) for ci, c in enumerate(self.cells) for p in range(self.n))
        return num_ / sum(self.w[p] * c.det[p] for c in self.cells for p in range(self.n))


def check(E, env, out, want, name):
    E.prove(name + ": one number per field of the stated kind, in the order of the fields", len(out) == len(want))
    for k, S in enumerate(want):
        if k < len(out):
            E.prove(name + ": the number is not negative (field %d)" % k, out[k] >= 0)
            E.prove_eq(name + ": its square is the integral of the squared difference (field %d)" % k, out[k] * out[k], S)


def layout(d):
    """field name -> (components, basis functions, vector family)"""
    L = {"p": (1, 2, False), "q": (3, 2, False)}
    if d > 1:
        L["v"] = (2, 3, True)
    return L


def call(env, fn, mod, *args):
    m = importlib.import_module(mod[:-1])
    before = list(env.alpha)
    r = getattr(m, fn)(*args)
    env.E.prove("the coefficients are not modified", all(same(a, b) for a, b in zip(before, env.alpha)))
    return list(r)


def pick(E, d):
    names = list(layout(d))
    s = E.choice("field", names)
    skip = E.choice("other_fields", ["none", "skipped", "second"])
    L = {s: layout(d)[s]}
    if skip != "none":
        L["o"] = (1, 2, d > 1 and s == "v")
        if skip == "skipped":
            L = {"o": L["o"], s: L[s]}
    return s, skip, L


def unit_l2(d, which):
    def fn(E):
        s, skip, L = pick(E, d)
        shift = E.choice("shift", [0, 2]) if which == "l2_error_projected" else 0
        env = SpaceEnv(E, d, 2, L, shift=shift)
        E.cover()
        skips = ["o"] if skip == "skipped" else []
        fields = [f for f in L if f not in skips]
        funs = {f: CellsFun(E, f, env.cells, (L[f][0], d) if L[f][2] else (L[f][0],)) for f in fields}
        ex = lambda f, ci, p: funs[f].v[ci][..., p]
        if which == "l2_error":
            want = [env.integral(lambda ci, p: ex(f, ci, p) - env.value(ci, p, f)) for f in fields]
            out = call(env, which, L2E, d, env.space, funs, env.alpha, skips)
        elif which == "l2_error_projected":
            want = [env.integral(lambda ci, p: env.value(ci, p, f)) for f in fields]
            out = call(env, which, L2E, d, env.space, env.alpha, skips, shift)
        else:
            want = [env.integral(lambda ci, p: ex(f, ci, p)) for f in fields]
            out = call(env, which, SNP, d, env.space, funs, skips)
        check(E, env, out, want, which)

    return fn


def unit_grad(d):
    def fn(E):
        nc = E.choice("components", [1, 2])
        two = E.choice("two_fields", [False, True])
        L = {"p": (nc, 2, False)}
        if two:
            L["q"] = (1, 3, False)
        env = SpaceEnv(E, d, 2, L)
        E.cover()
        comps = 2 if d == 2 else 3
        funs = {"grad_" + f: CellsFun(E, f, env.cells, (L[f][0], comps)) for f in L}
        want = [env.integral(lambda ci, p: funs["grad_" + f].v[ci][..., p] - env.grad(ci, p, f)) for f in L]
        out = call(env, "grad_error", L2E, d, env.space, funs, env.alpha)
        check(E, env, out, want, "grad_error")

    return fn


def unit_div(d, which):
    def fn(E):
        nc = E.choice("components", [1, 2])
        others = E.choice("other_fields", ["none", "scalar", "skipped", "second"])
        vec = d > 1
        L = {"v": (nc, 1 if d == 3 and which == "div_scaled_error" else 2, vec)}
        if others == "scalar" and vec:
            L = {"a": (1, 2, False), "v": L["v"]}
        elif others in ("skipped", "second"):
            L["o"] = (1, 2, vec)
        env = SpaceEnv(E, d, 2, L)
        E.cover()
        skips = ["o"] if others == "skipped" else []
        fields = [f for f in L if f not in skips and (L[f][2] or not vec)]
        funs = {"div_" + f: CellsFun(E, f, env.cells, (L[f][0],)) for f in fields}
        ex = lambda f, ci, p: funs["div_" + f].v[ci][:, p]
        if which == "div_error":
            want = [env.integral(lambda ci, p: ex(f, ci, p) - env.div(ci, p, f)) for f in fields]
            out = call(env, which, L2E, d, env.space, funs, env.alpha, skips)
        elif which == "div_norm":
            want = [env.integral(lambda ci, p: ex(f, ci, p)) for f in fields]
            out = call(env, which, SNP, d, env.space, funs, skips)
        else:
            g, gg = CellsFun(E, "l", env.cells, ()), CellsFun(E, "gl", env.cells, (d,))
            funs.update(l=g, grad_l=gg)

            def diff(f):
                return lambda ci, p: ex(f, ci, p) - (g.v[ci][p] * env.div(ci, p, f) + num(E, [
                    sum(gg.v[ci][k, p] * x[k] for k in range(d)) for x in env.value(ci, p, f)]))

            want = [env.integral(diff(f)) for f in fields]
            out = call(env, which, L2E, d, env.space, funs, env.alpha, skips)
        check(E, env, out, want, which)

    return fn


def unit_dev(d, which):
    def fn(E):
        two = E.choice("fields", ["one", "scalar first", "skipped", "second", "before"])
        L = {"s": (d, 2 if d == 2 else 1, True)}
        if two == "scalar first":
            L = {"p": (1, 2, False), "s": L["s"]}
        if two in ("skipped", "second"):
            L["o"] = (d, 1, True)
        if two == "before":
            L = {"o": (d, 1, True), "s": (d, 1, True)}
        env = SpaceEnv(E, d, 1, L)
        E.cover()
        skips = ["o"] if two == "skipped" else []
        fields = [f for f in L if L[f][2] and f not in skips]
        funs = {f: CellsFun(E, f, env.cells, (d, d)) for f in fields}
        eye = num(E, np.eye(d).tolist())
        tr = lambda m: sum(m[k, k] for k in range(d)) / d
        want = []
        for f in fields:
            exact = lambda ci, p, f=f: funs[f].v[ci][..., p]
            me = env.mean(lambda ci, p: tr(exact(ci, p)))
            if which == "devia_l2_error":
                mh = env.mean(lambda ci, p: tr(env.value(ci, p, f)))
                want.append(env.integral(lambda ci, p: exact(ci, p) - env.value(ci, p, f) - eye * (me - mh)))
            else:
                want.append(env.integral(lambda ci, p: exact(ci, p) - eye * me))
        if which == "devia_l2_error":
            out = call(env, which, L2E, d, env.space, funs, env.alpha, skips)
        else:
            out = call(env, which, SNP, d, env.space, funs, skips)
        check(E, env, out, want, which)

    return fn


def unit_definite(E):
    """with positive weights a vanishing sum of squares forces every difference to vanish"""
    n = 3
    k = [E.real("k%d" % i) for i in range(n)]
    v = [E.real("v%d" % i) for i in range(n)]
    for y in k:
        E.assume(y > 0)
    E.cover()
    S = sum(a * b * b for a, b in zip(k, v))
    E.prove("sum is zero only if every term is", E.implies(E.eq(S, 0), E.conj([E.eq(y, 0) for y in v])))


B2 = "2 cells, 2 quadrature points (deviatoric: 1), 1-3 basis functions per cell, up to 3 components; all values"
UNITS = []
for d in (1, 2, 3):
    for which in ("l2_error", "l2_error_projected", "l2_norm"):
        UNITS.append(Unit("%s %dD" % (which, d), unit_l2(d, which), [(SNP if which == "l2_norm" else L2E) + which],
                          kind="bounded-size", bounds=B2, timeout=120))
    UNITS.append(Unit("grad_error %dD" % d, unit_grad(d), [L2E + "grad_error"], kind="bounded-size", bounds=B2, timeout=120))
    for which in ("div_error", "div_norm", "div_scaled_error"):
        if d == 1 and which != "div_error":
            continue
        UNITS.append(Unit("%s %dD" % (which, d), unit_div(d, which), [(SNP if which == "div_norm" else L2E) + which],
                          kind="bounded-size", bounds=B2, timeout=120))
    if d > 1:
        for which in ("devia_l2_error", "devia_l2_norm"):
            UNITS.append(Unit("%s %dD" % (which, d), unit_dev(d, which), [(SNP if which == "devia_l2_norm" else L2E) + which],
                              kind="bounded-size", bounds=B2, timeout=120))
UNITS.append(Unit("definiteness", unit_definite, [], samples=5))


# ---------------------------------------------------------------- real spaces on real meshes
def case(B, scales=(1.0,), families=None, comps=(1, 1, 2, 3), embed=None):
    """a random mesh, one or two fields on it: (description, function building the space)"""
    from .c07 import orient
    from .meshes import raw_mesh, write_mesh, load

    d = B.rng.choice([1, 2, 2, 3])
    p, cells = raw_mesh(B.rng, B.nrng, d, n=None if d < 3 else 6, embed=embed)
    scale = B.rng.choice(list(scales))
    p = np.asarray(p) * scale
    if d > 1:
        cells = orient(p, cells, d)
    else:                                          # segments along +x
        cells = np.array([sorted(c, key=lambda i: p[i][0]) for c in cells])
    fields = {}
    for name in ["a", "b"][: B.rng.choice([1, 2])]:
        fam = B.rng.choice(families or ["Lagrange", "RT", "BDM", "N1E", "N2E"]) if d > 1 else "Lagrange"
        k = B.rng.choice([1, 2, 3] if d < 3 else [1, 2])
        fields[name] = (B.rng.choice(list(comps)), fam, k, B.rng.random() < 0.3)
    regions = [B.rng.choice([1, 2]) for _ in cells]
    desc = dict(d=d, points=p.tolist(), cells=np.asarray(cells).tolist(), regions=regions, fields=fields)

    def build():
        from spaces.product_space import ProductSpace

        m = load(d, write_mesh(p, [(d, cells, regions)]))
        space = ProductSpace({f: (d, nc, fam, k, m) for f, (nc, fam, k, disc) in fields.items()})
        space.make_subspaces_discontinuous({f: v[3] for f, v in fields.items()})
        tags = sorted(set(regions))
        space.build_structures({f: tags for f in fields}, {f: [] for f in fields})
        return space

    return d, fields, desc, build


def polynomial(rng, d, shape, degree, scale=1.0):
    """random polynomial vector in the first d coordinates: callable returning shape + points"""
    import itertools

    mons = [e for e in itertools.product(range(degree + 1), repeat=d) if sum(e) <= degree]
    c = np.asarray([[rng.uniform(-1, 1) for _ in mons] for _ in range(int(np.prod(shape)))]).reshape(shape + (len(mons),))

    def f(x, y, z):
        X = [np.asarray(v, dtype=float) / scale for v in (x, y, z)][:d]
        M = np.stack([np.prod([v ** k for v, k in zip(X, e)], axis=0) for e in mons])
        return np.tensordot(c, M, axes=(-1, 0))

    return f


def discrete(space, s, alpha, iel, points):
    """value of the discrete field: (n, nc) or (n, nc, 3), with x, det"""
    el = space.discrete_spaces[s].elements[iel]
    x, jac, det, inv = el.evaluate_mapping(points)
    phi = el.evaluate_basis(points, jac, det, inv)[0]
    a = alpha[space.destination_indexes(iel, s)].reshape(phi.shape[1], -1)
    v = np.einsum("pjk,jc->pck", phi, a)
    return x, det, v


def rule(d, degree):
    import basix
    from basis.element_type import type_by_dimension

    return basix.make_quadrature(type_by_dimension(d), degree)


def bounded_norms(B):
    """l2_error, l2_norm and l2_error_projected against an independent rule of higher order"""
    from .meshes import cleanup

    while B.more():
        d, fields, desc, build = case(B, scales=(1.0, 1e-2, 50.0))
        seed = B.rng.randrange(10**6)
        scale = float(np.max(np.abs(desc["points"]))) or 1.0

        def run():
            from postprocess.l2_error_post_processor import l2_error, l2_error_projected
            from postprocess.solution_norms_post_processor import l2_norm
            import random

            space, r = build(), random.Random(seed)
            alpha = np.random.default_rng(seed).normal(size=space.n_dof)
            vec = {f: v[1] != "Lagrange" for f, v in fields.items()}
            funs = {f: polynomial(r, d, (v[0], 3) if vec[f] else (v[0],), v[2], scale) for f, v in fields.items()}
            got = dict(l2_error=l2_error(d, space, funs, alpha), l2_error_projected=l2_error_projected(d, space, alpha),
                       l2_norm=l2_norm(d, space, funs))
            pts, w = rule(d, 9)
            for i, f in enumerate(fields):
                want = dict(l2_error=0.0, l2_error_projected=0.0, l2_norm=0.0)
                for iel in range(len(space.discrete_spaces[f].elements)):
                    x, det, v = discrete(space, f, alpha, iel, pts)
                    ex = np.moveaxis(funs[f](x[:, 0], x[:, 1], x[:, 2]), -1, 0)
                    D = d if vec[f] else 1
                    if not vec[f]:
                        ex = ex[:, :, None]
                    k = (w * det)[:, None, None]
                    want["l2_error"] += np.sum(k * (ex[:, :, :D] - v[:, :, :D]) ** 2)
                    want["l2_error_projected"] += np.sum(k * v[:, :, :D] ** 2)
                    want["l2_norm"] += np.sum(k * ex ** 2)
                for n, S in want.items():
                    assert len(got[n]) == len(fields)
                    assert abs(got[n][i] - np.sqrt(S)) <= 1e-7 * (1e-12 + np.sqrt(S)), (n, f, got[n][i], np.sqrt(S))

        B.case("norms:d%d" % d, desc, run)
    cleanup()


BOUNDED = [Bounded("norms on random meshes", bounded_norms, [L2E + "l2_error", L2E + "l2_error_projected", SNP + "l2_norm"],
                   "random meshes of dimension 1..3, one or two fields of every family, random coefficients and polynomial exact functions; independent rule of degree 9",
                   budget=25)]
