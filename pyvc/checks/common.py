"""Shared specification vocabulary (works on symbolic and on concrete values)."""
import contextlib
import math
import types
from types import SimpleNamespace as NS

import numpy as np

from ..sym import Sym, SBool, Unsupported, const, lift
from .. import sym


def rotation(E, name="q", opaque=False):
    """An arbitrary rotation matrix, as a unit quaternion (every rotation has one)."""
    if E.symbolic:
        q = [E.real("%s%d" % (name, i)) for i in range(4)]
        n = [x.n.args[0] for x in q]
        one = sym.p_const(sym.Fraction(1))
        sq = sym.Poly()
        for v in n[1:]:
            sq = sym.p_add(sq, sym.p_mul(sym.p_var(v), sym.p_var(v)))
        E.rules[n[0]] = (2, sym.p_add(one, sq, -1))
        E.assume(E.eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], 1))
    else:
        q = [E.real("%s%d" % (name, i), gen=lambda r: r.gauss(0, 1)) for i in range(4)]
        s = math.sqrt(sum(x * x for x in q))
        if s < 1e-6:
            q, s = [1.0, 0, 0, 0], 1.0
        q = [x / s for x in q]
    a, b, c, d = q
    R = [
        [a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
        [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
        [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d],
    ]
    if opaque and E.symbolic:
        # the entries stay variables for the solver; the normal form knows them as polynomials in q
        out = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                v = E.fresh("%sR%d%d" % (name, i, j))
                E.rules[v.n.args[0]] = (1, sym.rat_of(R[i][j].n, E.rules, E.ratcache).num)
                E.opaque.add(v.n.args[0])
                E.hidden.append(sym.eq(v.n, R[i][j].n))
                E.assume([v <= 1, v >= -1])
                out[i, j] = v
        return out
    return np.array(R, dtype=object if E.symbolic else float)


def frame(E, k, name="q"):
    """An arbitrary orthonormal k-frame in R^3, as the columns of a 3 x k matrix.

    Lemma used: for k < 3 every orthonormal frame is the first k columns of a rotation; for k = 3
    it is a rotation or a rotation with its last column negated (determinant -1)."""
    Q = rotation(E, name)
    if k == 3:
        s = E.choice(name + "_hand", [1, -1])
        Q = Q.copy()
        Q[:, 2] = Q[:, 2] * s
    return Q[:, :k].copy()


def upper(E, k, name="r"):
    """Upper triangular with positive diagonal."""
    R = np.zeros((k, k), dtype=object if E.symbolic else float)
    for i in range(k):
        for j in range(i, k):
            if i == j:
                R[i, j] = E.real("%s%d%d" % (name, i, j), gen=lambda r: 10 ** r.uniform(-2, 2))
                E.assume(R[i, j] > 0)
            else:
                R[i, j] = E.real("%s%d%d" % (name, i, j))
    return R


def simplex(E, d, name="s"):
    """An arbitrary non-degenerate d-simplex in R^3: vertices (d+1,3) and its Jacobian (3,d) = Q R.

    Lemma used: every full-column-rank matrix is Q R with orthonormal Q and R upper triangular with
    positive diagonal, so quantifying over (x0, Q, R) quantifies over all non-degenerate simplices."""
    x0 = E.vec(name + "x", 3)
    Q = frame(E, d, name + "q")
    R = upper(E, d, name + "r")
    J = Q @ R
    pts = np.empty((d + 1, 3), dtype=object if E.symbolic else float)
    pts[0] = x0
    for i in range(d):
        pts[i + 1] = x0 + J[:, i]
    return pts, J, Q, R


def install_qr(E, J, Q, R):
    """numpy.linalg.qr contract at this call site: returns (Q S, S R) with arbitrary signs S."""
    k = R.shape[0]

    def hook(a, mode):
        if mode != "reduced" or a.shape != (3, k):
            return None
        for i in range(3):
            for j in range(k):
                if not E._identity(lift(a[i, j]), lift(J[i, j])):
                    return None
        if not hasattr(E, "qr_path") or E.qr_path[0] != E.paths:  # qr is a function: same input, same output
            E.qr_path = (E.paths, [E.choice("qr_sign", [1, -1]) for _ in range(k)])
        S = E.qr_path[1]
        E.external.add("numpy.linalg.qr: A = Q R with orthonormal Q and upper triangular R, unique up to row signs for full rank")
        return Q * np.array(S, dtype=object), np.array([[S[i] * R[i, j] for j in range(k)] for i in range(k)], dtype=object)

    E.qr_hook = hook


def subsets_faces(d, k):
    """Reference sub-entity connectivity of the d-simplex, dimension k (basix/FIAT convention)."""
    import itertools

    combos = list(itertools.combinations(range(d + 1), k + 1))
    if k == d - 1 or (d == 3 and k == 1) or (d == 2 and k == 1):
        pass
    if k == 0:
        return [list(c) for c in combos]
    if k == d:
        return [list(range(d + 1))]
    if d == 2 and k == 1:
        return [[1, 2], [0, 2], [0, 1]]
    if d == 3 and k == 1:
        return [[2, 3], [1, 3], [1, 2], [0, 3], [0, 2], [0, 1]]
    if d == 3 and k == 2:
        return [[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]]
    raise ValueError((d, k))


class FakeP1:
    """Assumed contract of basix: the degree-1 Lagrange element on a simplex tabulates the
    barycentric coordinates and their (constant) derivatives, vertices in reference order."""

    def __init__(self, E, tdim):
        self.E, self.d = E, tdim

    def tabulate(self, n, points):
        d = self.d
        points = np.asarray(points, dtype=object)
        if points.ndim == 1:
            points = points.reshape(-1, 1)
        N = len(points)
        out = np.zeros((1 + (d if n >= 1 else 0), N, d + 1, 1), dtype=object)
        for k in range(N):
            s = 0
            for j in range(d):
                s = s + points[k, j]
                out[0, k, j + 1, 0] = points[k, j]
            out[0, k, 0, 0] = 1 - s
            if n >= 1:
                for j in range(d):
                    out[1 + j, k, 0, 0] = -1
                    out[1 + j, k, j + 1, 0] = 1
        return out


def fake_basix(E, real):
    """basix module as seen by geometry.mapping on symbolic points."""
    dims = {real.CellType.interval: 1, real.CellType.triangle: 2, real.CellType.tetrahedron: 3}

    class B(types.ModuleType):
        def __getattr__(self, k):
            return getattr(real, k)

    m = B("basix")

    def create_element(family=None, celltype=None, degree=None, *a, **kw):
        if family == real.ElementFamily.P and degree == 1 and celltype in dims:
            E.external.add("basix degree-1 Lagrange tabulation = barycentric coordinates and derivatives")
            return FakeP1(E, dims[celltype])
        raise Unsupported("no contract for basix element %s %s %s" % (family, celltype, degree))

    m.create_element = create_element
    return m


def rand_simplex_points(rng, d, mode=None):
    """Random non-degenerate d-simplex (numpy Generator)."""
    while True:
        mode = mode or rng.choice(["unit", "scaled", "flat", "far"])
        p = rng.normal(size=(d + 1, 3))
        if mode == "scaled":
            p *= 10 ** rng.uniform(-3, 3)
        if mode == "flat":
            p[:, 2] = 0.0 if d < 3 else p[:, 2]
        if mode == "far":
            p += rng.uniform(-5, 5, size=3)
        J = (p[1:] - p[0]).T
        s = np.linalg.svd(J, compute_uv=False)
        if s[-1] > 0.05 * s[0]:
            return p
