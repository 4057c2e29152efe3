"""numpy as seen by the code under contract while it runs on symbolic values.

Every function not listed here is the real numpy function applied to object arrays (elementwise
Python operators, i.e. exact semantics).  The ones listed are *assumed contracts* of numpy:
exact-arithmetic definitions (norm, det, inv, dot, isclose, ...) or unique characterisations
(qr, lstsq); they form part of the trusted base.  With no symbolic argument the real function runs.
"""
import itertools
import math
import types

import numpy as real_np

from . import tnp as np

from . import sym
from .sym import Sym, SBool, Unsupported, has_sym, lift, const

USED = set()


def _obj(x):
    a = np.empty(np.shape(x), dtype=object) if not isinstance(x, np.ndarray) else None
    if a is None:
        return x
    return np.array(x, dtype=object)


def _u(name):
    USED.add("numpy." + name)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    _u("isclose: |a-b| <= atol + rtol*|b| over the reals")
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x, y = a[i], b[i]
        d = x - y
        if is_s(d) and sym.ENGINE is not None and sym.ENGINE.opaque:
            d = sym.ENGINE.simp(d)
            y = sym.ENGINE.simp(y) if is_s(y) else y
        y_abs = abs(y)
        t = atol + rtol * y_abs
        if is_s(d) or is_s(t):
            d, t = Sym(lift(d)), Sym(lift(t))
            out[i] = SBool(sym.and_(lift(d <= t), lift(-d <= t)))
        else:
            out[i] = bool(abs(d) <= t)
    return out if out.shape else out.item()


def is_s(x):
    return isinstance(x, (Sym, SBool))


def all_(a, axis=None, **kw):
    a = np.asarray(a, dtype=object)
    if axis is not None:
        return np.apply_along_axis(lambda v: _all1(v), axis, a)
    return _all1(a)


def _all1(a):
    return _simp(sym.and_(*[_b(x) for x in np.ravel(a)]))


def any_(a, axis=None, **kw):
    a = np.asarray(a, dtype=object)
    if axis is not None:
        return np.apply_along_axis(lambda v: _simp(sym.or_(*[_b(x) for x in np.ravel(v)])), axis, a)
    return _simp(sym.or_(*[_b(x) for x in np.ravel(a)]))


def _b(x):
    if isinstance(x, SBool):
        return x.n
    if isinstance(x, Sym):
        return sym.not_(sym.eq(x.n, const(0)))
    return const(bool(x))


def _simp(n):
    return n.args[0] if sym.isc(n) else SBool(n)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(isclose(a, b, rtol, atol))


def norm(x, ord=None, axis=None, keepdims=False):
    _u("linalg.norm: Euclidean norm")
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    x = np.asarray(x, dtype=object)
    if axis is None:
        if ord == 2 and x.ndim > 1:
            raise Unsupported("matrix 2-norm")
        s = 0
        for y in x.ravel():
            s = s + y * y
        return _sq(s)
    return np.apply_along_axis(lambda v: norm(v), axis, x) if not keepdims else np.expand_dims(
        np.apply_along_axis(lambda v: norm(v), axis, x), axis)


def _sq(s):
    return Sym(lift(s)).sqrt()


def det(a):
    _u("linalg.det: Leibniz formula")
    a = np.asarray(a, dtype=object)
    if a.ndim > 2:
        return np.array([det(x) for x in a], dtype=object)
    return _det(a)


def _det(a):
    n = a.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return a[0, 0]
    r = 0
    for j in range(n):
        if not is_s(a[0, j]) and a[0, j] == 0:
            continue
        m = np.delete(np.delete(a, 0, 0), j, 1)
        r = r + (1 if j % 2 == 0 else -1) * a[0, j] * _det(m)
    return r


def inv(a):
    _u("linalg.inv: adjugate over determinant")
    a = np.asarray(a, dtype=object)
    if a.ndim > 2:
        out = np.empty(a.shape, dtype=object)
        for i in range(len(a)):
            out[i] = inv(a[i])
        return out
    n = a.shape[0]
    d = _det(a)
    if d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            out[i, j] = (1 if (i + j) % 2 == 0 else -1) * _det(m) / d
    return out


def solve(a, b):
    return np.asarray(inv(a), dtype=object) @ np.asarray(b, dtype=object)


def qr(a, mode="reduced"):
    """Assumed contract: A = Q R, Q has orthonormal columns, R upper triangular (signs arbitrary)."""
    _u("linalg.qr: A = Q R, Q^T Q = I, R upper triangular, any signs")
    E = sym.engine()
    a = np.asarray(a, dtype=object)
    h = getattr(E, "qr_hook", None)
    if h is not None:
        r = h(a, mode)
        if r is not None:
            return r
    if mode != "reduced":
        raise Unsupported("qr mode")
    m, n = a.shape
    k = min(m, n)
    q = np.empty((m, k), dtype=object)
    r = np.empty((k, n), dtype=object)
    for i in range(m):
        for j in range(k):
            q[i, j] = E.fresh("qr_q")
    for i in range(k):
        for j in range(n):
            r[i, j] = E.fresh("qr_r") if j >= i else 0.0
    for i in range(k):
        for j in range(i, k):
            E.assume(E.eq(E.dot(q[:, i], q[:, j]), 1 if i == j else 0))
    p = q @ r
    for i in range(m):
        for j in range(n):
            E.assume(E.eq(p[i, j], a[i, j]))
    return q, r


def lstsq(a, b, rcond=None):
    """Assumed contract: for full column rank the unique solution of the normal equations;
    otherwise some least-squares solution (nothing but the normal equations assumed)."""
    _u("linalg.lstsq: solves the normal equations (unique when of full rank)")
    E = sym.engine()
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    ata, atb = a.T @ a, a.T @ b
    d = _det(ata)
    n = a.shape[1]
    if Sym(lift(d)) == 0:
        x = np.array([E.fresh("lstsq") for _ in range(n)], dtype=object)
        for i, v in enumerate(ata @ x):
            E.assume(E.eq(v, atb[i]))
    else:
        x = inv(ata) @ atb
        x = np.array([E.simp(v) if is_s(v) else v for v in x.ravel()], dtype=object).reshape(x.shape)
    return x, None, n, None


def cross(a, b, *args, **kw):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if args or kw or a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("cross variant")
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        x, y = a[i], b[i]
        out[i + (0,)] = x[1] * y[2] - x[2] * y[1]
        out[i + (1,)] = x[2] * y[0] - x[0] * y[2]
        out[i + (2,)] = x[0] * y[1] - x[1] * y[0]
    return out


def round_(a, decimals=0, out=None):
    _u("round: nearest multiple of 10^-decimals, ties unspecified")
    E = sym.engine()
    a = np.asarray(a, dtype=object)
    if getattr(E, "round_identity", False) and decimals >= 8:
        return a.copy()
    r = np.empty(a.shape, dtype=object)
    sc = 10 ** int(decimals)
    for i in np.ndindex(*a.shape):
        x = a[i]
        r[i] = E.round_int(x * sc) / sc if is_s(x) else float(np.round(x, decimals))
    return r if r.shape else r.item()


def sign(a):
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x = a[i]
        out[i] = x.sign() if is_s(x) else float(np.sign(x))
    return out if out.shape else out.item()


def _concretize(c):
    c = np.asarray(c)
    if c.dtype == object:
        return np.vectorize(lambda x: bool(x), otypes=[bool])(c) if c.size else c.astype(bool)
    return c


def where(c, *xy):
    if not xy:
        return np.where(_concretize(c))
    return np.where(_concretize(c), *[np.asarray(v, dtype=object) for v in xy])


def argwhere(c):
    return np.argwhere(_concretize(c))


def count_nonzero(c, *a, **k):
    return np.count_nonzero(_concretize(c), *a, **k)


def trace(a, *args, **kw):
    return np.trace(np.asarray(a, dtype=object), *args, **kw)


def minmax(name):
    real = getattr(np, name)

    def f(a, *args, **kw):
        return real(np.asarray(a, dtype=object), *args, **kw)

    return f


def ufunc1(method):
    def f(x, *a, **k):
        x = np.asarray(x, dtype=object)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = getattr(Sym(lift(x[i])), method)()
        return out if out.shape else out.item()

    return f


def logical(kind):
    def f(a, b=None, **k):
        a = np.asarray(a, dtype=object)
        if kind == "not":
            return np.vectorize(lambda x: _simp(sym.not_(_b(x))), otypes=[object])(a)
        b = np.asarray(b, dtype=object)
        op = sym.and_ if kind == "and" else sym.or_
        r = np.vectorize(lambda x, y: _simp(op(_b(x), _b(y))), otypes=[object])(a, b)
        return r if r.shape else r.item()

    return f


def apply_elementwise_abs(x):
    x = np.asarray(x, dtype=object)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = abs(x[i])
    return out if out.shape else out.item()


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    """sorted distinct values (rows when axis=0); comparisons of symbolic values fork the path"""
    import functools

    if kw or axis not in (None, 0):
        raise Unsupported("unique variant")
    a = np.asarray(a, dtype=object)
    rows = [np.ravel(x) for x in a] if axis == 0 else [[x] for x in a.ravel()]

    def cmp(i, j):
        for x, y in zip(rows[i], rows[j]):
            if x is y or not bool(x != y):
                continue
            return -1 if bool(x < y) else 1
        return 0

    if axis == 0 and getattr(sym.engine(), "abstract_unique", False) == "order":
        # exact classes, any order of the classes (rows are rounded coordinates)
        E = sym.engine()
        groups = []
        for i in range(len(rows)):
            for g in groups:
                if all(x is y or (is_s(x) and is_s(y) and x.n is y.n) for x, y in zip(rows[g[0]], rows[i])) or bool(E.conj([E.eq(x, y) for x, y in zip(rows[g[0]], rows[i])])):
                    g.append(i)
                    break
            else:
                groups.append([i])
        groups = [groups[k] for k in E.choice("unique order", list(itertools.permutations(range(len(groups)))))]
        cmp = None
    elif axis == 0 and getattr(sym.engine(), "abstract_unique", False):
        # over-approximation: any partition of the rows into classes, in any order
        E = sym.engine()
        groups = []
        for i in range(len(rows)):
            k = E.choice("unique class", list(range(len(groups) + 1)))
            if k == len(groups):
                groups.append([i])
            else:
                groups[k].append(i)
        groups = [groups[k] for k in E.choice("unique order", list(itertools.permutations(range(len(groups)))))]
        cmp = None
    order = [] if cmp is None else sorted(range(len(rows)), key=functools.cmp_to_key(cmp))
    if cmp is not None:
        groups = []
    for i in order:
        if groups and cmp(groups[-1][0], i) == 0:
            groups[-1].append(i)
        else:
            groups.append([i])
    first = [min(g) for g in groups]
    src = a if axis == 0 else a.ravel()
    out = [src[np.array(first, dtype=int)] if len(first) else src[:0]]
    if return_index:
        out.append(np.array(first, dtype=int))
    if return_inverse:
        inv_ = np.zeros(len(rows), dtype=int)
        for k, g in enumerate(groups):
            inv_[g] = k
        out.append(inv_)
    if return_counts:
        out.append(np.array([len(g) for g in groups], dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


OVERRIDE = {
    "unique": unique,
    "isclose": isclose, "allclose": allclose, "all": all_, "any": any_, "cross": cross,
    "round": round_, "around": round_, "sign": sign, "where": where, "argwhere": argwhere,
    "count_nonzero": count_nonzero, "trace": trace, "abs": apply_elementwise_abs,
    "absolute": apply_elementwise_abs, "sqrt": ufunc1("sqrt"), "floor": ufunc1("floor"), "cos": ufunc1("cos"),
    "sin": ufunc1("sin"), "logical_not": logical("not"), "logical_and": logical("and"),
    "logical_or": logical("or"), "max": minmax("max"), "min": minmax("min"),
}
LINALG = {"norm": norm, "det": det, "inv": inv, "qr": qr, "lstsq": lstsq, "solve": solve, "pinv": None}

FORCE_OBJECT = {"zeros", "ones", "empty", "full", "identity", "eye"}
OBJ_DEFAULT = (None, float, np.float64, "float", "float64")


MASKED = {"zeros", "eye", "identity", "ndarray", "array", "ones", "ones_like", "zeros_like", "empty",
          "empty_like", "full", "full_like", "ndindex", "broadcast_to"}
ACTIVE = []      # [auto_diff.numpy_masking._active_auto_diffs] once use_auto_diff was called


class _NdarrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)


class _Ndarray(metaclass=_NdarrayMeta):
    def __new__(cls, shape, *a, **k):
        if sym.ENGINE is None or a or k:
            return np.ndarray(shape, *a, **k)
        z = np.empty(shape, dtype=object)
        z[...] = 0.0
        return z


def use_auto_diff():
    """The real auto_diff package runs on object arrays: its own numpy (auto_diff.true_np) allocates
    object arrays while a symbolic engine is active, and its scalars include symbols."""
    import numbers

    if ACTIVE:
        return
    import auto_diff
    from auto_diff import numpy_masking, true_np

    numbers.Number.register(Sym)
    ACTIVE.append(numpy_masking._active_auto_diffs)
    ACTIVE.append(numpy_masking.WithTrueNumpy)
    for k in ("zeros", "ones", "empty", "full", "identity", "eye", "zeros_like", "ones_like", "empty_like", "array"):
        m = NP_PROXY._memo
        m.pop(k, None)
        getattr(NP_PROXY, k)
        setattr(true_np, k, m[k])
    true_np.ndarray = _Ndarray
    if not hasattr(true_np, "product"):       # removed in numpy 2, still called by auto_diff 0.4
        true_np.product = np.prod


class Proxy(types.ModuleType):
    def __init__(self, real, table, name):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_tab"] = table
        self.__dict__["_memo"] = {}

    def __getattr__(self, k):
        m = self._memo
        if k in MASKED and self._real is np and ACTIVE and ACTIVE[0]:
            return getattr(real_np, k)      # inside a `with AutoDiff` block: what auto_diff installed
        if k in m:
            return m[k]
        real = getattr(self._real, k)
        if k == "linalg" and self._real is np:
            r = LINALG_PROXY
        elif k in self._tab:
            alt = self._tab[k]

            def r(*a, _alt=alt, _real=real, _k=k, **kw):
                if any(has_sym(x) for x in a) or any(has_sym(x) for x in kw.values()):
                    if _alt is None:
                        raise Unsupported("numpy function %s on symbolic values" % _k)
                    if ACTIVE and ACTIVE[0]:
                        with ACTIVE[1]():       # numpy's own helpers use numpy.array
                            return _alt(*a, **kw)
                    return _alt(*a, **kw)
                return _real(*_demote(a), **kw)

            r.__name__ = k
        elif self._real is np and k in FORCE_OBJECT:

            def r(*a, _real=real, _k=k, **kw):
                if sym.ENGINE is None:
                    return _real(*a, **kw)
                pos = {"zeros": 1, "ones": 1, "empty": 1, "full": 2, "identity": 1, "eye": 3}[_k]
                dt = kw.get("dtype", a[pos] if len(a) > pos else None)
                if dt in OBJ_DEFAULT or dt is None:
                    if len(a) > pos:
                        a = a[:pos]
                    kw = {x: y for x, y in kw.items() if x != "dtype"}
                    if _k == "full" and has_sym(a[1] if len(a) > 1 else kw.get("fill_value")):
                        return _real(*a, dtype=object, **kw)
                    z = _real(*a, **kw) if _k != "empty" else np.zeros(*a, **kw)
                    if z.dtype == float:
                        z = z.astype(object)
                    return z
                return _real(*a, **kw)

        elif self._real is np and k in ("zeros_like", "ones_like", "empty_like"):

            def r(x, *a, _real=real, _k=k, **kw):
                if has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object):
                    z = np.empty(np.shape(x), dtype=object)
                    z[...] = 1.0 if _k == "ones_like" else 0.0
                    return z
                return _real(x, *a, **kw)

        elif self._real is np and k in ("array", "asarray"):

            def r(x, *a, _real=real, **kw):
                dt = kw.get("dtype", a[0] if a else None)
                if has_sym(x) and dt in (float, np.float64, "float"):
                    kw["dtype"] = object
                    return _real(x, **kw)
                if dt is not None and dt is not object and dt is not bool and has_sym(x):
                    t = np.dtype(dt)
                    if t.kind in "iuf":
                        kw["dtype"] = object
                        r = _real(x, **kw)
                        out = np.empty(r.shape, dtype=object)
                        for i in np.ndindex(*r.shape):
                            out[i] = sym.engine().machine(r[i], t)
                        return out
                return _real(x, *a, **kw)

        else:
            r = real
        m[k] = r
        return r


def _demote(args):
    """object arrays that hold no symbol go back to floats before reaching real numpy"""
    out = []
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype == object and a.size and all(
            isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool) for x in a.ravel()
        ):
            a = a.astype(float)
        out.append(a)
    return tuple(out)


def _math1(name):
    def f(x, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.item()
        E = sym.engine()
        if name == "isqrt":
            return E.isqrt(x)
        if name == "floor":
            return E.floor_int(x)
        return getattr(Sym(lift(x)), name)()

    return f


MATH = {k: _math1(k) for k in ("sqrt", "cos", "sin", "isqrt", "floor")}
MATH["fabs"] = abs


def _copysign(a, x):
    """sign of zero: positive (the reals have no negative zero)"""
    return -abs(a) if x < 0 else abs(a)


MATH["copysign"] = _copysign
MATH["hypot"] = lambda *a: _sq(sum(x * x for x in a))
MATH["dist"] = lambda p, q: _sq(sum((x - y) * (x - y) for x, y in zip(p, q)))
MATH["fsum"] = lambda xs: sum(xs)
MATH_PROXY = Proxy(math, MATH, "math")
LINALG_PROXY = Proxy(np.linalg, LINALG, "numpy.linalg")
NP_PROXY = Proxy(np, OVERRIDE, "numpy")


def _local_imports(modules):
    """`import numpy` inside a function of a repo module: the proxies as well"""
    import builtins

    files = {getattr(m, "__file__", None) for m in modules} - {None}
    old = getattr(builtins.__import__, "_pyvc", builtins.__import__)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        r = old(name, globals, locals, fromlist, level)
        if level == 0 and globals is not None and globals.get("__file__") in files:
            if r is real_np:
                return NP_PROXY
            if r is math:
                return MATH_PROXY
            if r is np.linalg:
                return LINALG_PROXY
        return r

    imp._pyvc = old
    builtins.__import__ = imp


def install(modules):
    """Rebind numpy (and names imported from it) in the namespaces of the repo modules."""
    modules = list(modules)
    _local_imports(modules)
    table = {}
    for k in list(OVERRIDE):
        table[id(getattr(np, k))] = getattr(NP_PROXY, k)
    for k in list(LINALG):
        table[id(getattr(np.linalg, k))] = getattr(LINALG_PROXY, k)
    for k in MATH:
        table[id(getattr(math, k))] = getattr(MATH_PROXY, k)
    for mod in modules:
        for k, v in list(vars(mod).items()):
            if v is real_np:
                setattr(mod, k, NP_PROXY)
            elif v is np.linalg:
                setattr(mod, k, LINALG_PROXY)
            elif v is math:
                setattr(mod, k, MATH_PROXY)
            elif not isinstance(v, (int, float, str)) and id(v) in table:
                setattr(mod, k, table[id(v)])
