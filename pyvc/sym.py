"""Symbolic values: a small hash-consed expression DAG over reals, integers and booleans.

The real /repo code runs on these values (inside numpy object arrays or alone).  A boolean
expression forks the current path when Python asks for its truth value.  Floats are treated as
mathematical reals (the decimal value that repr prints); this is listed in every trusted base.
"""
from fractions import Fraction
import math
import numbers

from . import tnp as np


class Unsupported(Exception):
    """The code did something the engine has no semantics for: the path is undecided."""


class NonFinite(ArithmeticError):
    """Division by zero / root of a negative number: numpy would give nan or inf."""


ENGINE = None  # the active symbolic engine (one per process)


def engine():
    if ENGINE is None:
        raise Unsupported("symbolic value used outside an engine run")
    return ENGINE


_table = {}


class Node:
    __slots__ = ("op", "args", "sort", "id", "_z3", "_rat")

    def __repr__(self):
        return show(self)


def mk(op, args, sort):
    key = (op, sort) + tuple(a.id if isinstance(a, Node) else a for a in args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.sort, n.id = op, args, sort, len(_table)
        n._z3 = n._rat = None
        _table[key] = n
    return n


def show(n, depth=6):
    if n.op == "const":
        return str(n.args[0])
    if n.op == "var":
        return n.args[0]
    if depth == 0:
        return "..."
    return "(" + n.op + " " + " ".join(show(a, depth - 1) if isinstance(a, Node) else str(a) for a in n.args) + ")"


def const(v, sort=None):
    if isinstance(v, (bool, np.bool_)):
        return mk("const", (bool(v),), "B")
    if isinstance(v, (int, np.integer)):
        return mk("const", (Fraction(int(v)),), sort or "I")
    if isinstance(v, Fraction):
        return mk("const", (v,), sort or "R")
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isnan(v) or math.isinf(v):
            raise Unsupported("non-finite constant")
        return mk("const", (Fraction(repr(v)),), "R")
    raise Unsupported("constant of type %s" % type(v).__name__)


TRUE = mk("const", (True,), "B")
FALSE = mk("const", (False,), "B")


def lift(x):
    if isinstance(x, Sym):
        return x.n
    if isinstance(x, SBool):
        return x.n
    if isinstance(x, Node):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return const(x)


def isc(n):
    return n.op == "const"


def _arith_sort(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def num(n):
    if n.sort == "B":  # numpy lets booleans act as 0/1
        if isc(n):
            return const(1 if n.args[0] else 0)
        return mk("ite", (n, const(1), const(0)), "I")
    return n


def add(a, b):
    a, b = num(a), num(b)
    s = _arith_sort(a, b)
    if isc(a) and isc(b):
        return const(a.args[0] + b.args[0], s)
    if isc(a) and a.args[0] == 0:
        return toreal(b) if s == "R" else b
    if isc(b) and b.args[0] == 0:
        return toreal(a) if s == "R" else a
    if a.id > b.id:
        a, b = b, a
    return mk("add", (a, b), s)


def mul(a, b):
    a, b = num(a), num(b)
    s = _arith_sort(a, b)
    if isc(a) and isc(b):
        return const(a.args[0] * b.args[0], s)
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x.args[0] == 0:
                return const(Fraction(0), s)
            if x.args[0] == 1:
                return toreal(y) if s == "R" else y
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), s)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b:
        return const(Fraction(0), a.sort if a.sort != "B" else "I")
    return add(a, neg(b))


def toreal(n):
    if n.sort == "I":
        if isc(n):
            return const(n.args[0], "R")
        return mk("toreal", (n,), "R")
    return n


def div(a, b):
    a, b = num(a), num(b)
    if isc(b):
        if b.args[0] == 0:
            raise NonFinite("division by zero")
        if isc(a):
            return const(a.args[0] / b.args[0], "R")
        return mul(a, const(1 / b.args[0], "R"))
    if isc(a) and a.args[0] == 0:
        engine().require_nonzero(b)
        return const(Fraction(0), "R")
    engine().require_nonzero(b)
    if a is b:
        return const(Fraction(1), "R")
    return mk("div", (toreal(a), toreal(b)), "R")


def lt(a, b):
    a, b = num(a), num(b)
    if isc(a) and isc(b):
        return const(a.args[0] < b.args[0])
    if a is b:
        return FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    a, b = num(a), num(b)
    if isc(a) and isc(b):
        return const(a.args[0] <= b.args[0])
    if a is b:
        return TRUE
    return mk("le", (a, b), "B")


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if isc(a):
            return b if a.args[0] else not_(b)
        if isc(b):
            return a if b.args[0] else not_(a)
        return mk("eq", (a, b), "B")
    a, b = num(a), num(b)
    if isc(a) and isc(b):
        return const(a.args[0] == b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def not_(a):
    if isc(a):
        return const(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if isc(x):
            if not x.args[0]:
                return FALSE
            continue
        if x.op == "and":
            out.extend(y for y in x.args if y not in out)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def ite(c, a, b):
    if isc(c):
        return a if c.args[0] else b
    if a is b:
        return a
    if a.sort != b.sort:
        a, b = toreal(num(a)), toreal(num(b))
    return mk("ite", (c, a, b), a.sort)


def var(name, sort):
    return mk("var", (name,), sort)


def app(fname, args, sort):
    """Uninterpreted function application (used by contracts of external functions)."""
    return mk("app", (fname,) + tuple(args), sort)


# ---------------------------------------------------------------- wrappers
def _num(x):
    if isinstance(x, (Sym, SBool, numbers.Number, np.number, np.bool_, Fraction)):
        return True
    return False


class SBool:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return engine().decide(self.n)

    def __and__(self, o):
        return SBool(and_(self.n, lift(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(or_(self.n, lift(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(not_(self.n))

    def logical_not(self):
        return SBool(not_(self.n))

    def __eq__(self, o):
        if not _num(o):
            return NotImplemented
        return SBool(eq(self.n, lift(o)))

    def __ne__(self, o):
        if not _num(o):
            return NotImplemented
        return SBool(not_(eq(self.n, lift(o))))

    def __hash__(self):
        raise Unsupported("hash of a symbolic boolean")

    def __add__(self, o):
        return Sym(num(self.n)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return Sym(num(self.n)) * o

    __rmul__ = __mul__

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __repr__(self):
        return "SBool%s" % show(self.n)


def _wrapn(n):
    return SBool(n) if n.sort == "B" else Sym(n)


class Sym:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def _bin(self, o, f, swap=False):
        if not _num(o):
            return NotImplemented
        b = lift(o)
        return _wrapn(f(b, self.n) if swap else f(self.n, b))

    def __add__(self, o):
        return self._bin(o, add)

    def __radd__(self, o):
        return self._bin(o, add, True)

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, sub, True)

    def __mul__(self, o):
        return self._bin(o, mul)

    def __rmul__(self, o):
        return self._bin(o, mul, True)

    def __truediv__(self, o):
        return self._bin(o, div)

    def __rtruediv__(self, o):
        return self._bin(o, div, True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: engine().floordiv(a, b))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: engine().floordiv(a, b), True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: sub(a, mul(b, engine().floordiv(a, b))))

    def __neg__(self):
        return Sym(neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        n = self.n
        if isc(n):
            return Sym(const(abs(n.args[0]), n.sort))
        return Sym(ite(le(const(0), n), n, neg(n)))

    absolute = fabs = __abs__

    def __pow__(self, k):
        if isinstance(k, Sym) and isc(k.n):
            k = k.n.args[0]
        if isinstance(k, (float, np.floating)) and float(k) == 0.5:
            return self.sqrt()
        if isinstance(k, (int, np.integer, float, np.floating, Fraction)) and float(k) == int(k):
            k = int(k)
            if k < 0:
                return 1 / (self ** (-k))
            r = Sym(const(1, self.n.sort))
            for _ in range(k):
                r = r * self
            return r
        raise Unsupported("power with exponent %r" % (k,))

    def square(self):
        return self * self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def ravel(self):
        import numpy

        r = numpy.empty(1, dtype=object)
        r[0] = self
        return r

    flatten = ravel

    def item(self):
        return self

    def copy(self):
        return self

    def reciprocal(self):
        return 1 / self

    def __lt__(self, o):
        return self._bin(o, lt)

    def __le__(self, o):
        return self._bin(o, le)

    def __gt__(self, o):
        return self._bin(o, lt, True)

    def __ge__(self, o):
        return self._bin(o, le, True)

    def __eq__(self, o):
        if not _num(o):
            return NotImplemented
        return SBool(eq(self.n, lift(o)))

    def __ne__(self, o):
        if not _num(o):
            return NotImplemented
        return SBool(not_(eq(self.n, lift(o))))

    def __hash__(self):
        if isc(self.n):
            return hash(self.n.args[0])
        return engine().hash_of(self)

    def __bool__(self):
        return engine().decide(not_(eq(self.n, const(0))))

    def __float__(self):
        if isc(self.n):
            return float(self.n.args[0])
        raise Unsupported("symbolic value converted to a machine float")

    def __int__(self):
        if isc(self.n) and self.n.args[0].denominator == 1:
            return int(self.n.args[0])
        raise Unsupported("symbolic value converted to a machine int")

    def __index__(self):
        return self.__int__()

    def __round__(self, nd=None):
        if nd is None:
            return engine().round_int(self)
        raise Unsupported("round")

    def sqrt(self):
        return engine().sqrt(self)

    def __floor__(self):
        return engine().floor_int(self)

    def floor(self):
        r = engine().floor_int(self)
        return Sym(toreal(r.n)) if isinstance(r, Sym) else r

    def rint(self):
        r = engine().round_int(self)
        return Sym(toreal(r.n)) if isinstance(r, Sym) else r

    def sign(self):
        if self > 0:
            return 1.0
        if self < 0:
            return -1.0
        return 0.0

    def cos(self):
        return engine().trig(self)[0]

    def sin(self):
        return engine().trig(self)[1]

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def logical_not(self):
        return SBool(eq(self.n, const(0)))

    def arccos(self):
        raise Unsupported("arccos")

    def __repr__(self):
        return "Sym" + show(self.n)


def is_sym(x):
    return isinstance(x, (Sym, SBool))


def has_sym(x):
    if isinstance(x, (Sym, SBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(y) for y in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


# ---------------------------------------------------------------- z3 translation
def to_z3(n):
    import z3

    if n._z3 is not None:
        return n._z3
    # iterative post-order so that deep sums do not hit the recursion limit
    stack = [(n, False)]
    while stack:
        x, done = stack.pop()
        if x._z3 is not None:
            continue
        if not done:
            stack.append((x, True))
            for a in x.args:
                if isinstance(a, Node) and a._z3 is None:
                    stack.append((a, False))
            continue
        z = [a._z3 if isinstance(a, Node) else a for a in x.args]
        op = x.op
        if op == "const":
            v = x.args[0]
            if x.sort == "B":
                r = z3.BoolVal(v)
            elif x.sort == "I":
                r = z3.IntVal(int(v))
            else:
                r = z3.RealVal(str(v))
        elif op == "var":
            r = {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[x.sort](x.args[0])
        elif op == "add":
            r = z[0] + z[1]
        elif op == "mul":
            r = z[0] * z[1]
        elif op == "div":
            r = z[0] / z[1]
        elif op == "toreal":
            r = z3.ToReal(z[0])
        elif op == "lt":
            r = z[0] < z[1]
        elif op == "le":
            r = z[0] <= z[1]
        elif op == "eq":
            r = z[0] == z[1]
        elif op == "not":
            r = z3.Not(z[0])
        elif op == "and":
            r = z3.And(*z)
        elif op == "ite":
            r = z3.If(z[0], z[1], z[2])
        elif op == "floor":
            r = z3.ToInt(z[0])
        elif op == "app":
            S = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}
            f = z3.Function(x.args[0], *([S[a.sort] for a in x.args[1:]] + [S[x.sort]]))
            r = f(*z[1:])
        elif op == "forall":
            r = z3.ForAll([a._z3 for a in x.args[:-1]], z[-1])
        else:
            raise Unsupported("no z3 form for %s" % op)
        x._z3 = r
    return n._z3


# ---------------------------------------------------------------- exact rational normal form
class Poly(dict):
    """Sparse multivariate polynomial: {((var, exp), ...): Fraction}, variables sorted."""

    __slots__ = ()


def p_const(c):
    return Poly({(): c}) if c != 0 else Poly()


def p_var(v):
    return Poly({((v, 1),): Fraction(1)})


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = Poly(a)
    for m, c in b.items():
        c2 = r.get(m, 0) + s * c
        if c2 == 0:
            r.pop(m, None)
        else:
            r[m] = c2
    return r


def _mm(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b, rules=None):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mm(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    p = Poly({m: c for m, c in r.items() if c != 0})
    if len(p) > 200000:
        raise Unsupported("polynomial too large")
    return p_reduce(p, rules) if rules else p


def p_reduce(p, rules):
    """Rewrite with rules {var: (k, poly)}: var^k -> poly, until no rule applies."""
    while True:
        out, changed = {}, False
        for m, c in p.items():
            for i, (v, e) in enumerate(m):
                r = rules.get(v)
                if r is not None and e >= r[0]:
                    break
            else:
                out[m] = out.get(m, 0) + c
                continue
            changed = True
            k, q = r
            rest = m[:i] + (((v, e - k),) if e > k else ()) + m[i + 1:]
            for m2, c2 in q.items():
                mm = _mm(rest, m2)
                out[mm] = out.get(mm, 0) + c * c2
        if not changed:
            return p
        p = Poly({m: c for m, c in out.items() if c != 0})
        if len(p) > 200000:
            raise Unsupported("polynomial too large")


class Rat:
    """num / product of den[i]**k ; den keyed by a frozen polynomial."""

    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num, self.den = num, den


def _key(p):
    return frozenset(p.items())


def _pow(p, k, rules):
    r = p_const(Fraction(1))
    for _ in range(k):
        r = p_mul(r, p, rules)
    return r


def rat_of(n, rules, cache):
    """Normal form of a real/int expression without ite; raises Unsupported otherwise."""
    stack = [(n, False)]
    while stack:
        x, done = stack.pop()
        if x.id in cache:
            continue
        if not done:
            if x.op not in ("const", "var", "add", "mul", "div", "toreal"):
                cache[x.id] = Rat(p_reduce(p_var("@%d" % x.id), rules), {})  # opaque atom
                continue
            stack.append((x, True))
            for a in x.args:
                if isinstance(a, Node) and a.id not in cache:
                    stack.append((a, False))
            continue
        op = x.op
        if op == "const":
            r = Rat(p_const(x.args[0]), {})
        elif op == "var":
            r = Rat(p_reduce(p_var(x.args[0]), rules), {})
        elif op == "toreal":
            r = cache[x.args[0].id]
        else:
            a, b = cache[x.args[0].id], cache[x.args[1].id]
            if op == "add":
                den = dict(a.den)
                for k, e in b.den.items():
                    den[k] = max(den.get(k, 0), e)
                na, nb = a.num, b.num
                for k, e in den.items():
                    ea, eb = e - a.den.get(k, 0), e - b.den.get(k, 0)
                    if ea:
                        na = p_mul(na, _pow(Poly(dict(k)), ea, rules), rules)
                    if eb:
                        nb = p_mul(nb, _pow(Poly(dict(k)), eb, rules), rules)
                r = Rat(p_add(na, nb), den)
            elif op == "mul":
                den = dict(a.den)
                for k, e in b.den.items():
                    den[k] = den.get(k, 0) + e
                r = Rat(p_mul(a.num, b.num, rules), den)
            else:  # div
                num, den = a.num, dict(a.den)
                for k, e in b.den.items():
                    num = p_mul(num, _pow(Poly(dict(k)), e, rules), rules)
                bn = b.num
                if not bn:
                    raise Unsupported("division by an identically zero polynomial")
                if len(bn) == 1:
                    (bm, bc), = bn.items()
                    num = Poly({m: c / bc for m, c in num.items()})
                    for v, e in bm:
                        k = _key(p_var(v))
                        den[k] = den.get(k, 0) + e
                else:
                    k = _key(bn)
                    den[k] = den.get(k, 0) + 1
                r = Rat(num, den)
            _cancel_monomials(r)
            # cancel identical num/den quickly
            for k in list(r.den):
                if r.den[k] and _key(r.num) == k:
                    r.num = p_const(Fraction(1))
                    r.den[k] -= 1
                    if r.den[k] == 0:
                        del r.den[k]
        cache[x.id] = r
    return cache[n.id]


def _cancel_monomials(r):
    for k in list(r.den):
        if len(k) != 1:
            continue
        (m, c), = k
        if len(m) != 1 or m[0][1] != 1:
            continue
        v = m[0][0]
        while r.den.get(k) and r.num and all(any(x == v for x, _ in mm) for mm in r.num):
            r.num = Poly({tuple((x, e - 1) if x == v else (x, e) for x, e in mm if x != v or e > 1): cc for mm, cc in r.num.items()})
            r.den[k] -= 1
            if not r.den[k]:
                del r.den[k]


def content(p):
    """largest monomial dividing every term, as {var: exp}"""
    it = iter(p)
    d = dict(next(it, ()))
    for m in it:
        mm = dict(m)
        d = {v: min(e, mm[v]) for v, e in d.items() if v in mm}
        if not d:
            break
    return d


def divide_monomial(p, d):
    return Poly({tuple((v, e - d.get(v, 0)) for v, e in m if e - d.get(v, 0) > 0): c for m, c in p.items()})


_vars_memo = {}


def vars_of(n):
    """ids (names) of the variables of a node"""
    r = _vars_memo.get(n.id)
    if r is None:
        if n.op == "var":
            r = frozenset((n.args[0],))
        else:
            r = frozenset()
            for a in n.args:
                if isinstance(a, Node):
                    r = r | vars_of(a)
        _vars_memo[n.id] = r
    return r


def poly_sqrt(p, limit=60):
    """r with r*r == p, or None (exact; lexicographic leading terms)."""
    if not p or len(p) > limit * limit:
        return None
    vs = sorted({v for m in p for v, _ in m})
    pos = {v: i for i, v in enumerate(vs)}

    def key(m):
        k = [0] * len(vs)
        for v, e in m:
            k[pos[v]] = e
        return k

    def root(c):
        if c < 0:
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None

    lm, low = max(p, key=key), min(p, key=key)
    for m in (lm, low):
        if any(e % 2 for _, e in m) or root(Fraction(p[m])) is None:
            return None
    h = tuple((v, e // 2) for v, e in lm)
    c0 = root(Fraction(p[lm]))
    r = Poly({h: c0})
    rem = p_add(p, p_mul(r, r), -1)
    for _ in range(limit):
        if not rem:
            return r
        m = max(rem, key=key)
        d = dict(m)
        for v, e in h:
            d[v] = d.get(v, 0) - e
            if d[v] < 0:
                return None
        t = Poly({tuple(sorted((v, e) for v, e in d.items() if e)): rem[m] / (2 * c0)})
        rem = p_add(rem, p_mul(p_add(p_add(r, r), t), t), -1)
        r = p_add(r, t)
    return r if not rem else None


def poly_to_node(p):
    r = const(Fraction(0), "R")
    for m, c in sorted(p.items(), key=lambda t: repr(t[0])):
        t = const(c, "R")
        for v, e in m:
            vn = _by_id(v)
            for _ in range(e):
                t = mul(t, vn)
        r = add(r, t)
    return r


def _by_id(v):
    if v.startswith("@"):
        i = int(v[1:])
        for n in _table.values():
            if n.id == i:
                return n
    for s in ("R", "I"):
        n = _table.get(("var", s, v))
        if n is not None:
            return n
    raise Unsupported("unknown polynomial variable " + v)


def replace(n, memo):
    """Rebuild n with the nodes in memo (by id) replaced."""
    stack = [(n, False)]
    while stack:
        x, done = stack.pop()
        if x.id in memo:
            continue
        if not done:
            stack.append((x, True))
            for a in x.args:
                if isinstance(a, Node) and a.id not in memo:
                    stack.append((a, False))
            continue
        args = tuple(memo[a.id] if isinstance(a, Node) else a for a in x.args)
        if x.op == "add":
            r = add(*args)
        elif x.op == "mul":
            r = mul(*args)
        elif x.op == "eq":
            r = eq(*args)
        elif x.op == "lt":
            r = lt(*args)
        elif x.op == "le":
            r = le(*args)
        elif x.op == "not":
            r = not_(*args)
        elif x.op == "and":
            r = and_(*args)
        elif x.op == "ite":
            r = ite(*args)
        elif x.op == "toreal":
            r = toreal(*args)
        else:
            r = mk(x.op, args, x.sort) if x.args else x
        memo[x.id] = r
    return memo[n.id]


# ---------------------------------------------------------------- symbolic derivative
def deriv(n, v, memo):
    if n.id in memo:
        return memo[n.id]
    if n.op == "const":
        r = const(0)
    elif n.op == "var":
        r = const(1) if n.args[0] == v else const(0)
    elif n.op == "add":
        r = add(deriv(n.args[0], v, memo), deriv(n.args[1], v, memo))
    elif n.op == "mul":
        a, b = n.args
        r = add(mul(deriv(a, v, memo), b), mul(a, deriv(b, v, memo)))
    elif n.op == "div":
        a, b = n.args
        da, db = deriv(a, v, memo), deriv(b, v, memo)
        r = mk("div", (sub(mul(da, b), mul(a, db)), mul(b, b)), "R")
    elif n.op == "toreal":
        r = deriv(n.args[0], v, memo)
    else:
        raise Unsupported("derivative of %s" % n.op)
    memo[n.id] = r
    return r
