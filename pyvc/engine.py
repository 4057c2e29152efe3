"""Path-wise verification-condition generation and discharge.

SymEngine  : runs a unit on symbolic inputs, forks on undecided branches, discharges obligations.
ConcEngine : runs the same unit on concrete inputs (replay of a counter-model, or bounded sampling).
"""
from fractions import Fraction
import contextlib
import io
import math
import random
import threading
import time
import traceback

from . import tnp as np

from . import sym
from .sym import Sym, SBool, Node, Unsupported, NonFinite, lift, const


class Infeasible(Exception):
    """The current path contradicts an assumption: nothing to prove on it."""


class Reject(Exception):
    """Concrete run: the sampled input does not satisfy the precondition."""


class BudgetExceeded(Exception):
    pass


def _z3():
    import z3

    return z3


_deadline = [None]
_watch = []


def _watchdog():
    """one thread per process; touches nothing but the context's interrupt flag"""
    ctx = _z3().main_ctx()
    while True:
        time.sleep(0.25)
        d = _deadline[0]
        if d is not None and time.time() > d:
            _deadline[0] = None
            ctx.interrupt()


def z3_check(solver, timeout_s):
    """check() with a watchdog, because z3's own timeout is not always honoured."""
    z3 = _z3()
    if not _watch:
        import gc

        gc.disable()  # cyclic garbage must never be collected from the watchdog thread
        t = threading.Thread(target=_watchdog, daemon=True)
        _watch.append(t)
        t.start()
    solver.set("timeout", max(1, int(timeout_s * 1000)))
    _deadline[0] = time.time() + timeout_s * 1.5 + 0.5
    try:
        r = solver.check()
    except z3.Z3Exception:
        return "unknown"
    finally:
        _deadline[0] = None
    return str(r)


def _collect():
    import gc

    if not gc.isenabled():
        gc.collect()


def model_value(m, node):
    z3 = _z3()
    v = m.eval(sym.to_z3(node), model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def cvc5_check(nodes, timeout_s):
    """unsat / sat / unknown from cvc5 through SMT-LIB text."""
    import shutil
    import subprocess

    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    try:
        z3 = _z3()
        s = z3.Solver()
        for n in nodes:
            s.add(sym.to_z3(n))
        text = "(set-logic ALL)\n" + s.to_smt2()
        r = subprocess.run([exe, "--lang", "smt2", "--nl-cov", "--tlimit=%d" % int(timeout_s * 1000)], input=text,
                           capture_output=True, text=True, timeout=timeout_s + 1)
        out = r.stdout.split()
        return out[-1] if out and out[-1] in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"


class Base:
    symbolic = False

    # -- inputs -------------------------------------------------------------
    def vec(self, name, n, **kw):
        return self.arr(name, (n,), **kw)

    def arr(self, name, shape, **kw):
        out = np.empty(shape, dtype=object if self.symbolic else float)
        for idx in np.ndindex(*shape):
            out[idx] = self.real(name + "".join("_%d" % i for i in idx), **kw)
        return out

    # -- comparison helpers shared by both modes ------------------------------
    def dot(self, a, b):
        r = 0
        for x, y in zip(np.ravel(a), np.ravel(b)):
            r = r + x * y
        return r

    def cross(self, a, b):
        return np.array(
            [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]],
            dtype=object if self.symbolic else float,
        )

    def conj(self, xs):
        r = True
        for x in xs:
            r = self.and_(r, x)
        return r

    def disj(self, xs):
        r = False
        for x in xs:
            r = self.or_(r, x)
        return r

    def implies(self, a, b):
        return self.or_(self.not_(a), b)


class SymEngine(Base):
    symbolic = True

    def __init__(self, unit_timeout=60.0, query_timeout=10.0, max_paths=4000):
        self.t_end = time.time() + unit_timeout
        self.query_timeout = query_timeout
        self.max_paths = max_paths
        self.max_refuted = 4
        self.results = []          # obligations
        self.paths = 0
        self.covered = set()
        self.undecided = []        # reasons
        self.solver_s = 0.0
        self.queries = 0
        self.contracts_used = set()
        self.external = set()
        self._sat_cache = {}
        self.backends = {}
        self.lazy_sqrt = False
        self.hidden, self.defs = [], []

    # -- path exploration -----------------------------------------------------
    def run(self, fn):
        work = [[]]
        n_ref = n_seen = 0
        z3 = _z3()
        sym.ENGINE = self
        try:
            while work:
                while n_seen < len(self.results):
                    n_ref += self.results[n_seen]["status"] == "refuted"
                    n_seen += 1
                if n_ref >= self.max_refuted:
                    self.undecided.append("stopped after %d refuted obligations" % self.max_refuted)
                    break
                if self.paths >= self.max_paths:
                    self.undecided.append("path budget (%d) exhausted" % self.max_paths)
                    break
                if time.time() > self.t_end:
                    self.undecided.append("unit time budget exhausted")
                    break
                self.prefix = work.pop()
                if self.paths % 50 == 49:
                    _collect()
                self.work = work
                self.pos = 0
                self.pc, self.pcset = [], set()
                self.rules, self.ratcache, self.ratcache2 = {}, {}, {}
                self.inputs = {}
                self.hidden, self.defs, self.opaque = [], [], set()
                self.counter = {}
                self.sqrt_memo, self.trig_memo = {}, {}
                self.sums = set()
                self.solver = z3.SolverFor("QF_NRA") if False else z3.Solver()
                self.paths += 1
                self.path_failed = False
                try:
                    fn(self)
                except Infeasible:
                    pass
                except Unsupported as e:
                    self.undecided.append("unsupported: %s @ %s" % (e, _where(e)))
                except BudgetExceeded as e:
                    self.undecided.append(str(e))
                    break
                except Exception as e:
                    # an exception escaping the code under contract on a feasible path
                    if self._is_engine_limit(e):
                        self.undecided.append(
                            "unsupported: %s: %s @ %s" % (type(e).__name__, e, _where(e))
                        )
                    else:
                        self.fail("no exception escapes", "%s: %s @ %s" % (type(e).__name__, e, _where(e)))
        finally:
            sym.ENGINE = None

    @staticmethod
    def _is_engine_limit(e):
        s = str(e)
        if stub_misuse(e):
            return True
        if isinstance(e, (UnboundLocalError, NameError, RecursionError, MemoryError)) or engine_frame(e):
            return True
        if isinstance(e, (TypeError, AttributeError)) and ("Sym" in s or "SBool" in s or "ufunc" in s or "object" in s):
            return True
        if "Cannot cast" in s or "dtype" in s or "SBool" in s:
            return True
        return False

    # -- inputs ---------------------------------------------------------------
    def _input(self, name, sort):
        if name in self.inputs:
            raise Unsupported("the unit declares the input %r twice" % name)
        n = sym.var(name, sort)
        self.inputs[name] = n
        return n

    def real(self, name, **kw):
        x = Sym(self._input(name, "R"))
        if "lo" in kw:
            self.assume(x >= kw["lo"])
        if "hi" in kw:
            self.assume(x <= kw["hi"])
        return x

    def int(self, name, lo=None, hi=None, **kw):
        x = Sym(self._input(name, "I"))
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def bool(self, name):
        return SBool(self._input(name, "B"))

    def fresh(self, base, sort="R"):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        n = sym.var("%s!%d" % (base, k), sort)
        return SBool(n) if sort == "B" else Sym(n)

    def choice(self, name, options):
        """Nondeterministic choice out of a finite list: every option is explored."""
        options = list(options)
        i = self._decide_n(len(options))
        self.inputs["choice:" + name] = i
        return options[i]

    def _decide_n(self, n):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.work.append(self.prefix[: self.pos] + [k])
            self.prefix = self.prefix + [v]
        self.pos += 1
        return v

    # -- path condition -------------------------------------------------------
    def _add(self, n):
        if sym.isc(n):
            if not n.args[0]:
                raise Infeasible()
            return
        if n.id in self.pcset:
            return
        self.pc.append(n)
        self.pcset.add(n.id)
        if n.op == "and":
            for a in n.args:
                self.pcset.add(a.id)
        self.solver.add(sym.to_z3(n))

    def assume(self, cond):
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.assume(c)
            return
        n = lift(cond) if not isinstance(cond, (bool, np.bool_)) else const(bool(cond))
        self._add(n)

    def _feasible(self, extra, timeout=0.5):
        if time.time() > self.t_end:
            raise BudgetExceeded("unit time budget exhausted")
        t = time.time()
        comp = self.component(extra, self.pc)
        if comp is not None:        # constraints over other variables are satisfiable on their own
            s = _z3().Solver()
            for c in comp:
                s.add(sym.to_z3(c))
            s.add(sym.to_z3(extra))
            r = z3_check(s, timeout)
        else:
            self.solver.push()
            self.solver.add(sym.to_z3(extra))
            r = z3_check(self.solver, timeout)
            self.solver.pop()
        if r == "unknown":
            cone = self.cone(extra, self.pc)
            if cone is not None:
                r = self.solve(cone + [extra], timeout, quick=True)[0]
        self.solver_s += time.time() - t
        self.queries += 1
        return r != "unsat"

    def _known_pos(self, v):
        n = sym._by_id(v)
        for z in (const(0), const(Fraction(0), "R")):
            if sym.lt(z, n).id in self.pcset:
                return True
            if sym.not_(sym.eq(n, z)).id in self.pcset and any(
                    sym.le(y, n).id in self.pcset for y in (const(0), const(Fraction(0), "R"))):
                return True
        return False

    def _canon(self, n, limit=80):
        """An equivalent literal (under the non-zero denominators of the path) over the normal form."""
        if n.op == "not":
            return sym.not_(self._canon(n.args[0], limit))
        if n.op not in ("lt", "le", "eq") or n.args[0].sort == "B":
            return n
        try:
            r = sym.rat_of(sym.sub(n.args[0], n.args[1]), self.rules, self.ratcache)
        except Unsupported:
            return n
        if len(r.num) > limit:
            return n
        num = r.num
        if self.opaque and sym.vars_of(n) & self.opaque:
            vs = {v for m in num for v, _ in m}
            if vs - sym.vars_of(n):
                return n  # the opaque terms do not cancel: keep them
        if n.op != "eq":
            for k, e in r.den.items():
                if e % 2:
                    d = sym.Poly(dict(k))
                    if len(d) == 1 and all(c > 0 and all(self._known_pos(v) or x % 2 == 0 for v, x in m) for m, c in d.items()):
                        continue
                    num = sym.p_mul(num, d, self.rules)
                    if len(num) > limit:
                        return n
        c = {v: e for v, e in sym.content(num).items()}
        c = {v: (e if self._known_pos(v) else 0) for v, e in c.items()}
        if any(c.values()):
            num = sym.divide_monomial(num, c)
        if num and n.op == "eq":
            lead = num[min(num)]
            num = sym.Poly({m: x / lead for m, x in num.items()})
        elif num:
            lead = abs(num[min(num)])
            num = sym.Poly({m: x / lead for m, x in num.items()})
        try:
            t = sym.poly_to_node(num)
        except Unsupported:
            return n
        z = const(Fraction(0), "R")
        if len(num) == 1 and n.op in ("lt", "le"):
            (m, cc), = num.items()
            if len(m) == 1 and m[0][1] == 1 and cc < 0:  # -v < 0  ->  0 < v
                v = sym._by_id(m[0][0])
                return (sym.lt if n.op == "lt" else sym.le)(z, v)
        return {"lt": sym.lt, "le": sym.le, "eq": sym.eq}[n.op](t, z)

    def simp(self, x, limit=40):
        """The same value as a reduced polynomial, when that introduces no new variable (else unchanged)."""
        n = lift(x)
        if sym.isc(n) or n.sort != "R" or n.op == "var":
            return x
        v = sym.vars_of(n)
        keep = {k: r for k, r in self.rules.items() if k not in self.opaque}
        for rules, cache in ((self.rules, self.ratcache), (keep, self.ratcache2)):
            try:
                r = sym.rat_of(n, rules, cache)
                if r.den or len(r.num) > limit:
                    continue
                t = sym.poly_to_node(r.num) if r.num else const(Fraction(0), "R")
            except Unsupported:
                continue
            if sym.vars_of(t) <= v:
                return Sym(sym.toreal(t))
        return x

    def decide(self, n):
        if sym.isc(n):
            return n.args[0]
        if n.id in self.pcset:
            return True
        if sym.not_(n).id in self.pcset:
            return False
        c = self._canon(n)
        if c is n:
            return self._decide(n)
        r = self._decide(c)
        self.pcset.add((n if r else sym.not_(n)).id)
        return r

    def _decide(self, n):
        if sym.isc(n):
            return n.args[0]
        if n.id in self.pcset:
            return True
        nn = sym.not_(n)
        if nn.id in self.pcset:
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self._add(n if v else nn)
            return v
        t_ok = self._feasible(n)
        if not t_ok:
            v = False
        else:
            f_ok = self._feasible(nn)
            v = True
            if f_ok:
                self.work.append(self.prefix[: self.pos] + [False])
        self.prefix = self.prefix + [v]
        self.pos += 1
        self._add(n if v else nn)
        return v

    def require_nonzero(self, n):
        """Division: fork on a zero denominator; a reachable zero is a NonFinite outcome."""
        z = sym.eq(n, const(0))
        if self.decide(z):
            raise NonFinite("division by zero")

    def sqrt(self, x):
        n = lift(x)
        if n.id in self.sqrt_memo:
            return self.sqrt_memo[n.id]
        if sym.isc(n):
            v = n.args[0]
            if v < 0:
                raise NonFinite("sqrt of a negative number")
            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                return Sym(const(Fraction(p, q)))
        # a (registered or syntactic) sum of squares is non-negative, otherwise fork
        if self._registered(n):
            self._add(sym.le(const(Fraction(0), "R"), n))
        elif not _sos(n) and self.decide(sym.lt(n, const(0))):
            raise NonFinite("sqrt of a negative number")
        try:
            r = sym.rat_of(n, self.rules, self.ratcache)
        except Unsupported:
            r = None
        if r is not None and r.den and len(r.num) < 400:
            # sqrt(N / prod d^k) = sqrt(N * prod_{k odd} d) / prod |d|^ceil(k/2)
            num, scale = r.num, None
            for k, e in r.den.items():
                d = sym.Poly(dict(k))
                if e % 2:
                    num = sym.p_mul(num, d, self.rules)
                dn = sym.poly_to_node(d)
                if self.decide(sym.lt(dn, const(0))):
                    dn = sym.neg(dn)
                for _ in range((e + 1) // 2):
                    scale = dn if scale is None else sym.mul(scale, dn)
            num = sym.p_reduce(num, self.rules)
            inner = self._sqrt_poly(sym.poly_to_node(num), num)
            s = Sym(sym.mk("div", (sym.toreal(inner.n), sym.toreal(scale)), "R"))
        else:
            s = self._sqrt_poly(n, r.num if r is not None else None)
        self.sqrt_memo[n.id] = s
        return s

    def _normal(self, n):
        try:
            r = sym.rat_of(n, self.rules, self.ratcache)
        except Unsupported:
            return None
        return (frozenset(r.num.items()), frozenset(r.den.items()))

    def _registered(self, n):
        return bool(self.sums) and self._normal(n) in self.sums

    def nonneg_sum(self, terms):
        """terms (factors, d): records sum prod(factors) d^2, whose factors are variables already known
        to be positive, as a non-negative term (recognised later up to normal form)."""
        S = Sym(const(Fraction(0), "R"))
        for factors, d in terms:
            t = lift(d)
            t = Sym(t) * Sym(t)
            for f in factors:
                n = lift(f)
                if not any(sym.lt(z, n).id in self.pcset for z in (const(0), const(Fraction(0), "R"))):
                    raise Unsupported("nonneg_sum: factor not known to be positive")
                t = t * f
            S = S + t
        k = self._normal(lift(S))
        if k is not None:
            self.sums.add(k)
        return S

    def _sqrt_poly(self, n, poly):
        if poly is not None:
            key = ("poly", frozenset(poly.items()))
            if key in self.sqrt_memo:
                return self.sqrt_memo[key]
            if not poly:
                return Sym(const(Fraction(0), "R"))
            if len(poly) == 1 and () in poly:
                v = poly[()]
                p, q = math.isqrt(max(v.numerator, 0)), math.isqrt(v.denominator)
                if v > 0 and p * p == v.numerator and q * q == v.denominator:
                    return Sym(const(Fraction(p, q)))
            out = None
            d = {v: e - e % 2 for v, e in sym.content(poly).items() if e > 1}
            if d:  # sqrt(v^2k p) = |v|^k sqrt(p)
                for v, e in d.items():
                    vn = sym._by_id(v)
                    if not self._known_pos(v) and self.decide(sym.lt(vn, const(0))):
                        vn = sym.neg(vn)
                    for _ in range(e // 2):
                        out = vn if out is None else sym.mul(out, vn)
                rest = sym.divide_monomial(poly, d)
                inner = self._sqrt_poly(sym.poly_to_node(rest), rest)
                r = Sym(sym.mul(out, inner.n))
                self.sqrt_memo[key] = r
                return r
            root = sym.poly_sqrt(poly)
            if root is not None:  # sqrt(r^2) = |r|
                rn = sym.poly_to_node(root)
                if self.decide(sym.lt(rn, const(0))):
                    rn = sym.neg(rn)
                r = Sym(sym.toreal(rn))
                self.sqrt_memo[key] = r
                return r
        if poly is not None and len(poly) <= 60:
            pn = sym.poly_to_node(poly)
            if sym.vars_of(pn) < sym.vars_of(n) or len(poly) <= 12 and sym.vars_of(pn) <= sym.vars_of(n):
                n = pn
        s = self.fresh("sqrt")
        self._add(sym.le(const(0), s.n))
        d = sym.eq(sym.mul(s.n, s.n), sym.toreal(n))
        self.defs.append((s.n.args[0], sym.vars_of(n)))
        if self.lazy_sqrt and poly is not None:
            self.hidden.append(d)  # kept in the rewrite rules; given to the solver only to confirm a refutation
        else:
            self._add(d)
        if poly is not None:
            self.rules[s.n.args[0]] = (2, poly)
            self.sqrt_memo[key] = s
        return s

    def trig(self, x):
        n = lift(x)
        if n.id in self.trig_memo:
            return self.trig_memo[n.id]
        if sym.isc(n) and n.args[0] == 0:
            r = (Sym(const(Fraction(1))), Sym(const(Fraction(0), "R")))
        elif n.op == "add":
            c1, s1 = self.trig(n.args[0])
            c2, s2 = self.trig(n.args[1])
            r = (c1 * c2 - s1 * s2, s1 * c2 + c1 * s2)
        elif n.op == "mul" and sym.isc(n.args[0]) and n.args[0].args[0] == -1:
            c, s = self.trig(n.args[1])
            r = (c, -s)
        elif n.op == "mul" and sym.isc(n.args[1]) and n.args[1].args[0] == -1:
            c, s = self.trig(n.args[0])
            r = (c, -s)
        else:
            c, s = self.fresh("cos"), self.fresh("sin")
            self._add(sym.eq(sym.add(sym.mul(c.n, c.n), sym.mul(s.n, s.n)), const(1)))
            self.rules[s.n.args[0]] = (2, sym.p_add(sym.p_const(Fraction(1)), sym.p_mul(sym.p_var(c.n.args[0]), sym.p_var(c.n.args[0])), -1))
            r = (c, s)
        self.trig_memo[n.id] = r
        return r

    def round_int(self, x):
        n = lift(x)
        if n.sort == "I":
            return Sym(n)
        if sym.isc(n):
            return Sym(const(round(n.args[0])))
        key = ("round", n.id)
        if key in self.sqrt_memo:
            return self.sqrt_memo[key]
        k = self.fresh("rint", "I")
        d = k - Sym(n)
        self.assume(d * 2 <= 1)
        self.assume(d * 2 >= -1)
        self.sqrt_memo[key] = k
        return k

    def floor_int(self, x):
        n = lift(x)
        if n.sort == "I":
            return Sym(n)
        if sym.isc(n):
            return Sym(const(math.floor(n.args[0])))
        key = ("floor", n.id)
        if key not in self.sqrt_memo:
            k = self.fresh("floor", "I")
            self.assume(k <= Sym(n))
            self.assume(Sym(n) < k + 1)
            self.sqrt_memo[key] = k
        return self.sqrt_memo[key]

    def machine(self, x, t):
        """value of x stored with the numpy type t: narrower integers wrap, single precision rounds
        (64 bits stand for the mathematical integers and reals)"""
        n = lift(x)
        if n.sort == "B":
            return x
        if t.kind == "f":
            if t.itemsize >= 8 or (sym.isc(n) and float(np.float32(float(n.args[0]))) == n.args[0]):
                return x
            key = ("f32", n.id)
            if key not in self.sqrt_memo:
                k = self.fresh("f32")
                a = abs(Sym(n))
                self.assume(k - Sym(n) <= a * Fraction(1, 2**24))
                self.assume(Sym(n) - k <= a * Fraction(1, 2**24))
                self.sqrt_memo[key] = k
            return self.sqrt_memo[key]
        if n.sort != "I":
            if sym.isc(n):
                n = const(int(n.args[0]))
            elif self.decide(sym.lt(n, const(0))):
                n = (-self.floor_int(-Sym(n))).n
            else:
                n = lift(self.floor_int(Sym(n)))
        bits = 8 * t.itemsize
        if bits >= 64:
            return int(n.args[0]) if sym.isc(n) else Sym(n)
        lo = -(2 ** (bits - 1)) if t.kind == "i" else 0
        if sym.isc(n):
            return int((int(n.args[0]) - lo) % 2**bits + lo)
        key = ("wrap", n.id, bits, lo)
        if key not in self.sqrt_memo:
            k, q = self.fresh("low", "I"), self.fresh("high", "I")
            self.assume(k >= lo)
            self.assume(k < lo + 2**bits)
            self.assume(k == Sym(n) - q * 2**bits)
            self.sqrt_memo[key] = k
        return self.sqrt_memo[key]

    def isqrt(self, x):
        """math.isqrt contract: the k >= 0 with k^2 <= n < (k+1)^2"""
        n = lift(x)
        if n.sort != "I":
            raise TypeError("'float' object cannot be interpreted as an integer")
        if sym.isc(n):
            return math.isqrt(n.args[0])
        if self.decide(sym.lt(n, const(0))):
            raise ValueError("isqrt() argument must be nonnegative")
        key = ("isqrt", n.id)
        if key not in self.sqrt_memo:
            k = self.fresh("isqrt", "I")
            self.assume(k >= 0)
            self.assume(k * k <= Sym(n))
            self.assume(Sym(n) < (k + 1) * (k + 1))
            self.sqrt_memo[key] = k
        return self.sqrt_memo[key]

    def floordiv(self, a, b):
        if not (sym.isc(b) and b.args[0] > 0):
            raise Unsupported("floor division by a non-constant")
        q = self.fresh("quot", "I")
        r = Sym(a) - q * Sym(b)
        self.assume(r >= 0)
        self.assume(r < Sym(b))
        return q.n

    def hash_of(self, s):
        raise Unsupported("hash of a symbolic value")

    # -- connectives ------------------------------------------------------------
    def and_(self, *xs):
        return SBool(sym.and_(*[lift(x) for x in xs]))

    def or_(self, *xs):
        return SBool(sym.or_(*[lift(x) for x in xs]))

    def not_(self, x):
        return SBool(sym.not_(lift(x)))

    def eq(self, a, b):
        return SBool(sym.eq(lift(a), lift(b)))

    def le(self, a, b):
        return SBool(sym.le(lift(a), lift(b)))

    def lt(self, a, b):
        return SBool(sym.lt(lift(a), lift(b)))

    # -- obligations ------------------------------------------------------------
    def _result(self, name, status, backend, t, **kw):
        self.backends[backend] = self.backends.get(backend, 0) + (status == "proved")
        self.results.append(dict(name=name, status=status, backend=backend, time=round(t, 3), path=self.paths, **kw))

    def _model(self, m):
        out = {}
        for k, n in self.inputs.items():
            if isinstance(n, Node):
                v = model_value(m, n)
                out[k] = str(v) if isinstance(v, Fraction) else v
            else:
                out[k] = n
        return out

    def solve(self, nodes, timeout, quick=False):
        """sat/unsat/unknown, model, backend for a conjunction."""
        z3 = _z3()
        t0 = time.time()
        timeout = min(timeout, max(0.5, self.t_end - time.time()))
        try:
            self.queries += 1
            # products as opaque terms first: only an "unsat" counts, and it is sound
            s = z3.SimpleSolver()
            s.set("arith.nl", False)
            for n in nodes:
                s.add(sym.to_z3(n))
            if z3_check(s, min(1.0, timeout)) == "unsat":
                return "unsat", None, "z3"
            s = z3.Solver()
            for n in nodes:
                s.add(sym.to_z3(n))
            r = z3_check(s, timeout)
            if r == "sat":
                return "sat", s.model(), "z3"
            if r == "unsat":
                return "unsat", None, "z3"
            if quick and r == "sat":
                return "sat", s.model(), "z3"
            try:
                s = z3.Tactic("qfnra-nlsat").solver()
                for n in nodes:
                    s.add(sym.to_z3(n))
                r = z3_check(s, timeout)
                if r == "sat":
                    return "sat", s.model(), "z3-nlsat"
                if r == "unsat":
                    return "unsat", None, "z3-nlsat"
            except z3.Z3Exception:
                pass
            if quick:
                return "unknown", None, "z3"
            r = cvc5_check(nodes, timeout)
            if r == "unsat":
                return "unsat", None, "cvc5"
            return "unknown", None, "z3+cvc5"
        finally:
            self.solver_s += time.time() - t0

    def fail(self, name, detail):
        import os
        if os.environ.get("DBGF"): print("FAIL", name, detail)
        """The path itself is the violation: refuted if the path is reachable."""
        st, m, be = self.solve(self.pc + self.hidden, self.query_timeout)
        if st == "unsat":
            return
        if st == "sat":
            self._result(name, "refuted", be, 0.0, model=self._model(m), detail=detail)
        else:
            self._result(name, "unknown", be, 0.0, detail=detail)

    def prove(self, name, cond, timeout=None):
        if isinstance(cond, (list, tuple)):
            for i, c in enumerate(cond):
                self.prove("%s[%d]" % (name, i), c, timeout)
            return
        n = lift(cond)
        t0 = time.time()
        if sym.isc(n):
            if n.args[0]:
                return self._result(name, "proved", "evaluation", 0.0)
            return self.fail(name, "postcondition is false on this path")
        if n.op == "eq" and self._identity(n.args[0], n.args[1]):
            return self._result(name, "proved", "polynomial normal form", time.time() - t0)
        if n.id in self.pcset:
            return self._result(name, "proved", "path condition", 0.0)
        g = self._canon(n)
        if sym.isc(g) and g.args[0]:
            return self._result(name, "proved", "polynomial normal form", time.time() - t0)
        if g.id in self.pcset:
            return self._result(name, "proved", "path condition", time.time() - t0)
        if sym.isc(g):
            g = n
        lim = timeout or self.query_timeout
        for base in ([self.pc] + ([self.pc + self.hidden] if self.hidden else [])):
            cone = self.cone(g, base)
            if cone is not None:  # fewer hypotheses first: sound, and enough in most cases
                st, m, be = self.solve(cone + [sym.not_(g)], min(3.0, lim), quick=True)
                if st == "unsat":
                    break
            comp = self.component(g, base)
            if comp is not None and (cone is None or len(comp) > len(cone)):
                st, m, be = self.solve(comp + [sym.not_(g)], lim)
                if st == "unsat":
                    break
            st, m, be = self.solve(base + [sym.not_(g)], lim)
            if st == "unsat":
                break
        if st == "unsat":
            self._result(name, "proved", be, time.time() - t0)
        elif st == "sat":
            self._result(name, "refuted", be, time.time() - t0, model=self._model(m), detail=sym.show(n)[:400])
        else:
            self._result(name, "unknown", be, time.time() - t0, detail=sym.show(n)[:200])

    def component(self, g, allf):
        """The facts connected to g by shared variables, or None when that is all (or most) of them."""
        if len(allf) < 12:
            return None
        v, out = set(sym.vars_of(g)), []
        rest = [(f, sym.vars_of(f)) for f in allf]
        grown = True
        while grown:
            grown, keep = False, []
            for f, w in rest:
                if w & v:
                    out.append(f)
                    if not w <= v:
                        v |= w
                        grown = True
                else:
                    keep.append((f, w))
            rest = keep
        return out if len(out) < 0.8 * len(allf) else None

    def cone(self, g, allf):
        """The path facts (and defining facts of roots) over the variables of g, or None when it is all of them."""
        if len(allf) < 4:
            return None
        v = set(sym.vars_of(g))
        grown = True
        while grown:  # definitions of auxiliary variables (roots, ...) bring in their operands
            grown = False
            for d in self.defs:
                if d[0] in v and not d[1] <= v:
                    v |= d[1]
                    grown = True
            for d in self.defs:
                if d[0] not in v and d[1] <= v:
                    v.add(d[0])
                    grown = True
        out = [f for f in allf if sym.vars_of(f) <= v]
        return out if len(out) < len(allf) else None

    def _identity(self, a, b):
        if a.sort == "B":
            return False
        try:
            r = sym.rat_of(sym.sub(a, b), self.rules, self.ratcache)
            return not r.num
        except Unsupported:
            return False

    def prove_eq(self, name, a, b, timeout=None):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return self.fail(name + ": shape", "%s vs %s" % (a.shape, b.shape))
        for idx in np.ndindex(*a.shape):
            nm = name + ("[%s]" % ",".join(map(str, idx)) if idx else "")
            x, y = lift(a[idx]), lift(b[idx])
            self.prove(nm, SBool(sym.eq(x, y)), timeout)

    def lemma(self, name, cond, timeout=None):
        """Prove an intermediate fact, then use it on the rest of the path."""
        before = len(self.results)
        self.prove(name, cond, timeout)
        if all(r["status"] == "proved" for r in self.results[before:]):
            self.assume(cond)

    def prove_from(self, name, cond, facts, hide=(), timeout=None):
        """Prove cond from the given facts only (each of which is proved or on the path), treating
        the hidden sub-terms as arbitrary values (weaker hypotheses: sound)."""
        memo = {}
        for i, h in enumerate(hide):
            memo[lift(h).id] = sym.var("hide!%d" % i, lift(h).sort)
        nodes = []
        for i, f in enumerate(facts):
            fn = lift(f)
            if sym.isc(fn) and fn.args[0]:
                continue
            if fn.id not in self.pcset:
                self.lemma("%s: fact %d" % (name, i), f, timeout)
            nodes.append(sym.replace(fn, memo))
        goal = sym.replace(lift(cond), memo)
        t0 = time.time()
        st, m, be = self.solve(nodes + [sym.not_(goal)], timeout or self.query_timeout)
        if st == "unsat":
            self._result(name, "proved", be, time.time() - t0)
        else:
            self.prove(name, cond, timeout)

    def cover(self, name="precondition"):
        """Vacuity guard: the current path condition must be satisfiable."""
        if name in self.covered:
            return
        st, m, be = self.solve(list(self.pc), self.query_timeout)
        if st == "sat":
            self.covered.add(name)

    # -- contracts --------------------------------------------------------------
    def contract(self, name):
        self.contracts_used.add(name)

    def same(self, a, b):
        return self.eq(a, b)

    def norm(self, v):
        return self.sqrt(self.dot(v, v))


def _sos(n):
    """syntactically a sum of squares"""
    if sym.isc(n):
        return n.args[0] >= 0
    if n.op == "add":
        return _sos(n.args[0]) and _sos(n.args[1])
    if n.op == "mul":
        a, b = n.args
        if a is b:
            return True
        return _sos(a) and _sos(b)
    return False


def engine_frame(e):
    """raised by the engine's own code (not deliberately): a limit of the engine, not of the code under contract"""
    tb, last = e.__traceback__, None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    if isinstance(e, (ZeroDivisionError, np.linalg.LinAlgError, NonFinite)) or "isqrt" in str(e) or "interpreted as an integer" in str(e):
        return False
    return bool(last) and last.endswith(("pyvc/npx.py", "pyvc/sym.py", "pyvc/engine.py")) 


def stub_misuse(e):
    """The code under contract asked a stand-in for something it does not offer: a limit of the harness."""
    s = str(e)
    if isinstance(e, AttributeError) and ("SimpleNamespace" in s or "object has no attribute" in s and _is_stub(getattr(e, "obj", None))):
        return True
    if isinstance(e, TypeError) and any(k in s for k in ("positional argument", "unexpected keyword argument", "missing 1 required", "keyword-only")):
        name = s.split("(")[0].split(".")[-1].strip()
        tb = traceback.extract_tb(e.__traceback__)
        return ".<locals>." in s.split("(")[0] or name.startswith("stub") or (tb and "/pyvc/" in tb[-1].filename and "/checks/" not in tb[-1].filename)
    return False


def _is_stub(o):
    return o is not None and "pyvc" in type(o).__module__


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/repo/" in fr.filename:
            return "%s:%d %s" % (fr.filename.split("/repo/")[-1], fr.lineno, fr.name)
    return "%s:%d" % (tb[-1].filename, tb[-1].lineno) if tb else "?"


class ConcEngine(Base):
    """Run-time contract check of the real code on one concrete input."""

    symbolic = False

    def __init__(self, rng=None, model=None, tol=1e-7):
        self.rng = rng or random.Random(0)
        self.nrng = np.random.default_rng(self.rng.randrange(1 << 30))
        self.model = model
        self.tol = tol
        self.failures = []
        self.checked = 0
        self.inputs = {}

    def _get(self, name, gen, conv):
        if self.model is not None and name in self.model and self.model[name] is not None:
            v = self.model[name]
            v = conv(Fraction(v)) if isinstance(v, str) else conv(v)
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, gen=None, **kw):
        r = self.rng

        def default():
            if lo is not None or hi is not None:
                a = -4.0 if lo is None else lo
                b = (a + 8.0) if hi is None else hi
                return r.uniform(a, b) if r.random() < 0.8 else r.choice([a, b, (a + b) / 2])
            k = r.random()
            if k < 0.35:
                return float(r.randint(-3, 3))
            if k < 0.9:
                return r.uniform(-3, 3)
            return r.uniform(-30, 30)

        v = self._get(name, (lambda: gen(r)) if gen else default, float)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def int(self, name, lo=None, hi=None, gen=None, **kw):
        r = self.rng
        a = -5 if lo is None else lo
        b = a + 12 if hi is None else hi
        v = self._get(name, (lambda: gen(r)) if gen else (lambda: r.randint(a, b)), int)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < 0.5, bool)

    def choice(self, name, options):
        options = list(options)
        i = self._get("choice:" + name, lambda: self.rng.randrange(len(options)), int)
        return options[i]

    def assume(self, cond):
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.assume(c)
        elif not cond:
            raise Reject()

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def _t(self, a, b):
        return self.tol * (1.0 + abs(float(a)) + abs(float(b)))

    def eq(self, a, b):
        return abs(a - b) <= self._t(a, b)

    def le(self, a, b):
        return a <= b + self._t(a, b)

    def lt(self, a, b):
        return a < b + self._t(a, b)

    def same(self, a, b):
        return a == b

    def norm(self, v):
        return float(np.linalg.norm(np.asarray(v, dtype=float)))

    def sqrt(self, x):
        return math.sqrt(x)

    def prove(self, name, cond, timeout=None):
        if isinstance(cond, (list, tuple)):
            for i, c in enumerate(cond):
                self.prove("%s[%d]" % (name, i), c)
            return
        self.checked += 1
        if not bool(cond):
            self.failures.append(name)

    def prove_eq(self, name, a, b, timeout=None):
        a, b = np.asarray(a), np.asarray(b)
        self.checked += 1
        if a.shape != b.shape:
            self.failures.append("%s: shape %s vs %s" % (name, a.shape, b.shape))
            return
        for idx in np.ndindex(*a.shape):
            x, y = a[idx], b[idx]
            if isinstance(x, (bool, np.bool_)) or isinstance(y, (bool, np.bool_)) or isinstance(x, str):
                ok = x == y
            else:
                ok = self.eq(float(x), float(y))
            if not ok:
                self.failures.append("%s%s: got %r, expected %r" % (name, list(idx), x, y))
                return

    def fail(self, name, detail):
        import os
        if os.environ.get("DBGF"): print("FAIL", name, detail)
        self.checked += 1
        self.failures.append("%s: %s" % (name, detail))

    def lemma(self, name, cond, timeout=None):
        pass

    def prove_from(self, name, cond, facts, hide=(), timeout=None):
        self.prove(name, cond)

    def nonneg_sum(self, terms):
        pass

    def cover(self, name="precondition"):
        pass

    def contract(self, name):
        pass

    @contextlib.contextmanager
    def quiet(self):
        with contextlib.redirect_stdout(io.StringIO()):
            yield
