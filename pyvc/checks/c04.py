"""C04: global assembly is the exact sum of the local contributions."""
import itertools

import numpy as np

from ..harness import Unit, Bounded
from .common import *

PID = "C04"
IMPORTS = ["assembly.ScatterFormData", "assembly.SequentialAssembler"]


class MatStub:
    """Assumed contract of petsc4py Mat.setValue/setValues: add (addv) or overwrite one entry / a block."""

    def __init__(self, E, n):
        self.E, self.n = E, n
        self.a = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                self.a[i, j] = E.real("A0_%d_%d" % (i, j)) if E.symbolic else 0.25 * i - j
        self.init = self.a.copy()
        E.external.add("petsc4py Mat.setValue(s): adds with addv, overwrites otherwise") if E.symbolic else None

    @staticmethod
    def _add(addv):
        return addv is True or addv == 2 or str(addv).endswith("ADD_VALUES") or (addv not in (None, False) and bool(addv))

    def setValue(self, row, col, value, addv=None):
        row, col = int(row), int(col)
        if row < 0 or col < 0:
            return
        self.a[row, col] = (self.a[row, col] if self._add(addv) else 0) + value

    def setValues(self, rows, cols, values, addv=None):
        rows, cols = np.atleast_1d(rows), np.atleast_1d(cols)
        v = np.asarray(values, dtype=object).reshape(len(rows), len(cols))
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                self.setValue(r, c, v[i, j], addv)


class Form:
    """A weak form with an arbitrary local system; records what it is given."""

    def __init__(self, E, name, dest, bc_dest, kind):
        self.E, self.name, self.kind = E, name, kind
        self.dest, self.bc = dest, bc_dest
        self.calls = []
        self.local = {}
        form = self

        class Space:
            def destination_indexes(self, idx, *a):
                return np.array(form.dest[idx])

            def bc_destination_indexes(self, idx, *a):
                return np.array(form.bc[idx])

        self.space = Space()

    def system(self, key, n):
        if key not in self.local:
            E = self.E
            nm = "%s_%s" % (self.name, "_".join(map(str, np.ravel(np.array(key, dtype=object)))))
            self.local[key] = (E.arr("r_" + nm, (n,)), E.arr("j_" + nm, (n, n)))
        return self.local[key]

    def evaluate_form(self, *args):
        self.calls.append(args)
        if self.kind == "interface_form":
            key = (args[0], args[1][0], args[1][1])
            n = len(self.dest[args[1][0]]) + len(self.dest[args[1][1]])
        elif self.kind == "bc_interface_form":
            key, n = (args[0], args[1]), len(self.dest[args[1]])
        elif "bc" in self.kind:
            key, n = (args[0],), len(self.bc[args[0]])
        else:
            key, n = (args[0],), len(self.dest[args[0]])
        r, j = self.system(key, n)
        return r.copy(), j.copy()


N = 6
DESTS = {0: [2, 0, 5], 1: [5, 1], 2: [3, 3, 0], 3: [4], 4: [1, 4, 2, 1]}
BCD = {0: [5, 2], 1: [1], 2: [0, 0], 3: [4, 3]}


def expected(form, seq):
    """the destination vector and the local system of each listed item"""
    out = []
    for it in seq:
        if form.kind == "interface_form":
            idx, (p, n) = it
            out.append((list(form.dest[p]) + list(form.dest[n]), (idx, p, n)))
        elif form.kind == "bc_interface_form":
            idx, p = it
            out.append((list(form.dest[p]), (idx, p)))
        elif "bc" in form.kind:
            out.append((list(form.bc[it]), (it,)))
        else:
            out.append((list(form.dest[it]), (it,)))
    return out


def same_vec(E, name, got, want):
    E.prove_eq(name, np.asarray(got), np.asarray(want))


def check_calls(E, form, seq, alpha, alpha_n, t):
    E.prove("every listed item is evaluated exactly once", len(form.calls) == len(seq))
    rest = list(form.calls)
    for it in seq:
        hit = None
        for c in rest:
            if form.kind == "interface_form":
                ok = c[0] == it[0] and tuple(c[1]) == tuple(it[1])
            elif form.kind == "bc_interface_form":
                ok = c[0] == it[0] and c[1] == it[1]
            else:
                ok = c[0] == it
            if ok:
                hit = c
                break
        if hit is None:
            E.prove("every listed item is evaluated", False)
            continue
        rest.remove(hit)
        if form.kind == "interface_form":
            same_vec(E, "state of the first side", hit[2][0], alpha[form.dest[it[1][0]]])
            same_vec(E, "state of the second side", hit[2][1], alpha[form.dest[it[1][1]]])
        elif form.kind == "bc_interface_form":
            same_vec(E, "state at the destination indices", hit[2], alpha[form.dest[it[1]]])
        elif form.kind == "time_dependent_form":
            same_vec(E, "previous state", hit[1], alpha_n[form.dest[it]])
            same_vec(E, "current state", hit[2], alpha[form.dest[it]])
            E.prove("time is handed through", E.eq(hit[3], t))
        elif form.kind == "time_dependent_bc_form":
            d = form.bc[it]
            # the statement fixes which indices, not which of the two states
            a, b = np.asarray(hit[1]), np.asarray(alpha_n[d])
            E.prove_eq("boundary state has the destination indices", np.array(a.shape), np.array(b.shape))
            if a.shape == b.shape:
                E.prove("state at the destination indices", E.or_(E.conj([E.eq(x, y) for x, y in zip(a, b)]), E.conj([E.eq(x, y) for x, y in zip(a, alpha[d])])))
            E.prove("time is handed through", E.eq(hit[2], t))
        else:
            d = form.bc[it] if "bc" in form.kind else form.dest[it]
            same_vec(E, "state at the destination indices", hit[1], alpha[d])


def oracle(res0, jac0, jobs):
    r, a = res0.copy(), jac0.copy()
    for form, seq in jobs:
        for d, key in expected(form, seq):
            lr, lj = form.local[key]
            for i, gi in enumerate(d):
                r[gi] = r[gi] + lr[i]
                for k, gk in enumerate(d):
                    a[gi, gk] = a[gi, gk] + lj[i, k]
    return r, a


SEQS = {
    "form": [[0, 2], [4], [1, 0, 1]],
    "bc_form": [[0, 2], [3, 1]],
    "interface_form": [[(7, (0, 1))], [(1, (2, 3)), (0, (1, 0))]],
    "bc_interface_form": [[(3, 0), (1, 4)], [(0, 2)]],
    "time_dependent_form": [[0, 2], [4, 3]],
    "time_dependent_bc_form": [[0, 2], [1, 3]],
}


def run_assembler(E, plan):
    """plan: [(kind, seq)]"""
    from assembly.SequentialAssembler import SequentialAssembler

    res = np.empty(N, dtype=object if E.symbolic else float)
    for i in range(N):
        res[i] = E.real("b0_%d" % i)
    res0 = res.copy()
    alpha, alpha_n = E.vec("alpha", N), E.vec("alpha_n", N)
    keep = alpha.copy(), alpha_n.copy()
    t = E.real("t")
    A = MatStub(E, N)
    forms, items = [], {}
    for k, (kind, seq) in enumerate(plan):
        f = Form(E, "w%d" % k, DESTS, BCD, kind)
        forms.append((f, seq))
        items["f%d" % k] = [kind, list(seq), f] + ([(alpha_n, alpha), t] if "time" in kind else [alpha])
    E.cover()
    asm = SequentialAssembler(None, A, res)
    asm.form_to_input_list = items
    asm.scatter_forms()
    for f, seq in forms:
        check_calls(E, f, seq, alpha, alpha_n, t)
        for it, (d, key) in zip(seq, expected(f, seq)):
            f.system(key, len(d))
    r, a = oracle(res0, A.init, forms)
    E.prove_eq("residual is the sum of the contributions", res, r)
    E.prove_eq("matrix is the sum of the contributions", A.a, a)
    E.prove_eq("current state untouched", alpha, keep[0])
    E.prove_eq("previous state untouched", alpha_n, keep[1])


def unit_kind(kind):
    def fn(E):
        seq = E.choice("seq", SEQS[kind])
        run_assembler(E, [(kind, seq)])

    return fn


def unit_mixed(E):
    plan = E.choice("plan", [
        [("form", [0, 2]), ("bc_form", [3, 0])],
        [("bc_form", [3, 0]), ("form", [2, 0])],
        [("form", [1]), ("interface_form", [(7, (0, 1))]), ("time_dependent_form", [3])],
        [("time_dependent_form", [3]), ("time_dependent_bc_form", [0, 2]), ("form", [1])],
        [("bc_interface_form", [(1, 4)]), ("form", [4]), ("form", [4, 3])],
    ])
    run_assembler(E, plan)


FUNCS = {"form": "scatter_form_data", "bc_form": "scatter_bc_form_data", "interface_form": "scatter_interface_form_data",
         "bc_interface_form": "scatter_bc_interface_form_data", "time_dependent_form": "scatter_time_dependent_form_data",
         "time_dependent_bc_form": "scatter_time_dependent_bc_form_data"}
SIZES = "local systems of up to 5 rows, 6 global unknowns, up to 3 items; all numerical values arbitrary; destination vectors with and without repetitions"
UNITS = [Unit("assemble " + k, unit_kind(k), ["assembly.ScatterFormData." + f, "assembly.SequentialAssembler.SequentialAssembler.scatter_forms"],
              modules=["assembly.ScatterFormData", "assembly.SequentialAssembler"], timeout=80, samples=40, kind="bounded-size", bounds=SIZES) for k, f in FUNCS.items()]
UNITS.append(Unit("assemble several forms", unit_mixed, ["assembly.SequentialAssembler.SequentialAssembler.scatter_forms"],
                  modules=["assembly.ScatterFormData", "assembly.SequentialAssembler"], timeout=80, samples=40, kind="bounded-size", bounds=SIZES))


class NumForm(Form):
    def system(self, key, n):
        if key not in self.local:
            rng = self.E
            self.local[key] = (rng.normal(size=n), rng.normal(size=(n, n)))
        return self.local[key]


def bounded_petsc(B):
    """The real assembler on real PETSc matrices: random destinations, forms, repetitions, orders."""
    from petsc4py import PETSc
    from assembly.SequentialAssembler import SequentialAssembler

    class Num:
        symbolic = False

    while B.more() and B.evaluations < (6000 if B.thorough else 500):
        n = B.rng.randint(1, 12)
        dest = {i: [B.rng.randrange(n) for _ in range(B.rng.randint(1, 8))] for i in range(5)}
        bcd = {i: [B.rng.randrange(n) for _ in range(B.rng.randint(1, 4))] for i in range(4)}
        if B.rng.random() < 0.5:
            dest = {i: B.rng.sample(range(n), B.rng.randint(1, n)) for i in range(5)}
        plan = []
        for _ in range(B.rng.randint(1, 4)):
            kind = B.rng.choice(list(FUNCS))
            k = B.rng.randint(0, 4)
            if kind == "interface_form":
                seq = [(B.rng.randrange(9), (B.rng.randrange(5), B.rng.randrange(5))) for _ in range(k)]
                seq = list(dict.fromkeys(seq))
            elif kind == "bc_interface_form":
                seq = list(dict.fromkeys((B.rng.randrange(9), B.rng.randrange(5)) for _ in range(k)))
            else:
                seq = [B.rng.randrange(4) for _ in range(k)]
            plan.append((kind, seq))

        def run():
            E = _Checks()
            A = PETSc.Mat().createDense([n, n])
            A.setUp()
            A0 = B.nrng.normal(size=(n, n))
            A.setValues(range(n), range(n), A0.ravel())
            A.assemble()
            res = B.nrng.normal(size=n)
            r0 = res.copy()
            al, aln, t = B.nrng.normal(size=n), B.nrng.normal(size=n), B.rng.random()
            k0 = al.copy(), aln.copy()
            forms, items = [], {}
            for k, (kind, seq) in enumerate(plan):
                f = NumForm(B.nrng, "w", dest, bcd, kind)
                forms.append((f, seq))
                items[str(k)] = [kind, seq, f] + ([(aln, al), t] if "time" in kind else [al])
            asm = SequentialAssembler(None, A, res)
            asm.form_to_input_list = items
            asm.scatter_forms(measure_time_q=B.rng.random() < 0.2)
            A.assemble()
            got = A.getDenseArray().copy()
            for f, seq in forms:
                check_calls(E, f, seq, al, aln, t)
            r, a = oracle(r0, A0, forms)
            assert not E.bad, E.bad
            assert np.allclose(res, r, atol=1e-10), "residual"
            assert np.allclose(got, a, atol=1e-10), "matrix"
            assert np.array_equal(al, k0[0]) and np.array_equal(aln, k0[1]), "state untouched"

        B.case("assembly", dict(n=n, dest=dest, bc=bcd, plan=plan), run)


from ..engine import ConcEngine


class _Checks(ConcEngine):
    @property
    def bad(self):
        return self.failures


BOUNDED = [Bounded("assembly on PETSc matrices", bounded_petsc, ["assembly.SequentialAssembler.SequentialAssembler.scatter_forms"],
                   "random destination maps (with repetitions), random form lists of all six kinds, dense PETSc matrices", budget=25)]
