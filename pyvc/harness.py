"""Runs the units of one property, writes evidence, decides the exit status.

Outcome policy
  * an obligation refuted by a solver model (or a path ending in an unexpected exception / false
    postcondition) whose model replays on the real code  -> VIOLATION
  * refuted, model does not replay, sampling finds nothing -> VIOLATION ... no-failing-input-found
  * a run-time contract failing on a concrete run of the real code (bounded part)  -> VIOLATION
  * unknown / timeout / unsupported construct -> undecided: reported in the evidence, exit 0
"""
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = 8


class Unit:
    """A contract of real functions: requires / call / ensures, in one Python function fn(E)."""

    def __init__(self, name, fn, functions, modules=None, timeout=60, query_timeout=10,
                 max_paths=3000, samples=200, tol=1e-7, thorough=None, setup=None, assumptions=(),
                 kind="proof", bounds=None, sample_time=20, cover=True, replayable=True):
        self.name, self.fn, self.functions = name, fn, functions
        self.modules = modules or sorted({f.rsplit(".", 1)[0] if not f.split(".")[-2][:1].isupper() else f.rsplit(".", 2)[0] for f in functions})
        self.timeout, self.query_timeout, self.max_paths = timeout, query_timeout, max_paths
        self.samples, self.tol, self.setup = samples, tol, setup
        self.assumptions = list(assumptions)
        self.kind = kind          # 'proof' (all inputs) or 'bounded-size' (all values, fixed sizes)
        self.bounds = bounds
        self.thorough = thorough or {}
        self.sample_time = sample_time
        self.need_cover = cover
        self.replayable = replayable


class Bounded:
    """Run-time contract check of real code over generated inputs; never counted as proved."""

    def __init__(self, name, fn, functions, rule, budget=60, thorough_budget=None):
        self.name, self.fn, self.functions, self.rule = name, fn, functions, rule
        self.budget = budget
        self.thorough_budget = thorough_budget or budget * 6


class BoundedRun:
    def __init__(self, seed, tier, budget):
        self.rng = random.Random(seed)
        import numpy as np

        self.nrng = np.random.default_rng(seed)
        self.tier = tier
        self.t_end = time.time() + budget
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.seed = seed
        self.maxfail = 5
        self.known = []      # listed findings do not use up the failures after which a run stops
        self.new = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def more(self):
        return time.time() < self.t_end and self.new < self.maxfail

    def check(self, sig, desc, ok, detail=""):
        """Record one evaluated contract clause on a concrete input."""
        self.evaluations += 1
        if not ok:
            self.fail(sig, desc, detail)
        return ok

    def fail(self, sig, desc, detail=""):
        listed = match_known(self.known, sig)
        if not listed:
            self.new += 1
        if len([f for f in self.failures if f["sig"] == sig]) < (2 if listed else 10):
            self.failures.append(dict(sig=sig, input=_short(desc, 3000), detail=_short(detail, 1500)))

    def case(self, sig, desc, fn):
        """Run fn() (which raises AssertionError on a broken contract) on one generated input."""
        self.evaluations += 1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn()
        except AssertionError as e:
            self.fail(sig, desc, "contract broken: %s" % _short(str(e) or traceback.format_exc(limit=-2), 900))
            return None
        except Exception as e:
            self.fail(sig, desc, "exception %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)))
            return None
        finally:
            self.distinct.add(hash(_short(desc, 3000)))
            if len(self.samples) < 3:
                self.samples.append(_short(desc, 400))
        return r


def _short(x, n):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def setup_paths():
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    sys.setrecursionlimit(20000)


def repo_modules():
    src = os.path.join(REPO, "src")
    return [m for m in list(sys.modules.values())
            if getattr(m, "__file__", None) and str(m.__file__).startswith(src)]


# ------------------------------------------------------------------ child processes
def _child(conn, fn, args, mem_gb):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
        with contextlib.redirect_stdout(io.StringIO()):
            out = fn(*args)
        conn.send(("ok", out))
    except BaseException as e:  # noqa
        try:
            conn.send(("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_parallel(tasks, nproc=NPROC, mem_gb=8):
    """tasks: list of (key, fn, args, hard_timeout) -> {key: (status, value)}"""
    ctx = mp.get_context("fork")
    pending, live, out = list(tasks), [], {}
    while pending or live:
        while pending and len(live) < nproc:
            key, fn, args, tmo = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, args, mem_gb))
            p.start()
            b.close()
            live.append((key, p, a, time.time() + tmo))
        time.sleep(0.02)
        for item in list(live):
            key, p, a, t_end = item
            if a.poll():
                try:
                    out[key] = a.recv()
                except (EOFError, OSError):
                    p.join(5)
                    out[key] = ("err", "process ended without a result (exit code %s)" % p.exitcode)
                p.join(5)
                if p.is_alive():
                    p.kill()
                live.remove(item)
            elif not p.is_alive():
                out[key] = ("err", "process ended with code %s" % p.exitcode)
                live.remove(item)
            elif time.time() > t_end:
                p.kill()
                p.join(5)
                out[key] = ("timeout", "hard timeout")
                live.remove(item)
    return out


def _opt(unit, name):
    if TIER == "thorough" and name in unit.thorough:
        return unit.thorough[name]
    v = getattr(unit, name)
    if TIER == "thorough" and name in ("timeout", "query_timeout"):
        return v * 4
    if TIER == "thorough" and name == "samples":
        return v * 10
    if TIER == "thorough" and name == "sample_time":
        return v * 8
    return v


def run_symbolic(unit):
    from . import npx
    from .engine import SymEngine

    for m in unit.modules:
        importlib.import_module(m)
    npx.install(repo_modules())
    E = SymEngine(_opt(unit, "timeout"), _opt(unit, "query_timeout"), _opt(unit, "max_paths"))
    undo = unit.setup(E) if unit.setup else None
    t = time.time()
    E.run(unit.fn)
    if undo:
        undo()
    return dict(results=E.results, paths=E.paths, undecided=E.undecided[:20], n_undecided=len(E.undecided),
                covered=sorted(E.covered), solver_s=round(E.solver_s, 3), queries=E.queries,
                backends=E.backends, contracts=sorted(E.contracts_used),
                external=sorted(npx.USED | E.external), wall_s=round(time.time() - t, 3))


def run_concrete(unit, model=None, n=1, seed=0, budget=20):
    from .engine import ConcEngine, Reject, stub_misuse

    rng = random.Random(seed)
    t_end = time.time() + budget
    tried = rejected = 0
    fails = []
    samples = []
    distinct = set()
    checked = 0
    while tried < n and time.time() < t_end and rejected < 50 * n + 200:
        E = ConcEngine(random.Random(rng.random()), model, unit.tol)
        try:
            unit.fn(E)
        except Reject:
            rejected += 1
            if model is not None:
                tried += 1
            continue
        except Exception as e:
            if stub_misuse(e):
                return dict(tried=tried, rejected=rejected, checked=checked, fails=fails, distinct=len(distinct), samples=samples,
                            misuse="%s: %s" % (type(e).__name__, e))
            E.failures.append("no exception escapes: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-3)))
        tried += 1
        checked += E.checked
        key = repr(sorted(E.inputs.items()))
        distinct.add(hash(key))
        if len(samples) < 2:
            samples.append(_short(E.inputs, 500))
        if E.failures:
            fails.append(dict(inputs=_short(E.inputs, 3000), raw={k: _js(v) for k, v in E.inputs.items()}, failures=[_short(f, 800) for f in E.failures[:5]]))
            if len(fails) >= 3:
                break
    return dict(tried=tried, rejected=rejected, checked=checked, fails=fails, distinct=len(distinct), samples=samples)


def replay(unit, model, seed, budget=40):
    """Replay a solver model against the real code; if the exact model does not reach the failure
    (rational rounding, tolerances), search around it: its discrete choices and a random part of its
    values are kept, everything else is drawn afresh."""
    r = run_concrete(unit, model, 1, seed, budget / 4)
    if r["fails"]:
        return r
    rng = random.Random(seed)
    t_end = time.time() + budget
    discrete = {k: v for k, v in model.items() if k.startswith("choice:") or isinstance(v, (bool, int))}
    i = 0
    while time.time() < t_end and i < 400:
        keep = rng.choice([0, 0, 0.3, 0.6, 0.9])
        m = dict(discrete)
        m.update({k: v for k, v in model.items() if k not in discrete and rng.random() < keep})
        r = run_concrete(unit, m, 1, seed + 1 + i, max(1, t_end - time.time()))
        i += 1
        if r["fails"]:
            return r
    return r


def _js(v):
    return v if isinstance(v, (int, float, bool, str)) else repr(v)


def run_bounded(b, seed, known=()):
    R = BoundedRun(seed, TIER, b.thorough_budget if TIER == "thorough" else b.budget)
    R.known = list(known)
    err = None
    try:
        b.fn(R)
    except AssertionError as e:
        R.fail(b.name + ":harness", "unstructured", "assertion outside a case: %s\n%s" % (e, traceback.format_exc(limit=-4)))
    except Exception as e:
        err = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))
        # raised inside repository code -> the code crashed on a legal input
        tb = traceback.extract_tb(e.__traceback__)
        if any(fr.filename.startswith(os.path.join(REPO, "src")) for fr in tb):
            R.fail(b.name + ":exception", "unstructured", err)
            err = None
    return dict(evaluations=R.evaluations, distinct=len(R.distinct) or R.evaluations, samples=R.samples, failures=R.failures, error=err)


# ------------------------------------------------------------------ driver
def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k.get("property") == pid and k.get("status") == "known"]


def match_known(known, sig):
    for k in known:
        if sig == k["signature"] or (k["signature"].endswith("*") and sig.startswith(k["signature"][:-1])):
            return k
    return None


def run_check(mod):
    t0 = time.time()
    pid = mod.PID
    units = list(getattr(mod, "UNITS", []))
    bounded = list(getattr(mod, "BOUNDED", []))
    only = os.environ.get("VERIF_ONLY")
    if only:
        units = [u for u in units if only in u.name]
        bounded = [b for b in bounded if only in b.name]
    setup_paths()
    violations = []   # (signature, replayed?, info)
    import_error = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for m in getattr(mod, "IMPORTS", []):
                importlib.import_module(m)
            for u in units:
                for m in u.modules:
                    importlib.import_module(m)
    except Exception as e:
        import_error = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-5))
        violations.append(("import", True, dict(kind="import", detail=import_error)))
        units, bounded = [], []
    import z3  # noqa: imported before forking

    tasks = []
    known = load_known(pid)
    for b in bounded:
        bud = b.thorough_budget if TIER == "thorough" else b.budget
        tasks.append((("B", b.name), run_bounded, (b, SEED * 7919 + hash_s(b.name), known), bud * 2 + 60))
    for u in units:
        tasks.append((("S", u.name), run_symbolic, (u,), _opt(u, "timeout") * 1.5 + 30))
        if u.samples:
            tasks.append((("C", u.name), run_concrete, (u, None, _opt(u, "samples"), SEED * 104729 + hash_s(u.name), _opt(u, "sample_time")), _opt(u, "sample_time") * 2 + 30))
    tasks.sort(key=lambda t: -t[3])
    res = run_parallel(tasks)
    again = [t for t in tasks if res[t[0]][0] == "err" and "exit code" in str(res[t[0]][1])]
    if again:  # a crashed solver process: one retry
        res.update(run_parallel(again))

    obligations = discharged = 0
    undecided = []
    unit_ev = []
    backends = {}
    external, assumed, contracts = set(), set(), set()
    solver_s = 0.0
    evals = 0
    distinct = 0
    samples = []
    vac = []
    bounded_size_obl = 0
    for u in units:
        st, r = res[("S", u.name)]
        cst, c = res.get(("C", u.name), ("none", None))
        crt_fail = None
        if cst == "ok":
            evals += c["checked"]
            if not c["checked"] and u.replayable:
                undecided.append("%s: no sampled input was evaluated (%d tried, %d rejected) %s" % (u.name, c["tried"], c["rejected"], c.get("misuse", "")))
            distinct += c["distinct"]
            samples += c["samples"][:1]
            if c["fails"]:
                crt_fail = c["fails"][0]
        elif cst in ("err", "timeout"):
            undecided.append("%s: sampling %s: %s" % (u.name, cst, _short(str(c), 400)))
        ev = dict(unit=u.name, functions=u.functions, kind=u.kind, bounds=u.bounds)
        assumed.update(u.assumptions)
        refuted = []
        if st != "ok":
            undecided.append("%s: %s: %s" % (u.name, st, _short(str(r), 600)))
            ev["status"] = "undecided"
            obligations += 1
        else:
            obl = r["results"]
            n_ok = sum(o["status"] == "proved" for o in obl)
            refuted = [o for o in obl if o["status"] == "refuted"]
            n = len(obl) + r["n_undecided"]
            obligations += n
            discharged += n_ok
            if u.kind != "proof":
                bounded_size_obl += n_ok
            for k, v in r["backends"].items():
                backends[k] = backends.get(k, 0) + v
            external.update(r["external"])
            contracts.update(r["contracts"])
            solver_s += r["solver_s"]
            for x in r["undecided"]:
                undecided.append("%s: %s" % (u.name, x))
            for o in obl:
                if o["status"] == "unknown":
                    undecided.append("%s: %s: solver answered unknown (%s)" % (u.name, o["name"], _short(o.get("detail", ""), 200)))
            if not obl:
                vac.append(u.name + ": zero obligations")
            if u.need_cover and not r["covered"] and obl:
                vac.append(u.name + ": precondition not shown reachable")
            ev.update(obligations=n, discharged=n_ok, paths=r["paths"], backends=r["backends"],
                      solver_s=r["solver_s"], queries=r["queries"], wall_s=r["wall_s"], cover=r["covered"],
                      status="proved" if n_ok == n and n else "refuted" if refuted else "undecided")
        # ---- refutations
        seen = set()
        for o in refuted:
            sig = "%s:%s" % (u.name, o["name"])
            if sig in seen:
                continue
            seen.add(sig)
            rep = None
            if u.replayable:
                rr = run_parallel([(("R", sig), replay, (u, o.get("model") or {}, 1, 40), 90)])[("R", sig)]
                if rr[0] == "ok" and rr[1]["fails"]:
                    rep = rr[1]["fails"][0]
            info = dict(kind="obligation", unit=u.name, functions=u.functions, obligation=o["name"],
                        solver=o["backend"], model=o.get("model"), detail=o.get("detail"), replay_of_model=rep)
            if rep is None and crt_fail is not None:
                rep = crt_fail
                info["sampled_failing_input"] = crt_fail
            violations.append((sig, rep is not None, info))
            if len(seen) >= 6:
                break
        if crt_fail is not None and not refuted:
            for f in crt_fail["failures"][:1]:
                sig = "%s:%s" % (u.name, f.split(":")[0].split("[")[0])
                violations.append((sig, True, dict(kind="run-time contract", unit=u.name, functions=u.functions, failing=crt_fail)))
        unit_ev.append(ev)
    bounded_ev = []
    for b in bounded:
        st, r = res[("B", b.name)]
        if st != "ok":
            undecided.append("%s: bounded run %s: %s" % (b.name, st, _short(str(r), 600)))
            bounded_ev.append(dict(name=b.name, status=st))
            continue
        evals += r["evaluations"]
        distinct += r["distinct"]
        samples += r["samples"][:2]
        if r["error"]:
            undecided.append("%s: bounded harness error: %s" % (b.name, _short(r["error"], 800)))
        bounded_ev.append(dict(name=b.name, functions=b.functions, rule=b.rule, evaluations=r["evaluations"],
                               distinct=r["distinct"], failures=len(r["failures"])))
        for f in r["failures"]:
            violations.append((f["sig"], True, dict(kind="run-time contract (bounded)", unit=b.name, functions=b.functions, failing=f)))
    # ---- report
    lines, nviol = [], 0
    shown_known = set()
    seen_sig = set()
    for sig, replayed, info in violations:
        k = match_known(known, sig)
        if k:
            shown_known.add(k["id"])
            continue
        if sig in seen_sig:
            continue
        seen_sig.add(sig)
        nviol += 1
        d = os.path.join(ROOT, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (pid, nviol))
        with open(path, "w") as f:
            json.dump(dict(property=pid, signature=sig, replayed_on_real_code=replayed, seed=SEED, tier=TIER, repo=REPO,
                           rerun="VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY='%s' ./check.sh %s" % (SEED, TIER, info.get("unit", ""), pid), **info), f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if replayed else " no-failing-input-found"))
        print("  broken: %s\n    %s" % (sig, _short(info.get("failing") or info.get("detail") or info.get("replay_of_model") or "", 700)))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    level = getattr(mod, "LEVEL", "proof" if units else "exploration")
    cov = dict(
        obligations=obligations, discharged=discharged,
        discharged_for_fixed_sizes=bounded_size_obl,
        checker_cmd="./check.sh %s (pyvc: path-wise VC generation over the imported /repo code; back ends z3, cvc5, exact polynomial normal form)" % pid,
        trusted_base=["pyvc engine (/verif/pyvc/sym.py, engine.py, npx.py, harness.py)", "CPython 3.12 and numpy object-array semantics",
                      "z3, cvc5", "machine floating point treated as real arithmetic"] + sorted(external) + sorted("assumed: " + a for a in assumed),
        functions_under_contract=sorted({f for u in units for f in u.functions}),
        contracts_used_at_call_sites=sorted(contracts),
        backends=backends, solver_s=round(solver_s, 3), units=unit_ev,
        undecided=undecided[:40], n_undecided=len(undecided), vacuity_alarms=vac,
        bounded_runtime_checks=bounded_ev,
        evaluations=evals, distinct_nontrivial=distinct,
        rule="run-time contract evaluations on the real code (bounded, not counted as proved): " + "; ".join([b.rule for b in bounded] + (["random inputs satisfying each unit's precondition"] if units else [])),
        samples=samples[:8] or ["none"],
        explanation=getattr(mod, "EXPLANATION", ""),
        known_findings_reported=sorted(k["id"] for k in known),
        known_findings_observed=sorted(shown_known),
    )
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov,
              assumptions=sorted(assumed) + sorted(external) + ["floats are treated as real numbers in proved obligations"],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s [%s] obligations %d discharged %d undecided %d; bounded evaluations %d; solver %.1fs wall %.1fs" % (
        pid, TIER, obligations, discharged, len(undecided), evals, solver_s, time.time() - t0))
    for x in undecided[:12]:
        print("  undecided:", _short(x, 1500 if only else 300))
    for x in vac:
        print("  VACUITY:", x)
    for ln in lines:
        print(ln)
    return 1 if nviol else 0


def hash_s(s):
    import zlib

    return zlib.crc32(s.encode()) % 100003
