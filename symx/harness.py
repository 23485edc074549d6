"""
Harnesses: one body, run twice.

* `SymEnv`: inputs are solver variables, the real (shimmed) code is executed
  symbolically, and each claim is a solver query on each feasible path.
* `FloatEnv`: the same body on ordinary numbers and the untouched code; used
  to replay counterexamples and to validate the encoding on witnesses.
"""
import contextlib
import importlib
import json
import math
import os
import random
import sys
import threading
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, prove, shim as shim_mod
from .core import Sym, SymBool, Inconclusive, Unsupported, STATS

REPO_SRC = os.environ.get("VP_REPO_SRC", "/repo/src")
REL_TOL = 1e-6


class NotReproduced(Exception):
    """An assumption failed in the concrete run"""


def plain(v):
    """JSON-able"""
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (bool, int, float, str, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    return repr(v)


class Env:
    sym = False
    cut = True

    def tan(self, x):
        return x.tan() if self.sym else np.tan(x)

    def __init__(self, case, tier="quick"):
        self.case = case
        self.tier = tier
        self.inputs = {}      # name -> (kind, z3 const or value)
        self.prefix = ""

    @property
    def thorough(self):
        return self.tier == "thorough"

    def reals(self, names, **kw):
        return [self.real(n, **kw) for n in names.split()]

    def array(self, name, n, **kw):
        vals = [self.real(f"{name}_{i}", **kw) for i in range(n)]
        if self.sym:
            a = np.empty(n, dtype=object)
            a[:] = vals
            return a
        return np.array(vals, dtype=np.float64)

    def asarray(self, nested):
        return np.array(nested, dtype=object if self.sym else np.float64)

    def flag(self, name):
        return self.pick(name, [True, False])

    def equal(self, name, a, b, **kw):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.e.eq(b.e) and (
            a.nan is None and b.nan is None
        ):
            # literally the same term (one trivial query)
            self.trace.append((name, None))
            return self._decide(name, lambda: prove.prove_true(
                SymBool(z3.BoolVal(True)), self.path
            ))
        return self.zero(name, a, -1 * b, **kw)

    def equal_arrays(self, name, a, b, **kw):
        a, b = np.asarray(a), np.asarray(b)
        self.claim(name + ":shape", a.shape == b.shape)
        if a.shape != b.shape:
            return
        for i in np.ndindex(a.shape):
            self.equal(
                name + (("[" + ",".join(map(str, i)) + "]") if i else ""),
                a[i], b[i], **kw
            )

    def same(self, name, a, b, **kw):
        """Equality of arbitrary (possibly symbolic or NaN) values"""
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return self.claim(name, False, info=(a.shape, b.shape))
            for i in np.ndindex(a.shape):
                self.same(f"{name}{list(i)}" if i else name, a[i], b[i], **kw)
            return None
        num = (int, float, np.integer, np.floating, Sym)
        if isinstance(a, num) and isinstance(b, num) and not isinstance(
            a, bool
        ) and not isinstance(b, bool):
            return self.equal(name, a, b, **kw)
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return self.claim(
                name, SymBool(core.bool_expr(a) == core.bool_expr(b))
            )
        return self.claim(name, a == b, info=(repr(a)[:80], repr(b)[:80]))

    def raises(self, name, excs, fn, *args, **kw):
        try:
            fn(*args, **kw)
        except excs:
            self.claim(name, True)
            return True
        self.claim(name, False, info="no exception")
        return False

    @contextlib.contextmanager
    def patch(self, obj, **attrs):
        """Replace attributes (stubs) for the duration"""
        missing = object()
        old = {k: getattr(obj, k, missing) for k in attrs}
        for k, v in attrs.items():
            setattr(obj, k, v)
        try:
            yield
        finally:
            for k, v in old.items():
                if v is missing:
                    delattr(obj, k)
                else:
                    setattr(obj, k, v)


class SymEnv(Env):
    sym = True

    def __init__(self, case, tier, path, report):
        super().__init__(case, tier)
        self.path = path
        self.report = report
        self.trace = []       # (claim, [z3 terms])

    # -- inputs ----------------------------------------------------------
    def real(self, name, *, lo=None, hi=None, gt=None, lt=None, pos=False,
             nonneg=False, nz=False, nan=False):
        v = z3.Real(name)
        self.inputs[name] = ("real", v)
        if pos:
            gt = 0
        if nonneg:
            lo = 0
        for bound, f in (
            (lo, lambda b: v >= b), (hi, lambda b: v <= b),
            (gt, lambda b: v > b), (lt, lambda b: v < b),
        ):
            if bound is not None:
                self.path.assume(f(core.const(bound)))
        if nz:
            self.path.assume(v != 0)
        if nan:
            n = z3.Bool(name + "?nan")
            self.inputs[name] = ("nanreal", v, n)
            return Sym(v, n)
        return Sym(v)

    def angle(self, name, **kw):
        """An angle strictly between -90 and 90 degrees"""
        v = self.real(name, **kw)
        t = v.tan()
        self.inputs[name] = ("angle", v.e, t.e)
        return v

    def integer(self, name, lo, hi):
        v = z3.Int(name)
        self.inputs[name] = ("int", v)
        self.path.assume(z3.And(v >= lo, v <= hi))
        return Sym(v)

    def pick(self, name, options):
        options = list(options)
        v = z3.Int(name)
        self.inputs[name] = ("pick", v)
        self.path.assume(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.path.branch(v == i):
                return options[i]
        self.path.branch(v == len(options) - 1)
        return options[-1]

    def boolean(self, name):
        v = z3.Bool(name)
        self.inputs[name] = ("bool", v)
        return SymBool(v)

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise core.Infeasible()
            return
        self.path.assume(core.bool_expr(cond))
        r, _ = core.check(self.path.solver, self.path.x.branch_timeout)
        if r == z3.unsat:
            raise core.Infeasible()

    def known_root(self, square, root):
        """Declare `root` (an input >= 0) as the square root of `square`"""
        self.path.x.known_sqrt[
            core.canonical(z3.simplify(core.real(square.e)))
        ] = root.e

    def sqrt(self, x):
        return x.sqrt()

    def fresh(self, name):
        """A variable for proofs only (never part of an input)"""
        return Sym(z3.Real("aux_" + name))

    def known(self, cond):
        """Is this implied by the path (no fork)?"""
        return self.path.implied(core.bool_expr(cond))

    def either(self, *conds):
        return SymBool(z3.Or(*[core.bool_expr(c) for c in conds]))

    def both(self, *conds):
        return SymBool(z3.And(*[core.bool_expr(c) for c in conds]))

    def implies(self, a, b):
        return SymBool(z3.Implies(core.bool_expr(a), core.bool_expr(b)))

    def no(self, a):
        return SymBool(z3.Not(core.bool_expr(a)))

    def ite(self, c, a, b):
        c = core.bool_expr(c)
        a, b = Sym.lift(a), Sym.lift(b)
        return Sym(z3.If(c, core.real(a.e), core.real(b.e)))

    def uf(self, name, *args):
        """A stubbed result: an arbitrary function of these arguments"""
        fs = [core.real(Sym.lift(a).e) for a in args]
        f = z3.Function(name, *([z3.RealSort()] * len(fs)), z3.RealSort())
        self.inputs.setdefault("uf:" + name, ("uf", f, []))[2].append(f(*fs))
        return Sym(f(*fs))

    # -- claims ----------------------------------------------------------
    def zero(self, name, *terms, cuts=(), subs=(), scale=0):
        lifted = [Sym.lift(t) for t in terms]
        if any(t is None for t in lifted):
            return self.claim(name, False, info=repr(terms)[:200])
        total = Sym(core.real(lifted[0].e))
        for t in lifted[1:]:
            total = total + Sym(core.real(t.e))
        nan = Sym._nan(*lifted)
        self.trace.append((name, [core.real(t.e) for t in lifted]))
        if nan is not None and not z3.is_false(z3.simplify(nan)):
            self._decide(name + ":nan", lambda: prove.prove_true(
                SymBool(z3.Not(nan)), self.path,
                timeout_ms=self.report.timeout
            ))
        self._decide(name, lambda: prove.prove_zero(
            total, self.path, cuts=[
                (c, v) for c, v in cuts
                if isinstance(c, Sym) and not z3.is_const(c.e)
            ], subs=subs, seed=self.report.seed,
            timeout_ms=self.report.timeout,
        ))
        return None

    def zero_any(self, name, *alternatives, cuts=(), subs=(), scale=0):
        """One of the sums of terms is zero"""
        prod = None
        for terms in alternatives:
            t = sum(terms[1:], terms[0])
            if prove.is_identity(t, self.path, cuts=[
                (c, v) for c, v in cuts
                if isinstance(c, Sym) and not z3.is_const(c.e)
            ], subs=subs, timeout_ms=self.report.timeout):
                return self.claim(name, True)
            prod = t if prod is None else prod * t
        return self.zero(name, prod, cuts=cuts, subs=subs)

    def claim(self, name, cond, info=None):
        if isinstance(cond, np.ndarray) and cond.ndim == 0:
            cond = cond.item()
        if isinstance(cond, (bool, np.bool_)):
            cond = SymBool(z3.BoolVal(bool(cond)))
        elif not isinstance(cond, SymBool):
            cond = SymBool(z3.BoolVal(bool(cond)))
        self.trace.append((name, None))
        self._decide(name, lambda: prove.prove_true(
            cond, self.path, seed=self.report.seed,
            timeout_ms=self.report.timeout,
        ), info=info)

    def _decide(self, name, fn, info=None):
        rep = self.report
        STATS.claims += 1
        rep.claims[name] = rep.claims.get(name, 0) + 1
        if name in rep.failed and len(rep.failed[name]) >= rep.max_models:
            return
        t0 = time.time()
        try:
            v = fn()
        except Inconclusive as e:
            rep.inconclusive.append((name, str(e)))
            return
        finally:
            if os.environ.get("VP_DEBUG") and time.time() - t0 > 2:
                sys.__stderr__.write(
                    f"SLOW {self.case.name}/{name} {time.time() - t0:.1f}s\n"
                )
        if not v.ok:
            rep.failed.setdefault(name, []).append(
                dict(inputs=self.concretise(v.model), info=plain(info))
            )

    def concretise(self, model):
        out = {}
        for name, spec in self.inputs.items():
            kind = spec[0]
            if kind == "uf":
                angles = {
                    sp[1].get_id(): math.atan(prove.model_value(model, sp[2]))
                    for sp in self.inputs.values() if sp[0] == "angle"
                }
                out[name] = [
                    [
                        angles.get(z3.simplify(a).get_id()) if z3.simplify(
                            a).get_id() in angles else
                        prove.model_value(model, a) for a in app.children()
                    ] + [prove.model_value(model, app)] for app in spec[2]
                ]
                continue
            val = prove.model_value(model, spec[1])
            if kind == "angle":
                val = math.atan(prove.model_value(model, spec[2]))
            elif kind == "nanreal":
                if prove.model_value(model, spec[2]):
                    val = "nan"
            out[name] = val
        return out


class FloatEnv(Env):
    sym = False

    def __init__(self, case, tier, values):
        super().__init__(case, tier)
        self.values = values
        self.failed = {}
        self.trace = []

    def _get(self, name, default):
        v = self.values.get(name, default)
        return float("nan") if v == "nan" else v

    def real(self, name, *, lo=None, hi=None, gt=None, lt=None, pos=False,
             nonneg=False, nz=False, nan=False):
        return np.float64(self._get(name, 1.0))

    def angle(self, name, **kw):
        return np.float64(self._get(name, 0.5))

    def integer(self, name, lo, hi):
        return int(self._get(name, lo))

    def pick(self, name, options):
        return list(options)[int(self._get(name, 0))]

    def boolean(self, name):
        return bool(self._get(name, False))

    def assume(self, cond):
        if not cond:
            raise NotReproduced("assumption")

    def known_root(self, square, root):
        pass

    def sqrt(self, x):
        return np.sqrt(x)

    def fresh(self, name):
        return None

    def either(self, *conds):
        return any(conds)

    def both(self, *conds):
        return all(conds)

    def implies(self, a, b):
        return (not a) or bool(b)

    def no(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def uf(self, name, *args):
        """The model's function, else a smooth deterministic stand-in"""
        for row in self.values.get("uf:" + name, []):
            if all(
                abs(r - float(a)) <= 1e-9 + 1e-6 * abs(r)
                for r, a in zip(row, args)
            ):
                return np.float64(row[-1])
        x = sum((i + 1.25) * float(a) for i, a in enumerate(args))
        return np.float64(math.sin(x + len(name)) + 0.5)

    def zero(self, name, *terms, cuts=(), subs=(), scale=0):
        try:
            vals = [float(t) for t in terms]
        except (TypeError, ValueError):
            self.failed[name] = "not numbers"
            return
        self.trace.append((name, vals))
        total = math.fsum(vals) if all(map(math.isfinite, vals)) else math.nan
        scale = float(scale) + sum(abs(v) for v in vals)
        tol = self.case.tol
        if any(math.isnan(v) for v in vals):
            self.failed[name + ":nan"] = repr(vals)
        if math.isfinite(total) and abs(total) > tol * scale:
            self.failed[name] = f"residual {total!r} of scale {scale!r}"

    def zero_any(self, name, *alternatives, cuts=(), subs=(), scale=0):
        self.trace.append((name, None))
        ok = False
        vals = []
        for terms in alternatives:
            vals = [float(t) for t in terms]
            total = math.fsum(vals) if all(map(math.isfinite, vals)) else 0.0
            ok = ok or abs(total) <= self.case.tol * (
                float(scale) + sum(map(abs, vals))
            )
        if not ok:
            self.failed[name] = repr(vals)

    def claim(self, name, cond, info=None):
        self.trace.append((name, None))
        if not bool(cond):
            self.failed[name] = "false" if info is None else str(info)[:300]


class Case:
    """One harness"""
    def __init__(self, name, fn, *, max_paths=4000, branch_timeout=10000,
                 timeout=60000, tol=REL_TOL, extra=None, nz_in_path=True,
                 max_models=4, params=None, use_shim=True, budget=700,
                 int_candidates=(), shim_off=(), expect=(), tiers=None,
                 witnesses=3, max_decisions=400, nan_sqrt=False):
        self.nan_sqrt = nan_sqrt
        self.name = name
        self.fn = fn
        self.max_paths = max_paths
        self.branch_timeout = branch_timeout
        self.timeout = timeout
        self.tol = tol
        self.extra = extra
        self.nz_in_path = nz_in_path
        self.max_models = max_models
        self.params = params or {}
        self.use_shim = use_shim
        self.budget = budget
        self.int_candidates = int_candidates
        self.expect = expect
        self.tiers = tiers
        self.witnesses = witnesses
        self.max_decisions = max_decisions

    def body(self, env):
        return self.fn(env, **self.params)


class Report:
    def __init__(self, case, seed, timeout):
        self.case = case.name
        self.seed = seed
        self.timeout = timeout
        self.max_models = case.max_models
        self.claims = {}
        self.failed = {}
        self.crashes = {}
        self.inconclusive = []
        self.violations = []
        self.unreproduced = []
        self.functions = set()
        self.validated = 0
        self.mismatch = []
        self.witness = []
        self.undecided = 1  # paths without witness but not shown infeasible
        self.error = None
        self.stats = {}
        self.samples = []
        self.returns = 0
        self.wall = 0.0


def _profiler(functions):
    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            f = co.co_filename
            if f.startswith(REPO_SRC):
                functions.add(
                    f[len(REPO_SRC) + 1:] + ":" + getattr(
                        co, "co_qualname", co.co_name
                    )
                )
    return prof


@contextlib.contextmanager
def quiet():
    """No logging, no stdout noise from the code under test"""
    import logbook
    with logbook.NullHandler().applicationbound():
        with open(os.devnull, "w") as null:
            with contextlib.redirect_stdout(null), \
                    contextlib.redirect_stderr(null):
                yield


def replay(case, tier, values):
    """Run the body on the untouched code; returns (failed, exc, trace)"""
    env = FloatEnv(case, tier, values)
    try:
        with quiet(), np.errstate(all="ignore"):
            case.body(env)
        return env.failed, None, env.trace
    except NotReproduced as e:
        return {}, e, env.trace
    except (Exception, SystemExit) as e:  # pylint: disable=broad-except
        return env.failed, e, env.trace


def run_case(case, tier, seed, deadline, decided=lambda rep: None):
    """
    Explore all paths of one harness; `decided` gets the report when only the
    witness runs are left
    """
    t_start = time.time()
    random.seed(seed)
    for k in vars(core.STATS):
        setattr(STATS, k, 0 if k != "solver_s" else 0.0)
    rep = Report(case, seed, case.timeout)
    x = core.Explorer(
        max_paths=case.max_paths, branch_timeout=case.branch_timeout,
        nz_in_path=case.nz_in_path, int_candidates=case.int_candidates,
        max_decisions=case.max_decisions, nan_sqrt=case.nan_sqrt,
    )
    witnesses = []
    envs = {}
    npaths = 0

    def body(path):
        env = SymEnv(case, tier, path, rep)
        envs["cur"] = env
        profiling = npaths < 6
        if profiling:
            sys.setprofile(_profiler(rep.functions))
        try:
            with np.errstate(all="ignore"):
                return case.body(env)
        finally:
            if profiling:
                sys.setprofile(None)

    ctx = shim_mod.shim(case.extra() if callable(case.extra) else case.extra)\
        if case.use_shim else contextlib.nullcontext()
    try:
        with quiet(), ctx:
            for path, _, exc in x.run(body):
                npaths += 1
                env = envs["cur"]
                if exc is not None:
                    crash(case, rep, env, path, exc)
                elif env.trace:
                    rep.returns += 1
                    want = case.witnesses
                    if len(witnesses) < want or (
                        npaths & (npaths - 1) == 0 and len(witnesses) < 12
                    ):
                        witnesses.append((env, path.constraints(), path))
                if time.time() > deadline or (
                    time.time() - t_start > case.budget
                ):
                    raise Inconclusive(
                        f"time budget used after {npaths} paths"
                    )
    except (Inconclusive, Unsupported) as e:
        rep.error = f"{type(e).__name__}: {e}"
        if os.environ.get("VP_DEBUG"):
            traceback.print_exc()
    except RecursionError as e:
        rep.error = f"RecursionError: {str(e)[:100]}"

    # the untouched code from here on
    for claim, cands in list(rep.failed.items()) + list(rep.crashes.items()):
        judge(case, tier, rep, claim, cands)
    if not rep.returns and not rep.violations and not rep.error:
        rep.error = "vacuous: no path reached a claim"

    def tally():
        rep.stats = dict(vars(STATS))
        rep.stats["paths"] = npaths
        rep.wall = time.time() - t_start

    tally()
    decided(rep)
    validate(case, tier, rep, witnesses, x)
    tally()
    return rep


def crash(case, rep, env, path, exc):
    name = f"no-exception:{type(exc).__name__}"
    if os.environ.get("VP_DEBUG"):
        sys.__stderr__.write("CRASH PATH\n" + "".join(
            traceback.format_exception(exc))[-3000:] + "\n")
    cands = rep.crashes.setdefault(name, [])
    if len(cands) >= case.max_models:
        return
    model = prove.any_model(path.constraints(), rep.seed)
    tb = "".join(traceback.format_exception(exc))[-1500:]
    if model is None:
        rep.inconclusive.append((name, "no model for a raising path: " + tb))
        return
    cands.append(dict(inputs=env.concretise(model), info=tb))


def judge(case, tier, rep, claim, cands):
    """Report only what happens in the untouched code as well"""
    why = []
    for cand in cands:
        failed, exc, _ = replay(case, tier, cand["inputs"])
        if claim in failed:
            rep.violations.append(dict(
                claim=claim, inputs=cand["inputs"], observed=failed[claim],
                info=cand.get("info"),
            ))
            return
        if exc is not None and not isinstance(exc, NotReproduced):
            name = f"no-exception:{type(exc).__name__}"
            if claim == name or not claim.startswith("no-exception:"):
                tb = traceback.extract_tb(exc.__traceback__)
                in_repo = any(f.filename.startswith(REPO_SRC) for f in tb)
                # or the harness does not find in the result what it needs
                if in_repo or claim == name and isinstance(
                        exc, (LookupError, ValueError)):
                    rep.violations.append(dict(
                        claim=claim, inputs=cand["inputs"],
                        observed=f"{type(exc).__name__}: {exc}",
                        info=cand.get("info"),
                    ))
                    return
        real = [c for c in sorted(failed) if not c.endswith(":nan")]
        if real and claim.startswith("no-exception:"):
            c = real[0]
            rep.violations.append(dict(
                claim=c, inputs=cand["inputs"], observed=failed[c],
                info=cand.get("info"),
            ))
            return
        why.append(repr(exc) if exc else "claim held")
    rep.unreproduced.append((claim, why, cands[:1]))


def validate(case, tier, rep, witnesses, x):
    """Witness runs: reachability, and the encoding against the real code"""
    rep.undecided = 0
    for env, constraints, path in witnesses:
        model = prove.quick_fixed_model(
            constraints, z3.BoolVal(True), rep.seed, tries=3
        ) or prove.any_model(constraints, rep.seed, timeout_ms=4000)
        if model is None:
            if core.check(list(constraints), 4000)[0] != z3.unsat:
                rep.undecided += 1
            continue
        try:
            values = env.concretise(model)
        except Inconclusive:
            rep.undecided += 1
            continue
        if len(rep.samples) < 2:
            rep.samples.append({k: plain(v) for k, v in values.items()})
        rep.witness.append(1)
        failed, exc, trace = replay(case, tier, values)
        if isinstance(exc, NotReproduced):
            continue
        if exc is not None:
            rep.mismatch.append(f"exception on a witness: {exc!r}")
            continue
        bad = [
            c for c in failed
            if not any(v["claim"] == c for v in rep.violations)
        ]
        if bad:
            rep.mismatch.append(f"claims {bad[:3]} fail on witness {values}")
            continue
        ok = True
        if [n for n, _ in trace] == [n for n, _ in env.trace]:
            for (n, sv), (_, fv) in zip(env.trace, trace):
                if sv is None or fv is None:
                    continue
                for a, b in zip(sv, fv):
                    av = prove.try_value(model, a, x.sqrts)
                    if av is None or not math.isfinite(b):
                        continue
                    if abs(av - b) > 1e-4 * (1e-6 + max(
                        [abs(q) for q in fv] + [abs(av)]
                    )):
                        ok = False
                        rep.mismatch.append(
                            f"{n}: encoding {av!r}, code {b!r} at {values}"
                        )
                        break
                if not ok:
                    break
        if ok:
            rep.validated += 1
            STATS.validated += 1
