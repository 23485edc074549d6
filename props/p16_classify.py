"""P16: which solutions are accepted, and how the others are told apart"""
from types import SimpleNamespace as NS

import numpy as np
from scikits.odes.sundials.cvode import StatusEnum

from symx.harness import Case

from disc_solver.solve import stepper as st, utils as su
from disc_solver.utils import ODEIndex, is_monotonically_increasing
from disc_solver.file_format import InternalData

BOUNDS = (
    "profiles of 1-5 points (thorough: 6), every velocity and density "
    "arbitrary; every integrator flag; with and without records of the "
    "right-hand side, with any of 4 problem entries"
)
OUTSIDE = "profiles containing NaN; longer profiles; asking a human"
STUBS = []


def state(env, n):
    s = np.full((n, 11), 0.25, dtype=object if env.sym else float)
    v = [env.real(f"v{i}") for i in range(n)]
    ρ = [env.real(f"ρ{i}") for i in range(n)]
    s[:, ODEIndex.v_θ] = v
    s[:, ODEIndex.ρ] = ρ
    return s, v, ρ


def truth(env, got):
    """A Python or symbolic truth value as a plain one"""
    return bool(got)


def holds(env, cond):
    return bool(cond)


def valid_spec(env, v, ρ):
    ok = True
    for a in v + ρ:
        ok = ok and holds(env, a >= 0)
    for a, b in zip(v, v[1:]):
        ok = ok and holds(env, b >= a)
    return ok


def best_spec(env, v):
    near = [a for a in v if holds(env, a > 0.9) and holds(env, a < 1)]
    if not near:
        return False
    return all(holds(env, a - 2 * b + c <= 0)
               for a, b, c in zip(near, near[1:], near[2:]))


def validity(env, n):
    s, v, ρ = state(env, n)
    flag = env.pick("flag", [StatusEnum.SUCCESS] + [
        f for f in (StatusEnum.TSTOP_RETURN, StatusEnum.ROOT_RETURN,
                    StatusEnum.TOO_MUCH_WORK, None)])
    soln = NS(solution=s, flag=flag)
    kept = s.copy()
    got, ok = su.validate_solution(soln)
    env.claim("the same solution", got is soln)
    want = flag == StatusEnum.SUCCESS and valid_spec(env, v, ρ)
    env.claim("valid", truth(env, ok) == want)
    got, best = st.is_solution_best(soln)
    env.claim("the same solution is judged", got is soln)
    env.claim("best", truth(env, best) == (want and best_spec(env, v)))
    env.claim("solution untouched", all(
        (a is b) or a == b for a, b in zip(s.flat, kept.flat)))


def split_spec(env, v, cutoff):
    near = [a for a in v if holds(env, a > cutoff) and holds(env, a < 1)]
    if not near:
        return st.SplitterStatus.SIGN_FLIP
    if any(holds(env, a > 1) for a in v):
        return st.SplitterStatus.DIVERGE
    if all(holds(env, b >= a) for a, b in zip(near, near[1:])):
        return st.SplitterStatus.DIVERGE
    return st.SplitterStatus.SIGN_FLIP


def split(env, n, records):
    s, v, ρ = state(env, n)
    kw = {}
    cutoff = 0.9
    if not records and env.flag("own limit"):
        cutoff = env.real("limit", pos=True, lt=1)
        kw["cutoff"] = cutoff
    internal = None
    problem = False
    if records:
        internal = InternalData(derivs=np.full((7, 11), 0.5),
                                params=np.zeros((7, 11)))
        what = env.pick("problems", ["none", "other", "same", "second"])
        if what == "other":
            internal.problems[0.5].append("negative density")
        elif what == "same":
            internal.problems[0.5].append("negative velocity")
            problem = True
        elif what == "second":
            internal.problems[0.5].append("negative density")
            internal.problems[0.75].append("negative density")
            internal.problems[0.75].append("negative velocity")
            problem = True
    soln = NS(solution=s, flag=0, internal_data=internal)
    fn = st.create_soln_splitter(env.pick("method", [
        "v_θ_deriv", "unknown", None]) if n == 2 else "v_θ_deriv")
    got = fn(soln, **kw)
    want = st.SplitterStatus.SIGN_FLIP if problem else split_spec(
        env, v, cutoff)
    env.claim("kind of solution", got == want, info=(str(got), str(want)))


def rates(env):
    """Recorded rates: only those of the velocity may matter"""
    s, v, ρ = state(env, 2)
    env.assume(v[0] > 0.91)
    env.assume(v[0] < 0.99)
    env.assume(v[1] > v[0])
    env.assume(v[1] < 0.99)
    derivs = np.full((7, 11), 0.5, dtype=object if env.sym else float)
    row = env.pick("row", range(7))
    col = env.pick("quantity", [i for i in range(11) if i != ODEIndex.v_θ])
    derivs[row, col] = env.real("rate")
    soln = NS(solution=s, flag=0, internal_data=InternalData(
        derivs=derivs, params=np.zeros((7, 11))))
    got = st.v_θ_deriv_splitter(soln)
    env.claim("rates of other quantities do not matter" + (
        " (record 5)" if row == ODEIndex.v_θ else ""),
        got == st.SplitterStatus.DIVERGE)


def own_rates(env):
    """The velocity's own rates (record and quantity alike arranged)"""
    s, v, ρ = state(env, 2)
    env.assume(v[0] > 0.91)
    env.assume(v[0] < 0.99)
    env.assume(v[1] < 0.99)
    derivs = np.full((11, 11), 0.5, dtype=object if env.sym else float)
    d = [10.0 * k - k * k / 2 for k in range(11)]
    at = env.pick("at", [0, 4, 9])
    d[at], d[at + 1] = env.real("rate"), env.real("next rate")
    for k in range(11):
        derivs[ODEIndex.v_θ, k] = derivs[k, ODEIndex.v_θ] = d[k]
    got = st.v_θ_deriv_splitter(NS(
        solution=s, flag=0, internal_data=InternalData(
            derivs=derivs, params=np.zeros((11, 11)))))
    if any(holds(env, a - 2 * b + c > 0)
           for a, b, c in zip(d, d[1:], d[2:])):
        want = st.SplitterStatus.DIVERGE
    elif any(holds(env, b < a) for a, b in zip(d, d[1:])):
        want = st.SplitterStatus.SIGN_FLIP
    else:
        want = split_spec(env, v, 0.9)
    env.claim("kind of solution by its rates", got == want,
              info=(str(got), str(want)))


def monotonic(env, n):
    v = [env.real(f"v{i}") for i in range(n)]
    got = is_monotonically_increasing(env.asarray(v))
    env.claim("never decreasing", truth(env, got) == all(
        holds(env, b >= a) for a, b in zip(v, v[1:])))


def cases(tier):
    top = 5 if tier == "quick" else 6
    kw = dict(nz_in_path=False)
    out = [Case(f"validity-{n}", validity, params=dict(n=n), **kw)
           for n in range(1, top - 1)]
    out += [Case(f"split-{n}", split, params=dict(n=n, records=False), **kw)
            for n in range(1, top)]
    out += [Case(f"split-records-{n}", split, params=dict(n=n, records=True),
                 **kw) for n in range(1, top - 1)]
    out += [Case(f"monotonic-{n}", monotonic, params=dict(n=n), **kw)
            for n in (1, 2, 4)]
    out.append(Case("rates", rates, **kw))
    out.append(Case("own-rates", own_rates, **kw))
    return out
