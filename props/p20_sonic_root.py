"""P20: matching a solution from the sonic point to one from the midplane"""
from types import SimpleNamespace as NS

import numpy as np
from scikits.odes.sundials.cvode import StatusEnum

from symx.harness import Case
from mhd import I
from p11_files import numbers_const
from p17_stepper import new_run

from disc_solver.solve import sonic_root as sr
from disc_solver.solve.utils import SolverError
from disc_solver.file_format import (
    SolutionInput, Solution, InitialConditions, InternalData
)

BOUNDS = (
    "solutions of up to 3 points on each side, all states, angles and "
    "guesses arbitrary; up to 3 guesses; every integrator flag; with and "
    "without internal data; failure or an empty solution at any guess"
)
OUTSIDE = "the root finder (scipy); exp and log are only known as functions"
STUBS = ["the root finder, the solution from either side"]
# what is guessed, in this order
GUESS = ["θ_sonic", "v_φ", "v_r", "B_θ", "B_r", "B_φ", "log_ρ", "B_φ_prime"]
COMPARED = [I.v_r, I.v_θ, I.v_φ, I.B_r, I.B_θ, I.B_φ]


def reals(env, name, n, **kw):
    return [env.real(f"{name}{i}", **kw) for i in range(n)]


def log(x):
    return x.log() if hasattr(x, "log") else np.log(x)


def exp(x):
    return x.exp() if hasattr(x, "exp") else np.exp(x)


def start_conditions(env, n=3):
    y = env.asarray(reals(env, "c", 11))
    return InitialConditions(
        norm_kepler_sq=env.real("k"), a_0=env.real("a_0"), γ=env.real("γ"),
        init_con=y, angles=env.asarray(reals(env, "θ", n)),
    )


def want_start(guess, old):
    new = list(old)
    new[I.v_θ] = 1.0
    for k, name in enumerate(GUESS):
        if name == "log_ρ":
            new[I.ρ] = exp(guess[k])
        elif name != "θ_sonic":
            new[I[name]] = guess[k]
    return new


def conditions(env):
    old = start_conditions(env, n=env.pick("points", [2, 3]))
    kept = list(old.init_con)
    angles = list(old.angles)
    bad = env.pick("NaN", [None] + list(range(1, 8)))
    guess = reals(env, "g", 8)
    if bad is not None:
        guess[bad] = np.nan
    stop = env.real("stop")
    try:
        new = sr.total_vars_to_mod_cons(
            initial_conditions=old, guess=env.asarray(guess), sonic_stop=stop)
    except SolverError:
        env.claim("only NaN is refused", bad is not None)
        new = None
    if new is not None:
        env.claim("NaN is refused", bad is None)
        env.claim("new conditions", new is not old)
        want = want_start(guess, kept)
        for i in range(11):
            env.equal(f"start state {i}", new.init_con[i], want[i])
        env.claim("as many angles", len(new.angles) == len(angles))
        n = len(angles)
        for i in range(n):
            env.equal(f"angle {i}", new.angles[i], guess[0] + (
                stop - guess[0]) * i / (n - 1))
        for f in ("norm_kepler_sq", "a_0", "γ"):
            env.equal(f, getattr(new, f), getattr(old, f))
        for f, i in (("η_O", 8), ("η_A", 9), ("η_H", 10)):
            env.equal(f, getattr(new, f), kept[i])
    for i in range(11):
        env.equal(f"conditions at the midplane {i}", old.init_con[i], kept[i])
    for i, a in enumerate(angles):
        env.equal(f"angles from the midplane {i}", old.angles[i], a)


def table(env, name, n, **pos):
    y = np.zeros((n, 11), dtype=object if env.sym else float)
    for i in range(n):
        for j in range(11):
            y[i, j] = env.real(f"{name}{i}_{j}", pos=j == I.ρ)
    return y


def guesses(env, n):
    y = table(env, "y", n)
    a = reals(env, "θ", n)
    own = env.flag("own value")
    inp = NS(γ=1.0, v_r=env.real("own v_r")) if own else NS(γ=1.0)
    env.assume(y[-1, I.v_θ] != y[-2, I.v_θ])
    got = sr.guess_root_vals(inp, NS(solution=y, angles=env.asarray(a)))
    env.claim("as many", len(got) == 8)
    f = (1 - y[-1, I.v_θ]) / (y[-1, I.v_θ] - y[-2, I.v_θ])
    for k, name in enumerate(GUESS):
        if name == "θ_sonic":
            want = a[-1] / 0.9
        elif name == "log_ρ":
            want = log(y[-1, I.ρ]) + f * log(y[-1, I.ρ] / y[-2, I.ρ])
        elif own and name == "v_r":
            want = inp.v_r
        else:
            want = y[-1, I[name]] + f * (y[-1, I[name]] - y[-2, I[name]])
        env.equal(f"guess {name}", got[k], want)


def want_difference(s, m):
    ys, ym = s.solution[-1], m.solution[-1]
    return [ys[i] - ym[i] for i in COMPARED] + [
        log(ys[I.ρ] / ym[I.ρ]), s.angles[-1] - m.angles[-1]]


def difference(env):
    n, m = env.pick("n", [0, 1, 2]), env.pick("m", [1, 2])
    a = NS(solution=table(env, "s", n), angles=env.asarray(
        reals(env, "a", n)))
    b = NS(solution=table(env, "m", m), angles=env.asarray(
        reals(env, "b", m)))
    if n == 0:
        env.raises("an empty solution is refused", SolverError,
                   sr.get_root_results, sonic_soln=a, midplane_soln=b)
        return
    got = sr.get_root_results(sonic_soln=a, midplane_soln=b)
    want = want_difference(a, b)
    env.claim("as many", len(got) == 8)
    for k in range(8):
        env.equal(f"difference {k}", got[k], want[k])


def solution_of(env, name, n, inp, cons, flag, internal):
    y, a = table(env, name, n), env.asarray(reals(env, name + "θ", n))
    data = None
    if internal:
        data = InternalData(
            derivs=np.array([[10.0 * i + j for j in range(11)]
                             for i in range(n)]) + (
                                 100 if name == "s" else 0),
            params=np.zeros((n, 11)), angles=np.arange(float(n)),
            **{f: np.arange(float(n)) for f in (
                "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
                "v_φ_taylor", "ρ_taylor")})
        data.jacobian_data.derivs = np.zeros((0, 11, 11))
        data.jacobian_data.params = np.zeros((0, 11))
        data.jacobian_data.angles = np.zeros(0)
        data.jacobian_data.jacobians = np.zeros((0, 11, 11))
    return Solution(
        solution_input=inp, angles=a, solution=y, flag=flag,
        coordinate_system="spherical midplane 0", internal_data=data,
        initial_conditions=cons, t_roots=env.asarray([0.5]),
        y_roots=env.asarray([0.25]), sonic_point=None,
        sonic_point_values=None,
    )


def check_join(env, got, a, b, ya, aa, yb, ab):
    """a followed by b backwards; the copies were taken before"""
    env.claim("input", got.solution_input is a.solution_input)
    env.claim("conditions", got.initial_conditions is a.initial_conditions)
    env.claim("coordinates", got.coordinate_system == a.coordinate_system)
    env.claim("flag", got.flag == b.flag)
    env.claim("roots", got.t_roots is a.t_roots and got.y_roots is a.y_roots)
    env.claim("no sonic point", got.sonic_point is None
              and got.sonic_point_values is None)
    rows = list(ya) + list(yb)[::-1]
    angles = list(aa) + list(ab)[::-1]
    env.claim("all points", len(got.angles) == len(angles)
              and got.solution.shape == (len(rows), 11))
    for i, (r, θ) in enumerate(zip(rows, angles)):
        env.equal(f"angle {i}", got.angles[i], θ)
        for j in range(11):
            env.equal(f"state {i} {j}", got.solution[i, j], r[j])


def join(env):
    inp, cons = SolutionInput(**numbers_const()), start_conditions(env)
    flags = [StatusEnum.SUCCESS, StatusEnum.ROOT_RETURN,
             StatusEnum.TSTOP_RETURN, StatusEnum.TOO_MUCH_WORK]
    changed = env.pick("changed", [None, "input", "conditions", "coordinates"])
    some = changed is None
    a = solution_of(
        env, "m", 2, inp, cons, env.pick("first flag", flags) if some else
        flags[0], env.flag("first internal") if some else False)
    b = solution_of(
        env, "s", env.pick("points", [0, 1, 3]) if some else 1, inp, cons,
        env.pick("flag", flags) if some else flags[0],
        env.flag("internal") if some else False)
    if changed == "input":
        b.solution_input = SolutionInput(**dict(numbers_const(), γ=77.0))
    elif changed == "conditions":
        b.initial_conditions = start_conditions(env)
    elif changed == "coordinates":
        b.coordinate_system = "other"
    run = new_run()
    copies = a.solution.copy(), a.angles.copy(), b.solution.copy(), \
        b.angles.copy()
    if changed:
        env.raises("parts that do not belong together are refused",
                   SolverError, sr.write_solution, run, a, b)
        env.claim("nothing recorded", len(run.solutions) == 0)
        return
    da, db = a.internal_data, b.internal_data
    first = [] if da is None else da.derivs.tolist()
    second = [] if db is None else db.derivs.tolist()
    sr.write_solution(run, a, b)
    env.claim("recorded", list(run.solutions) == ["0"])
    got = run.solutions["0"]
    check_join(env, got, a, b, *copies)
    if da is None and db is None:
        env.claim("no internal data", got.internal_data is None)
    else:
        env.claim("internal data in the same order", np.asarray(
            got.internal_data.derivs).tolist() == first + second[::-1])


def whole(env, n):
    store = env.flag("store") if n < 3 else True
    cons = start_conditions(env)
    kept = list(cons.init_con)
    inp = SolutionInput(**dict(
        numbers_const(), target_velocity=env.real("target"), iterations=37))
    run = new_run()
    trace, solns, guess, out = [], [], [], []
    m = env.pick("points", [2, 3]) if n == 1 else 2
    bad = env.pick("failing", [None] + list(range(n)))
    how = env.pick("how", ["error", "empty", "NaN"]) \
        if bad is not None else ""
    success = env.flag("success")

    def solution(inp_, cons_, **kw):
        k = len(trace)
        trace.append((inp_, cons_, kw))
        name = f"y{k}_" if k else "m"
        if k and bad is not None and k - 1 == bad:
            if how == "error":
                raise SolverError("stub")
            if how == "empty":
                s = solution_of(env, name, 0, inp_, cons_,
                                StatusEnum.TOO_MUCH_WORK, False)
                solns.append((s, s.solution.copy(), s.angles.copy()))
                return s
        s = solution_of(env, name, m if k == 0 else 2, inp_, cons_,
                        StatusEnum.ROOT_RETURN if k == 0 else
                        StatusEnum.SUCCESS, False)
        if k == 0:
            env.assume(s.solution[-1, I.v_θ] != s.solution[-2, I.v_θ])
        solns.append((s, s.solution.copy(), s.angles.copy()))
        return s

    best = []

    def root(func, x0, **kw):
        best.append((x0, kw))
        for k in range(n):
            g = reals(env, f"g{k}_", 8)
            if bad == k and how == "NaN":
                g[3] = np.nan
            guess.append(g)
            out.append(func(env.asarray(g)))
        return NS(success=success, message="stub")

    with env.patch(sr, solution=solution, root=root,
                   define_conditions=lambda i: cons):
        got = sr.solver(inp, run, store_internal=store)
    env.claim("result", bool(got) == success)
    # the solution from the midplane
    i0, c0, kw = trace[0]
    env.claim("midplane start", i0 is inp and c0 is cons
              and kw["store_internal"] == store and set(kw) == {
                  "store_internal", "root_func", "root_func_args"}
              and kw["root_func_args"] == 1)
    o = np.zeros(1, dtype=object if env.sym else float)
    y = env.asarray(reals(env, "q", 11))
    kw["root_func"](0.5, y, o)
    env.zero_any("stops at the target velocity", [
        o[0], y[I.v_θ], -1 * inp.target_velocity], [
        o[0], -1 * y[I.v_θ], inp.target_velocity])
    for i in range(11):
        env.equal(f"conditions kept {i}", cons.init_con[i], kept[i])
    # where the search starts
    s0, y0, a0 = solns[0]
    f = (1 - y0[-1, I.v_θ]) / (y0[-1, I.v_θ] - y0[-2, I.v_θ])
    env.equal("first guess of v_r", best[0][0][2], y0[-1, I.v_r] + f * (
        y0[-1, I.v_r] - y0[-2, I.v_r]))
    env.claim("iterations", best[0][1]["options"]["maxiter"] == 37)
    # the solutions from the sonic point
    ran = [k for k in range(n) if not (k == bad and how == "NaN")]
    env.claim("every guess is solved", len(trace) == 1 + len(ran))
    done = 1
    for k, (i_, c_, kw) in zip(ran, trace[1:]):
        env.claim("sonic start", i_ is inp and c_ is cons and
                  kw["store_internal"] == store and
                  kw["with_taylor"] is False and set(kw) == {
                      "store_internal", "with_taylor",
                      "modified_initial_conditions"})
        mod = kw["modified_initial_conditions"]
        want = want_start(guess[k], kept)
        for i in range(11):
            env.equal(f"sonic start {k} {i}", mod.init_con[i], want[i])
        for i in range(3):
            env.equal(f"sonic angles {k} {i}", mod.angles[i], guess[k][0] + (
                a0[-1] - guess[k][0]) * i / 2)
    recorded = 1
    at = 1
    for k in range(n):
        if k == bad:
            env.claim("failed guess", len(out[k]) == 8 and all(
                type(x).__name__ != "Sym" and x < -1e100 for x in out[k]))
            if how == "empty":
                at += 1
                recorded += 1
            continue
        s, ys, as_ = solns[at]
        at += 1
        want = want_difference(NS(solution=ys, angles=as_), NS(
            solution=y0, angles=a0))
        for j in range(8):
            env.equal(f"difference {k} {j}", out[k][j], want[j])
        check_join(env, run.solutions[str(recorded)], s0, s, y0, a0, ys, as_)
        recorded += 1
    env.claim("all recorded", len(run.solutions) == recorded)
    env.claim("midplane solution recorded", run.solutions["0"] is s0)
    env.claim("final is the last", run.final_solution is
              run.solutions[str(recorded - 1)])


def cases(tier):
    kw = dict(nz_in_path=False)
    n = 2 if tier == "quick" else 3
    return [
        Case("conditions", conditions, **kw),
        Case("guess-2", guesses, params=dict(n=2), **kw),
        Case("guess-3", guesses, params=dict(n=3), **kw),
        Case("difference", difference, **kw),
        Case("join", join, **kw),
        Case("whole-1", whole, params=dict(n=1), **kw),
        Case(f"whole-{n}", whole, params=dict(n=n), **kw),
    ]
