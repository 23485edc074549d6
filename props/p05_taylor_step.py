"""P05: stepping off the midplane and continuing where the step ended"""
import numpy as np

from symx.harness import Case
from mhd import I
from p04_taylor_coefficients import start
from stub_ode import Integrator

import disc_solver.solve
from disc_solver.solve import solution as sol, deriv_midplane as dm
from disc_solver.solve.utils import SolverError

BOUNDS = (
    "one Taylor step at arbitrary real start state, parameters and stop "
    "angle on an arbitrary increasing grid of 4 angles; both induction "
    "closures; Taylor-derivative integration with every outcome of the "
    "integrator"
)
OUTSIDE = (
    "rounding; grids longer than 4 (the grid enters by comparison only); the "
    "accuracy of the external integrator"
)
STUBS = ["scikits.odes integrator: arbitrary states, all four outcomes"]
ASSUMPTIONS = ["η_O > 0, η_A >= 0, v_r non-zero"]


def grid(env, stop):
    g = env.array("angle", 4)
    env.assume(g[0] == 0)
    for a, b in zip(g, g[1:]):
        env.assume(a < b)
    return g


def continuation(env, g, stop, new):
    want = [stop] + [a for a in g if bool(a > stop)]
    env.claim("grid after the step", len(new) == len(want))
    for i, (a, b) in enumerate(zip(new, want)):
        env.equal(f"grid after the step[{i}]", a, b)


def jump(env, use_E_r, η_derivs):
    γ, a_0, *_, ic = start(env)
    stop = env.real("stop", pos=True)
    g = grid(env, stop)
    before = list(ic)
    r = sol.taylor_jump(
        angles=g, init_con=ic, γ=γ, a_0=a_0, taylor_stop_angle=stop,
        η_derivs=η_derivs, use_E_r=use_E_r,
    )
    kw = dict(init_con=ic, γ=γ, a_0=a_0)
    f = dm.get_taylor_first_order(**kw)
    s = dm.get_taylor_second_order(η_derivs=η_derivs, use_E_r=use_E_r, **kw)
    h = dm.get_taylor_third_order(η_derivs=η_derivs, use_E_r=use_E_r, **kw)
    cut = []
    for i in range(11):
        cut += [(x[i], env.fresh(f"{n}{i}"))
                for n, x in (("f", f), ("s", s), ("h", h))]
    for i in range(11):
        terms = [
            ic[i], stop * f[i], stop * stop * s[i] / 2,
            stop * stop * stop * h[i] / 6
        ]
        env.zero(f"state[{i}]", -1 * r.new_initial_conditions[i], *terms,
                 cuts=cut if env.sym else ())
        env.equal(f"recorded start[{i}]", r.params[0][i], before[i])
        env.zero(f"recorded end[{i}]", r.params[1][i],
                 -1 * r.new_initial_conditions[i])
        env.equal(f"start state untouched[{i}]", ic[i], before[i])
    env.claim("two recorded states", len(r.params) == len(r.angles) == 2)
    env.equal("recorded start angle", r.angles[0], 0)
    env.equal("recorded end angle", r.angles[1], stop)
    env.equal("stop angle", r.angle_stopped, stop)
    continuation(env, g, stop, r.new_angles)


def integrated(env, outcome, use_E_r):
    γ, a_0, *_, ic = start(env)
    nk = env.real("nk", pos=True)
    stop = env.real("stop", pos=True)
    rtol, atol = env.real("rtol", pos=True), env.real("atol", pos=True)
    g = grid(env, stop)
    ode = Integrator(env, [])
    rows = ode.rows(0, 3)
    t = [g[0], g[1], stop]
    ode.script.append((outcome, t, rows))
    with env.patch(sol, ode=ode):
        try:
            r = sol.taylor_solution(
                angles=g, init_con=ic, γ=γ, a_0=a_0, norm_kepler_sq=nk,
                taylor_stop_angle=stop, relative_tolerance=rtol,
                absolute_tolerance=atol, max_steps=77, use_E_r=use_E_r,
                store_internal=False,
            )
        except SolverError:
            env.claim("only failure or a missed stop is an error",
                      outcome in ("fail", "finish"))
            return
    env.claim("stops only at the stop angle", outcome == "tstop")
    call = ode.calls[0]
    o = call["options"]
    env.equal("stop angle given", o["tstop"], stop)
    env.equal("rtol", o["rtol"], rtol)
    env.equal("atol", o["atol"], atol)
    env.claim("max steps", o["max_steps"] == 77)
    env.same("grid given", np.asarray(call["angles"]), g)
    env.same("start given", np.asarray(call["y0"]), ic)
    env.same("angles", np.asarray(r.angles), env.asarray(t))
    env.same("states", np.asarray(r.params), rows)
    env.same("continues from the end state",
             np.asarray(r.new_initial_conditions), rows[-1])
    env.equal("stop", r.angle_stopped, stop)
    continuation(env, g, stop, r.new_angles)

    # the right-hand side given replaces v_r', v_φ', ρ' by their expansions
    T = dm.get_taylor_second_order(
        init_con=ic, γ=γ, a_0=a_0, η_derivs=True, use_E_r=use_E_r
    )
    y, θ = env.array("q", 11), 0.25
    env.assume(y[6] > 0)
    env.assume(y[5] > 0)
    env.assume(y[5] != 1)
    env.assume(y[2] > 0)
    env.assume(y[8] > 0)
    env.assume(y[9] >= 0)
    d = np.zeros(11, dtype=object if env.sym else float)
    call["rhs"](θ, y, d)
    cut = [(T[i], env.fresh(f"T{i}")) for i in (I.v_r, I.v_φ, I.ρ)]
    for i in (I.v_r, I.v_φ, I.ρ):
        env.zero(f"expanded derivative[{i}]", d[i], -θ * T[i],
                 cuts=cut if env.sym else ())


def cases(tier):
    out = [
        Case(f"jump-{'E_r' if u else 'B_φ_prime'}-η{int(n)}", jump,
             params=dict(use_E_r=u, η_derivs=n))
        for u in (True, False) for n in (True, False)
    ]
    for how in ("tstop", "finish", "fail"):
        for u in (True, False):
            out.append(Case(
                f"integrated-{how}-{'E_r' if u else 'B_φ_prime'}", integrated,
                params=dict(outcome=how, use_E_r=u), nz_in_path=False
            ))
    return out
