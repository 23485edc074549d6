"""P06: crossing the sonic point and putting the parts of a solution together"""
import numpy as np

from symx.harness import Case
from mhd import I
from stub_ode import Integrator
from p03_start_conditions import solution_input

import disc_solver.solve
from disc_solver import utils
from disc_solver.file_format import InitialConditions, InternalData
from disc_solver.solve import solution as sol
from disc_solver.solve.utils import (
    SolverError, velocity_stop_generator, onroot_stop, ontstop_stop
)

BOUNDS = (
    "one complete solution call over a 5-angle grid with every combination of "
    "Taylor step (none, series, integrated) and sonic crossing (none, jump, "
    "interpolation), parts of 2 or 3 arbitrary real states, both induction "
    "closures; every combination of the sonic options for conflicts"
)
OUTSIDE = (
    "rounding; longer grids and parts (they enter by comparison and "
    "concatenation only); accuracy of the external integrator; cubic "
    "interpolation (an arbitrary function in its place)"
)
STUBS = [
    "scikits.odes integrator: arbitrary states, scripted outcomes",
    "scipy interp1d for the crossing: an arbitrary function of the angle",
]
ASSUMPTIONS = [
    "ρ > 0, v_θ > 0, v_θ not 1, B_θ > 0, η_O > 0, η_A >= 0 where the "
    "right-hand side is evaluated",
]
GRID = [0.0, 0.125, 0.25, 0.375, 0.5]


def conditions(env):
    ic = env.array("i", 11)
    for i in (I.ρ, I.η_O):
        env.assume(ic[i] > 0)
    env.assume(ic[I.η_A] >= 0)
    γ, a_0 = env.real("γ_0", pos=True), env.real("a_0", pos=True)
    nk = env.real("nk", pos=True)
    return InitialConditions(
        norm_kepler_sq=nk, a_0=a_0, γ=γ, init_con=ic,
        angles=env.asarray(GRID)
    )


def sane(env, y):
    for i in (I.ρ, I.v_θ, I.η_O, I.B_θ):
        env.assume(y[i] > 0)
    env.assume(y[I.v_θ] != 1)
    env.assume(y[I.η_A] >= 0)


def reference(env, cond, inp, θ, y, **kw):
    """The right-hand side this solution must be integrated with"""
    system, _ = sol.ode_system(
        γ=cond.γ, a_0=cond.a_0, norm_kepler_sq=cond.norm_kepler_sq,
        init_con=cond.init_con, η_derivs=inp.η_derivs, use_E_r=inp.use_E_r,
        store_internal=False, **kw
    )
    d = np.zeros(11, dtype=object if env.sym else float)
    system(θ, y, d)
    return d


def check_call(env, name, call, cond, inp, q, grid, y0, tstop=None, **kw):
    """One integration: grid, start state, tolerances and equations"""
    env.same(f"{name}: grid", np.asarray(call["angles"]), env.asarray(grid))
    env.same(f"{name}: start state", np.asarray(call["y0"]), y0)
    o = call["options"]
    env.equal(f"{name}: rtol", o["rtol"], inp.relative_tolerance)
    env.equal(f"{name}: atol", o["atol"], inp.absolute_tolerance)
    env.same(f"{name}: max steps", o["max_steps"], inp.max_steps)
    if tstop is None:
        env.claim(f"{name}: no stop angle", o.get("tstop") is None)
    else:
        env.equal(f"{name}: stop angle", o["tstop"], tstop)
    d = np.zeros(11, dtype=object if env.sym else float)
    call["rhs"](0.2, q, d)
    want = reference(env, cond, inp, 0.2, q, **kw)
    for i in range(11):
        env.equal(f"{name}: equations[{i}]", d[i], want[i])


def no_root(env, name, call):
    env.claim(f"{name}: no velocity stop",
              call["options"].get("rootfn") is None)


def stops_at(env, name, call, target):
    out = env.asarray([0.0])
    v = env.array("w", 11)
    call["options"]["rootfn"](0.2, v, out)
    env.claim(f"{name}: one stop", call["options"]["nr_rootfns"] == 1)
    env.zero_any(f"{name}: stops at this velocity", [
        out[0], v[I.v_θ], -1 * target
    ], [out[0], -1 * v[I.v_θ], target])


def arbitrary_system(env):
    """
    ode_system as an arbitrary function of everything it is given (its content
    is decided by P01)
    """
    import inspect
    signature = inspect.signature(sol.ode_system)

    def system(*args, **kw):
        b = signature.bind(*args, **kw)
        b.apply_defaults()
        a = b.arguments
        tag = f"{a['η_derivs']}-{a['use_E_r']}-{a['with_taylor']}"
        given = [a["γ"], a["a_0"], a["norm_kepler_sq"], a["θ_scale"]] + list(
            a["init_con"])

        def rhs(θ, y, d):
            for i in range(11):
                d[i] = env.uf(f"d{i}-{tag}", θ, *y, *given)
            return 0
        return rhs, None
    return system


def whole(env, taylor, sonic, use_E_r, outcome, given, store):
    cond = conditions(env)
    jb, js = env.real("jump", gt=0, lt=1), env.real("after", pos=True)
    after = env.flag("after_sonic set") if sonic else False
    stop = env.real("stop", gt=8, lt=14)   # degrees, between 0.125 and 0.25
    rtol, atol = env.real("rtol", pos=True), env.real("atol", pos=True)
    inp, _ = solution_input(
        env, use_E_r=use_E_r, taylor_stop_angle=stop,
        jump_before_sonic=jb if sonic == "jump" else None,
        sonic_interp_size=jb if sonic == "interp" else None,
        after_sonic=js if after else None, relative_tolerance=rtol,
        absolute_tolerance=atol, max_steps=env.integer("steps", 1, 9),
        use_taylor_jump=taylor == "jump", η_derivs=env.flag("η_derivs"),
        interp_slice=slice(-2, None),
    )
    srad = stop * (np.pi / 180)
    ode = Integrator(env, [], evaluate=store)
    t_main = [0.25, 0.3125]
    parts_t, parts_y = [], []
    grid, y0 = list(GRID), cond.init_con
    modified = None
    q = env.array("q", 11)
    sane(env, q)
    if given:
        modified = cond.create_modified(
            init_con=env.array("m", 11),
            angles=env.asarray([0.0625, 0.25, 0.375]),
        )
    if taylor == "jump":
        # the step itself is decided by P05
        step = sol.taylor_jump(
            angles=cond.angles, init_con=cond.init_con, γ=cond.γ,
            a_0=cond.a_0, taylor_stop_angle=srad, η_derivs=inp.η_derivs,
            use_E_r=use_E_r,
        )
        grid, y0 = [srad] + GRID[2:], step.new_initial_conditions
        parts_t += [0, srad]
        parts_y += [cond.init_con, y0]
    elif taylor == "integrated":
        rows = ode.rows("t", 2)
        for r in rows:
            sane(env, r)
        ode.script.append(("tstop", [0.0, srad] if not store else
                           [0.0, 0.125], rows))
        grid, y0 = [srad] + GRID[2:], rows[-1]
        parts_t += ode.script[0][1]
        parts_y += list(rows)
    elif given:
        grid, y0 = list(modified.angles), modified.init_con
    main = ode.rows("m", 2)
    for r in main:
        sane(env, r)
    ode.script.append(("root" if sonic else outcome, t_main, main))
    parts_t += t_main
    parts_y += list(main)
    tstop = env.real("tstop", pos=True)
    if sonic == "interp":
        cross = ode.rows("c", 2)
        ode.script.append(("root", [0.3125, 0.4375], cross))
        parts_t += [0.3125, 0.4375]
        parts_y += list(cross)
        sane(env, cross[0])
        sane(env, cross[1])
    if sonic:
        post = ode.rows("p", 2)
        ode.script.append((outcome, [0.4375, 0.5], post))
        parts_t += [0.4375, 0.5]
        parts_y += list(post)
        sane(env, post[0])
        sane(env, post[1])
    fake = {}

    def interp1d(x, y, **kw):
        fake.update(x=x, y=y, kw=kw)
        return lambda θ: env.uf("slope", θ)

    if sonic == "jump":
        with env.patch(sol, ode_system=arbitrary_system(env)):
            return finish(**locals())
    return finish(**locals())


def finish(env, ode, interp1d, inp, cond, tstop, store, taylor, modified, srad,
           q, grid, y0, sonic, jb, js, after, main, t_main, parts_t, parts_y,
           outcome, fake, cross=None, **_):
    try:
        with env.patch(sol, ode=ode), env.patch(utils, interp1d=interp1d):
            r = sol.solution(
                inp, cond, tstop=tstop, ontstop_func=ontstop_stop,
                store_internal=store, with_taylor=taylor is not None,
                modified_initial_conditions=modified,
            )
    except SolverError as e:
        env.claim("refused only without angles left", sonic == "jump")
        d = reference(env, cond, inp, t_main[-1], main[-1])
        env.claim("no angle beyond the jump", t_main[-1] + (
            jb + (js if after else jb)) / d[I.v_θ] >= GRID[-1])
        return
    n = 0
    if taylor == "integrated":
        env.equal("Taylor part: stop angle", ode.calls[0]["options"]["tstop"],
                  srad)
        n = 1
    check_call(env, "main part", ode.calls[n], cond, inp, q, grid, y0, tstop)
    if sonic:
        stops_at(env, "main part", ode.calls[n], 1 - jb)
    else:
        no_root(env, "main part", ode.calls[n])
    skip = js if after else jb
    if sonic == "jump":
        y = main[-1]
        d = reference(env, cond, inp, t_main[-1], y)
        dθ = (jb + skip) / d[I.v_θ]
        call = ode.calls[n + 1]
        end = t_main[-1] + dθ
        env.equal("jump ends at", call["angles"][0], end)
        rest = [a for a in grid if bool(a > end)]
        env.same("grid after the jump", np.asarray(call["angles"])[1:],
                 env.asarray(rest))
        for i in range(11):
            env.equal(f"state after the jump[{i}]", call["y0"][i],
                      y[i] + d[i] * dθ)
        no_root(env, "last part", call)
        check_call(env, "last part", call, cond, inp, q,
                   list(call["angles"]), call["y0"], tstop)
    if sonic == "interp":
        call = ode.calls[n + 1]
        stops_at(env, "crossing", call, 1 + skip)
        check_call(
            env, "crossing", call, cond, inp, q, [0.375, 0.5], main[-1],
            deriv_v_θ_func=lambda θ: env.uf("slope", θ)
        )
        call = ode.calls[n + 2]
        no_root(env, "last part", call)
        check_call(env, "last part", call, cond, inp, q, [0.4375, 0.5],
                   cross[-1], tstop)
        ys = [reference(env, cond, inp, a, b)[I.v_θ]
              for a, b in zip(t_main, main)]
        got = list(zip(fake["x"], fake["y"]))
        env.claim("interpolated points", len(got) == 2)
        for (a, b), t, y in zip(got, t_main, ys):
            env.equal(f"interpolated angle {t}", a, t)
            env.equal(f"interpolated slope {t}", b, y)
    env.claim("number of integrations", len(ode.calls) == len(ode.script))

    env.same("angles in order", np.asarray(r.angles), env.asarray(parts_t))
    env.same("states in order", np.asarray(r.solution),
             env.asarray([list(i) for i in parts_y]))
    env.claim("input recorded", r.solution_input is inp)
    env.claim("conditions recorded", r.initial_conditions is cond)
    if not sonic:
        last = ode.script[-1]
        env.claim("flag", int(r.flag) == {
            "finish": 0, "tstop": 1, "root": 2, "fail": -4
        }[last[0]])
        env.claim("root recorded", (r.t_roots is not None) == (
            outcome == "root"))
        if outcome == "root":
            env.same("root angle", np.asarray(r.t_roots),
                     env.asarray(t_main[-1:]))
            env.same("root state", np.asarray(r.y_roots),
                     env.asarray([list(main[-1])]))
    if store:
        d = r.internal_data
        env.same("internal angles", np.asarray(d.angles),
                 env.asarray(parts_t if taylor != "jump" else parts_t[2:]))
        env.same("internal states", np.asarray(d.params), env.asarray(
            [list(i) for i in (parts_y if taylor != "jump" else parts_y[2:])]
        ))
    else:
        env.claim("no internal data", r.internal_data is None)


def options(env):
    """Which combinations of stopping options are refused"""
    cond = conditions(env)
    interp, jump = env.flag("interp"), env.flag("jump")
    root, args = env.flag("root"), env.flag("args")
    onroot, store = env.flag("onroot"), env.flag("store")
    n = env.pick("n", [0, 1, 2])
    size, after = env.real("size", gt=0, lt=1), env.real("d", gt=0, lt=1)
    target = env.real("target")
    rows = [env.array(f"y{i}", 11) for i in range(2)]
    for r in rows:
        sane(env, r)
    ode = Integrator(env, [("finish", [0.1, 0.2], env.asarray(
        [list(r) for r in rows]))])
    bad = (
        (interp and (root or jump or not store))
        or (jump and (root or onroot))
        or (root and not args) or n < 2
    )
    ok = True
    with env.patch(sol, ode=ode):
        try:
            sol.main_solution(
                angles=env.asarray([0.1, 0.2][:n]), γ=cond.γ, a_0=cond.a_0,
                system_initial_conditions=cond.init_con,
                ode_initial_conditions=cond.init_con,
                norm_kepler_sq=cond.norm_kepler_sq, store_internal=store,
                onroot_func=onroot_stop if onroot else None,
                jump_before_sonic=size if jump else None,
                sonic_interp_size=after if interp else None,
                root_func=velocity_stop_generator(target) if root else None,
                root_func_args=1 if args else None,
            )
        except SolverError:
            ok = False
    env.claim("refused exactly when in conflict", ok == (not bad))
    if not ok:
        env.claim("nothing integrated", not ode.calls)
        return
    call = ode.calls[0]
    if interp:
        stops_at(env, "interpolation", call, 1 - after)
    elif jump:
        stops_at(env, "jump", call, 1 - size)
    elif root:
        stops_at(env, "root", call, target)
    else:
        no_root(env, "plain", call)


def cases(tier):
    out = [Case("options", options, nz_in_path=False)]

    def add(taylor, sonic, use_E_r, outcome="finish", given=False, store=False):
        out.append(Case(
            f"whole-{taylor}-{sonic}-{'E_r' if use_E_r else 'B_φ_prime'}"
            f"-{outcome}" + ("-given" if given else "")
            + ("-store" if store else ""), whole,
            params=dict(taylor=taylor, sonic=sonic, use_E_r=use_E_r,
                        outcome=outcome, given=given, store=store),
            nz_in_path=False, branch_timeout=2000,
        ))
    full = tier == "thorough"
    for taylor in ("jump", "integrated", None):
        for sonic in (None, "jump", "interp"):
            for u in (True, False) if full or sonic is None else (
                (taylor is None),
            ):
                add(taylor, sonic, u, store=sonic == "interp")
    for outcome in ("root", "tstop", "fail"):
        add(None, None, False, outcome)
        if full:
            add("jump", "jump", True, outcome)
            add("jump", "interp", True, outcome, store=True)
    add(None, None, True, given=True)
    add("jump", None, False, store=True)
    add("integrated", None, False, store=True)
    return out
