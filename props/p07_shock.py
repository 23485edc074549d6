"""P07: shock candidates, jump conditions and the restart after a shock"""
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import Case
from mhd import I

from p30_plots import opened, quiet_log

from disc_solver.analyse import utils as au
from disc_solver.file_format import InitialConditions, Run, SolutionInput
from disc_solver.solve import shock as sh

BOUNDS = (
    "candidate search: 4 stored points (thorough: 5) of arbitrary real "
    "state at increasing angles, one of which may be NaN; jump and restart: "
    "arbitrary real state, 4 angles, every outcome of the solver"
)
OUTSIDE = "rounding; more stored points; plotting; the process pool"
STUBS = ["solver, file opening and plotting (record their arguments)"]
ASSUMPTIONS = ["flow speed and density of the jumping state positive"]


def increasing(env, name, n):
    a = env.array(name, n)
    for x, y in zip(a, a[1:]):
        env.assume(x < y)
    return a


def candidates(env, n, post_max, nan_at):
    angles = increasing(env, "angle", n)
    rows = np.array(
        [[env.uf("q", i, j) for j in range(11)] for i in range(n)],
        dtype=object if env.sym else float
    )
    v = [env.real(f"v{i}", nan=(i == nan_at)) for i in range(n)]
    rows[:, I.v_θ] = v
    lo, hi = env.real("lo"), env.real("hi")
    deg = env.real("min_angle", lo=0, hi=180)
    out_angles, out_rows = sh.find_shock_test_values(
        NS(solution=rows, angles=angles), min_v_θ_pre=lo, max_v_θ_pre=hi,
        min_angle=deg, post_max=post_max,
    )
    lim = deg * np.pi / 180
    if env.sym:
        lim = deg.radians()
    isnan = [
        bool(x.isnan()) if env.sym and i == nan_at else
        bool(not env.sym and np.isnan(x)) for i, x in enumerate(v)
    ]
    want = []
    top = None
    for i in range(n):
        if not isnan[i] and (top is None or bool(v[i] > v[top])):
            top = i
    for i in range(n):
        if isnan[i]:
            continue
        if not (bool(v[i] > lo) and bool(v[i] < hi)):
            continue
        if not bool(angles[i] > lim):
            continue
        if post_max and not bool(angles[i] > angles[top]):
            continue
        want.append(i)
    env.claim("number of candidates", len(out_angles) == len(want))
    for k, i in enumerate(want):
        if k >= len(out_angles):
            break
        env.equal(f"candidate angle[{k}]", out_angles[k], angles[i])
        env.same(f"candidate state[{k}]", out_rows[k], rows[i])


def state(env, name="pre"):
    y = env.array(name, 11)
    env.assume(y[I.v_θ] > 0)
    env.assume(y[I.ρ] > 0)
    return y


def conditions(env):
    ic = env.array("ic", 11)
    return InitialConditions(
        norm_kepler_sq=env.real("nk", pos=True), γ=env.real("γ"),
        init_con=ic, angles=increasing(env, "angle", 4),
        a_0=env.real("a_0", pos=True),
    )


def jumped(env, pre, post):
    v0, v1, ρ0, ρ1 = pre[I.v_θ], post[I.v_θ], pre[I.ρ], post[I.ρ]
    env.zero("mass flux", ρ0 * v0, -1 * ρ1 * v1)
    env.zero("momentum flux", ρ0 * v0 * v0, ρ0, -1 * ρ1 * v1 * v1, -1 * ρ1)
    # the shocked branch, not the trivial one
    env.zero("shocked branch", v0 * v1, -1.0)
    for i in range(11):
        if i not in (I.v_θ, I.ρ):
            env.equal(f"unchanged across[{i}]", post[i], pre[i])


def restart(env):
    con = conditions(env)
    old_ic, old_angles = list(con.init_con), list(con.angles)
    pre = state(env)
    before = list(pre)
    θ = env.real("θ")
    new = sh.get_shock_modified_initial_conditions(
        initial_conditions=con, angles=con.angles, jump_θ=θ,
        pre_jump_values=pre,
    )
    jumped(env, before, new.init_con)
    env.same("candidate state untouched", list(pre) and np.asarray(pre),
             env.asarray(before))
    env.same("original start untouched", np.asarray(con.init_con),
             env.asarray(old_ic))
    env.same("original angles untouched", np.asarray(con.angles),
             env.asarray(old_angles))
    want = [a for a in old_angles if bool(a >= θ)]
    env.claim("restart angles", len(new.angles) == len(want))
    for i, (a, b) in enumerate(zip(new.angles, want)):
        env.equal(f"restart angle[{i}]", a, b)
    env.equal("same rotation", new.norm_kepler_sq, con.norm_kepler_sq)
    env.equal("same field strength", new.a_0, con.a_0)
    env.equal("same field index", new.γ, con.γ)
    env.equal("diffusivity O", new.η_O, before[I.η_O])
    env.equal("diffusivity A", new.η_A, before[I.η_A])
    env.equal("diffusivity H", new.η_H, before[I.η_H])


class Stop(Exception):
    """Raised by stubs"""


def finder(env, outcome):
    con = conditions(env)
    old_ic = list(con.init_con)
    pre = state(env)
    before = list(pre)
    θ = env.real("θ")
    calls, files, kept = [], {}, []
    n = 4 if outcome == "short" else 6
    result = NS(
        angles=np.arange(n), solution=np.full((n, 11), .5), tag="shock"
    )

    def solution(*args, **kw):
        calls.append((args, kw))
        if outcome == "solve fails":
            raise Stop
        return result

    class File(dict):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def h5open(name, registries, mode):
        if outcome == "save fails":
            raise Stop
        f = File()
        files[str(name)] = (mode, f)
        return f

    plots = []

    def plot(run, **kw):
        plots.append(kw)
        if outcome == "plot fails":
            raise Stop

    run = NS(
        config_input=NS(label="shock"), finalised=0,
        solutions=NS(add_solution=kept.append),
    )

    def finalise():
        run.finalised += 1
    run.finalise = finalise
    inp = object()
    with env.patch(
        sh, solution=solution, h5open=h5open, plot_shock_solution=plot,
    ):
        find = sh.ShockFinder(
            new_solution_input=inp, initial_conditions=con,
            angles=con.angles, store_internal=env.flag("store"), run=run,
        )
        got = find((θ, pre))
    env.claim("solved once", len(calls) == 1)
    (args, kw), = calls
    args = dict(zip(("soln_input", "initial_conditions"), args))
    args.update(kw)
    env.claim("given input", args["soln_input"] is inp)
    env.claim("original equations", args["initial_conditions"] is con)
    env.same("original start untouched", np.asarray(con.init_con),
             env.asarray(old_ic))
    mod = args["modified_initial_conditions"]
    jumped(env, before, mod.init_con)
    env.claim("no step off the midplane", args["with_taylor"] is False)
    env.claim("marked as after a shock", args["is_post_shock_only"] is True)
    ok = outcome in ("fine",)
    env.claim("names only when everything worked",
              (got[0] is not None and got[1] is not None) == ok)
    if outcome in ("fine", "plot fails"):
        env.claim("kept once", len(kept) == 1 and kept[0] is result)
        env.claim("finalised", run.finalised == 1)
        (name, (mode, f)), = files.items()
        env.claim("never overwrites a file", mode == "x")
        env.claim("run stored", f.get("run") is run)
        if ok:
            env.claim("name of the file", str(got[0]) == name)
            env.claim("the plot shows that file",
                      str(plots[0]["output_hdf5_filename"]) == name)
    elif outcome != "save fails":
        env.claim("nothing kept or written", not kept and not files)


def search(env, n):
    """compute_shock tries every candidate with a cleaned input"""
    angles = increasing(env, "angle", n)
    rows = np.array(
        [[env.uf("q", i, j) for j in range(11)] for i in range(n)],
        dtype=object if env.sym else float
    )
    rows[:, I.v_θ] = [env.real(f"v{i}") for i in range(n)]
    values = {
        f.name: env.real("in_" + f.name) if i < 4 else f"keep {f.name}"
        for i, f in enumerate(SolutionInput.__attrs_attrs__)
        if f.name not in ("mcmc_vars", "interp_slice")
    }
    inp = SolutionInput(
        mcmc_vars=None, interp_slice=slice(1, 2), **values
    )
    soln = NS(
        angles=angles, solution=rows, solution_input=inp,
        initial_conditions=object(),
    )
    tried, made = [], []

    class Finder:
        def __init__(self, **kw):
            made.append(kw)

        def __call__(self, value):
            tried.append(value)
            return None, None

    class Pool:
        def __init__(self, *a, **kw):
            pass

        def __enter__(self):
            return NS(imap=lambda f, xs: map(f, xs))

        def __exit__(self, *a):
            return False

    lo, hi = env.real("lo"), env.real("hi")
    run = object()
    with env.patch(sh, ShockFinder=Finder, nicer_mp_pool=Pool):
        sh.compute_shock(
            soln, min_v_θ_pre=lo, max_v_θ_pre=hi, min_angle=40, run=run,
            nworkers=3,
        )
    ang, val = sh.find_shock_test_values(
        soln, min_v_θ_pre=lo, max_v_θ_pre=hi, min_angle=40
    )
    env.claim("every candidate tried once", len(tried) == len(ang))
    for k, (a, b) in enumerate(zip(tried, zip(ang, val))):
        env.equal(f"tried angle[{k}]", a[0], b[0])
        env.same(f"tried state[{k}]", a[1], b[1])
    kw, = made
    env.claim("original start", kw["initial_conditions"] is (
        soln.initial_conditions))
    env.same("angles of the solution", np.asarray(kw["angles"]), angles)
    env.claim("run", kw["run"] is run)
    new = kw["new_solution_input"].asdict()
    cleared = dict(
        use_taylor_jump=False, jump_before_sonic=None, v_θ_sonic_crit=None,
        after_sonic=None, interp_range=None, interp_slice=None,
        sonic_interp_size=None,
    )
    for k, v in inp.asdict().items():
        if k in cleared:
            env.claim(f"cleared {k}", new[k] is cleared[k])
        else:
            env.same(f"kept {k}", new[k], v)
    env.claim("original input untouched",
              inp.use_taylor_jump == "keep use_taylor_jump" and
              inp.interp_slice == slice(1, 2))


def command(env):
    """ds-shock: which solution, with what record of where it came from"""
    solns = [NS(k=0), NS(k=1)]
    run = Run(**{
        f.name: env.real("run_" + f.name) for f in Run.__attrs_attrs__
        if f.init and f.name.lstrip("_") not in (
            "solutions", "final_solution")
    })
    for s in solns:
        run.solutions.add_solution(s)
    final = env.pick("final", [None, 0, 1])
    run.final_solution = None if final is None else solns[final]
    names = [f.name.lstrip("_") for f in Run.__attrs_attrs__]
    before = {k: getattr(run, k) for k in names}
    which = env.pick("which", ["0", "1", "latest"])
    workers = env.pick("workers", [None, 3])
    argv = ["file", which] + ([] if workers is None else ["-n", str(workers)])
    calls = []

    def compute(soln, **kw):
        calls.append((soln, kw))

    with env.patch(au, h5open=opened(env, {"file": run}),
                   log_handler=quiet_log), env.patch(
                       sh, compute_shock=compute):
        sh.shock_main(argv)
    env.claim("shocked once", len(calls) == 1)
    (soln, kw), = calls
    env.claim("solution asked for", soln is solns[
        int(which) if which != "latest" else 1 if final is None else final])
    env.claim("workers", kw["nworkers"] == workers)
    new = kw["run"]
    env.claim("a run of its own", new is not run and
              new.solutions is not run.solutions)
    env.claim("nothing in it", list(new.solutions.items()) == [])
    env.claim("file it came from", str(new.based_on_solution_filename) == (
        "file"))
    env.claim("solution it came from",
              new.based_on_solution_solution_name == which)
    env.claim("marked as after a shock", new.is_post_shock_only is True)
    for k, v in before.items():
        env.claim(f"original keeps {k}", getattr(run, k) is v)
        if k not in ("solutions", "final_solution", "is_post_shock_only",
                     "based_on_solution_filename",
                     "based_on_solution_solution_name"):
            env.same(f"same {k}", getattr(new, k), v)
    env.claim("original still has both",
              [s for _, s in run.solutions.items()] == solns)


def cases(tier):
    n = 5 if tier == "thorough" else 4
    out = [Case("restart", restart), Case("command", command)]
    for post_max in (True, False):
        for nan_at in (None, 0, n - 2):
            out.append(Case(
                f"candidates-{'after-peak' if post_max else 'anywhere'}-"
                f"nan{nan_at}", candidates,
                params=dict(n=n, post_max=post_max, nan_at=nan_at),
                max_paths=40000,
            ))
    for how in ("fine", "short", "solve fails", "save fails", "plot fails"):
        out.append(Case(
            "finder-" + how.replace(" ", "-"), finder,
            params=dict(outcome=how)
        ))
    out.append(Case("search", search, params=dict(n=3)))
    return out
