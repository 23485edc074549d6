"""P17: the stepping search"""
from types import SimpleNamespace as NS

import numpy as np
from scikits.odes.sundials.cvode import StatusEnum

from symx.harness import Case
from p10_config import ALL
from p11_files import numbers_const

from disc_solver.solve import stepper as st
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex
from disc_solver.file_format import SolutionInput, Solution, Run

BOUNDS = (
    "up to 6 trials (thorough: 9) from an arbitrary positive start, "
    "arbitrary threshold between the two kinds of solution; success, error "
    "or stop at any trial; limits of 1-6 trials and 1-4 steps before the "
    "threshold is crossed"
)
OUTSIDE = "longer searches; the solution of each trial (P05, P06, P16)"
STUBS = ["the solution of a trial: its kind decided by the threshold"]
FLIP, DIV = st.SplitterStatus.SIGN_FLIP, st.SplitterStatus.DIVERGE
PROFILE = {
    "best": [0.5, 0.95], "flip": [0.25, 0.5], "diverge": [0.95, 1.5],
}


def profile(kind):
    v = np.full((2, 11), 0.25)
    v[:, ODEIndex.v_θ] = PROFILE[kind]
    return v


def make_soln(inp, kind):
    return Solution(
        solution_input=inp, angles=np.array([0.0, 0.5]),
        solution=profile(kind),
        flag=StatusEnum.TOO_MUCH_WORK if kind == "diverge" else
        StatusEnum.SUCCESS,
        coordinate_system="c", internal_data=None, initial_conditions=None,
        t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None,
    )


def new_run():
    return Run(config_input=None, config_filename=None,
               disc_solver_version="", float_type="", sonic_method="step")


def start_input(env, γ):
    v = numbers_const()
    v.update(γ=γ, split_method="v_θ_deriv", η_O=env.real("η_O"))
    return SolutionInput(**v)


class Trials:
    """Stands for `solution`; remembers every trial"""
    def __init__(self, env, limit, event_at, event):
        self.env, self.limit = env, limit
        self.event_at, self.event = event_at, event
        self.γ, self.inputs, self.kinds, self.solns, self.kw = (
            [], [], [], [], [])

    def __call__(self, inp, cons, **kw):
        k = len(self.γ)
        self.γ.append(inp.γ)
        self.inputs.append(dict(vars(inp)))
        self.kw.append((cons, kw))
        if k == self.event_at and self.event == "error":
            raise SolverError("stub")
        if k == self.event_at and self.event == "best":
            kind = "best"
        else:
            kind = "diverge" if bool(inp.γ > self.limit) else "flip"
        self.kinds.append(kind)
        s = make_soln(inp, kind)
        self.solns.append(s)
        return s


def follow(env, tr, γ0):
    """What the search has to do, from the kinds of its trials"""
    step = 0.1 * γ0
    started = False
    out, bound = [γ0], [None]
    for k, kind in enumerate(tr.kinds):
        if k and not started and kind != tr.kinds[k - 1]:
            started = True
            step = step / 2
        elif started:
            step = step / 2
        out.append(out[-1] - step if kind == "diverge" else out[-1] + step)
        bound.append(step if started else None)
    return out, bound


def search(env, n, event):
    γ0 = env.real("γ", pos=True)
    limit = env.real("limit")
    event_at = env.pick("event", range(n)) if event else None
    steps = env.pick("steps", [2, 20]) if n > 2 else 20
    nof = env.flag("no final") if n < 4 else False
    # a run that already holds solutions is only searched by other searches
    earlier = env.pick("earlier solutions", [0, 2]) if n < 4 and nof else 0
    store = env.flag("store") if n < 3 else True
    tr = Trials(env, limit, event_at, event)
    run = new_run()
    for _ in range(earlier):
        run.solutions.add_solution(NS())
    inp = start_input(env, γ0)
    kept = dict(vars(inp))
    stopper = st.create_soln_splitter("v_θ_deriv")

    def splitter(soln, **kw):
        if event == "stop" and len(tr.solns) - 1 == event_at:
            return st.SplitterStatus.STOP
        if event == "nonsense" and len(tr.solns) - 1 == event_at:
            return "nonsense"
        return stopper(soln, **kw)

    with env.patch(st, solution=tr, define_conditions=lambda i: ("c", i.γ)):
        stub = dict(create_soln_splitter=lambda m: splitter) if event in (
            "stop", "nonsense") else {}
        with env.patch(st, **stub):
            try:
                ok = st.solver(inp, run, store_internal=store,
                               num_attempts=n, max_search_steps=steps,
                               no_final_solution=nof)
            except SolverError:
                env.claim("only a trial's error is raised", event == "error"
                          and event_at == len(tr.γ) - 1)
                ok = "error"
    want, bound = follow(env, tr, γ0)
    # how many trials there should have been
    changed = next((k for k in range(1, len(tr.kinds))
                    if tr.kinds[k] != tr.kinds[k - 1]), None)
    m = len(tr.γ)
    end = "limit"
    if event_at is not None and m - 1 == event_at:
        end = event
    # trials without any change of kind are counted
    same = m if changed is None else changed + 1
    if end in ("limit", "stop", "nonsense") and same > steps:
        end = "search"
    env.claim("number of trials", m == {
        "limit": n, "search": steps + 1}.get(end, (event_at or 0) + 1),
        info=(m, n, steps, end))
    for k in range(m):
        env.equal(f"trial {k}", tr.γ[k], want[k])
        for f in ALL:
            if f != "γ":
                x = tr.inputs[k][f]
                if f == "η_O":
                    env.equal("other numbers kept", x, inp.η_O)
                elif x != kept[f]:
                    env.claim(f"{f} kept", False)
        env.claim("start conditions of the trial's own input",
                  tr.kw[k][0][0] == "c" and tr.kw[k][0][1] is tr.γ[k] or
                  not env.sym)
        env.claim("store", tr.kw[k][1] == dict(store_internal=store))
        if bound[k] is not None:
            env.claim(f"trial {k} brackets the threshold", env.both(
                tr.γ[k] - limit <= bound[k], limit - tr.γ[k] <= bound[k]))
    env.claim("recorded", len(run.solutions) == earlier + len(tr.solns))
    for k, s in enumerate(tr.solns):
        got = run.solutions[str(earlier + k)]
        env.claim("recorded in order", got is s)
        env.equal(f"recorded input {k}", got.solution_input.γ, tr.γ[k])
    env.claim("start input kept", all(
        (x is kept[f]) or x == kept[f] for f, x in vars(inp).items()))
    if ok == "error":
        return
    env.claim("errors are passed on", end != "error")
    if nof:
        env.claim("final left open", not isinstance(
            run.final_solution, Solution) and run.final_solution is not None)
        env.claim("result with final left open", ok is True)
        return
    found = end in ("best", "stop")
    env.claim("success", ok is found, info=(ok, end))
    env.claim("final solution", run.final_solution is (
        tr.solns[-1] if found else None))


def one_step(env):
    γ, step = env.real("γ"), env.real("step", pos=True)
    kind = env.pick("kind", [FLIP, DIV, st.SplitterStatus.STOP, "x", None])
    inp = start_input(env, γ)
    soln = make_soln(inp, "flip")
    step_func = st.step_input()
    if kind in (FLIP, DIV):
        got = step_func(soln, kind, step)
        env.claim("a new input", got is not inp and type(got) is
                  SolutionInput)
        env.equal("step", got.γ, γ + step if kind == FLIP else γ - step)
        env.equal("old input kept", inp.γ, γ)
    elif kind == st.SplitterStatus.STOP:
        env.raises("stops", st.StepperStop, step_func, soln, kind, step)
    else:
        env.raises("unknown kind refused", st.StepperError, step_func, soln,
                   kind, step)


def no_step(env):
    """A start of zero gives no step: refused, not searched for ever"""
    inp = start_input(env, 0.0)
    tr = Trials(env, env.real("limit"), None, None)
    run = new_run()
    with env.patch(st, solution=tr, define_conditions=lambda i: None):
        env.claim("not successful", st.solver(inp, run) is False)
    env.claim("final", run.final_solution is None)


def finest(env):
    """Steps below the resolution of numbers"""
    γ = env.pick("γ", [1.0, 0.001, -3.0])
    step = abs(γ) * env.pick("step", [1e-17, 1e-20])
    kind = env.pick("kind", [FLIP, DIV])
    inp = start_input(env, γ)
    soln = make_soln(inp, "flip")
    if kind == DIV:
        env.raises("search ends", st.StepperStop, st.step_input(), soln,
                   kind, step)
    else:
        got = st.step_input()(soln, kind, step)
        env.claim("a larger value is tried", got.γ > γ)
        env.claim("hardly larger", got.γ < γ + abs(γ) * 1e-14)


def cases(tier):
    n = 6 if tier == "quick" else 9
    kw = dict(nz_in_path=False)
    out = [Case(f"search-{k}", search, params=dict(n=k, event=None), **kw)
           for k in (1, 2, 3, n)]
    for e in ("best", "error", "stop", "nonsense"):
        for k in (1, 3, n - 2):
            out.append(Case(f"{e}-{k}", search, params=dict(n=k, event=e),
                            **kw))
    return out + [Case("one-step", one_step, **kw),
                  Case("finest", finest, **kw),
                  Case("no-step", no_step, budget=20, **kw)]
