"""P18: the search for the largest angle reached"""
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import Case
from p10_config import ALL
from p17_stepper import make_soln, new_run, start_input

from disc_solver.solve import fast_crosser as fc
from disc_solver.solve.utils import SolverError
from disc_solver.file_format import SolutionInput, Solution

BOUNDS = (
    "up to 7 trials (thorough: 9); arbitrary start velocity, the angle "
    "reached an arbitrary function of it; any one trial failing, or all"
)
OUTSIDE = "longer searches; the searches inside each trial (P17)"
STUBS = ["the step search and the single solution of each trial"]
RATIO = (5 ** 0.5 - 1) / 2


class World:
    def __init__(self, env, fail):
        self.env, self.fail = env, fail
        self.inputs, self.long, self.kw = [], [], []
        self.q = []
        self.recs = []

    def step(self, inp, run, **kw):
        k = len(self.inputs)
        self.inputs.append(dict(vars(inp)))
        self.kw.append(kw)
        if self.fail == "all" or self.fail == k:
            self.q.append(0)
            raise SolverError("stub")
        new = SolutionInput(**dict(vars(inp), γ=inp.γ + 1))
        for _ in range(2):
            run.solutions.add_solution(make_soln(new, "flip"))
        return True

    def single(self, inp, run, **kw):
        env = self.env
        self.long.append((len(self.inputs) - 1, dict(vars(inp)), kw))
        q = env.uf("reached", inp.v_rin_on_c_s)
        env.assume(q > 0)
        self.q.append(q)
        s = make_soln(inp, "flip")
        s.angles = env.asarray([0.0, q])
        run.solutions.add_solution(s)
        self.recs.append((s, dict(vars(inp))))
        return True


def crossing(env, n, fails):
    v0 = env.real("v_r", pos=True)
    fail = env.pick("fails", list(range(n)) + ["all"]) if fails else None
    w = World(env, fail)
    run = new_run()
    inp = start_input(env, env.real("γ"))
    inp.v_rin_on_c_s = v0
    inp.stop, inp.num_angles = env.real("stop"), 77
    kept = dict(vars(inp))
    store = env.flag("store") if n < 3 else False
    kw = dict(final_stop=env.real("final stop"), final_steps=99) \
        if n < 4 else {}
    with env.patch(fc, step_solver=w.step, single_solver=w.single):
        ok = fc.solver(inp, run, store_internal=store, num_attempts=n, **kw)
    m = len(w.inputs)
    v = [i["v_rin_on_c_s"] for i in w.inputs]
    for k, i in enumerate(w.inputs):
        env.equal("stop kept", i["stop"], kept["stop"])
        env.claim("options", w.kw[k] == dict(
            store_internal=store, no_final_solution=True))
        for f in ALL:
            if f in ("γ", "stop", "v_rin_on_c_s"):
                continue
            if f == "η_O":
                env.equal("η_O kept", i[f], kept[f])
            elif i[f] != kept[f]:
                env.claim(f + " kept", False, info=(k, i[f], kept[f]))
    for k, i, opt in w.long:
        env.equal("long solution stop", i["stop"],
                  kw.get("final_stop", 90))
        env.claim("long solution points", i["num_angles"] == kw.get(
            "final_steps", 900000))
        env.equal("long solution velocity", i["v_rin_on_c_s"], v[k])
        env.equal("long solution of the field found", i["γ"],
                  w.inputs[k]["γ"] + 1)
        env.claim("long solution options", opt == dict(
            store_internal=store, no_final_solution=True))
    # the path of the search
    step = 0.01 * v0
    env.equal("first", v[0], v0)
    top, low = v0, v0
    best = worst = w.q[0]
    phase, mid, at, why = "up", None, None, "limit"
    for k in range(1, m + 1):
        # what trial k has to be, from trials before k
        if k == 1:
            want = v0 + step
        else:
            last, q = v[k - 1], w.q[k - 1]
            if phase == "up":
                if bool(q > best):
                    top, best = last, q
                    want = last + step
                else:
                    phase, want = "down", v0 - step
            elif phase == "down":
                if bool(q > worst):
                    low, worst = last, q
                    want = last - step
                else:
                    phase = "between"
                    if bool(low == top):
                        why = "no limits"
                        want = None
                    else:
                        want = low + RATIO * (top - low)
            elif mid is None:
                mid, at = last, q
                want = low + (top - mid)
            else:
                a, b = ((mid, at), (last, q)) if bool(mid < last) else (
                    (last, q), (mid, at))
                if bool(a[1] > b[1]):
                    top, (mid, at) = b[0], a
                else:
                    low, (mid, at) = a[0], b
                want = low + (top - mid)
                if bool(want == last):
                    why, want = "finest", None
        if k == m:
            break
        env.claim("search ended", want is not None)
        if want is None:
            return
        env.equal(f"trial {k}", v[k], want)
        if phase == "between":
            env.claim(f"trial {k} between the limits", env.both(
                v[k] >= low, v[k] <= top))
    env.claim("ended for a reason", m == n or (
        why != "limit" and want is None), info=(m, n, why))
    # results
    for name in run.solutions:
        s = run.solutions[name]
        env.claim("a solution", isinstance(s, Solution))
    if not w.recs:
        env.claim("nothing found", ok is False)
        env.claim("no final solution", run.final_solution is None)
    else:
        env.claim("found", ok is True)
        env.claim("final is the last one", run.final_solution is
                  run.solutions[str(len(run.solutions) - 1)])
    longs = {k: i for k, i, _ in w.long}
    names = sorted(run.solutions, key=int)
    got = [run.solutions[i].solution_input for i in names]
    env.claim("every long solution recorded", len([
        g for g in got if g.num_angles == kw.get("final_steps", 900000)
    ]) >= len(w.long))
    for s, rec in w.recs:
        for f in ("v_rin_on_c_s", "stop", "γ"):
            env.equal("recorded " + f, getattr(s.solution_input, f), rec[f])
    env.claim("start input kept", all(
        (x is kept[f]) or x == kept[f] for f, x in vars(inp).items()))


def quality(env):
    n = env.pick("points", [1, 3])
    a = [env.real(f"a{i}") for i in range(n)]
    got = fc.compute_quality(NS(angles=env.asarray(a)))
    top = a[0]
    for i in a[1:]:
        top = env.ite(i > top, i, top)
    env.equal("largest angle", got, top)


def cases(tier):
    n = 7 if tier == "quick" else 9
    kw = dict(nz_in_path=False)
    out = [Case(f"search-{k}", crossing, params=dict(n=k, fails=False), **kw)
           for k in (1, 2, 3, n)]
    out += [Case(f"failing-{k}", crossing, params=dict(n=k, fails=True), **kw)
            for k in (1, 2, n - 1)]
    return out + [Case("quality", quality, **kw)]
