"""P19: the Monte Carlo search"""
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import Case
from p10_config import ALL
from p11_files import numbers_const
from p17_stepper import new_run

from disc_solver.solve import mcmc
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex
from disc_solver.file_format import SolutionInput, MCMCVars

BOUNDS = (
    "up to 3 trials (thorough: 4) of profiles of 1-4 points, every velocity, "
    "parameter and random displacement arbitrary; every choice of "
    "parameters; failure or a NaN at any trial"
)
OUTSIDE = (
    "one NaN in a profile of two points; the sampler itself (emcee) and its random numbers; more trials; "
    "exp is only known to be a function"
)
STUBS = ["the sampler, random numbers, the solution of each trial"]
FIELDS = {"v_rin_on_c_s": "with_v_r", "v_a_on_c_s": "with_v_a",
          "c_s_on_v_k": "with_v_k"}


def reals(env, name, n):
    return [env.real(f"{name}{i}") for i in range(n)]


def choice(env, small):
    if small:
        kind = env.pick("vars", ["unset", "some"])
        return (None, ["γ"] + list(FIELDS)) if kind == "unset" else (
            MCMCVars(with_v_r=False, with_v_a=True, with_v_k=False),
            ["γ", "v_a_on_c_s"])
    if env.flag("unset"):
        return None, ["γ"] + list(FIELDS)
    on = {f: env.flag(f) for f in FIELDS.values()}
    return MCMCVars(**on), ["γ"] + [k for k, f in FIELDS.items() if on[f]]


def start(env, chosen, **kw):
    v = numbers_const()
    v.update(mcmc_vars=chosen, nwalkers=3, iterations=7, **kw)
    for n in ["γ"] + list(FIELDS):
        v[n] = env.real(n)
    return SolutionInput(**v)


def same_field(env, name, a, b):
    if a is b:
        return
    if type(a).__name__ == "Sym" or isinstance(a, float):
        env.equal(name, a, b)
    else:
        env.claim(name, a == b, info=(a, b))


def variables(env):
    chosen, names = choice(env, False)
    inp = start(env, chosen)
    kept = dict(vars(inp))
    enum = mcmc.generate_sysvars_enum(inp)
    env.claim("variables", [v.name for v in enum] == names)
    env.claim("numbered from zero", [int(v) for v in enum] == list(
        range(len(names))))
    got = mcmc.solution_input_to_sys_vars(inp, enum)
    env.claim("as many", len(got) == len(names))
    for i, n in enumerate(names):
        env.equal(f"value {n}", got[i], kept[n])
    new = reals(env, "new", len(names))
    out = mcmc.sys_vars_to_solution_input(env.asarray(new), inp, enum)
    env.claim("an input", type(out) is SolutionInput and out is not inp)
    for f in ALL:
        same_field(env, f, getattr(out, f), new[names.index(f)]
                   if f in names else kept[f])
        same_field(env, f + " of the old input", getattr(inp, f), kept[f])
    back = mcmc.solution_input_to_sys_vars(out, enum)
    for i, n in enumerate(names):
        env.equal(f"back {n}", back[i], new[i])


def score(env, v):
    """-10 exp(-max v) - Σ (Δ(Δv)²)²"""
    top = v[0]
    for a in v[1:]:
        top = env.ite(a > top, a, top)
    e = np.exp(-top) if not env.sym else (-top).exp()
    d = [(b - a) * (b - a) for a, b in zip(v, v[1:])]
    rough = 0
    for a, b in zip(d, d[1:]):
        rough = rough + (b - a) * (b - a)
    return -10 * e - rough


def soln_of(env, inp, v):
    s = np.full((len(v), 11), 0.25, dtype=object if env.sym else float)
    s[:, ODEIndex.v_θ] = v
    return NS(solution=s, solution_input=inp)


def scoring(env, n):
    v = reals(env, "v", n)
    got = mcmc.get_logprob_of_soln(soln_of(env, None, v))
    env.equal("score", got, score(env, v))


class World:
    def __init__(self, env, points):
        self.env, self.points = env, points
        self.seen, self.used, self.kind, self.v = [], [], [], []

    def conditions(self, inp):
        self.seen.append(dict(vars(inp)))
        k = len(self.seen) - 1
        kind = self.env.pick(
            f"trial {k}", ["found", "no start", "no solution", "nan"])
        self.kind.append(kind)
        if kind == "no start":
            raise SolverError("stub")
        return ("conditions", k)

    def solution(self, inp, cons, **kw):
        env, k = self.env, len(self.kind) - 1
        self.used.append((k, inp, cons, kw))
        if self.kind[k] == "no solution":
            raise SolverError("stub")
        self.v = reals(env, f"v{k}", self.points)
        v = list(self.v)
        if self.kind[k] == "nan":
            v[-1 if len(v) > 2 else slice(None)] = [np.nan] * len(v) if (
                len(v) < 3) else np.nan
        self.last = soln_of(env, inp, v)
        return self.last


def trials(env, n, points):
    chosen, names = choice(env, n > 2)
    inp = start(env, chosen)
    kept = dict(vars(inp))
    store = env.flag("store") if n == 1 else True
    w = World(env, points)
    run = new_run()
    gen = mcmc.LogProbGenerator(
        inp, run, store_internal=store,
        sys_vars_enum=mcmc.generate_sysvars_enum(inp))
    env.claim("no best one at first", gen.best_solution is None)
    best = top = None
    recorded = []
    with env.patch(mcmc, define_conditions=w.conditions,
                   solution=w.solution):
        for i in range(n):
            x = reals(env, f"x{i}", len(names))
            if n > 1:  # the refusal of inputs is looked at with one trial
                for a in x:
                    env.assume(a > 0)
                if i == 0:
                    for f in FIELDS:
                        env.assume(kept[f] > 0)
            before, ran = len(w.seen), len(w.used)
            got = gen(env.asarray(x))
            want = dict(kept, **dict(zip(names, x)))
            ok = True
            for f in ["γ"] + list(FIELDS):
                ok = ok and bool(want[f] > 0)
            env.claim("only positive inputs are tried",
                      len(w.seen) - before == (1 if ok else 0))
            kind = "refused" if not ok else w.kind[-1]
            if ok:
                for f in ALL:
                    same_field(env, "trial's " + f, w.seen[-1][f], want[f])
            env.claim("solved", len(w.used) - ran == (
                1 if kind in ("found", "nan", "no solution") else 0))
            if len(w.used) > ran:
                k, used, cons, kw = w.used[-1]
                env.claim("options", kw == dict(store_internal=store)
                          and cons == ("conditions", k))
                for f in ALL:
                    same_field(env, "solved " + f, getattr(used, f), want[f])
            if kind == "found":
                s = score(env, w.v)
                env.equal("score of the trial", got, s)
                recorded.append(w.last)
                if top is None or bool(s > top):
                    top, best = s, len(recorded) - 1
            else:
                env.claim("impossible", type(got).__name__ != "Sym" and
                          got == -float("inf"), info=(kind, got))
            env.claim("recorded", len(run.solutions) == len(recorded)
                      and all(run.solutions[str(j)] is s
                              for j, s in enumerate(recorded)))
            env.claim("best so far", gen.best_solution is (
                None if best is None else recorded[best]))
    for f in ALL:
        same_field(env, "start input " + f, getattr(inp, f), kept[f])


def positions(env):
    chosen, names = choice(env, True)
    inp = start(env, chosen)
    inp.nwalkers = env.pick("walkers", [2, 5])
    r = [reals(env, f"r{i}_", len(names)) for i in range(inp.nwalkers)]
    asked = []

    def randn(*shape):
        asked.append(shape)
        return env.asarray(r).reshape(shape) if not env.sym else np.array(
            r, dtype=object)

    with env.patch(mcmc, randn=randn):
        got = mcmc.generate_initial_positions(
            inp, mcmc.generate_sysvars_enum(inp))
    env.claim("shape", asked == [(inp.nwalkers, len(names))]
              and got.shape == asked[0])
    for i in range(inp.nwalkers):
        for j, n in enumerate(names):
            env.equal(f"walker {i} {n}", got[i, j],
                      getattr(inp, n) * (1 + 0.1 * r[i][j]))


def whole(env):
    chosen, names = choice(env, True)
    inp = start(env, chosen)
    for n in names:
        env.assume(getattr(inp, n) > 0)
    for n in FIELDS:
        env.assume(getattr(inp, n) > 0)
    store = env.flag("store")
    run = new_run()
    w = World(env, 1)
    calls = []
    shifts = [env.real(f"shift{i}", gt=-1, lt=1) for i in range(2)]

    class Sampler:
        def __init__(self, nwalkers, ndim, func):
            calls.append((nwalkers, ndim))
            self.func = func

        def run_mcmc(self, start, iterations, progress=False):
            calls.append((np.shape(start), iterations))
            self.scores = [self.func(start[i]) for i in range(2)]
            return None

    def randn(n, m):
        out = np.zeros((n, m), dtype=object if env.sym else float)
        out[0, :], out[1, :] = shifts[0], shifts[1]
        return out

    with env.patch(mcmc, define_conditions=w.conditions, randn=randn,
                   solution=w.solution, emcee=NS(EnsembleSampler=Sampler)):
        mcmc.solver(inp, run, store_internal=store)
    env.claim("sampler", calls == [
        (3, len(names)), ((3, len(names)), 7)])
    for i, s in enumerate(w.seen):
        for n in names:
            env.equal(f"start {i} {n}", s[n],
                      getattr(inp, n) * (1 + 0.1 * shifts[i]))
    env.claim("trials", len(w.seen) == 2)
    env.claim("options", all(
        u[3] == dict(store_internal=store) for u in w.used))
    found = [k for k in range(2) if w.kind[k] == "found"]
    env.claim("solutions", len(run.solutions) == len(found))
    final = run.final_solution
    if not found:
        env.claim("no final solution", final is None)
        return
    s = [score(env, [run.solutions[str(i)].solution[0, ODEIndex.v_θ]])
         for i in range(len(found))]
    at = 1 if len(s) == 2 and bool(s[1] > s[0]) else 0
    env.claim("the best is the final one", final is run.solutions[str(at)])


def cases(tier):
    n = 3 if tier == "quick" else 4
    kw = dict(nz_in_path=False)
    out = [Case("variables", variables, **kw)]
    out += [Case(f"score-{k}", scoring, params=dict(n=k), **kw)
            for k in (1, 2, 4)]
    out += [Case(f"trials-{k}", trials, params=dict(n=k, points=p), **kw)
            for k, p in ((1, 1), (1, 3), (2, 2), (n, 1))]
    return out + [Case("positions", positions, **kw),
                  Case("whole", whole, **kw)]
