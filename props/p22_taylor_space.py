"""P22: the scan of start conditions for their Taylor coefficients"""
import numpy as np

from symx.harness import Case
from mhd import I

from disc_solver.solve import taylor_space as ts, deriv_midplane as dm
from disc_solver.solve import config
from disc_solver.solve.utils import SolverError
from disc_solver.file_format import SolutionInput

BOUNDS = (
    "1-3 samples, every sampled value, range end and diffusivity arbitrary"
)
OUTSIDE = "the random numbers; the plots; more samples"
STUBS = ["uniform random numbers"]
NAMES = ["γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k"]


def draws(env, n):
    """uniform(low, high, size) as arbitrary numbers of the range"""
    asked = []

    def uniform(low, high, size):
        k = len(asked)
        u = [env.real(f"u{k}_{i}", lo=0, hi=1) for i in range(size)]
        asked.append((low, high, size))
        return env.asarray([low + (high - low) * x for x in u])
    return uniform, asked


def space(env, n):
    uniform, asked = draws(env, n)
    lim = {k: [env.real(k + " low", pos=True), env.real(k + " high", pos=True)]
           for k in NAMES}
    η = {k: env.real(k, pos=True) for k in ("η_O", "η_A", "η_H")}
    inputs = []
    outs = {}

    def values(inp):
        k = len(inputs)
        inputs.append(inp)
        outs[k] = env.asarray([env.real(f"out{k}_{i}") for i in range(44)])
        return outs[k].reshape(4, 11)

    with env.patch(ts, uniform=uniform, compute_taylor_values=values):
        got = ts.compute_taylor_space(**lim, **η, num_samples=n)
    env.claim("samples", len(inputs) == n and np.shape(
        got.taylor_orders)[:2] == (n, 4))
    for k, name in enumerate(NAMES):
        arr = getattr(got, name + "_arr")
        env.claim("as many values", len(arr) == n)
        for i in range(n):
            env.equal(f"{name} of the input", getattr(inputs[i], name),
                      arr[i])
            low, high = lim[name]
            env.claim(f"{name} in its range", env.either(
                env.both(arr[i] >= low, arr[i] <= high),
                env.both(arr[i] >= high, arr[i] <= low)))
    for i in range(n):
        for name, x in η.items():
            env.equal(f"{name} of the input", getattr(inputs[i], name), x)
        for o in range(4):
            for j in range(11):
                env.equal(f"order {o} quantity {j}",
                          got.taylor_orders[i][o][j], outs[i][11 * o + j])


def values(env):
    v = {k: env.real(k, pos=True) for k in NAMES + ["η_O"]}
    v["η_A"], v["η_H"] = env.real("η_A", nonneg=True), env.real("η_H")
    gen = ts.solution_input_generator(
        **{k: [v[k]] for k in NAMES}, η_O=v["η_O"], η_A=v["η_A"],
        η_H=v["η_H"])
    inp = next(gen)
    env.claim("one input", next(gen, None) is None)
    env.claim("type", isinstance(inp, SolutionInput))
    for k, x in v.items():
        env.equal(f"{k} given", getattr(inp, k), x)
    inp.use_E_r = env.flag("use_E_r")
    try:
        got = ts.compute_taylor_values(inp)
    except SolverError:
        env.claim("refused by the start conditions", bool(
            _complex(env, v)))
        return
    cons = config.define_conditions(inp)
    ic = dict(init_con=cons.init_con, γ=v["γ"], a_0=v["v_a_on_c_s"] ** 2)
    o = dict(η_derivs=False, use_E_r=inp.use_E_r)
    want = [cons.init_con, dm.get_taylor_first_order(**ic),
            dm.get_taylor_second_order(**ic, **o),
            dm.get_taylor_third_order(**ic, **o)]
    env.claim("orders", len(got) == 4)
    for k in range(4):
        for j in range(11):
            env.equal(f"order {k} {I(j).name}", got[k][j], want[k][j])


def _complex(env, v):
    try:
        config.define_conditions(SolutionInput(
            **dict(vars(next(ts.solution_input_generator(
                **{k: [v[k]] for k in NAMES}, η_O=v["η_O"], η_A=v["η_A"],
                η_H=v["η_H"]))))))
    except SolverError:
        return True
    return False


def lengths(env):
    odd = env.pick("odd one", NAMES[1:] + [None])
    more = env.pick("length", [1, 3])
    arr = {k: [0.5] * (more if k == odd else 2) for k in NAMES}
    gen = ts.solution_input_generator(**arr, η_O=1, η_A=2, η_H=3)
    if odd is None:
        env.claim("all samples", len(list(gen)) == 2)
    else:
        env.raises("different numbers of samples refused", RuntimeError,
                   lambda: list(gen))


def cases(tier):
    kw = dict(nz_in_path=False)
    return [Case(f"space-{n}", space, params=dict(n=n), **kw)
            for n in (1, 3)] + [
        Case("values", values, nan_sqrt=True, **kw),
        Case("lengths", lengths, **kw)]
