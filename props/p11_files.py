"""P11: what is written to a solution file is what is read back"""
import numpy as np

from h5preserve import OnDemandWrapper
from symx.core import Sym
from symx.harness import Case
import h5mem
from p10_config import FLOATS, INTS, BOOLS, OPT, ALL, numbers, texts

from disc_solver.file_format import (
    registries, ConfigInput, SolutionInput, MCMCVars, Run, Solution,
    InternalData, InitialConditions, Problems,
)
from disc_solver.file_format._containers import JacobianData

BOUNDS = (
    "every number arbitrary; each optional value present or absent; "
    "arrays of 0-2 rows; runs of 0-2 solutions, added before or after the "
    "run is written; final solution chosen, defaulted to the last, or absent"
)
OUTSIDE = "HDF5 storage itself (modelled in memory; replays use h5py)"
STUBS = ["HDF5 storage: groups, datasets and attributes in memory with "
         "h5py's conversions"]


def same_value(env, tag, got, want):
    if want is None or got is None:
        env.claim(tag, got is want, info=(repr(got)[:60], repr(want)[:60]))
    elif isinstance(want, (bool, str, slice)):
        if isinstance(want, bool):
            env.claim(tag, isinstance(got, (bool, np.bool_)) and
                      bool(got) == want, info=(got, want))
        else:
            env.claim(tag, type(got) is type(want) and got == want,
                      info=(got, want))
    elif isinstance(want, MCMCVars):
        env.claim(tag + " kind", isinstance(got, MCMCVars))
        for a in ("with_v_r", "with_v_a", "with_v_k"):
            same_value(env, f"{tag}.{a}", getattr(got, a), getattr(want, a))
    elif isinstance(want, np.ndarray):
        got = got if isinstance(got, np.ndarray) else np.zeros(())
        env.claim(tag + " shape", got.shape == want.shape,
                  info=(got.shape, want.shape))
        if got.shape == want.shape:
            plain = True
            for i in np.ndindex(want.shape):
                if isinstance(got[i], Sym) or isinstance(want[i], Sym) or (
                    not env.sym and want[i] != FILL
                ):
                    env.equal(f"{tag}{list(i)}", got[i], want[i])
                else:
                    plain = plain and got[i] == want[i]
            env.claim(tag + " fixed entries", bool(plain))
    else:
        env.same(tag, got, want)


def soln_input(env, prefix="i_"):
    v = numbers(env, prefix)
    v.update({f: env.flag(prefix + f + "?") for f in BOOLS[:1]})
    return v


def through(env, obj):
    """Written to a file and read from it"""
    with h5mem.storage(env) as new:
        handle = new()
        with h5mem.container(handle, registries) as f:
            f["it"] = obj
        with h5mem.container(handle, registries) as f:
            return f["it"]


def settings(env, field):
    """Solver input and configuration, every spelling of one field"""
    v = numbers(env)
    t = texts(v)
    if field in OPT + ["interp_range"]:
        if env.flag("absent"):
            v[field] = t[field] = None
    elif field == "interp_slice":
        k = env.pick("slice", range(4))
        v[field] = [None, slice(None, 5), slice(-7, None), slice(1, 9, 2)][k]
    elif field == "mcmc_vars":
        if env.flag("present"):
            v[field] = MCMCVars(
                with_v_r=env.flag("r"), with_v_a=env.flag("a"),
                with_v_k=env.flag("k"),
            )
    elif field in BOOLS:
        v[field] = env.flag("flag")
    elif field == "label":
        t[field] = env.pick("text", ["", "a b", "η 1%"])
    elif field == "split_method":
        v[field] = t[field] = env.pick("text", ["v_θ_deriv", "", "é"])
    inp = SolutionInput(**v)
    cfg = ConfigInput(**t)
    want_t = dict(cfg.asdict())
    got = through(env, inp)
    env.claim("solver input kind", type(got) is SolutionInput)
    for f in ALL:
        same_value(env, f"input[{f}]", getattr(got, f), v[f])
    got = through(env, cfg)
    env.claim("configuration kind", type(got) is ConfigInput)
    for f in want_t:
        same_value(env, f"config[{f}]", getattr(got, f), want_t[f])


def rows(env, name, n, *shape):
    size = int(np.prod(shape, dtype=int)) if shape else 1
    return env.array(name, n * size).reshape((n,) + shape) if n else \
        np.zeros((0,) + shape)


FILL = 2.5


def internal(env, prefix, n):
    """Internal data of n rows, a few entries of each array arbitrary"""
    def arr(name, *shape):
        out = np.full((n,) + shape, FILL, dtype=object if env.sym else float)
        for k in range(n):
            out[(k,) + (k,) * len(shape)] = env.real(f"{prefix}{name}{k}")
        return out
    return dict(
        derivs=arr("d", 11), params=arr("p", 11), angles=arr("a"),
        v_r_normal=arr("vr"), v_φ_normal=arr("vp"), ρ_normal=arr("rh"),
        v_r_taylor=arr("tr"), v_φ_taylor=arr("tp"), ρ_taylor=arr("tq"),
    ), dict(
        derivs=arr("jd", 11), params=arr("jp", 11), angles=arr("ja"),
        jacobians=arr("jj", 11, 11),
    )


def make_internal(env, d, j, kind):
    if kind == "lists":
        return InternalData(
            **{k: list(v) for k, v in d.items()},
            jacobian_data=JacobianData(**{k: list(v) for k, v in j.items()}),
            problems=Problems(**{"0.1": ["one", "zwei ü"], "0.2": []}),
        )
    return InternalData(**d, jacobian_data=JacobianData(**j),
                        problems=Problems(a="single"))


def same_internal(env, tag, got, d, j, problems):
    env.claim(tag + " kind", type(got) is InternalData)
    for k, v in d.items():
        same_value(env, f"{tag}.{k}", getattr(got, k), v)
    env.claim(tag + " jacobian kind", type(got.jacobian_data) is JacobianData)
    for k, v in j.items():
        same_value(env, f"{tag}.jacobian.{k}",
                   getattr(got.jacobian_data, k), v)
    env.claim(
        tag + ".problems", {k: v for k, v in dict(got.problems).items()} ==
        problems, info=repr(got.problems),
    )


def internal_data(env, n, kind):
    d, j = internal(env, "", n)
    problems = {"0.1": ["one", "zwei ü"], "0.2": []} if kind == "lists" \
        else {"a": ["single"]}
    got = through(env, make_internal(env, d, j, kind))
    same_internal(env, "read", got, d, j, problems)
    if n == 0 and kind == "lists":
        got = through(env, InternalData())
        same_internal(env, "empty", got, d, j, {})


def initial(env, prefix):
    v = {k: env.real(prefix + k) for k in
         "norm_kepler_sq a_0 γ η_O η_A η_H".split()}
    v["init_con"] = env.array(prefix + "c", 11)
    v["init_con"][8:] = [v["η_O"], v["η_A"], v["η_H"]]
    v["angles"] = env.array(prefix + "ang", 2)
    return v


def same_initial(env, tag, got, v):
    env.claim(tag + " kind", type(got) is InitialConditions)
    for k in v:
        same_value(env, f"{tag}.{k}", getattr(got, k), v[k])


def solution(env, prefix, options=None):
    """A solution and what it consists of; `options` names an arbitrary one"""
    v = dict(
        angles=env.array(prefix + "x", 2),
        solution=np.full((2, 11), FILL, dtype=object if env.sym else float),
        flag=env.integer(prefix + "flag", -10, 10),
        coordinate_system="spherical",
        t_roots=None, y_roots=None, sonic_point=None,
        sonic_point_values=None, derivatives=None, is_post_shock_only=False,
    )
    v["solution"][0, 1] = env.real(prefix + "s0")
    v["solution"][1, 7] = env.real(prefix + "s1")
    full = dict(
        t_roots=env.array(prefix + "t", 1),
        y_roots=env.array(prefix + "y", 2).reshape(1, 2),
        sonic_point=env.real(prefix + "sp"),
        sonic_point_values=env.array(prefix + "spv", 2),
        derivatives=env.array(prefix + "der", 2).reshape(2, 1),
    )
    if options in full:
        v[options] = full[options]
    elif options == "all":
        v.update(full)
    elif options == "shock":
        v["is_post_shock_only"] = True
        v["coordinate_system"] = "cylindrical"
    return v


def build(env, prefix, options=None):
    v = solution(env, prefix, options)
    i = soln_numbers(env, prefix)
    c = initial(env, prefix + "c_")
    d, j = internal(env, prefix, 1)
    soln = Solution(
        solution_input=SolutionInput(**i), internal_data=make_internal(
            env, d, j, "arrays"), initial_conditions=InitialConditions(**c),
        **v
    )
    return soln, (v, i, c, d, j)


def soln_numbers(env, prefix):
    i = {f: float(k) for k, f in enumerate(FLOATS + OPT)}
    i.update({f: k for k, f in enumerate(INTS)})
    i.update(split_method="m", stop=env.real(prefix + "stop"),
             interp_slice=None, mcmc_vars=None, use_E_r=True)
    return {k: np.float64(x) if isinstance(x, float) else x
            for k, x in i.items()}


def same_solution(env, tag, got, parts):
    v, i, c, d, j = parts
    env.claim(tag + " kind", type(got) is Solution)
    for k in v:
        same_value(env, f"{tag}.{k}", getattr(got, k), v[k])
    for k in i:
        same_value(env, f"{tag}.input.{k}", getattr(got.solution_input, k),
                   i[k])
    same_initial(env, tag + ".initial", got.initial_conditions, c)
    same_internal(env, tag + ".internal", got.internal_data, d, j,
                  {"a": ["single"]})


def one_solution(env):
    options = env.pick("options", [
        None, "all", "t_roots", "y_roots", "sonic_point",
        "sonic_point_values", "derivatives", "shock",
    ])
    soln, parts = build(env, "", options)
    same_solution(env, "solution", through(env, soln), parts)


def whole_run(env, n):
    """A run as the solver leaves it; solutions added before or after"""
    early = env.pick("written after", range(n + 1))
    final = env.pick("final", ["last", "first", "default"]) if n else None
    t = texts(numbers_const())
    v = dict(
        config_filename="some file", disc_solver_version="1.2",
        float_type="float64", sonic_method="step",
        time="some time" if n or env.flag("timed") else None,
        use_E_r=n != 1 if n else env.flag("use_E_r"),
        is_post_shock_only=n == 1 if n else env.flag("post"),
        based_on_solution_filename="x.hdf5" if n else env.pick(
            "based", [None, "x.hdf5"]),
    )
    v["based_on_solution_solution_name"] = (
        None if v["based_on_solution_filename"] is None else "3"
    )
    run = Run(config_input=ConfigInput(**t), **v)
    solns = [build(env, f"s{k}_") for k in range(n)]
    with h5mem.storage(env) as new:
        handle = new()
        with h5mem.container(handle, registries) as f:
            names = []
            for k in range(n):
                if k == early:
                    f["run"] = run
                names.append(run.solutions.add_solution(solns[k][0]))
            if early == n:
                f["run"] = run
            if final == "default":
                run.finalise()
                want_final = n - 1
            elif final is not None:
                want_final = n - 1 if final == "last" else 0
                run.final_solution = run.solutions[names[want_final]]
                run.finalise()
            else:
                run.final_solution = None
                want_final = None
        env.claim("names", names == [str(k) for k in range(n)])
        for k in range(n):
            same_solution(env, f"in memory[{k}]", run.solutions[str(k)],
                          solns[k][1])
        env.claim("stored on demand", all(
            isinstance(s, OnDemandWrapper) or isinstance(s, Solution)
            for s in run.solutions._solutions.values()))
        with h5mem.container(handle, registries) as f:
            got = f["run"]
            env.claim("kind", type(got) is Run)
            for k in v:
                same_value(env, k, getattr(got, k), v[k])
            for k in t:
                same_value(env, f"config.{k}", getattr(got.config_input, k),
                           t[k])
            env.claim("solution names", sorted(got.solutions) ==
                      [str(k) for k in range(n)])
            for k in range(n):
                same_solution(env, f"solution[{k}]", got.solutions[str(k)],
                              solns[k][1])
            if want_final is None:
                env.claim("no final solution", got.final_solution is None)
            else:
                same_solution(env, "final", got.final_solution,
                              solns[want_final][1])


def numbers_const():
    v = {f: float(k) for k, f in enumerate(FLOATS + OPT)}
    v.update({f: k for k, f in enumerate(INTS)})
    v.update({f: bool(i % 2) for i, f in enumerate(BOOLS)})
    v.update(split_method="some method", interp_range=3)
    return v


def cases(tier):
    out = [
        Case(f"settings-{f}", settings, params=dict(field=f))
        for f in OPT + BOOLS + ["interp_range", "interp_slice", "mcmc_vars",
                                "label", "split_method"]
    ]
    for n in (0, 1, 2):
        for kind in ("lists", "arrays"):
            out.append(Case(f"internal-{kind}-{n}", internal_data,
                            params=dict(n=n, kind=kind)))
    out.append(Case("solution", one_solution))
    for n in (0, 1, 2):
        out.append(Case(f"run-{n}", whole_run, params=dict(n=n)))
    return out
