"""P12: solution files of earlier versions"""
import numpy as np

from h5preserve import GroupContainer
from symx.core import Sym
from symx.harness import Case
import h5mem
import tokens
from p11_files import same_value, internal, initial, solution, soln_numbers

from disc_solver.file_format import (
    registries, ConfigInput, SolutionInput, MCMCVars, Run, Solution,
    InternalData, InitialConditions, Problems, _utils as fu,
)
from disc_solver.file_format._containers import JacobianData, Solutions

BOUNDS = (
    "every recorded version of every kind of entry; every number arbitrary; "
    "each optional value present or absent"
)
OUTSIDE = "HDF5 storage itself (modelled in memory; replays use h5py)"
STUBS = ["HDF5 storage in memory", "fraction text of symbolic numbers"]

# what each version stored: (attributes, members)
BASE = ("start stop taylor_stop_angle max_steps num_angles "
        "relative_tolerance absolute_tolerance v_rin_on_c_s v_a_on_c_s "
        "c_s_on_v_k η_O η_H η_A").split()
INTS = "max_steps num_angles nwalkers iterations threads interp_range".split()


def stored_by(version):
    attrs, members = list(BASE), []
    attrs.append("β" if version <= 3 else "γ")
    if version >= 2:
        members.append("jump_before_sonic")
    if version >= 3:
        attrs.append("η_derivs")
    if version >= 5:
        attrs += "nwalkers iterations threads".split()
    if version >= 6:
        attrs.append("target_velocity")
    if version >= 7:
        attrs.append("split_method")
    if version >= 8:
        attrs.append("use_taylor_jump")
    if version >= 9:
        members.append("mcmc_vars")
    if version >= 10:
        members.append("v_θ_sonic_crit")
    if version >= 11:
        members.append("after_sonic")
    if version >= 12:
        members.append("sonic_interp_size")
        (attrs if version == 12 else members).append("interp_range")
    if version >= 13:
        members.append("interp_slice")
    if version >= 14:
        attrs.append("use_E_r")
    return attrs, members


def old(label, version, attrs, **members):
    out = GroupContainer(attrs=dict(attrs), **members)
    out._namespace, out._label, out._version = "disc_solver", label, version
    return out


def through(env, obj):
    with h5mem.storage(env) as new:
        handle = new()
        with h5mem.container(handle, registries) as f:
            f["it"] = obj
        with h5mem.container(handle, registries) as f:
            return f["it"]


def value(env, f):
    if f in INTS:
        return env.integer(f, -10**6, 10**6)
    if f == "η_derivs":
        return env.flag(f)
    if f in ("use_taylor_jump", "use_E_r"):
        return f == "use_E_r"
    if f == "split_method":
        return "some method"
    if f == "mcmc_vars":
        return MCMCVars(with_v_r=True, with_v_a=False, with_v_k=True)
    if f == "interp_slice":
        return slice(-9, None, 2)
    return env.real(f)


def solver_input(env, version):
    attrs, members = stored_by(version)
    v = {f: value(env, f) for f in attrs + members}
    optional = [m for m in members]
    if optional:
        gone = env.pick("absent", [None] + optional)
        if gone is not None:
            v[gone] = None
    group = old("SolutionInput", version, {f: v[f] for f in attrs},
                **{f: v[f] for f in members})
    got = through(env, group)
    env.claim("kind", type(got) is SolutionInput)
    for f in attrs + members:
        if f == "β":
            env.zero("γ", got.γ, v[f], -1.25)
        else:
            same_value(env, f, getattr(got, f), v[f])
    if version < 7:
        env.claim("method of the time", got.split_method == "v_θ_deriv")
    if version < 14:
        env.claim("radial field unrecorded", got.use_E_r is None)


def config(env, version):
    attrs, members = stored_by(version)
    v = {f: value(env, f) for f in attrs + members if f not in INTS}
    v.update({f: env.integer(f, 0, 10**6) for f in INTS
              if f in attrs + members})
    t = {f: str(x) for f, x in v.items()}
    t["mcmc_vars"] = "v_r,v_k"
    t["interp_slice"] = "-9,-3"
    t["label"] = "some label"
    if members:
        gone = env.pick("absent", [None] + members)
        if gone is not None:
            t[gone] = None
    attrs = attrs + ["label"]
    group = old("ConfigInput", version, {f: t[f] for f in attrs},
                **{f: t[f] for f in members})
    with env.patch(fu, Fraction=tokens.wrap(fu.Fraction)):
        got = through(env, group)
    env.claim("kind", type(got) is ConfigInput)
    for f in attrs + members:
        if f == "β":
            env.zero("γ", tokens.tok_fraction(got.γ), v[f], -1.25)
        else:
            same_value(env, f, getattr(got, f), t[f])


def internal_old(env, version):
    d, _ = internal(env, "", 2)
    m = dict(d)
    if version >= 2:
        m["problems"] = Problems(a=["one", "zwei ü"])
    got = through(env, old("InternalData", version, {}, **m))
    env.claim("kind", type(got) is InternalData)
    for k in d:
        same_value(env, k, getattr(got, k), d[k])
    env.claim("problems", dict(got.problems) == (
        {"a": ["one", "zwei ü"]} if version >= 2 else {}))
    env.claim("no jacobians", type(got.jacobian_data) is JacobianData and
              len(got.jacobian_data.jacobians) == 0)


def initial_old(env, version):
    v = initial(env, "")
    attrs = {k: v[k] for k in v if k != "angles"}
    attrs["β"] = env.real("β")
    del attrs["γ"]
    if version == 1:
        del attrs["a_0"]
    got = through(env, old("InitialConditions", version, attrs,
                           angles=v["angles"]))
    env.claim("kind", type(got) is InitialConditions)
    env.zero("γ", got.γ, attrs["β"], -1.25)
    for k in v:
        if k == "γ":
            continue
        if k == "a_0" and version == 1:
            env.claim("a_0 not a number", bool(np.isnan(got.a_0)))
        else:
            same_value(env, k, getattr(got, k), v[k])


def parts(env, prefix=""):
    c = initial(env, prefix + "c_")
    i = soln_numbers(env, prefix)
    return SolutionInput(**i), InitialConditions(**c), InternalData()


def solution_old(env, version):
    v = solution(env, "", env.pick("options", [
        None, "all", "t_roots", "y_roots", "sonic_point",
        "sonic_point_values", "derivatives",
    ]))
    inp, con, internal_ = parts(env)
    keep = "angles solution t_roots y_roots".split()
    if version >= 2:
        keep.append("derivatives")
    if version >= 3:
        keep += ["sonic_point", "sonic_point_values"]
    got = through(env, old(
        "Solution", version,
        {k: v[k] for k in ("flag", "coordinate_system")},
        solution_input=inp, initial_conditions=con, internal_data=internal_,
        **{k: v[k] for k in keep}
    ))
    env.claim("kind", type(got) is Solution)
    for k in keep + ["flag", "coordinate_system"]:
        same_value(env, k, getattr(got, k), v[k])
    for k in set(("derivatives", "sonic_point", "sonic_point_values")) \
            - set(keep):
        env.claim(f"no {k}", getattr(got, k) is None)
    env.claim("a whole solution", got.is_post_shock_only is False)
    env.equal("its input", got.solution_input.stop, inp.stop)
    env.equal("its start", got.initial_conditions.a_0, con.a_0)


def run_old(env, version):
    """Runs, holding entries that do or do not say if E_r was used"""
    attrs, members = stored_by(14)
    says = env.flag("entries say")
    use = env.flag("use_E_r") if version >= 5 else None
    final = env.flag("final")
    iv = {f: value(env, f) for f in attrs + members if f != "η_derivs"}
    iv.update(η_derivs=True, use_E_r=None)
    if says:
        iv["use_E_r"] = True

    def an_input():
        kind = 14 if says else 13
        at, me = stored_by(kind)
        return old("SolutionInput", kind, {f: iv[f] for f in at},
                   **{f: iv[f] for f in me})

    def a_solution(v):
        _, con, internal_ = parts(env)
        return old(
            "Solution", 3, {k: v[k] for k in ("flag", "coordinate_system")},
            solution_input=an_input(), initial_conditions=con,
            internal_data=internal_, angles=v["angles"],
            solution=v["solution"], t_roots=None, y_roots=None,
            derivatives=None, sonic_point=None, sonic_point_values=None,
        )
    v = solution(env, "s_")
    kind = 14 if says else 13
    at, me = stored_by(kind)
    cfg = old("ConfigInput", kind, dict(
        {f: str(iv[f]) for f in at}, label="l"), **{f: None for f in me})
    store = dict(
        config_input=cfg, config_filename="a file", time="then",
        solutions=old("Solutions", 1, {}, **{"0": a_solution(v)}),
        final_solution=a_solution(v) if final else None,
    )
    if version >= 2:
        store["disc_solver_version"] = "0.1"
    if version >= 3:
        store["float_type"] = "float64"
    if version >= 4:
        store["sonic_method"] = "jump"
    if version >= 5:
        store["use_E_r"] = use
    run = {}
    if version >= 6:
        run["is_post_shock_only"] = env.flag("post")
        store["based_on_solution_filename"] = "b file"
        store["based_on_solution_solution_name"] = "7"
    got = through(env, old("Run", version, run, **store))
    env.claim("kind", type(got) is Run)
    for k, x in list(store.items()) + list(run.items()):
        if k not in ("solutions", "config_input", "final_solution"):
            same_value(env, k, getattr(got, k), x)
    if version < 4:
        env.claim("method unknown", got.sonic_method == "unknown")
    env.claim("solutions", type(got.solutions) is Solutions and
              list(got.solutions) == ["0"])
    one = got.solutions["0"]
    env.same("solution", one.solution, v["solution"])
    env.claim("final", (got.final_solution is not None) == final)
    todo = [("solution", one)] + (
        [("final", got.final_solution)] if final else [])
    for name, s in todo:
        if says:
            same_value(env, name + " keeps its own", s.solution_input.use_E_r,
                       True)
        elif version >= 5:
            env.claim(name + " takes the run's",
                      s.solution_input.use_E_r is not None and
                      bool(s.solution_input.use_E_r) == use)
    if says:
        env.claim("configuration keeps its own",
                  got.config_input.use_E_r == "True")
    elif version >= 5:
        env.claim("configuration takes the run's",
                  got.config_input.use_E_r == str(use))


def cases(tier):
    out = []
    for v in range(1, 15):
        out.append(Case(f"input-v{v}", solver_input, params=dict(version=v)))
        out.append(Case(f"config-v{v}", config, params=dict(version=v),
                        extra=tokens.extra))
    for v in (1, 2):
        out.append(Case(f"internal-v{v}", internal_old,
                        params=dict(version=v)))
        out.append(Case(f"initial-v{v}", initial_old, params=dict(version=v)))
    for v in (1, 2, 3):
        out.append(Case(f"solution-v{v}", solution_old,
                        params=dict(version=v)))
    for v in range(1, 7):
        out.append(Case(f"run-v{v}", run_old, params=dict(version=v)))
    return out
