"""P10: configuration text, solver input and overrides"""
from io import StringIO
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import Case
import tokens

from disc_solver.file_format import (
    _containers as fc, CONFIG_FIELDS, ConfigInput, SolutionInput, MCMCVars,
)
from disc_solver.solve import config as cf, utils as su
from disc_solver.solve.utils import SolverError

BOUNDS = (
    "every number of the configuration arbitrary (31 fields at once); each "
    "optional field absent, None, empty, 'None' or an arbitrary number; all "
    "truth spellings; slices of arbitrary integers or open ends; all choices "
    "of sampled variables; any one field of solution and configuration "
    "differing, with and without an override of it"
)
OUTSIDE = (
    "number syntax (stringtopy and configparser are library code: a number's "
    "text is an opaque token that converts back to it); labels with line "
    "breaks or surrounding blanks; more than one configuration/solution "
    "difference at a time"
)
STUBS = ["stringtopy number converters on the text of symbolic numbers",
         "configuration file: text in memory"]
ASSUMPTIONS = []

FLOATS = (
    "start stop taylor_stop_angle relative_tolerance absolute_tolerance "
    "target_velocity γ v_rin_on_c_s v_a_on_c_s c_s_on_v_k η_O η_H η_A"
).split()
INTS = "max_steps num_angles nwalkers iterations threads".split()
BOOLS = "η_derivs use_taylor_jump use_E_r".split()
OPT = "jump_before_sonic v_θ_sonic_crit after_sonic sonic_interp_size".split()
ALL = FLOATS + INTS + BOOLS + OPT + [
    "interp_range", "interp_slice", "mcmc_vars", "split_method"
]
TRUTH = {
    "True": True, "true": True, "yes": True, "on": True, "1": True,
    "False": False, "no": False, "off": False, "0": False, "FALSE": False,
}
DEFAULTS = dict(
    start="0", stop="5", taylor_stop_angle="0.001", max_steps="10000",
    num_angles="10000", label="default", relative_tolerance="1e-6",
    absolute_tolerance="1e-10", jump_before_sonic="None",
    v_θ_sonic_crit="None", after_sonic="None", interp_range="10",
    sonic_interp_size="None", interp_slice="-1000,-100", η_derivs="True",
    nwalkers="8", iterations="3", threads="1", mcmc_vars="v_r,v_a,v_k",
    target_velocity="0.9", split_method="v_θ_deriv", use_taylor_jump="True",
    use_E_r="False", γ="0.001", v_rin_on_c_s="1", v_a_on_c_s="1",
    c_s_on_v_k="0.03", η_O="0.001", η_H="0.0001", η_A="0.0005",
)
INITIAL = "γ v_rin_on_c_s v_a_on_c_s c_s_on_v_k η_O η_H η_A".split()


def numbers(env, prefix=""):
    """All fields of a solver input, numbers arbitrary"""
    v = {f: env.real(prefix + f) for f in FLOATS + OPT}
    v.update({f: env.integer(prefix + f, -10**6, 10**6)
              for f in INTS + ["interp_range"]})
    v.update({f: bool(i % 2) for i, f in enumerate(BOOLS)})
    v.update(split_method="some method", interp_slice=slice(-7, -3),
             mcmc_vars=None)
    return v


def texts(v):
    t = {f: str(x) for f, x in v.items()}
    t.update(interp_slice="-7,-3", label="a label", mcmc_vars="None")
    return t


def same_field(env, tag, f, got, want):
    name = f"{tag}[{f}]"
    if want is None or got is None:
        env.claim(name, got is want, info=(got, want))
    elif isinstance(want, bool):
        env.claim(name, isinstance(got, (bool, np.bool_)) and
                  bool(got) == want, info=(got, want))
    elif isinstance(want, (str, slice)):
        env.claim(name, type(got) is type(want) and got == want,
                  info=(got, want))
    elif isinstance(want, MCMCVars):
        for a in ("with_v_r", "with_v_a", "with_v_k"):
            env.claim(f"{name}.{a}", getattr(got, a) == getattr(want, a))
    else:
        env.equal(name, got, want)


def all_fields(env, tag, got, want):
    got = got.asdict()
    env.claim(tag + " covers every field", set(got) == set(ALL))
    for f in ALL:
        same_field(env, tag, f, got[f], want[f])


def text_to_numbers(env):
    v = numbers(env)
    inp = ConfigInput(**texts(v)).to_soln_input()
    all_fields(env, "number", inp, v)


def field_options(env, field):
    """Every spelling of one non-number field"""
    v = numbers(env)
    t = texts(v)
    if field in BOOLS:
        t[field] = env.pick("spelling", sorted(TRUTH))
        v[field] = TRUTH[t[field]]
    elif field in OPT + ["interp_range"]:
        t[field] = env.pick("spelling", ["None", "", None, "number"])
        if t[field] == "number":
            t[field] = str(v[field])
        else:
            v[field] = None
    elif field == "mcmc_vars":
        names = [n for n in ("v_r", "v_a", "v_k") if env.flag(n)]
        how = env.pick("spelling", ["names", "None", "", None])
        if how == "names" and names:
            t[field] = ",".join(names)
            v[field] = MCMCVars(
                with_v_r="v_r" in names, with_v_a="v_a" in names,
                with_v_k="v_k" in names
            )
        else:
            t[field] = None if how is None else how
            if how == "names":
                t[field] = "None"
            v[field] = None
    elif field == "interp_slice":
        how = env.pick("spelling", ["pair", "step", "open", "None", ""])
        a, b, c = -7, 5, 2
        if how == "pair":
            t[field], v[field] = f"{a},{b}", slice(a, b)
        elif how == "step":
            t[field], v[field] = f" {a}, {b},{c}", slice(a, b, c)
        elif how == "open":
            v[field] = slice(env.pick("first", [None, 3]),
                             env.pick("last", [None, -2]),
                             env.pick("step", [None, 4]))
            t[field] = repr(v[field])
        else:
            t[field], v[field] = how, None
    inp = ConfigInput(**t).to_soln_input()
    all_fields(env, "number", inp, v)
    # and back again
    again = inp.to_config_input("a label").to_soln_input()
    all_fields(env, "round trip", again, v)
    # and through a configuration file
    file_round_trip(env, inp.to_config_input("a label"), v)


def file_round_trip(env, conf, v):
    out = StringIO()
    conf.to_conf_file(out)
    back = cf.get_input_from_conffile(
        config_file=NS(open=lambda mode="r", **k: StringIO(out.getvalue()))
    )
    env.claim("label through a file", back.label == conf.label)
    all_fields(env, "file round trip", back.to_soln_input(), v)


def round_trip(env):
    v = numbers(env)
    label = env.pick("label", ["a label", "50% ionised", "x = y # z; [t]"])
    inp = SolutionInput(**v)
    conf = inp.to_config_input(label)
    env.claim("label", conf.label == label)
    all_fields(env, "round trip", conf.to_soln_input(), v)
    all_fields(env, "unchanged", inp, v)
    if label == "50% ionised":
        try:
            file_round_trip(env, conf, v)
        except ValueError:
            env.claim("label with a percent sign", False)
        else:
            env.claim("label with a percent sign", True)
    else:
        file_round_trip(env, conf, v)


def sampled(env):
    """Every choice of sampled variables survives"""
    v = numbers(env)
    v["mcmc_vars"] = MCMCVars(
        with_v_r=env.flag("v_r"), with_v_a=env.flag("v_a"),
        with_v_k=env.flag("v_k"),
    )
    inp = SolutionInput(**v)
    again = inp.to_config_input("x").to_soln_input()
    m = v["mcmc_vars"]
    if not (m.with_v_r or m.with_v_a or m.with_v_k):
        # sampling nothing has no spelling: only that nothing gets sampled
        env.claim("no sampled variable", again.mcmc_vars is None)
        return
    same_field(env, "round trip", "mcmc_vars", again.mcmc_vars, m)


def open_slices(env):
    v = numbers(env)
    v["interp_slice"] = env.pick("kind", ["slice", None])
    if v["interp_slice"]:
        v["interp_slice"] = slice(
            env.pick("first", [None, -9, 0]), env.pick("last", [None, -2, 6]),
            env.pick("step", [None, -1, 3]),
        )
    inp = SolutionInput(**v)
    conf = inp.to_config_input("x")
    all_fields(env, "round trip", conf.to_soln_input(), v)
    file_round_trip(env, conf, v)


def whole_slices(env):
    """Slices of arbitrary integers"""
    v = numbers(env)
    a, b = env.integer("first", -10**6, 10**6), env.integer("last", 0, 99)
    with env.patch(fc, **(dict(int=tokens.tok_int) if env.sym else {})):
        got = ConfigInput(**{
            **texts(v), "interp_slice": f"{a},{b}"
        }).to_soln_input().interp_slice
    env.equal("first", got.start, a)
    env.equal("last", got.stop, b)
    env.claim("no step", got.step is None)


def file_keys(env):
    """A key of the file is used; a missing one takes its recorded default"""
    v = numbers(env)
    t = texts(v)
    t["interp_slice"], t["mcmc_vars"] = "1,2", "v_a"
    gone = env.pick("missing", sorted(DEFAULTS) + ["everything"])
    lines = {"config": [], "initial": []}
    for k, x in t.items():
        if k != gone and gone != "everything":
            lines["initial" if k in INITIAL else "config"].append(
                f"{k} = {x}"
            )
    text = "".join(
        f"[{k}]\n" + "\n".join(x) + "\n" for k, x in lines.items() if x
    )
    conf = cf.get_input_from_conffile(
        config_file=NS(open=lambda mode="r", **k: StringIO(text))
        if gone != "everything" else None
    )
    got = conf.asdict()
    env.claim("every field", set(got) == set(DEFAULTS))
    for k, default in DEFAULTS.items():
        want = default if gone in (k, "everything") else t[k]
        env.claim(f"text[{k}]", got[k] == want, info=(got[k], want))


def overrides(env, via):
    """Overrides win, then the solution's own input, then the configuration"""
    v = numbers(env)
    w = dict(v)
    f = env.pick("field", FLOATS + INTS + OPT)
    other = env.pick("other", ["γ", "stop"])
    w[f] = env.real("solution_" + f) if f in FLOATS + OPT else (
        env.integer("solution_" + f, 0, 10**6))
    new = env.real("new_" + f) if f in FLOATS + OPT else (
        env.integer("new_" + f, 0, 10**6))
    over = {}
    if env.flag("overridden"):
        over[f] = str(new)
    if other != f and env.flag("other overridden"):
        over[other] = "0.125"
    conf = ConfigInput(**texts(v))
    old = SolutionInput(**w)
    kept_conf, kept_over = conf.asdict(), dict(over)
    if via == "file":
        got_conf = su.add_overrides(overrides=over or None, config_input=conf)
        got = got_conf.to_soln_input()
        want = dict(v)
    else:
        got_conf, got = cf.new_inputs_with_overrides(
            conf, old, over or (None if env.flag("none") else {})
        )
        want = dict(w)
    for k, x in over.items():
        want[k] = new if k == f else 0.125
    all_fields(env, "input", got, want)
    conf_want = {**kept_conf, **over}
    for k, x in got_conf.asdict().items():
        env.claim(f"recorded text[{k}]", x == conf_want[k])
    env.claim("configuration untouched", conf.asdict() == kept_conf)
    env.claim("overrides untouched", over == kept_over)
    all_fields(env, "old input untouched", old, w)


def solution_options(env):
    """Other fields of the solution's input that differ are kept as well"""
    v = numbers(env)
    w = dict(v)
    f = env.pick("field", BOOLS + ["split_method", "interp_slice",
                                   "mcmc_vars", "interp_range"] + OPT)
    if f in BOOLS:
        w[f] = not v[f]
    elif f == "split_method":
        w[f] = "another"
    elif f == "interp_slice":
        w[f] = env.pick("slice", [None, slice(1, 2), slice(-7, -3, 2)])
    elif f == "mcmc_vars":
        w[f] = MCMCVars(with_v_r=env.flag("r"), with_v_a=True, with_v_k=False)
    else:
        w[f] = None
    _, got = cf.new_inputs_with_overrides(
        ConfigInput(**texts(v)), SolutionInput(**w),
        env.pick("overrides", [None, {}]),
    )
    all_fields(env, "input", got, w)


def names(env):
    """Only names of fields may be overridden, the last value counts"""
    name = env.pick("name", list(CONFIG_FIELDS) + [
        "gamma", "nope", "", "γ ", "Start", "v_rin_on_c_s_", "problems"
    ])
    value, later = str(env.real("value")), str(env.real("later"))
    pairs = [("stop", "3"), (name, value)]
    if env.flag("twice"):
        pairs.append((name, later))
    try:
        got = su.validate_overrides(pairs)
    except SolverError:
        env.claim("known names accepted", name not in CONFIG_FIELDS)
        return
    env.claim("unknown names refused", name in CONFIG_FIELDS)
    env.claim("last value", got[name] == pairs[-1][1])
    env.claim("nothing else", set(got) == {"stop", name})


def cases(tier):
    kw = dict(extra=tokens.extra, nz_in_path=False, tol=1e-12)
    out = [
        Case("text-to-numbers", text_to_numbers, **kw),
        Case("round-trip", round_trip, **kw),
        Case("sampled-variables", sampled, **kw),
        Case("open-slices", open_slices, **kw),
        Case("whole-slices", whole_slices, **kw),
        Case("file-keys", file_keys, **kw),
        Case("override-file", overrides, params=dict(via="file"), **kw),
        Case("override-solution", overrides, params=dict(via="soln"), **kw),
        Case("solution-options", solution_options, **kw),
        Case("override-names", names, **kw),
    ]
    for f in BOOLS + OPT + ["interp_range", "mcmc_vars", "interp_slice"]:
        out.append(Case(f"spelling-{f}", field_options,
                        params=dict(field=f), **kw))
    return out
