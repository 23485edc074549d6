"""P29: what is told about a stored run is true of it"""
import importlib
import io
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import Case
import tokens
from p10_config import numbers, texts
from p11_files import build, numbers_const
from p30_plots import opened, quiet_log

from disc_solver.analyse import utils as au
from disc_solver.file_format import Run, ConfigInput

info = importlib.import_module("disc_solver.analyse.info")

BOUNDS = (
    "every number stored and every angle of a critical point arbitrary, each "
    "point present or absent, each optional part present or absent; runs of "
    "1-3 solutions with any final one; names with 1-2 digits; every group"
)
OUTSIDE = "layout of the text beyond name and value per line"
STUBS = ["opening the file", "angles of the critical points (P08)",
         "log-probabilities of solutions (P19)", "MCMC likelihood (P19)"]


def ask(env, run, group, which=None, command=False, **patches):
    """Lines told about a run"""
    out = io.StringIO()
    with env.patch(au, h5open=opened(env, {"file": run}),
                   log_handler=quiet_log), env.patch(info, **patches), \
            np.printoptions(precision=17):
        if command:
            argv = ["file", which, group]
            with env.patch(info, stdout=out):
                info.info_main(argv)
        else:
            info.info("file", group=group, soln_range=which, output_file=out)
    return out.getvalue().splitlines()


class Row(np.ndarray):
    """A symbolic array whose text has its numbers' own texts"""
    def __str__(self):
        return "[" + " ".join(str(x) for x in self.flat) + "]"

    def __format__(self, spec):
        return str(self)


def number(env, text):
    v = tokens.lookup(text) if env.sym else None
    return float(text) if v is None else v


def pairs(env, lines):
    """name: value lines"""
    out = {}
    for l in lines:
        k, v = l.split(":", 1)
        k = k.strip()
        env.claim("told once", k not in out)
        out[k] = v.strip()
    return out


def says(env, name, text, want):
    """text tells the value want"""
    if want is None or isinstance(want, (bool, np.bool_, str)):
        env.claim(name, text == str(want), info=(text, str(want)))
    elif isinstance(want, (np.ndarray, list, tuple)):
        want = np.asarray(want)
        got = text.replace("[", " ").replace("]", " ").replace(
            ",", " ").split()
        env.claim(name + ": entries", len(got) == want.size)
        for k, (a, b) in enumerate(zip(got, want.flat)):
            env.equal(f"{name} {k}", number(env, a), b)
    elif isinstance(want, (int, float)) or hasattr(want, "e"):
        env.equal(name, number(env, text), want)
    else:
        env.claim(name, text == str(want), info=(text, str(want)))


def a_run(env, n=1, final=None, label="lab"):
    t = texts(numbers_const())
    t["label"] = label
    run = Run(config_input=ConfigInput(**t), config_filename="some.ini",
              disc_solver_version="1.2", float_type="f",
              sonic_method=env.pick("method", ["step", "single"]))
    solns = [NS(k=k) for k in range(n)]
    for s in solns:
        run.solutions.add_solution(s)
    run.final_solution = None if final is None else solns[final]
    return run, solns


def crossings(env, group, command):
    """Critical points, of the solution asked for"""
    n = 2
    run, solns = a_run(env, n, env.pick("final", [None, 0, 1]))
    points = {}
    for s in solns:
        s.solution_input = NS(c_s_on_v_k=env.real(f"c{s.k}", pos=True))
        points[s.k] = [
            env.real(f"{w}{s.k}", lo=0, hi=1.57) if env.flag(f"{w}{s.k}?")
            else None for w in ("slow", "sonic", "alfven", "fast")
        ] if s.k == 0 else [None] * 3 + [env.real(f"fast{s.k}")]
        s.initial_conditions = NS()
    which = env.pick("asked", ["0", "1", "latest"] + [None] * (not command))
    lines = ask(env, run, group, which, command,
                get_all_sonic_points=lambda s: tuple(points[s.k]))
    want = {
        None: 0, "0": 0, "1": 1,
        "latest": 1 if run.final_solution is None else run.final_solution.k
    }[which]
    slow, sonic, alfven, fast = points[want]
    if group == "crosses-points":
        names = [w for w, v in zip(
            ("slow", "sonic", "alfven", "fast"), points[want])
            if v is not None]
        env.claim("fastest wave reached", lines == [
            "lab: " + (names[-1] if names else "none")], info=lines)
    elif group == "sonic-on-scale":
        env.claim("one line", len(lines) == 1)
        (name, text), = pairs(env, lines).items()
        env.claim("label", name == "lab")
        if sonic is None:
            env.claim("none", text == "None")
        else:
            env.equal("angle in scale heights", number(env, text) *
                      solns[want].solution_input.c_s_on_v_k, sonic)
    else:
        got = pairs(env, lines)
        env.claim("four points", list(got) == [
            "slow sonic point", "sonic point", "alfven sonic point",
            "fast sonic point"], info=list(got))
        for w, text in zip(points[want], got.values()):
            says(env, "angle", text, w)


def status(env):
    run, (s,) = a_run(env, 1)
    s.flag = env.pick("flag", [0, 2, -3])
    s.coordinate_system = "some system"
    want = {"ODE return flag": str(s.flag),
            "Coordinate System": "some system"}
    for k in ("internal_data", "derivatives", "t_roots", "y_roots"):
        have = env.flag(k)
        setattr(s, k, np.zeros(2) if have else None)
        want["Has " + k.replace("_data", " data")] = str(have)
    env.claim("status", pairs(env, ask(env, run, "status")) == want)


def fields(env, group):
    """Every number given or derived"""
    run, _ = a_run(env, 1)
    soln, parts = build(env, "s_")
    other, _ = build(env, "o_") if env.flag("second") else (None, None)
    run.solutions["0"] = soln
    which = None
    if other is not None:
        run.solutions.add_solution(other)
        if env.flag("asked for second"):
            which, soln = "1", other
    obj = soln.solution_input if group == "input" else \
        soln.initial_conditions
    want = dict(vars(obj))
    if env.sym:
        for k, v in want.items():
            if isinstance(v, np.ndarray):
                setattr(obj, k, v.view(Row))
    lines = ask(env, run, group, which)
    head = {"input": "input settings:",
            "initial-conditions": "initial conditions:"}[group]
    env.claim("head", lines[0] == head)
    text = "\n".join(lines[1:])
    rest = []
    for l in text.split("\n"):
        if ":" in l:
            rest.append(l)
        else:
            rest[-1] += " " + l
    got = pairs(env, rest)
    env.claim("every field", set(got) == set(want), info=set(got) ^ set(want))
    for k, v in want.items():
        says(env, k, got[k], v)


def whole_run(env):
    n = env.pick("solutions", [1, 2])
    t = texts(numbers(env, "n_"))
    t["label"] = env.pick("label", ["one", "two: three"])
    run = Run(config_input=ConfigInput(**t), config_filename="some.ini",
              disc_solver_version="1.2", float_type="f",
              sonic_method=env.pick("method", ["step", "single"]),
              use_E_r=env.flag("E_r"))
    for k in range(n):
        run.solutions.add_solution(NS(k=k))
    lines = ask(env, run, "run")
    k = lines.index("config:")
    got = pairs(env, lines[1:k])
    env.claim("run", got == {
        "filename": "file", "label": t["label"],
        "config filename": "some.ini", "sonic method": run.sonic_method,
        "DiscSolver version": "1.2", "using E_r": str(run.use_E_r),
        "number of solutions": str(n)}, info=got)
    got = pairs(env, lines[k + 1:])
    want = vars(run.config_input)
    env.claim("whole configuration", set(got) == set(want))
    for f, v in want.items():
        if tokens.lookup(v) is not None or (
            not env.sym and isinstance(v, str) and v and
            v.replace(".", "").replace("-", "").replace("e", "").isdigit()
        ):
            env.equal(f, number(env, got[f]), number(env, v))
        else:
            env.claim(f, got[f] == str(v), info=(got[f], v))


def ranking(env, n):
    """Names in order of probability"""
    run, solns = a_run(env, n)
    p = env.array("p", n)
    lines = ask(env, run, "solutions",
                get_logprob_of_soln=lambda s: p[s.k])
    env.claim("each solution once", sorted(lines) == sorted(
        str(k) for k in range(n)))
    for a, b in zip(lines, lines[1:]):
        env.claim("in order", p[int(a)] <= p[int(b)])


def unknown(env):
    run, (s,) = a_run(env, 1)
    s.solution_input, s.initial_conditions = NS(), NS()
    env.raises("refused", au.AnalysisError, lambda: ask(
        env, run, "bogus", get_all_sonic_points=lambda s: (None,) * 4))


def cases(tier):
    kw = dict(nz_in_path=False, extra=tokens.extra)
    out = [
        Case(g, crossings, params=dict(group=g, command=False), **kw)
        for g in ("crosses-points", "sonic-points", "sonic-on-scale")
    ]
    out += [
        Case("command", crossings,
             params=dict(group="sonic-on-scale", command=True), **kw),
        Case("status", status, **kw),
        Case("input", fields, params=dict(group="input"), **kw),
        Case("initial-conditions", fields,
             params=dict(group="initial-conditions"), **kw),
        Case("run", whole_run, **kw),
        Case("ranking", ranking,
             params=dict(n=4 if tier == "thorough" else 3), **kw),
        Case("unknown", unknown, **kw),
    ]
    return out
