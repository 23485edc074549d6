"""P14: solver runs do what was asked and record it"""
import contextlib
from pathlib import Path
from types import SimpleNamespace as NS

import h5preserve
import numpy as np

from symx.harness import Case
import tokens
import h5mem
from p10_config import (
    ALL, FLOATS, INTS, BOOLS, OPT, INITIAL, numbers, texts, all_fields,
    same_field, DEFAULTS,
)
from p11_files import build, same_solution, numbers_const

import disc_solver
import disc_solver.utils as ut
from disc_solver import float_handling as fh
from disc_solver import solve as sv
from disc_solver.file_format import (
    registries, ConfigInput, SolutionInput, Run, Solution,
    SOLUTION_INPUT_FIELDS,
)
from disc_solver.solve import (
    resolve as rs, csvrunner as cr, hdf5runner as hr, utils as su, single,
    stepper, mcmc, sonic_root, hydrostatic, mod_hydro, fast_crosser,
)
from disc_solver.solve.utils import SolverError

BOUNDS = (
    "every number of the configuration/override/table row arbitrary; every "
    "solver name and an unknown one; outcomes: error, failure, success; 0-2 "
    "solutions, any final one; output file given, absent or existing; tables "
    "of up to 3 rows, 1-2 workers, any row failing"
)
OUTSIDE = (
    "the solvers themselves (P05, P06, P16-P19); process scheduling of "
    "multiprocessing.Pool beyond the order in which results are delivered"
)
STUBS = ["the solver called (records its arguments, arbitrary outcome)",
         "HDF5 storage in memory", "multiprocessing.Pool (in-process)",
         "pympler.asizeof"]
METHODS = {
    "step": stepper, "single": single, "mcmc": mcmc,
    "sonic_root": sonic_root, "hydrostatic": hydrostatic,
    "mod_hydro": mod_hydro, "fast_crosser": fast_crosser,
}


def const_solution(env, tag):
    return build(env, tag)


def outcome(env, tag=""):
    """What the stubbed solver will do"""
    o = NS(error=env.flag(tag + "error"), n=0, final=None, ok=False,
           calls=[], solns=[])
    if o.error:
        return o
    o.n = env.pick(tag + "solutions", range(3))
    o.ok = env.flag(tag + "succeeded")
    o.solns = [const_solution(env, f"{tag}s{k}_") for k in range(o.n)]
    if o.n:
        o.final = env.pick(tag + "final", ["none", "unset"] + list(
            range(o.n)))
    else:
        o.final = "none"
    return o


def stub(o):
    def solver(inp, run, **kw):
        o.calls.append((inp, run, kw))
        if o.error:
            raise SolverError("stub")
        names = [run.solutions.add_solution(s) for s, _ in o.solns]
        if o.final == "none":
            run.final_solution = None
        elif o.final != "unset":
            run.final_solution = run.solutions[names[o.final]]
        return o.ok
    return solver


@contextlib.contextmanager
def method(name, solver):
    m = sv.SONIC_METHOD_MAP
    old = m.get(name)
    m[name] = solver
    try:
        yield
    finally:
        m[name] = old


def quiet(env, *mods):
    """No sizes of objects, no output"""
    st = contextlib.ExitStack()
    for m in mods:
        st.enter_context(env.patch(m, asizeof=lambda *a, **k: 0,
                                   print=lambda *a, **k: None))
    return st


def write_config(folder, t):
    p = Path(folder) / "the config.ini"
    p.write_text(
        "[config]\n" + "".join(
            f"{k} = {x}\n" for k, x in t.items() if k not in INITIAL) +
        "[initial]\n" + "".join(
            f"{k} = {x}\n" for k, x in t.items() if k in INITIAL),
        encoding="utf8",
    )
    return p


def check_run(env, tag, run, o, want_text, **want):
    env.claim(f"{tag} kind", type(run) is Run)
    cfg = run.config_input.asdict()
    env.claim(f"{tag} configuration", cfg == want_text,
              info=[(k, cfg.get(k), want_text[k]) for k in want_text
                    if cfg.get(k) != want_text[k]])
    want = dict(dict(
        disc_solver_version=disc_solver.__version__,
        float_type=str(fh.float_type), based_on_solution_filename=None,
        based_on_solution_solution_name=None, is_post_shock_only=False,
    ), **want)
    for k, x in want.items():
        env.claim(f"{tag} {k}", getattr(run, k) == x,
                  info=(getattr(run, k), x))
    env.claim(f"{tag} number of solutions", len(run.solutions) == o.n)
    for k in range(o.n):
        same_solution(env, f"{tag} solution {k}", run.solutions[str(k)],
                      o.solns[k][1])
    if o.final == "none":
        env.claim(f"{tag} no final solution", run.final_solution is None)
    elif o.final is not None:
        k = o.n - 1 if o.final == "unset" else o.final
        same_solution(env, f"{tag} final", run.final_solution,
                      o.solns[k][1])


def called(env, o, values, store, **kw):
    env.claim("solver called once", len(o.calls) == 1)
    inp, run, got = o.calls[0]
    env.claim("solver gets a solver input", type(inp) is SolutionInput)
    all_fields(env, "solver input", inp, values)
    env.claim("solver options", got == dict(kw, store_internal=store))


def texts_of(v):
    t = texts(v)
    del t["label"]
    return t


def some_numbers(env):
    """Concrete settings with a few arbitrary ones"""
    v = numbers_const()
    v.update(γ=env.real("γ"), stop=env.real("stop"),
             c_s_on_v_k=env.real("c_s_on_v_k"), η_A=env.real("η_A"),
             num_angles=env.integer("num_angles", 1, 10**6))
    v.update(interp_slice=slice(-7, -3), mcmc_vars=None)
    return v


def solve_run(env):
    v = some_numbers(env)
    t = texts(v)
    t["label"] = "label é"
    o = outcome(env)
    name = env.pick("method", ["step", "single", "unheard of"]) \
        if o.n == 0 else "mcmc"
    store = env.flag("store") if o.n < 2 else True
    out = env.pick("output", ["given", "absent", "exists", "absolute"]) \
        if o.n < 2 else "given"
    over = None
    if env.flag("override"):
        v["γ"] = env.real("new γ")
        over = {"γ": str(v["γ"])}
        t["γ"] = over["γ"]
    more = {"max_search_steps": 3} if name == "step" else {}
    with h5mem.files(env) as fs:
        base = {k: x for k, x in t.items()}
        if over:
            base["γ"] = "123"
        cfg = write_config(fs.folder, base)
        sub = fs.folder / "out dir"
        sub.mkdir()
        f = {"given": "a file.hdf5", "exists": "a file.hdf5", "absent": None,
             "absolute": str(fs.folder / "else.hdf5")}[out]
        if out == "exists":
            with h5preserve.open(sub / f, registries, mode="x") as h:
                h["kept"] = 5
        with contextlib.ExitStack() as st:
            if name in METHODS:
                st.enter_context(method(name, stub(o)))
            try:
                path, ok = sv.solve(
                    output_file=f, sonic_method=name, config_file=cfg,
                    output_dir=sub, store_internal=store, overrides=over,
                    **more
                )
            except FileExistsError:
                env.claim("only an existing file is refused",
                          out == "exists")
            except SolverError:
                env.claim("only errors of the solver are raised",
                          o.error or name == "unheard of")
                env.claim("existing file noticed first", out != "exists")
                env.claim("an unknown method calls nothing",
                          name != "unheard of" or not o.calls)
                if o.calls:
                    called(env, o, v, store, **more)
            except OSError as e:
                if out != "exists":
                    raise
                env.claim("only an existing file is refused", True)
            else:
                env.claim("errors are raised", not o.error)
                env.claim("unknown method refused", name != "unheard of")
                env.claim("existing file refused", out != "exists")
                env.claim("succeeded", ok is o.ok)
                called(env, o, v, store, **more)
                want = fs.folder / "else.hdf5" if out == "absolute" else \
                    sub / (f or "x")
                if out == "absent":
                    env.claim(
                        "file named after the label", path.parent == sub and
                        path.name.startswith("label é") and
                        path.suffix == ".hdf5", info=str(path))
                else:
                    env.claim("path", Path(path) == want,
                              info=(str(path), str(want)))
                env.claim("one file", fs.names() == [
                    str(Path(path).relative_to(fs.folder))])
                with h5preserve.open(path, registries, mode="r") as h:
                    check_run(
                        env, "stored", h["run"], o, t, sonic_method=name,
                        use_E_r=v["use_E_r"], config_filename=str(cfg),
                    )
            if out == "exists":
                env.claim("solver not started", not o.calls)
                with h5preserve.open(sub / f, registries, mode="r") as h:
                    env.claim("existing file kept", h["kept"] == 5)
        if env.sym:
            env.claim("files closed", fs.opened == 0)


def method_map(env):
    name = env.pick("method", sorted(METHODS))
    env.claim("every method is known", name in sv.SONIC_METHOD_MAP)
    env.claim("the method's own solver",
              sv.SONIC_METHOD_MAP.get(name) is METHODS[name].solver)
    env.claim("no others", set(sv.SONIC_METHOD_MAP) == set(METHODS))
    got = []

    def fake(**kw):
        got.append(kw)
        return "a path", ok
    ok = env.flag("succeeded")
    args = ["--sonic-method", name, "--output-file", "o", "--output-dir",
            "/x/y"]
    store = env.pick("store", ["default", "yes", "no"])
    if store != "default":
        args.append({"yes": "--store-internal",
                     "no": "--no-store-internal"}[store])
    over = env.flag("override")
    if over:
        args += ["--override", "γ", "1", "--override", "stop", "7",
                 "--override", "γ", "2"]
    which = env.pick("program", ["solve", "resolve"])
    mod, fn = (sv, "solve") if which == "solve" else (rs, "resolve")
    with env.patch(mod, **{fn: fake, "print": lambda *a: None}):
        rc = mod.main(args + (["/c"] if which == "solve" else ["/f", "3"]))
    env.claim("exit status says whether it worked", rc == (0 if ok else 1))
    kw = got[0]
    env.claim("method", kw["sonic_method"] == name)
    env.claim("output", kw["output_file"] == "o" and
              kw["output_dir"] == Path("/x/y"))
    env.claim("store", kw["store_internal"] is (store != "no"))
    env.claim("overrides", dict(kw["overrides"] or {}) == (
        {"γ": "2", "stop": "7"} if over else {}))
    if which == "solve":
        env.claim("config", kw["config_file"] == Path("/c"))
    else:
        env.claim("solution", kw["soln_filename"] == Path("/f") and
                  kw["soln_range"] == "3")


def runner_commands(env):
    """What the programs for tables ask of their solvers"""
    csv = env.pick("program", ["csv", "hdf5"]) == "csv"
    mod, fn = (cr, "csvrunner") if csv else (hr, "hdf5runner")
    got = []
    args = []
    name = env.pick("method", [None, *sorted(METHODS)])
    if name:
        args += ["--sonic-method", name]
    store = env.pick("store", [None, True, False])
    if store is not None:
        args.append("--store-internal" if store else "--no-store-internal")
    over, out, n = [env.flag(k) for k in ("override", "output", "workers")]
    if over:
        args += ["--override", "γ", "1", "--override", "stop", "7"]
    if out:
        args += ["--output-file", "o", "--output-dir", "/x/y"]
    if n:
        args += ["--nworkers", "3"]
    label = not csv and env.flag("label")
    if label:
        args += ["--label", "lab"]
    with env.patch(mod, **{fn: lambda **kw: got.append(kw)}):
        mod.main(args + ["/in.csv"])
    kw, = got
    env.claim("table", str(kw["input_file"]) == "/in.csv")
    env.claim("method", kw["sonic_method"] == (
        name or ("step" if csv else "single")))
    env.claim("store", kw["store_internal"] is (
        (not csv) if store is None else store))
    env.claim("overrides", dict(kw["overrides"] or {}) == (
        {"γ": "1", "stop": "7"} if over else {}))
    env.claim("workers", kw["nworkers"] == (3 if n else None))
    if csv:
        env.claim("output", kw["output_file"] == ("o" if out else "-"))
    else:
        env.claim("output", Path(kw["output_dir"]).absolute() == Path(
            "/x/y" if out else ".").absolute())
        env.claim("label", kw["label"] == ("lab" if label else ""))


def make_run(env, n, final, t=None, tag="old"):
    """A stored run of n solutions"""
    t = t or texts(numbers_const())
    run = Run(config_input=ConfigInput(**t), config_filename="some.ini",
              disc_solver_version="0", float_type="f", sonic_method="x")
    solns = [build(env, f"{tag}{k}_") for k in range(n)]
    names = [run.solutions.add_solution(s) for s, _ in solns]
    run.final_solution = None if final is None else run.solutions[
        names[final]]
    return run, solns


def chosen(env, n=2):
    """Which recorded solution an entry names"""
    n = env.pick("solutions", [1, 2, 11])
    final = env.pick("final", [None] + sorted({0, n - 1}))
    run = Run(config_input=None, config_filename=None, disc_solver_version="",
              float_type="", sonic_method="")
    solns = [NS(k=k) for k in range(n)]
    for s in solns:
        run.solutions.add_solution(s)
    run.final_solution = None if final is None else solns[final]
    which = env.pick("name", [None, "0", "last number", "latest", "final",
                              "missing"])
    if which == "missing":
        env.raises("missing solution refused", KeyError, ut.get_solutions,
                   run, str(n))
        return
    got = ut.get_solutions(run, str(n - 1) if which == "last number" else
                           which)
    want = {
        None: 0, "0": 0, "last number": n - 1, "final": final,
        "latest": n - 1 if final is None else final,
    }[which]
    env.claim("solution", got is (None if want is None else solns[want]),
              info=(which, n, final))


def resolve_run(env):
    o = outcome(env)
    t0 = dict(texts(numbers_const()), use_E_r="True")
    old, solns = make_run(env, 2, env.pick("old final", [0, 1])
                          if o.error else 0, t0)
    which = env.pick("name", ["0", "1", "latest"]) if o.n == 0 else "1"
    k = {"0": 0, "1": 1, "latest": None}[which]
    store = env.flag("store") if o.error else False
    out = env.pick("output", ["given", "absent", "exists", "same"]) \
        if o.n == 0 else "given"
    over = None
    with h5mem.files(env) as fs:
        src = fs.folder / "old.hdf5"
        with h5preserve.open(src, registries, mode="x") as h:
            h["run"] = old
        if k is None:
            k = [s for s, _ in solns].index(old.final_solution)
        v = dict(vars(solns[k][0].solution_input))
        want_t = dict(t0)
        if env.flag("override"):
            v["γ"] = env.real("new γ")
            v["use_E_r"] = False
            over = {"γ": str(v["γ"]), "use_E_r": "no"}
            want_t.update(over)
        f = {"given": "new.hdf5", "exists": "new.hdf5", "absent": None,
             "same": "old.hdf5"}[out]
        if out == "exists":
            with h5preserve.open(fs.folder / f, registries, mode="x") as h:
                h["kept"] = 5
        with method("step", stub(o)):
            try:
                path, ok = rs.resolve(
                    output_file=f, sonic_method="step", soln_filename=src,
                    soln_range=which, output_dir=fs.folder,
                    store_internal=store, overrides=over, extra=4,
                )
            except SolverError:
                env.claim("only errors of the solver are raised", o.error)
                called(env, o, v, store, extra=4)
            except OSError:
                env.claim("only existing files are refused",
                          out in ("exists", "same"))
                env.claim("solver not started", not o.calls)
            else:
                env.claim("errors are raised", not o.error)
                env.claim("existing file refused", out not in (
                    "exists", "same"))
                env.claim("succeeded", ok is o.ok)
                called(env, o, v, store, extra=4)
                if out == "given":
                    env.claim("path", path == fs.folder / f)
                else:
                    env.claim("named after the label",
                              path.parent == fs.folder and
                              path.name.startswith("a label"))
                with h5preserve.open(path, registries, mode="r") as h:
                    check_run(
                        env, "stored", h["run"], o, want_t,
                        sonic_method="step", use_E_r=v["use_E_r"],
                        config_filename="some.ini",
                        based_on_solution_filename=str(src),
                        based_on_solution_solution_name=which,
                    )
        with h5preserve.open(src, registries, mode="r") as h:
            got = h["run"]
            env.claim("old configuration kept",
                      got.config_input.asdict() == t0)
            env.claim("old solutions kept", len(got.solutions) == 2)
            if o.n == 1 or out == "same":
                for j in range(2):
                    same_solution(env, f"old solution {j}",
                                  got.solutions[str(j)], solns[j][1])


class Pool:
    """Runs everything in this process; delivers like multiprocessing"""
    made = []

    def __init__(self, *a, **kw):
        Pool.made.append((a, kw))

    def imap(self, fn, seq, chunksize=1):
        return (fn(i) for i in seq)

    def map(self, fn, seq, chunksize=None):
        return [fn(i) for i in seq]

    def starmap(self, fn, seq, chunksize=None):
        return [fn(*i) for i in seq]

    def imap_unordered(self, fn, seq, chunksize=1):
        return (fn(i) for i in reversed(list(seq)))

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def by_row(outs, plan):
    """A solver that behaves differently for each row, told by `start`"""
    def solver(inp, run, **kw):
        k = int(inp.start)
        return stub(outs[k])(inp, run, **kw)
    return solver


def table(env, n, with_source):
    """CSV text of n rows, one arbitrary number each; and their values"""
    rows, values = [], []
    for k in range(n):
        v = numbers_const()
        v.update(start=float(k), γ=env.real(f"γ{k}"),
                 interp_slice=slice(-7, -3), mcmc_vars=None)
        t = texts_of(v)
        if with_source:
            t.update(filename=f"f{k}.hdf5", solution_name=str(k))
        values.append(v)
        rows.append(t)
    names = list(rows[0])
    lines = [",".join(f'"{i}"' for i in names)]
    lines += [",".join(f'"{r[i]}"' for i in names) for r in rows]
    return "# a comment\n" + "\n".join(lines) + "\n", rows, values


def row_outcomes(env, n):
    outs = []
    for k in range(n):
        kind = env.pick(f"row{k}", ["ok", "error", "failed", "nothing"]
                        if k == 0 or n < 3 else ["ok", "error"])
        o = NS(error=kind == "error", n=0, final="none", calls=[], solns=[],
               ok=kind in ("ok", "nothing"), kind=kind)
        if kind in ("ok", "failed"):
            o.n = 2 if k == 0 else 1
            o.solns = [build(env, f"r{k}s{j}_") for j in range(o.n)]
            o.final = "unset" if kind == "failed" else 0
        outs.append(o)
    return outs


def over_for(env, values):
    if not env.flag("override"):
        return {}
    x = env.real("new η_A")
    for v in values:
        v["η_A"] = x
    return {"η_A": str(x)}


def csv_out(env, n):
    text, rows, values = table(env, n, True)
    outs = row_outcomes(env, n)
    over = over_for(env, values)
    store = env.flag("store") if n == 1 else False
    with h5mem.files(env) as fs:
        src = fs.folder / "in.csv"
        src.write_text(text, encoding="utf8")
        out = fs.folder / "out.csv"
        Pool.made.clear()
        with quiet(env, cr), method("step", by_row(outs, None)), \
                env.patch(ut, Pool=Pool):
            cr.csvrunner(output_file=out, input_file=src, nworkers=2,
                         store_internal=store, sonic_method="step",
                         overrides=over, label="a label")
        env.claim("workers", [a for a, _ in Pool.made] == [(2,)])
        for k, o in enumerate(outs):
            env.claim("each row solved once", len(o.calls) == 1)
            inp, run, kw = o.calls[0]
            all_fields(env, "solver input", inp, values[k])
            env.claim("solver options", kw == dict(store_internal=store))
            cfg = run.config_input.asdict()
            want = dict(rows[k], label="a label", **over)
            env.claim("configuration", all(
                want[f] == x for f, x in cfg.items()), info=repr(cfg))
            for f, x in dict(
                based_on_solution_filename=f"f{k}.hdf5",
                based_on_solution_solution_name=str(k), sonic_method="step",
                float_type=str(fh.float_type), config_filename=None,
                disc_solver_version=disc_solver.__version__,
                use_E_r=values[k]["use_E_r"],
            ).items():
                env.claim(f"run {f}", getattr(run, f) == x)
        # the table holds the final solutions' inputs, in order
        good = [o for o in outs if o.kind == "ok"]
        lines = [i for i in out.read_text().splitlines()
                 if not i.startswith("#")]
        env.claim("one line per solution found",
                  len(lines) == len(good) + 1, info=lines[:3])
        got = su.get_csv_inputs(out, label="new")
        if not good:
            return
        env.claim("readable again", len(got) == len(good))
        for row, o in zip(got, good):
            want = vars(o.solns[0][0].solution_input)
            inp = ConfigInput(**row).to_soln_input()
            for f in ALL:
                same_field(env, "table", f, getattr(inp, f), want[f])


def hdf5_out(env, n):
    text, rows, values = table(env, n, True)
    outs = row_outcomes(env, n)
    over = over_for(env, values)
    store = env.flag("store") if n == 1 else True
    given = env.flag("output file given") if n == 1 else False
    with h5mem.files(env) as fs:
        src = fs.folder / "in.csv"
        src.write_text(text, encoding="utf8")
        with quiet(env, hr), method("step", by_row(outs, None)), \
                env.patch(ut, Pool=Pool):
            hr.hdf5runner(
                output_file="o.hdf5" if given else None, input_file=src,
                nworkers=2, output_dir=fs.folder, store_internal=store,
                sonic_method="step", overrides=over, label="lab",
            )
        files = fs.names()
        env.claim("a file for each row", len(files) == n, info=files)
        # a run that failed with an error has no final solution: its file
        # is not (and need not be) readable
        failed = sum(o.error for o in outs)
        env.claim("file names", all(
            f == "o.hdf5" if given else f.startswith("lab") and
            f.endswith(".hdf5") for f in files), info=files)
        seen = set()
        for f in files:
            with h5preserve.open(fs.folder / f, registries, mode="r") as h:
                try:
                    run = h["run"]
                except KeyError:
                    failed -= 1
                    continue
                k = int(float(run.config_input.start))
                seen.add(k)
                o = outs[k]
                want = {f: x for f, x in dict(
                    rows[k], label="lab", **over).items()
                    if f in run.config_input.asdict()}
                if o.error:
                    failed -= 1
                    continue
                check_run(
                    env, "stored", run, o, want, sonic_method="step",
                    use_E_r=values[k]["use_E_r"], config_filename=None,
                    based_on_solution_filename=f"f{k}.hdf5",
                    based_on_solution_solution_name=str(k),
                )
        env.claim("every row", seen >= {k for k in range(n)
                                        if not outs[k].error} and not failed)
        for k, o in enumerate(outs):
            env.claim("each row solved once", len(o.calls) == 1)
            inp, _, kw = o.calls[0]
            all_fields(env, "solver input", inp, values[k])
            env.claim("solver options", kw == dict(store_internal=store))


def one_run(env):
    """The single solver: one solution from the input's start conditions"""
    inp, cons, soln = NS(a=1), NS(b=2), NS(c=3)
    log = []

    def solution(i, c, **kw):
        log.append((i, c, kw))
        if fails:
            raise SolverError("stub")
        return soln
    fails = env.flag("fails")
    store, nof = env.flag("store"), env.flag("no final")
    run = Run(config_input=None, config_filename=None, disc_solver_version="",
              float_type="", sonic_method="")
    before = env.pick("earlier", [0, 2])
    for _ in range(before):
        run.solutions.add_solution(NS())
    with env.patch(single, solution=solution,
                   define_conditions=lambda i: cons if i is inp else None):
        try:
            ok = single.solver(inp, run, store_internal=store,
                               no_final_solution=nof)
        except SolverError:
            env.claim("only the solution's error", fails)
            env.claim("nothing recorded", len(run.solutions) == before)
            return
    env.claim("error passed on", not fails)
    env.claim("arguments", len(log) == 1 and log[0][0] is inp and
              log[0][1] is cons and log[0][2] == dict(store_internal=store))
    env.claim("succeeded", ok is True)
    env.claim("recorded", len(run.solutions) == before + 1 and
              run.solutions[str(before)] is soln)
    if nof:
        env.claim("final left open", run.final_solution is not soln)
        run.final_solution = None
    else:
        env.claim("final", run.final_solution is soln)


def cases(tier):
    kw = dict(extra=tokens.extra, nz_in_path=False)
    n = [1, 2, 3] if tier == "quick" else [1, 2, 3]
    return [
        Case("solve", solve_run, **kw), Case("programs", method_map, **kw),
        Case("runner-commands", runner_commands, **kw),
        Case("chosen-solution", chosen, **kw),
        Case("resolve", resolve_run, **kw), Case("single", one_run, **kw),
    ] + [Case(f"csvrunner-{k}", csv_out, params=dict(n=k), **kw)
         for k in n] + [
        Case(f"hdf5runner-{k}", hdf5_out, params=dict(n=k), **kw) for k in n]
