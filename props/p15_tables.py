"""P15: tables and configuration files written and read again"""
import contextlib

import h5preserve
import numpy as np

from symx.harness import Case
import tokens
import h5mem
from p10_config import (
    ALL, FLOATS, INTS, BOOLS, OPT, numbers, texts, same_field, all_fields,
    DEFAULTS,
)
from p14_runs import make_run, texts_of, INITIAL

from disc_solver.file_format import (
    registries, ConfigInput, SolutionInput, MCMCVars, Run, Solution,
    SOLUTION_INPUT_FIELDS,
)
from disc_solver.solve import config as cf, utils as su
from p30_plots import quiet_log
from disc_solver.analyse import utils as au
from disc_solver.analyse import dump_csv as dc, dump_config as dg, stats as an

BOUNDS = (
    "1-2 rows, every number arbitrary in at least one of them; each spelling "
    "of the optional values; header or none; header in any of 3 orders; "
    "surplus columns; comment lines in any place; 1-2 appended writes; every "
    "length of a shorter row without header"
)
OUTSIDE = "csv syntax itself (library code); more rows"
STUBS = ["HDF5 storage in memory", "text of symbolic numbers (as P10)"]


def row_values(env, k, odd):
    """A row's values: all numbers arbitrary; texts"""
    v = numbers(env, f"r{k}_")
    if odd:
        v.update(jump_before_sonic=None, sonic_interp_size=None,
                 interp_slice=slice(None, 4), mcmc_vars=MCMCVars(
                     with_v_r=True, with_v_a=False, with_v_k=True))
    t = texts_of(v)
    if odd:
        t["mcmc_vars"] = "v_r,v_k"
        t["jump_before_sonic"] = t["sonic_interp_size"] = ""
        t["interp_slice"] = "slice(None, 4, None)"
    return v, t


COMMENTS = ["# start,stop", "  # indented", "#", "#a=b"]


def with_comments(env, lines):
    where = env.pick("comments", ["none", "first", "after header", "last",
                                  "everywhere"])
    out = list(lines)
    if where == "first":
        out[:0] = COMMENTS
    elif where == "after header":
        out[1:1] = COMMENTS
    elif where == "last":
        out += COMMENTS
    elif where == "everywhere":
        out = [i for ln in lines for i in (COMMENTS[0], ln, COMMENTS[3])]
    return "\n".join(out) + "\n"


def quoted(cells):
    return ",".join(f'"{c}"' for c in cells)


def read(env, tag, text, label="lab"):
    with h5mem.files(env) as fs:
        p = fs.folder / "t.csv"
        p.write_text(text, encoding="utf8")
        return su.get_csv_inputs(p, label=label)


def check_rows(env, got, values, sources=None, label="lab"):
    env.claim("one input per row", len(got) == len(values), info=len(got))
    if len(got) != len(values):
        return
    for k, (row, v) in enumerate(zip(got, values)):
        row = dict(row)
        if sources:
            env.claim("origin", row.pop("filename", None) == sources[k][0]
                      and row.pop("solution_name", None) == sources[k][1])
        try:
            conf = ConfigInput(**row)
            inp = conf.to_soln_input()
        except (TypeError, ValueError, AttributeError, KeyError) as e:
            env.claim(f"row {k} usable", False, info=repr(e)[:200])
            continue
        env.claim("label", conf.label == label)
        for f in ALL:
            same_field(env, f"row {k}", f, getattr(inp, f), v[f])


def tables(env, header):
    n = env.pick("rows", [1, 2])
    rows = [row_values(env, k, k == 1 or env.flag("odd")) for k in range(n)]
    names = list(SOLUTION_INPUT_FIELDS)
    if header:
        order = env.pick("order", ["kept", "reversed", "γ first"])
        if order == "reversed":
            names = names[::-1]
        elif order == "γ first":
            names = ["γ"] + [i for i in names if i != "γ"]
    sources = None
    extra = []
    if header and env.flag("more columns"):
        extra = ["filename", "max_slow_mach", "solution_name", "Σ"]
        sources = [("a file.hdf5", str(k)) for k in range(n)]
    lines = [quoted(names + extra)] if header else []
    for k, (v, t) in enumerate(rows):
        cells = [t[i] for i in names]
        if extra:
            cells += [sources[k][0], "1.5", sources[k][1], "3"]
        lines.append(quoted(cells))
    got = read(env, "table", with_comments(env, lines))
    check_rows(env, got, [v for v, _ in rows], sources)


def short_rows(env):
    """Tables from versions with fewer fields"""
    v, t = row_values(env, 0, False)
    names = list(SOLUTION_INPUT_FIELDS)
    first_optional = names.index("η_derivs")
    n = env.pick("fields", range(first_optional, len(names) + 1))
    want = dict(v)
    later = dict(
        η_derivs=True, jump_before_sonic=None, use_taylor_jump=True,
        mcmc_vars=None, v_θ_sonic_crit=None, after_sonic=None,
        sonic_interp_size=None, interp_range=10,
        interp_slice=slice(-1000, -100), use_E_r=False,
    )
    for f in names[n:]:
        want[f] = later[f]
    text = quoted([t[i] for i in names[:n]]) + "\n"
    if env.flag("header"):
        text = quoted(names[:n]) + "\n" + text
    check_rows(env, read(env, "table", text), [want])


def comments(env):
    """Comments of a table are kept in order, without their mark"""
    from io import StringIO
    mark = env.pick("mark", ["#", "//"])
    body = [f"{mark}one", "1,2", f"  {mark} two  ", "3,4", mark]
    f = StringIO("\n".join(body) + "\n")
    h = su.CSVReaderHelper(f, comment=mark)
    if env.flag("asked for a header first"):
        h.has_csv_header()
    env.claim("rows", list(h) == ["1,2\n", "3,4\n"])
    env.claim("comments", h.comments == ("one", " two", ""),
              info=h.comments)
    f.seek(0)
    list(h)
    env.claim("read again", h.comments == ("one", " two", ""))
    out = StringIO()
    w = su.CSVWriterHelper(out, comment=mark)
    w.add_comment("a note")
    w.add_metadata({"k": 1, "b": None})
    w.write("5,6\n")
    back = su.CSVReaderHelper(StringIO(out.getvalue()), comment=mark)
    env.claim("written rows", list(back) == ["5,6\n"])
    env.claim("written comments", back.comments == (
        "a note", "k=1", "b=None"))


def stored_run(env, fs, name, final=0, odd=True):
    run, solns = make_run(env, 2, final, tag=name)
    v, _ = row_values(env, 1, odd)
    for f, x in v.items():
        setattr(solns[0][0].solution_input, f, x)
    p = fs.folder / (name + ".hdf5")
    with h5preserve.open(p, registries, mode="x") as h:
        h["run"] = run
    values = [dict(v), {f: getattr(solns[1][0].solution_input, f)
                        for f in ALL}]
    return p, values


def dumped(env):
    """ds-dump: one line of input, with or without header"""
    header = env.flag("header")
    command = env.flag("command")
    times = env.pick("written", [1, 2])
    which = env.pick("solution", ["0", "1", "final", "latest"])
    with h5mem.files(env) as fs:
        p, values = stored_run(env, fs, "a")
        out = fs.folder / "out.csv"
        for k in range(times):
            head = header and k == 0
            if command:
                with env.patch(au, log_handler=quiet_log):
                    dc.dump_main([str(p), which, f"--file={out}"] + [
                        "--with-header"] * head)
            else:
                dc.dump_csv(p, soln_range=which, output_file=out,
                            with_header=head)
        got = su.get_csv_inputs(out, label="new")
        check_rows(env, got, [values[which == "1"]] * times, label="new")




def dumped_config(env):
    which = env.pick("solution", ["0", "1", "final"])
    odd = env.flag("odd")
    with h5mem.files(env) as fs:
        p, values = stored_run(env, fs, "a", odd=odd)
        out = fs.folder / "out.ini"
        if env.flag("overwrites"):
            out.write_text("[config]\nstart = 17\n" * 1)
        if env.flag("command"):
            with env.patch(au, log_handler=quiet_log):
                dg.dump_main([str(p), which, f"--file={out}"])
        else:
            dg.dump_cfg(p, soln_range=which, output_file=out)
        conf = cf.get_input_from_conffile(config_file=out)
        env.claim("label", conf.label == "a label")
        inp = conf.to_soln_input()
        want = values[which == "1"]
        for f in ALL:
            same_field(env, "configuration", f, getattr(inp, f), want[f])


def all_inputs(env, kind):
    """ds-dumpcsv and ds-stats: every solution of every file, then final"""
    bad = env.pick("unreadable", ["none", "first", "last"])
    final = env.pick("final", [0, 1])
    with h5mem.files(env) as fs:
        files, want, names = [], [], []
        a, values = stored_run(env, fs, "a", final=final)
        broken = fs.folder / "broken.hdf5"
        with h5preserve.open(broken, registries, mode="x") as h:
            h["other"] = 1
        files = {"none": [a], "first": [broken, a], "last": [a, broken]}[bad]
        names = [(str(a), "0"), (str(a), "1"), (str(a), "final")]
        want = [values[0], values[1], values[final]]
        out = fs.folder / "out.csv"
        given = env.pick("named", ["directly", "arguments", "input", "both"])
        piped = {"input": files, "both": files[-1:]}.get(given, [])
        argv = [str(f) for f in files if f not in piped]
        argv += ["--with-stdin"] * bool(piped)

        def write(by_hand, command):
            if given == "directly":
                by_hand(an.get_all_solutions(str(f) for f in files),
                        output_file=out)
                return
            with env.patch(an, log_handler=quiet_log, stdin=iter(
                    [f"{f}\n" for f in piped] if piped else ["bogus"])):
                command([f"--file={out}"] + argv)
        if kind == "inputs":
            write(an.write_inputs, an.dump_csv_inputs_main)
            got = su.get_csv_inputs(out, label="new")
            check_rows(env, got, want, label="new")
            return
        x = env.real("statistic")
        funcs = [lambda s: {"Σ": x, "max_diff_E_φ": float(
            s.solution_input.max_steps is not None)}]
        with env.patch(an, STATS_FUNCS=funcs):
            write(an.write_stats, an.stats_main)
        got = su.get_csv_inputs(out, label="new")
        check_rows(env, got, want, names, label="new")


def cases(tier):
    kw = dict(extra=tokens.extra, nz_in_path=False, tol=1e-12)
    return [
        Case("header", tables, params=dict(header=True), **kw),
        Case("no-header", tables, params=dict(header=False), **kw),
        Case("short-rows", short_rows, **kw),
        Case("comments", comments, **kw),
        Case("dump", dumped, **kw),
        Case("dump-config", dumped_config, **kw),
        Case("all-inputs", all_inputs, params=dict(kind="inputs"), **kw),
        Case("all-stats", all_inputs, params=dict(kind="stats"), **kw),
    ]
