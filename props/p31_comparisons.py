"""P31: plots comparing solutions show each under its own name"""
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import Case
import tokens
import canvas
from mhd import I
from p30_plots import (
    a_solution, a_run, draw, module, limits, shown, line, Waves, LABEL, W,
)

from disc_solver.analyse import utils as au

BOUNDS = (
    "1-2 solutions of 2 points from one or two files, every state, angle and "
    "limit of the shown part arbitrary; all options of each plot"
)
OUTSIDE = "drawing by matplotlib (replaced by a recorder); more solutions"
STUBS = ["matplotlib", "opening the file", "wave speeds and Mach numbers (P08)",
         "surface density and outflow in their plot (P26)"]


def two(env, n=2, fixed=False):
    """Two runs of different files, one solution asked for of each"""
    a, b = a_solution(env, "a"), a_solution(env, "b")
    runs = {"one": a_run(a), "two": a_run(b)}
    runs["two"].solutions = {"3": b, "0": object()}
    lo, hi = (0, 90) if fixed else limits(env)
    if fixed:
        for s in (a, b):
            for t in s.angles:
                env.assume((t > 0) & (t < 1))
    argv = ["-r", "one", "5"]
    if n == 2:
        argv += ["-r", "two", "3"]
    if n == 3:
        # a final solution that does not exist is left out
        argv += ["-r", "one", "final", "-r", "two", "3"]
    names = ["one:5", "two:3"][:min(n, 2)]
    if fixed or n == 1 and env.flag("no limits given"):
        return list(zip(names, (a, b))), runs, 0, 90, argv
    return list(zip(names, (a, b))), runs, lo, hi, argv + [
        f"--start={lo}", f"--stop={hi}"]


def whole(env):
    n = env.pick("how many", [1, 2, 3])
    return two(env, n, fixed=n == 3)


def curves(env, ax, solns, xs, ys, lo, hi):
    env.claim("one curve per solution", [k.label for k in ax.lines]
              == [n for n, _ in solns])
    env.claim("told apart", len({str(k.kw.get("color"))
                                 for k in ax.lines}) == len(solns))
    for (name, s), k in zip(solns, ax.lines):
        θ = xs(s)
        rows = shown(env, θ, lo, hi)
        line(env, name, k, [θ[r] for r in rows], [ys(s, r) for r in rows])


def named(env, fig):
    """A legend gives every curve drawn its own name"""
    key = fig.key()
    env.claim("no wrong name", all(k.label == name for k, name in key))
    env.claim("all names are shown", {
        k.label for ax in fig.axes for k in ax.lines
    } <= {name for _, name in key})


def compare(env, quantity):
    mod = module("compare_plot")
    solns, runs, lo, hi, argv = whole(env)
    scale = env.pick("scale", [None, "log", "linear"]
                     if 5 in quantity else [None])
    if scale:
        argv += ["--v_θ", scale]
    fig, _ = draw(env, mod.plot_main, argv, runs, [mod])
    named(env, fig)
    axes = fig.drawn
    env.claim("one panel per quantity", len(axes) == 8)
    for i, ax in enumerate(axes):
        env.claim("names its quantity", LABEL[i] in ax.ylabel)
        env.claim("axis", ax.scale == (
            "log" if i == 6 or (i == 5 and scale == "log") else "linear"))
        if i not in quantity:
            continue
        curves(env, ax, solns, lambda s: s.angles, lambda s, r: (
            s.solution[r, i] - (env.sqrt(
                s.initial_conditions.norm_kepler_sq) if i == 4 else 0)),
            lo, hi)


def v_deriv(env):
    mod = module("v_deriv_cmp")
    solns, runs, lo, hi, argv = whole(env)
    fig, _ = draw(env, mod.plot_main, argv, runs, [mod])
    named(env, fig)
    curves(env, fig.axes[0], solns, lambda s: s.internal_data.angles,
           lambda s, r: s.internal_data.derivs[r, I.v_θ], lo, hi)


def v_deriv_refused(env):
    mod = module("v_deriv_cmp")
    solns, runs, lo, hi, argv = two(env)
    solns[env.pick("without", [0, 1])][1].internal_data = None
    env.raises("refused without internal data", au.AnalysisError,
               lambda: draw(env, mod.plot_main, argv, runs, [mod]))


def ratios(env):
    mod = module("sonic_ratio_plot")
    solns, runs, lo, hi, argv = whole(env)
    mach = {n: [env.array(f"mach{k} {n}", 2) for k in range(4)]
            for n, _ in solns}

    def numbers(soln):
        return mach[[n for n, s in solns if s is soln][0]]
    fig, _ = draw(env, mod.plot_main, argv, runs, [mod],
                  get_mach_numbers=numbers)
    env.claim("panels", [a.ylabel for a in fig.axes]
              == ["$v_θ/v_a$", "$v_θ/v_f$"])
    named(env, fig)
    for ax, k in zip(fig.axes, (2, 3)):
        curves(env, ax, solns, lambda s: s.angles,
               lambda s, r: numbers(s)[k][r], lo, hi)


def physics(env):
    mod = module("phys_ratio_plot")
    solns, runs, lo, hi, argv = two(
        env, fixed=env.flag("whole range"))
    same = env.flag("same field"), env.flag("same inflow")
    a, b = solns[0][1], solns[1][1]
    if same[0]:
        b.initial_conditions.a_0 = a.initial_conditions.a_0
    else:
        env.assume(a.initial_conditions.a_0 != b.initial_conditions.a_0)
    b.initial_conditions.init_con = b.initial_conditions.init_con.copy()
    if same[1]:
        b.initial_conditions.init_con[I.v_r] = \
            a.initial_conditions.init_con[I.v_r]
    else:
        env.assume(a.initial_conditions.init_con[I.v_r]
                   != b.initial_conditions.init_con[I.v_r])
    got = {}
    for name, s in solns:
        s.initial_conditions.η_A = env.real("η_A " + name)
        got[name] = env.real("Σ " + name, pos=True), env.real("M " + name)

    def value(k):
        def of(soln, indexes):
            name = [n for n, s in solns if s is soln][0]
            rows = shown(env, soln.angles, lo, hi)
            env.claim("of the shown part", [
                r for r in range(2) if indexes[r]] == rows)
            return got[name][k]
        return of
    fig, _ = draw(env, mod.plot_main, argv, runs, [mod],
                  compute_Σ=value(0), compute_M_dot_out_on_M_dot_in=value(1))
    env.claim("panels", len(fig.axes) == 2)
    for k, ax in enumerate(fig.axes):
        env.claim("one mark per solution", [p.label for p in ax.lines]
                  == [n for n, _ in solns])
        for p, (name, s) in zip(ax.lines, solns):
            Σ, M = got[name]
            cons, c = s.initial_conditions, s.solution_input.c_s_on_v_k
            line(env, name, p, [cons.η_A / c], [M if k else cons.a_0 / Σ],
                 False)
        p, q = ax.lines
        env.claim("marker by field", (p.kw["marker"] == q.kw["marker"])
                  == same[0])
        env.claim("colour by inflow", (p.kw["color"] == q.kw["color"])
                  == same[1])


def one_file(env, what):
    """Divergence and mass flux: every solution of a file"""
    mod = module("diverge_plot" if what == "diverge" else "conserve_plot")
    a, b, c = [a_solution(env, t) for t in "abc"]
    stored = {"10": c, "0": a, "2": b}
    run = NS(use_E_r=False, solutions=stored, final_solution=None)
    lo, hi = limits(env) if what == "conserve" else (0, 90)
    if what == "conserve":
        for t in c.angles:
            env.assume((t > lo * (np.pi / 180)) & (t < hi * (np.pi / 180)))
    argv = ["file", f"--start={lo}", f"--stop={hi}"]
    order = ["0", "2", "10"]
    speeds, hide = [], False
    waves = Waves(env)
    if what == "diverge":
        order = env.pick("shown", [["0", "2", "10"], ["2", "0"], ["10"]])
        if len(order) < 3:
            argv.append("--solutions=" + ",".join(order))
        hide = len(order) == 2 and env.flag("hide the legend")
        if hide:
            argv.append("--hide-legend")
        for k in ("slow", "alfven", "fast"):
            if env.flag("with " + k):
                argv.append(f"--with-{k}")
                speeds.append(k)
    import mplcursors
    with env.patch(mplcursors, cursor=lambda ax: canvas.Any([], "cursor")):
        fig, _ = draw(env, getattr(mod, what + "_main"), argv, {"file": run},
                      [mod], mhd_wave_speeds=waves)
    if hide:
        env.claim("no legend asked for", fig.key() == [])
    else:
        named(env, fig)
    ax, = fig.axes
    lines = list(ax.lines)
    env.claim("curves", len(lines) == len(order) * (1 + len(speeds)))
    for name in order:
        s = stored[name]
        y = s.solution
        rows = shown(env, s.angles, lo, hi)
        first = lines.pop(0)
        env.claim("named", first.label == name)
        line(env, name, first, [s.angles[r] for r in rows], [
            y[r, I.v_θ] * (y[r, I.ρ] if what == "conserve" else 1)
            for r in rows])
        for k in speeds:
            new = lines.pop(0)
            env.claim("wave of this solution", new.label == k
                      and str(new.kw["color"]) == str(first.kw["color"]))
            line(env, f"{k} of {name}", new, [s.angles[r] for r in rows], [
                env.sqrt(waves.of(y[r])[getattr(W, k)]) for r in rows])


def filters(env, **_):
    parse = module("diverge_plot").parse_solution_filter
    text, want = env.pick("filter", [
        ("3", ["3"]), (" 3 , 1", ["3", "1"]), ("0-2", ["0", "1", "2"]),
        ("1,4-6,2", ["1", "4", "5", "6", "2"]), (" 2-3 ", ["2", "3"]),
    ])
    env.claim("solutions of the filter", list(parse(text)) == want)


def colours(env):
    n = env.pick("solutions", list(range(1, 61)))
    got = au.distinct_color_map(n)
    env.claim("a colour for each", len(got) >= n)
    env.claim("all different", len({tuple(float(v) for v in c[:3])
                                    for c in got[:n]}) == n)


def cases(tier):
    kw = dict(nz_in_path=False, extra=tokens.extra())
    out = [Case(f"compare-{k[0]}-{k[-1]}", compare, params=dict(quantity=k),
                **kw) for k in ([0, 1], [2, 3], [4, 5], [6, 7])]
    out += [Case("rates", v_deriv, **kw),
            Case("rates-refused", v_deriv_refused, **kw),
            Case("mach-ratios", ratios, **kw), Case("physics", physics, **kw)]
    out += [Case(k, one_file, params=dict(what=k), **kw)
            for k in ("diverge", "conserve")]
    out.append(Case("filters", filters, use_shim=False))
    out.append(Case("colours", colours, use_shim=False))
    return out
