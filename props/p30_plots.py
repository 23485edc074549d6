"""P30: plots show the part of the solution asked for, at its angles"""
from contextlib import contextmanager
from types import SimpleNamespace as NS
import importlib

import numpy as np
from scipy.integrate import cumulative_trapezoid

from symx.harness import Case
from symx import core
import tokens
import canvas
import mhd
from mhd import I

from disc_solver.analyse import utils as au
import disc_solver.logging
from disc_solver.utils import MHD_Wave_Index as W

BOUNDS = (
    "solutions of 2 points, every state, angle and limit of the shown part "
    "arbitrary; all options of each plot; both closures"
)
OUTSIDE = "drawing by matplotlib (replaced by a recorder); colours"
STUBS = ["matplotlib", "opening the file", "wave speeds (P08)",
         "log axes of plot_log_lines in whole plots (own case)"]
π = np.pi
N = 2
LABEL = {
    0: "B_r", 1: "B_φ", 2: "B_θ", 3: "v_r", 4: "v_φ", 5: "v_θ", 6: "ρ",
    7: "B_φ'",
}


def module(name):
    return importlib.import_module("disc_solver.analyse." + name)


def a_solution(env, tag="", n=N, internal=True):
    y = env.asarray([env.real(f"{tag}y{r}_{i}") for r in range(n)
                     for i in range(11)]).reshape(n, 11)
    p = env.asarray([env.real(f"{tag}p{r}_{i}") for r in range(n)
                     for i in range(11)]).reshape(n, 11)
    d = env.asarray([env.real(f"{tag}d{r}_{i}") for r in range(n)
                     for i in range(11)]).reshape(n, 11)
    for a in (y, p):
        for r in range(n):
            env.assume(a[r, I.ρ] > 0)
            env.assume(a[r, I.B_θ] > 0)
    θ = env.asarray([env.real(f"{tag}θ{r}", lo=0, hi=1.5) for r in range(n)])
    φ = env.asarray([env.real(f"{tag}φ{r}", lo=0, hi=1.5) for r in range(n)])
    cons = NS(
        norm_kepler_sq=env.real(tag + "nk", pos=True),
        a_0=env.real(tag + "a_0", pos=True), γ=env.real(tag + "γ"),
        init_con=y[0])
    inp = NS(γ=cons.γ, c_s_on_v_k=env.real(tag + "c", pos=True),
             v_a_on_c_s=env.real(tag + "va", pos=True))
    return NS(
        solution=y, angles=θ, initial_conditions=cons, solution_input=inp,
        internal_data=NS(params=p, derivs=d, angles=φ) if internal else None,
        sonic_point=None, sonic_point_values=None, t_roots=None, y_roots=None)


class Waves:
    """Wave speeds squared, per state, as arbitrary positive numbers"""
    def __init__(self, env):
        self.env, self.asked = env, {}

    def of(self, row):
        for k, (r, w) in enumerate(self.asked.values()):
            if all(a is b or (not self.env.sym and a == b)
                   for a, b in zip(r, row)):
                return w
        k = len(self.asked)
        w = [self.env.real(f"wave{k}_{i}", pos=True) for i in range(3)]
        self.asked[k] = (list(row), w)
        return w

    def __call__(self, *, values, sound_speed=1):
        self.env.equal("waves in units of the sound speed", sound_speed, 1)
        return self.env.asarray(
            [[self.of(v)[i] for v in values] for i in range(3)])


def opened(env, runs):
    @contextmanager
    def h5open(filename, registries, mode):
        env.claim("opened for reading", mode == "r")
        yield {"run": runs[filename]}
    return h5open


@contextmanager
def quiet_log(*a, **kw):
    yield


def draw(env, main, argv, runs, mods=(), **patches):
    """The figures a command makes"""
    argv = [str(a) for a in argv]
    with canvas.surface(env) as log, env.patch(
            au, h5open=opened(env, runs), log_handler=quiet_log):
        for m in mods:
            have = {k: v for k, v in patches.items() if hasattr(m, k)}
            if have:
                with env.patch(m, **have):
                    main(argv)
                break
        else:
            main(argv)
    env.claim("one figure", len(log.figures) == 1)
    fig = log.figures[0]
    env.claim("closed", log.closed == [fig])
    return fig, log


def shown(env, angles, lo, hi):
    """Rows with start <= angle in degrees <= stop"""
    out = []
    for r, a in enumerate(angles):
        deg = a * (180 / π)
        if (lo <= deg) and (deg <= hi):
            out.append(r)
    return out


def limits(env):
    return env.real("start"), env.real("stop")


def bounds(env):
    """Start, stop and how to ask for them"""
    if env.flag("no limits given"):
        return 0, 90, ["file", "5"]
    lo, hi = limits(env)
    return lo, hi, ["file", "5", f"--start={lo}", f"--stop={hi}"]


def line(env, name, got, xs, ys, deg=True):
    env.claim(f"{name}: points", len(got.x) == len(xs) == len(got.y)
              == len(ys))
    for k, (a, b) in enumerate(zip(xs, ys)):
        env.equal(f"{name}: place {k}", got.x[k],
                  a * (180 / π) if deg else a)
        env.equal(f"{name}: value {k}", got.y[k], b)


def a_run(soln, use_E_r=False, which="5", label="lab"):
    final = soln if which == "final" else None
    return NS(use_E_r=use_E_r, config_filename="conf", final_solution=final,
              config_input=NS(label=label), solutions={"0": object(), "5": soln})


def column(i, use_E_r):
    return "E_r" if use_E_r and i == 7 else LABEL[i]


def standard(env, what):
    mod = module("plot")
    E = what == "plain" and env.flag("use_E_r")
    soln = a_solution(env)
    lo, hi, argv = 0, 90, ["file", "5"]
    waves = Waves(env)
    speeds = []
    hide = []
    if what == "plain":
        lo, hi, argv = bounds(env)
        if env.flag("portrait"):
            argv.append("--portrait")
    elif what == "waves":
        for k in ("slow", "alfven", "fast", "sonic"):
            if env.flag("with " + k):
                argv.append(f"--with-{k}")
                speeds.append(k)
    else:
        if env.flag("sonic point"):
            soln.sonic_point = env.real("sonic")
            soln.sonic_point_values = env.array("sv", 11)
        if env.flag("roots"):
            soln.t_roots = env.array("root", 2)
            soln.y_roots = env.asarray(
                [[env.real(f"rv{k}_{i}") for i in range(11)]
                 for k in range(2)])
        for k in ("roots", "sonic-angle"):
            if env.flag("hide " + k):
                argv.append(f"--hide-{k}")
                hide.append(k)
    fig, _ = draw(env, mod.plot_main, argv, {"file": a_run(soln, E)}, [mod],
                  mhd_wave_speeds=waves)
    rows = shown(env, soln.angles, lo, hi)
    env.claim("one panel per quantity", len(fig.axes) == 8)
    off = env.sqrt(soln.initial_conditions.norm_kepler_sq)
    for i, ax in enumerate(fig.axes):
        o = off if i == 4 else 0
        lines = list(ax.lines)
        env.claim("names its quantity", column(i, E) in ax.ylabel
                  and ax.ylabel == lines[0].label)
        line(env, LABEL[i], lines.pop(0), [soln.angles[r] for r in rows],
             [soln.solution[r, i] - o for r in rows])
        env.claim("density on a log axis", (ax.scale == "log") == (i == 6))
        if i == 5:
            for k in speeds:
                new = lines.pop(0)
                env.claim("wave named", new.label == {
                    "sonic": "sound"}.get(k, k))
                line(env, k, new, [soln.angles[r] for r in rows], [
                    1 if k == "sonic" else env.sqrt(waves.of(
                        soln.solution[r])[getattr(W, k)]) for r in rows])
        if soln.sonic_point is not None and "sonic-angle" not in hide:
            line(env, "sonic mark", lines.pop(0), [soln.sonic_point],
                 [soln.sonic_point_values[i] - o])
        if soln.t_roots is not None and "roots" not in hide:
            line(env, "root marks", lines.pop(0), list(soln.t_roots),
                 [soln.y_roots[k, i] - o for k in range(2)])
        env.claim("nothing else drawn", not lines)


def one(env, ax, name, angles, values, rows, deg=True):
    """Exactly one curve of these values"""
    env.claim(f"{name}: one curve", len(ax.lines) == 1)
    line(env, name, ax.lines[0], [angles[r] for r in rows],
         [values[r] for r in rows], deg)


class LogLines:
    """plot_log_lines (own case): a plain line"""
    def __call__(self, ax, x, y, *a, **kw):
        ax.plot(x, y, *a, **kw)
        ax.set_yscale("log")


def log_lines(env):
    x, y = env.array("x", 3), env.array("y", 3)
    ax = canvas.Axes()
    au.plot_log_lines(ax, x, y, "-")
    env.claim("log axis", ax.scale == "log")
    env.claim("two curves", len(ax.lines) == 2)
    pos = [k for k in range(3) if y[k] >= 0]
    neg = [k for k in range(3) if k not in pos]
    line(env, "positive", ax.lines[0], [x[k] for k in pos],
         [y[k] for k in pos], False)
    line(env, "negative", ax.lines[1], [x[k] for k in neg],
         [-1 * y[k] for k in neg], False)


def params(env, which):
    mod = module("params_plot" if which == "params" else "derivs_plot")
    main = mod.params_main if which == "params" else mod.derivs_main
    soln = a_solution(env)
    lo, hi, argv = bounds(env)
    E = which == "derivs" and env.flag("use_E_r")
    if which == "derivs" and env.flag("linear"):
        argv.append("--nolog")
    fig, _ = draw(env, main, argv, {"file": a_run(soln, E)}, [mod],
                  plot_log_lines=LogLines())
    data = soln.internal_data
    rows = shown(env, data.angles, lo, hi)
    env.claim("one panel per quantity", len(fig.axes) == 8)
    for i, ax in enumerate(fig.axes):
        env.claim("names its quantity", column(i, E) in ax.title)
        env.claim("axis", (ax.scale == "log") == ("--nolog" not in argv))
        one(env, ax, LABEL[i], data.angles,
            getattr(data, which)[:, i], rows)


def refused(env, name, main):
    mod = module(name)
    soln = a_solution(env)
    E = env.flag("use_E_r")
    soln.internal_data = None
    env.raises("refused without internal data", au.AnalysisError, lambda: draw(
        env, getattr(mod, main), ["file", "5"], {"file": a_run(soln, E)}))


def refused_E_r(env, name, main):
    mod = module(name)
    soln = a_solution(env)
    env.raises("refused with the electric field", au.AnalysisError,
               lambda: draw(env, getattr(mod, main), ["file", "5"],
                            {"file": a_run(soln, True)}))


def current_and_field(env):
    mod = module("j_e_plot")
    soln = a_solution(env, n=1)
    y, θ, cons = soln.solution, soln.angles, soln.initial_conditions
    env.assume(y[0, I.η_O] > 0)
    env.assume(y[0, I.η_A] >= 0)
    dBr = env.real("dBr")
    asked = []

    def deriv_B_r(**kw):
        asked.append(kw)
        return env.asarray([dBr])
    lo, hi, argv = bounds(env)
    fig, _ = draw(env, mod.j_e_plot_main, argv, {"file": a_run(soln)}, [mod],
                  deriv_B_r_func=deriv_B_r)
    rows = shown(env, θ, lo, hi)
    s = y[0]
    m = env.sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2])
    for kw in asked:
        names = dict(B_r=0, B_φ=1, B_θ=2, v_r=3, v_θ=5, deriv_B_φ=7, η_O=8,
                     η_A=9, η_H=10)
        for k, i in names.items():
            env.equal("rate of B_r from the state", kw[k][0], s[i])
        for k, i in dict(b_r=0, b_φ=1, b_θ=2).items():
            env.equal("direction of the field", kw[k][0], s[i] / m)
        env.equal("rate of B_r: index", kw["γ"], cons.γ)
        env.equal("rate of B_r: angle", kw["θ"][0], θ[0])
    B = [s[0], s[2], s[1]]
    J = mhd.current(cons.γ, env.tan(θ[0]), B, dBr, s[7])
    E = mhd.electric(J, B, [x / m for x in B], [s[3], s[5], s[4]],
                     (s[8], s[9], s[10]))
    want = J + [sum(e[1:], e[0]) for e in E]
    names = ["J_r", "J_θ", "J_φ", "E_r", "E_θ", "E_φ"]
    env.claim("six panels", len(fig.axes) == 6)
    for ax, w, name in zip(fig.axes, want, names):
        env.claim("names its quantity", name in ax.ylabel)
        one(env, ax, name, θ, [w], rows)


def check_plot(env, name):
    """Residuals (P25) at their angles"""
    mod = module(name)
    soln = a_solution(env)
    v = NS(initial_conditions=object(), angles=soln.internal_data.angles)
    for k in "E_r E_θ E_r_dash E_θ_dash E_φ_dash J_r J_θ J_φ".split():
        setattr(v, k, env.array(k, N))
    funcs = {}
    used = {}

    def stub(func):
        def residual(cons, values):
            env.claim("of this solution", values is v
                      and cons is v.initial_conditions)
            return used.setdefault(func, env.array("res " + func, N))
        return residual
    for k in dir(mod):
        if k.startswith("validate_") and k not in ("validate_plot",
                                                   "validate_plot_main"):
            funcs[k] = stub(k)

    def values(s):
        env.claim("checks of this solution", s is soln)
        return v
    lo, hi, argv = bounds(env)
    main = {"validate_plot": "validate_plot_main",
            "hydro_check_plot": "hydro_check_plot_main"}[name]
    rows = shown(env, v.angles, lo, hi)
    if not rows:
        # nothing to show: the largest residual does not exist
        return
    fig, _ = draw(env, getattr(mod, main), argv, {"file": a_run(soln)}, [mod],
                  get_values=values, print=lambda *a: None, **funcs)
    panels = fig.axes
    curves = {
        "continuity": "continuity", "solenoid": "solenoid",
        "radial momentum": "radial_momentum",
        "azimuthal momentum": "azimuthal_mometum",
        "polar momentum": "polar_momentum",
        "polar induction": "polar_induction", "E_φ": "E_φ",
    } if name == "validate_plot" else {
        "azimuthal momentum": "hydro_azimuthal_mometum",
        "approximate momenta": "hydro_approximate_momenta",
        "radial momentum (approx method)": "radial_momentum_mod_φ",
    }
    env.claim("every residual", [k.label for k in panels[0].lines]
              == list(curves))
    for k in panels[0].lines:
        res = used["validate_" + curves[k.label]]
        line(env, k.label, k, [v.angles[r] for r in rows],
             [res[r] for r in rows])
    if name == "validate_plot":
        for ax, names in zip(panels[1:], (
            ["E_r", "E_θ"], ["E_r_dash", "E_θ_dash", "E_φ_dash"],
                ["J_r", "J_θ", "J_φ"])):
            env.claim("parts", len(ax.lines) == len(names))
            for k, n in zip(ax.lines, names):
                env.claim("named", k.label == "$" + n.replace(
                    "_dash", "'") + "$")
                line(env, n, k, [v.angles[r] for r in rows],
                     [getattr(v, n)[r] for r in rows])


def surface(env):
    soln = a_solution(env, n=3)
    mod = module("surface_density_plot")
    lo, hi, argv = bounds(env)
    y, θ = soln.solution, soln.angles
    env.assume(θ[0] < θ[1])
    env.assume(θ[1] < θ[2])
    fig, _ = draw(env, mod.surface_density_main, argv,
                  {"file": a_run(soln)}, [mod])
    total = [0]
    for r in (1, 2):
        total.append(total[-1] + (θ[r] - θ[r - 1])
                     * (y[r, I.ρ] + y[r - 1, I.ρ]) / 2)
    one(env, fig.axes[0], "surface density", θ, total,
        shown(env, θ, lo, hi))


def trapezoids(y, x=None, initial=None):
    """scipy's cumulative rule on arbitrary numbers"""
    if not any(isinstance(v, core.Sym) for v in list(y) + list(x)):
        return cumulative_trapezoid(y, x=x, initial=initial)
    out = [] if initial is None else [initial]
    total = 0.0
    for k in range(1, len(y)):
        total = total + (x[k] - x[k - 1]) * (y[k] + y[k - 1]) / 2
        out.append(total)
    return np.array(out, dtype=object)


def components(env):
    mod = module("component_plot")
    soln = a_solution(env)
    lo, hi, argv = bounds(env)
    only = env.pick("only", [None, "b", "missing"])
    if only:
        argv += ["--only", only]
    comp = {}

    def compute(s, indexes, angles):
        env.claim("of this solution", s is soln)
        rows = [r for r in range(N) if indexes[r]]
        env.claim("its angles", len(angles) == len(rows))
        for a, r in zip(angles, rows):
            env.equal("angle", a, soln.angles[r])
        for k in "abc":
            comp[k] = {p: env.asarray([env.real(f"{k}{p}{r}") for r in rows])
                       for p in "xy"}
        return comp
    def run():
        return draw(env, mod.plot_main, argv, {"file": a_run(soln)},
                    [mod], compute_components=compute)
    if only == "missing":
        return env.raises("unknown equation refused", au.AnalysisError, run)
    fig, _ = run()
    rows = shown(env, soln.angles, lo, hi)
    want = [only] if only else list("abc")
    env.claim("panels", [a.ylabel for a in fig.drawn] == want)
    for ax, k in zip(fig.drawn, want):
        env.claim("parts", [x.label for x in ax.lines] == ["x", "y"])
        for x in ax.lines:
            line(env, k, x, [soln.angles[r] for r in rows],
                 list(comp[k][x.label]))


def vertical(env):
    mod = module("vert_plot")
    E = env.flag("use_E_r")
    soln = a_solution(env)
    lo, hi, argv = bounds(env)
    sonic = env.flag("with sonic")
    if sonic:
        argv.append("--with-sonic")
    heights = env.array("height", N)
    vert = env.asarray([[env.real(f"vert{r}_{i}") for i in range(11)]
                        for r in range(N)])
    scale = env.array("scale", N, pos=True)
    inp, cons = soln.solution_input, soln.initial_conditions

    def convert(angles, solution, *, γ, c_s_on_v_k, use_E_r):
        env.claim("converted: this solution", angles is soln.angles
                  and solution is soln.solution and use_E_r == E)
        env.equal("converted: index", γ, inp.γ)
        env.equal("converted: sound speed", c_s_on_v_k, inp.c_s_on_v_k)
        return heights, vert

    def scaling(angles, *, c_s_on_v_k):
        env.claim("scaled: its angles", angles is soln.angles)
        env.equal("scaled: sound speed", c_s_on_v_k, inp.c_s_on_v_k)
        return scale
    fig, _ = draw(env, mod.plot_main, argv, {"file": a_run(soln, E)}, [mod],
                  convert_spherical_to_cylindrical=convert,
                  get_vertical_scaling=scaling)
    rows = [r for r in range(N) if lo <= heights[r] and heights[r] <= hi]
    env.claim("one panel per quantity", len(fig.axes) == 8)
    names = dict(LABEL)
    names[2], names[5] = "B_z", "v_z"
    if E:
        names[7] = "E_r"
    for i, ax in enumerate(fig.axes):
        lines = list(ax.lines)
        env.claim("names its quantity", names[i] in ax.ylabel)
        line(env, names[i], lines.pop(0), [heights[r] for r in rows], [
            vert[r, i] - (env.sqrt(cons.norm_kepler_sq / scale[r])
                          if i == 4 else 0) for r in rows], False)
        if sonic and i == 5:
            line(env, "sound", lines.pop(0), [heights[r] for r in rows],
                 [1 for _ in rows], False)
        env.claim("nothing else drawn", not lines)


def physical(env, waves_shown):
    mod = module("combine_plot")
    soln = a_solution(env)
    lo, hi, argv = (0, 90, ["file", "5"]) if waves_shown else bounds(env)
    norm = dict(B_norm=env.real("B_norm"), v_norm=env.real("v_norm"),
                ρ_norm=env.real("ρ_norm"))

    def normalisation(inp):
        env.claim("norm of this input", inp is soln.solution_input)
        return norm
    waves = Waves(env)
    speeds = []
    if waves_shown:
        for k in ("slow", "alfven", "fast", "sonic"):
            if env.flag("with " + k):
                argv.append(f"--with-{k}")
                speeds.append(k)
    fig, _ = draw(env, mod.combine_main, argv, {"file": a_run(soln)}, [mod],
                  mhd_wave_speeds=waves, get_normalisation=normalisation)
    y, θ = soln.solution, soln.angles
    rows = shown(env, θ, lo, hi)
    km = norm["v_norm"] / 1e5
    off = env.sqrt(soln.initial_conditions.norm_kepler_sq)
    want = [
        [("v_r", [y[r, 3] * km for r in rows]),
         ("v_φ - v_k", [(y[r, 4] - off) * km for r in rows]),
         ("v_θ", [y[r, 5] * km for r in rows])] + [
            ("c_s" if k == "sonic" else k, [
                km if k == "sonic" else km * env.sqrt(
                    waves.of(y[r])[getattr(W, k)]) for r in rows])
            for k in speeds],
        [("ρ", [y[r, 6] * norm["ρ_norm"] for r in rows])],
        [("B_r", [y[r, 0] * norm["B_norm"] for r in rows]),
         ("B_φ", [y[r, 1] * norm["B_norm"] for r in rows]),
         ("B_θ", [y[r, 2] * norm["B_norm"] for r in rows])],
    ]
    env.claim("panels", len(fig.axes) == 3)
    for ax, lines, unit in zip(fig.axes, want, ("km/s", "g cm", "(G)")):
        env.claim("units", unit in ax.ylabel)
        env.claim("curves", [k.label.replace("$", "") for k in ax.lines]
                  == [n for n, _ in lines])
        for got, (n, values) in zip(ax.lines, lines):
            line(env, n, got, [θ[r] for r in rows], values)


def taylor(env, show_values):
    mod = module("taylor_plot")
    soln = a_solution(env)
    data = soln.internal_data
    signed = env.pick("any sign", ["v_r", "v_φ", "ρ"])
    for k in ("v_r", "v_φ", "ρ"):
        for w in ("normal", "taylor"):
            setattr(data, f"{k}_{w}", env.array(f"{k}_{w}", N, **(
                dict(nz=True) if k == signed else dict(pos=True))))
    argv = ["file", "5"] + (["--show-values"] if show_values else [])
    E = env.flag("use_E_r")
    fig, _ = draw(env, mod.taylor_main, argv, {"file": a_run(soln, E)},
                  [mod])
    env.claim("panels", [a.title for a in fig.axes] == ["v_r", "v_φ", "ρ"])
    φ = data.angles
    for ax in fig.axes:
        a, b = [getattr(data, f"{ax.title}_{w}")
                for w in ("normal", "taylor")]
        env.claim("log axis", ax.scale == "log")
        if not show_values:
            one(env, ax, ax.title + " ratio", φ, [
                abs(a[r] / b[r]) for r in range(N)], range(N))
            continue
        want = []
        for x in (a, b):
            pos = [r for r in range(N) if x[r] >= 0]
            neg = [r for r in range(N) if r not in pos]
            want += [(pos, [x[r] for r in pos]),
                     (neg, [-1 * x[r] for r in neg])]
        env.claim("four curves", len(ax.lines) == 4)
        for got, (rows, values) in zip(ax.lines, want):
            line(env, ax.title, got, [φ[r] for r in rows], values)


def jacobians(env, kind):
    """The eigenvalues and vectors used are those of the Jacobians (P21)"""
    mod = module("compute_jacobian")
    soln = a_solution(env)
    E = env.flag("use_E_r")
    lo, hi, argv = bounds(env)
    argv.append("--eps=0.125")
    jac = [object() for _ in range(N)]
    n = 3
    vals = [env.array(f"val{r}", n) for r in range(N)]
    vecs = [env.asarray([[env.real(f"vec{r}_{i}{j}") for j in range(n)]
                         for i in range(n)]) for r in range(N)]

    def of(j):
        return [k for k in range(N) if jac[k] is j][0]

    def from_solution(s, *, eps, θ_scale=1):
        env.claim("Jacobians of this solution", s is soln)
        env.claim("offset", eps == 0.125)
        return jac
    main = getattr(mod, dict(
        values="jacobian_eigenvalues_main",
        vectors="jacobian_eigenvectors_main",
        norm="jacobian_eigenvector_norm_main")[kind])
    with env.patch(mod, plot_log_complex_data=plain_complex):
        fig, _ = draw(
            env, main, argv, {"file": a_run(soln, E)}, [mod],
            compute_jacobian_from_solution=from_solution,
            compute_eigenvalues=lambda j: vals[of(j)],
            compute_eigenvalues_and_eigenvectors=lambda j: (
                vals[of(j)], vecs[of(j)]))
    θ = soln.angles
    rows = shown(env, θ, lo, hi)
    at = [θ[r] for r in rows]
    if kind == "values":
        env.claim("all", len(fig.axes) == 1
                  and [k.label for k in fig.axes[0].lines]
                  == [str(i) for i in range(n)])
        for i, k in enumerate(fig.axes[0].lines):
            line(env, f"eigenvalue {i}", k, at, [vals[r][i] for r in rows])
    elif kind == "norm":
        ax, = fig.axes
        env.claim("one curve per vector", len(ax.lines) == n)
        for j, k in enumerate(ax.lines):
            line(env, f"size of vector {j}", k, at, [
                sum((vecs[r][i, j] * vecs[r][i, j] for i in range(1, n)),
                    vecs[r][0, j] * vecs[r][0, j]) for r in rows])
    elif kind == "vectors":
        env.claim("all", len(fig.drawn) == n)
        for j, ax in enumerate(fig.drawn):
            env.claim("all components", len(ax.lines) == n + 1)
            line(env, f"eigenvalue {j}", ax.lines[0], at,
                 [vals[r][j] for r in rows])
            for i, k in enumerate(ax.lines[1:]):
                env.claim("component named", k.label == str(i))
                line(env, f"component {i} of {j}", k, at,
                     [vecs[r][i, j] for r in rows])


def plain_complex(ax, *, x_data, y_data, **kw):
    ax.plot(x_data, y_data, **kw)


class Complex:
    """An array of complex numbers with symbolic parts"""
    def __init__(self, real, imag):
        self.real, self.imag = real, imag

    def __getitem__(self, k):
        return Complex(self.real[k], self.imag[k])

    def __neg__(self):
        return Complex(-self.real, -self.imag)


def complex_lines(env):
    mod = module("compute_jacobian")
    x = env.array("x", 2)
    y = Complex(env.array("re", 2), env.array("im", 2))
    ax = canvas.Axes()
    mod.plot_log_complex_data(ax, x_data=x, y_data=y, label="a")
    env.claim("four curves", len(ax.lines) == 4 and all(
        k.label == "a" for k in ax.lines))
    env.claim("markers differ", len({k.kw["marker"] for k in ax.lines}) == 4)
    for p, part in enumerate((y.real, y.imag)):
        pos = [k for k in range(2) if part[k] >= 0]
        neg = [k for k in range(2) if k not in pos]
        line(env, "positive", ax.lines[2 * p], [x[k] for k in pos],
             [part[k] for k in pos], False)
        line(env, "negative", ax.lines[2 * p + 1], [x[k] for k in neg],
             [-1 * part[k] for k in neg], False)


def eigen_coefs(env):
    mod = module("compute_jacobian")
    soln = a_solution(env)
    lo, hi, argv = 0, 90, ["file", "5", "--eps=0.125"]
    E = env.flag("use_E_r")
    kind = env.pick("point", ["slow", "sonic", "alfven", "fast"])
    local = env.pick("vectors", [None, "local", "global"])
    argv += ["--critical-point", kind]
    if local:
        argv.append(f"--{local}-eigvecs")
    found = env.pick("found", [0, 1, None])
    where = {"slow": 0, "sonic": 1, "alfven": 2, "fast": 3}
    coefs = env.asarray([[env.real(f"c{r}_{i}") for i in range(11)]
                         for r in range(N)])

    def indices(s):
        out = ["wrong"] * 4
        out[where[kind]] = found
        return out

    def get(s, *, critical_point_index, eps, local_eigvecs):
        env.claim("offset", eps == 0.125)
        env.claim("point", s is soln and critical_point_index == (
            -1 if found is None else found))
        if local:
            env.claim("kind of vectors", local_eigvecs == (local == "local"))
        return coefs
    fig, _ = draw(
        env, mod.jacobian_eigenvector_coef_main, argv,
        {"file": a_run(soln, E)}, [mod], print=lambda *a: None,
        get_critical_point_indices=indices,
        get_eigenvector_coef_around_critical_point=get)
    θ = soln.angles
    rows = shown(env, θ, lo, hi)
    ax, = fig.axes
    env.claim("all", [k.label for k in ax.lines]
              == [str(i) for i in range(11)])
    for i, k in enumerate(ax.lines):
        line(env, f"coefficient {i}", k, [θ[r] for r in rows],
             [coefs[r, i] for r in rows])
    mark = [c for c in ax.calls if c[0] == "axvline"]
    env.claim("point marked", len(mark) == 1
              and mark[0][2]["label"].lower() == kind + " point")
    env.equal("point at its angle", mark[0][1][0],
              θ[-1 if found is None else found] * (180 / π))


def acc(env):
    mod = module("acc_plot")
    soln = a_solution(env)
    norm = dict(B_norm=env.real("B_norm"), v_norm=env.real("v_norm"),
                ρ_norm=env.real("ρ_norm"))

    def normalisation(inp):
        env.claim("norm of this input", inp is soln.solution_input)
        return norm
    fig, _ = draw(env, mod.acc_main, ["file", "5"], {"file": a_run(soln)},
                  [mod], get_normalisation=normalisation)
    y, θ = soln.solution, soln.angles
    rows = [r for r in range(N) if θ[r] * (180 / π) < 1]
    env.claim("panels", len(fig.axes) == 2)
    one(env, fig.axes[0], "torque", θ, [
        y[r, 2] * y[r, 1] * norm["B_norm"] ** 2 * mod.ACC_CONSTANT
        for r in range(N)], rows)
    one(env, fig.axes[1], "wind", θ, [
        y[r, 5] * y[r, 6] * norm["v_norm"] * norm["ρ_norm"]
        * mod.WIND_CONSTANT for r in range(N)], rows)


def frame(env):
    """Title, version, style, size, saving and showing"""
    mod = module("surface_density_plot")
    soln, other = a_solution(env, "a"), a_solution(env, "b")
    run = a_run(soln)
    run.solutions = {"0": soln, "7": other}
    which = env.pick("solution", ["0", "7", "final", "latest"])
    final = env.flag("has final")
    if final:
        run.final_solution = third = a_solution(env, "c")
    want = {"0": soln, "7": other}.get(which) or (third if final else other)
    if which == "final" and not final:
        return
    argv = ["file", which]
    title = env.flag("title")
    if title:
        argv += ["--title", "named"]
    version = env.flag("version")
    if not version:
        argv.append("--no-show-version")
    show, save = env.flag("show"), env.flag("save")
    if show:
        argv.append("--show")
    if save:
        argv += ["--filename", "out.png"]
    size = env.flag("size")
    if size:
        argv += ["--figsize", "3", "4.5"]
    fig, log = draw(env, mod.surface_density_main, argv, {"file": run}, [mod])
    env.claim("the solution asked for", len(fig.axes[0].lines[0].x) == N)
    for r in range(N):
        env.equal("of the solution asked for", fig.axes[0].lines[0].x[r],
                  want.angles[r] * (180 / π))
    env.claim("titled", [c[1][0] for c in fig.said("suptitle")] == [
        "named" if title else f"file:{which}"])
    env.claim("version", [c[1][0] for c in fig.said("supxlabel")] == (
        [au.ds_version] if version else []))
    env.claim("shown", log.shown == (1 if show else 0))
    env.claim("saved", [c[1][0] for c in fig.said("savefig")] == (
        ["out.png"] if save else []))
    env.claim("size", (fig.kw.get("figsize") == [3, 4.5]) == size)


def cases(tier):
    kw = dict(nz_in_path=False, extra={
        **tokens.extra(), cumulative_trapezoid: trapezoids})
    out = [Case(f"standard-{k}", standard, params=dict(what=k), **kw)
           for k in ("plain", "waves", "marks")]
    out.append(Case("log-lines", log_lines, **kw))
    out += [Case(k, params, params=dict(which=k), **kw)
            for k in ("params", "derivs")]
    out += [Case(f"refused-{n}", refused, params=dict(name=n, main=m), **kw)
            for n, m in (
                ("params_plot", "params_main"), ("derivs_plot", "derivs_main"),
                ("validate_plot", "validate_plot_main"),
                ("hydro_check_plot", "hydro_check_plot_main"),
                ("taylor_plot", "taylor_main"))]
    out += [Case(f"refused-E_r-{n}", refused_E_r,
                 params=dict(name=n, main=m), **kw)
            for n, m in (
                ("params_plot", "params_main"),
                ("validate_plot", "validate_plot_main"),
                ("j_e_plot", "j_e_plot_main"),
                ("component_plot", "plot_main"),
                ("hydro_check_plot", "hydro_check_plot_main"))]
    out.append(Case("current-and-field", current_and_field, **kw))
    out += [Case(n, check_plot, params=dict(name=n), **kw)
            for n in ("validate_plot", "hydro_check_plot")]
    out.append(Case("surface_density_plot", surface, **kw))
    out.append(Case("component_plot", components, **kw))
    out.append(Case("vertical", vertical, **kw))
    out += [Case(f"physical{'-waves' if w else ''}", physical,
                 params=dict(waves_shown=w), **kw) for w in (False, True)]
    out += [Case(f"taylor-{'values' if w else 'ratios'}", taylor,
                 params=dict(show_values=w), **kw) for w in (False, True)]
    out += [Case(f"jacobian-{k}", jacobians, params=dict(kind=k), **kw)
            for k in ("values", "vectors", "norm")]
    out += [Case("complex-lines", complex_lines, **kw),
            Case("coefficients", eigen_coefs, **kw),
            Case("acc_plot", acc, **kw), Case("frame", frame, **kw)]
    return out
