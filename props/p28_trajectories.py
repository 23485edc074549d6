"""P28: stream and field lines follow the solution"""
from fractions import Fraction
from types import SimpleNamespace as NS
import csv
import importlib
import io

import numpy as np

from symx.harness import Case
from symx.core import Sym
import tokens
import h5mem
from mhd import I
from p30_plots import a_solution, a_run, opened, quiet_log, draw

from disc_solver.analyse import utils as au

tr = importlib.import_module("disc_solver.analyse.trajectory")

BOUNDS = (
    "direction: every place, value and power of the radius; 3 arbitrary stored "
    "angles around 4 places; lines: up to 4 steps (thorough: 6), the solution ending at "
    "any of them; files and plot: one or two steps of each line, every state "
    "and angle arbitrary"
)
OUTSIDE = "longer lines (each step depends on the one before only); rounding"
STUBS = ["direction in the case of lines (an arbitrary vector per step)",
         "matplotlib", "opening the file", "MHD points (P08)"]
π = np.pi


class Direction(Sym):
    """An angle known by its cosine and sine"""
    __slots__ = ("c", "s")

    def cos(self):
        return self.c

    def sin(self):
        return self.s

    def tan(self):
        return self.s / self.c

    def __add__(self, o):
        if isinstance(o, Direction):
            c, s = o.c, o.s
        elif isinstance(o, Sym):
            c, s = o.cos(), o.sin()
        else:
            c, s = float(np.cos(o)), float(np.sin(o))
        return direction(Sym.__add__(self, o), self.c * c - self.s * s,
                         self.s * c + self.c * s)

    def __radd__(self, o):
        return self + o


def direction(value, c, s):
    d = Direction(value.e, value.nan)
    d.c, d.s = c, s
    return d


def arctan2(y, x):
    def one(b, a):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            # places with whole distances: exact cosine and sine
            m = round(np.hypot(a, b))
            if m * m != a * a + b * b:
                return np.arctan2(float(b), float(a))
            return direction(
                Sym.lift(float(np.arctan2(float(b), float(a)))),
                Sym.lift(Fraction(float(a)) / m),
                Sym.lift(Fraction(float(b)) / m))
        a, b = Sym.lift(a), Sym.lift(b)
        m = (a * a + b * b).sqrt()
        return direction(a.arctan2(b), a / m, b / m)
    if np.ndim(y) or np.ndim(x):
        y, x = np.broadcast_arrays(y, x)
        out = np.empty(y.shape, dtype=object)
        for i in np.ndindex(y.shape):
            out[i] = one(y[i], x[i])
        return out
    return one(y, x)


def sorted_angles(env, n):
    θ = env.asarray([env.real(f"θ{r}", lo=0, hi=1.5) for r in range(n)])
    for a, b in zip(θ, θ[1:]):
        env.assume(b > a)
    return θ


def nearest(env, θ, x):
    """The stored angles no other is nearer than; empty beyond the last"""
    if not x <= θ[-1]:
        return []
    d = [abs(t - x) for t in θ]
    return [k for k in range(len(θ))
            if all(d[k] <= e for e in d)]


def along(env, name, got, x, y, r, t):
    """got is the unit vector of the field (r, t) at the place (x, y)"""
    wx, wy = r * x - t * y, r * y + t * x
    size = [] if env.sym else [(abs(r) + abs(t)) * (abs(x) + abs(y))]
    env.zero(name + ": direction", got[0] * wy, -1 * (got[1] * wx),
             *size, *[-k for k in size])
    env.claim(name + ": sense", got[0] * wx + got[1] * wy > 0)
    env.equal(name + ": length", got[0] * got[0] + got[1] * got[1], 1)


def anywhere(env, power):
    """Any place below the only stored angle"""
    θ = np.array([1.5])
    r, t = env.array("r", 1), env.array("t", 1)
    α = env.angle("α")
    tα = env.tan(α)
    R = env.real("R", pos=True)
    env.assume(α > 0)
    env.assume(α < 1.5)
    env.assume(tα > 0)
    env.assume(tα < 14)
    c, s = (α.cos(), α.sin()) if env.sym else (np.cos(α), np.sin(α))
    x, y = R * c, R * s

    def atan2(b, a):
        if b is y and a is x:
            return direction(α, c, s)
        return arctan2(b, a)
    env.assume(r[0] * r[0] + t[0] * t[0] > 0)
    p = env.real("power") if power is None else power
    with env.patch(tr, **(dict(arctan2=atan2) if env.sym else {})):
        got = tr.compute_values(
            x=x, y=y, angles=θ, r_vals=r, θ_vals=t, radial_power=p)
    along(env, "field", got, x, y, r[0], t[0])


def closest(env):
    """Any stored angles"""
    θ = sorted_angles(env, 3)
    r, t = env.array("r", 3), env.array("t", 3)
    y, x = env.pick("place", [(0.0, 2.0), (3.0, 4.0), (4.0, 3.0),
                              (5.0, 12.0)])
    near = nearest(env, θ, float(np.arctan2(y, x)))
    for k in near:
        env.assume(r[k] * r[k] + t[k] * t[k] > 0)

    def call():
        return tr.compute_values(
            x=x, y=y, angles=θ, r_vals=r, θ_vals=t, radial_power=-0.5)
    with env.patch(tr, **(dict(arctan2=arctan2) if env.sym else {})):
        if not near:
            env.raises("beyond the solution", IndexError, call)
            return
        got = call()
    env.claim("one or two nearest", len(near) in (1, 2))
    if len(near) == 1:
        k, = near
        along(env, "field", got, x, y, r[k], t[k])


def lines(env, max_n):
    n = env.pick("most steps", list(range(max_n + 1)))
    ends = env.pick("solution ends at call", list(range(n + 2)))
    again = env.flag("for good")
    h = env.real("step", pos=True)
    start = env.real("x"), env.real("y")
    calls = []
    rv, tv, θ, p = object(), object(), object(), env.real("power")

    def values(*, x, y, angles, r_vals, θ_vals, radial_power):
        k = len(calls)
        env.claim("of this field", angles is θ and r_vals is rv
                  and θ_vals is tv)
        env.equal("of this power", radial_power, p)
        if k == ends or (again and k == ends + 1):
            calls.append((x, y, None))
            raise IndexError("end of the solution")
        # the same place has the same direction
        for a, b, v in calls:
            if a is x and b is y and v is not None:
                calls.append((x, y, v))
                return v
        v = env.asarray([env.real(f"u{k}"), env.real(f"v{k}")])
        calls.append((x, y, v))
        return v
    with env.patch(tr, compute_values=values):
        v, z = tr.get_trajectory(
            x_start=start[0], y_start=start[1], angles=θ, r_vals=rv,
            θ_vals=tv, radial_power=p, max_steps=n, step_scaling=h)
    env.claim("at most so many", len(v) == len(z) <= n)
    good = [c for c in calls if c[2] is not None]
    env.claim("all good places and directions kept", len(good) == len(z))
    for k, c in enumerate(good):
        env.equal("place x", z[k][0], c[0])
        env.equal("place y", z[k][1], c[1])
        env.claim("its direction", bool(v[k][0] is c[2][0] or env.same(
            "direction", v[k][0], c[2][0]) is None))
        env.equal("direction y", v[k][1], c[2][1])
    if not calls:
        env.claim("no step asked for", n == 0)
        return
    env.equal("starts there, x", calls[0][0], start[0])
    env.equal("starts there, y", calls[0][1], start[1])
    last = None     # last good place with direction
    scale, moved = h, True
    for k, (x, y, u) in enumerate(calls):
        if k:
            if last is None:
                env.equal("stays, x", x, start[0])
                env.equal("stays, y", y, start[1])
            elif moved:
                env.equal(f"step {k} x", x, last[0] + scale * last[2][0])
                env.equal(f"step {k} y", y, last[1] + scale * last[2][1])
            else:
                # after a shortened step the place may be taken twice
                env.equal(f"again {k} x", x, last[0])
                env.equal(f"again {k} y", y, last[1])
        if u is None:
            scale = scale * 0.01
            moved = True
        else:
            moved = not (k and calls[k - 1][2] is None)
            last = (x, y, u)
    failed = [k for k, c in enumerate(calls) if c[2] is None]
    if len(failed) == 2:
        env.claim("ends with the solution", failed[1] == len(calls) - 1)
    else:
        env.claim("all steps taken", len(z) == n)


def points(env):
    return [env.real(f"point{k}", lo=0.01, hi=1.4)
            if k == 1 or env.flag(f"has point {k}") else None
            for k in range(4)]


def setup(env):
    s = a_solution(env)
    env.assume(s.angles[1] > s.angles[0])
    # both start places are inside
    env.assume(s.angles[1] >= 0.75)
    for r in range(2):
        for a, b in ((I.v_r, I.v_θ), (I.B_r, I.B_θ)):
            y = s.solution
            env.assume(y[r, a] * y[r, a] + y[r, b] * y[r, b] > 0)
    return s


def near_row(env, s, x, y):
    a = float(np.arctan2(y, x))
    d = [abs(t - a) for t in s.angles]
    return 0 if d[0] < d[1] else 1


def patched(env, mhd):
    kw = dict(get_all_sonic_points=lambda soln: tuple(mhd))
    if env.sym:
        kw["arctan2"] = arctan2
    return env.patch(tr, **kw)


STARTS = {"v": (4.0, 3.0), "B": (12.0, 5.0)}


def read_rows(path):
    text = path.read_text(encoding="utf8")
    body = [k for k in text.splitlines() if not k.startswith("#")]
    return text, list(csv.DictReader(io.StringIO("\n".join(body))))


def files(env):
    s = setup(env)
    mhd = points(env)
    y = s.solution
    with h5mem.files(env) as fs, env.patch(
            au, h5open=opened(env, {"in.hdf5": a_run(s)}),
            log_handler=quiet_log), patched(env, mhd):
        out = {k: fs.folder / (k + ".csv") for k in ("v", "B", "stats")}
        argv = ["in.hdf5", "5", "--v-max-steps=1", "--B-max-steps=1"]
        for k, (a, b) in STARTS.items():
            argv += [f"--{k}-start-position", str(a), str(b)]
        argv += [f"--{k}-output-file={p}" for k, p in out.items()]
        tr.traj_main([str(a) for a in argv])
        text, (row,) = read_rows(out["stats"])
        env.claim("source noted", "filename=in.hdf5" in text
                  and "soln_range=5" in text)
        for k, v in zip(("slow", "sonic", "alfven", "fast"), mhd):
            cell = row[k + "_angle"]
            if v is None:
                env.claim("no " + k, cell == "")
            else:
                env.equal(k, number(env, cell), v)
        env.equal("largest angle", number(env, row["max_soln_angle"]),
                  s.angles[1])
        for k, (a, b) in STARTS.items():
            text, rows = read_rows(out[k])
            env.claim(k + ": one step", len(rows) == 1)
            got = {i: number(env, rows[0][i])
                   for i in ("x", "y", k + "_x", k + "_y")}
            env.equal(k + " x", got["x"], a)
            env.equal(k + " y", got["y"], b)
            n = near_row(env, s, a, b)
            i, j = (I.v_r, I.v_θ) if k == "v" else (I.B_r, I.B_θ)
            along(env, k, [got[k + "_x"], got[k + "_y"]], a, b,
                  y[n, i], y[n, j])


def number(env, text):
    v = tokens.lookup(text) if env.sym else None
    return float(text) if v is None else v


def plot(env):
    s = setup(env)
    mhd = points(env)
    argv = ["in.hdf5", "5", "--v-max-steps=1", "--B-max-steps=1"]
    for k, (a, b) in STARTS.items():
        argv += [f"--{k}-start-position", str(a), str(b)]
    top = env.flag("largest angle of the stream line")
    if not top:
        argv.append("--no-max-v-angle")
    with patched(env, mhd):
        fig, _ = draw(env, tr.plot_main, argv, {"in.hdf5": a_run(s)}, [])
    ax, = fig.axes
    env.claim("two lines", len(ax.lines) == 2)
    for got in ax.lines:
        k = "v" if "stream" in got.label else "B"
        env.claim("named", ("field line" in got.label) == (k == "B"))
        env.claim(k + " starts there", [float(v) for v in got.x + got.y]
                  == list(STARTS[k]))
    slopes = [(a, kw) for name, a, kw in ax.calls if name == "axline"]
    want = [mhd[1].tan() if env.sym else np.tan(mhd[1])]
    if top:
        want.append(STARTS["v"][1] / STARTS["v"][0])
    env.claim("rays", len(slopes) == len(want))
    for (a, kw), w in zip(slopes, want):
        env.claim("from the centre", a == ((0, 0),))
        env.equal("slope", kw["slope"], w)


def cases(tier):
    kw = dict(nz_in_path=False, extra=tokens.extra)
    steps = 4 if tier == "quick" else 6
    return [
        Case("velocity", anywhere, params=dict(power=-0.5), **kw),
        Case("field", anywhere, params=dict(power=None), **kw),
        Case("closest", closest, **kw),
        Case("lines", lines, params=dict(max_n=steps), **kw),
        Case("files", files, **kw),
        Case("plot", plot, **kw),
    ]
