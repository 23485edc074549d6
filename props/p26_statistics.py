"""P26: the statistics of a solution are those of its values"""
from types import SimpleNamespace as NS
import contextlib

import numpy as np
import scipy.integrate

from symx.harness import Case
from symx.shim import sym_isnan as isnan
from mhd import I
from p30_plots import a_solution

from disc_solver.analyse import stats as st, phys_ratio_plot as pr

BOUNDS = (
    "solutions of 2-3 points, every state, angle, rate and parameter "
    "arbitrary; Mach numbers and residuals arbitrary, Mach numbers NaN at "
    "any points"
)
OUTSIDE = "the inflow through the inner and outer edge as physics"
STUBS = [
    "Mach numbers, sonic points (P08); residuals (P25); conversion to "
    "heights (P09): arbitrary values, what they are given checked",
    "Simpson's rule: the integral of the parabola through the points",
]
π = np.pi


def simpson(y, x=None, **kw):
    """The integral of the parabola through the points"""
    y = list(y)
    x = list(range(len(y))) if x is None else list(x)
    if kw or len(x) != len(y):
        raise TypeError("unexpected use of Simpson's rule")
    if len(x) == 2:
        return (y[0] + y[1]) / 2 * (x[1] - x[0])
    h, k = x[1] - x[0], x[2] - x[1]
    w = h + k
    return w / 6 * ((2 - k / h) * y[0] + w * w / (h * k) * y[1]
                    + (2 - h / k) * y[2])


def ordered(env, s):
    for a, b in zip(s.angles, s.angles[1:]):
        env.assume(b > a)
    return s


def part(env, n):
    """Which points are used"""
    if n == 2 or not env.flag("a part"):
        return list(range(n)), {}
    rows = env.pick("points", [[0, 1], [1, 2], [0, 2]])
    if env.flag("mask"):
        return rows, dict(indexes=np.array([r in rows for r in range(n)]))
    return rows, dict(indexes=np.array(rows))


def density(env, n):
    s = ordered(env, a_solution(env, n=n))
    rows, kw = part(env, n)
    env.equal("surface density", pr.compute_Σ(s, **kw), simpson(
        [s.solution[r, I.ρ] for r in rows], [s.angles[r] for r in rows]))


def flux(env, n, known):
    """Through both surfaces, between the two radii"""
    s = ordered(env, a_solution(env, n=n))
    y, θ, γ = s.solution, s.angles, s.initial_conditions.γ
    env.assume(γ != 0)
    rows, kw = part(env, n)
    a, b = 0.1, 100.0
    if env.flag("other edges"):
        # whole numbers are fine
        a, b = 2, 10
        kw.update(r_in=a, r_out=b)
        a, b = 2.0, 10.0
    last = rows[-1]
    Δ = (b ** (2 * γ) - a ** (2 * γ)) / (2 * γ)
    out = 4 * π * Δ * y[last, I.ρ] * y[last, I.v_θ]
    inward = -4 * π * simpson(
        [y[r, I.ρ] * y[r, I.v_r] for r in rows], [θ[r] for r in rows]
    ) * (a ** (2 * γ - 1) - b ** (2 * γ - 1))
    got = pr.compute_M_dot_out(s, **kw)
    if known:
        # a cone at height θ is smaller than the plane by cos θ
        c = env.real("cosine", gt=0, lt=1)
        env.equal("outflow leaves through a cone", got, out * c)
        return
    env.equal("outflow", got, out)
    env.equal("inflow", pr.compute_M_dot_in(s, **kw), inward)
    env.assume(inward != 0)
    env.equal("their ratio", pr.compute_M_dot_out_on_M_dot_in(s, **kw),
              out / inward)


def largest(env, got, values, name):
    """got is the largest of the values; returns where it is"""
    env.claim(name + ": one of the values",
              env.either(*[got == v for v in values]))
    env.claim(name + ": the largest", env.both(*[got >= v for v in values]))


def mach(env, which):
    s = a_solution(env, n=3)
    names = ["slow", "sonic", "alfven", "fast"]
    values = []
    for k in names:
        values.append(env.asarray(
            [env.real(f"{k}{r}", nan=True) for r in range(3)]
            if k == which else [0.5, 0.25, 0.125]))
    mine = values[names.index(which)]
    left = [r for r in range(3) if not bool(isnan(mine[r]))]

    def numbers(soln):
        env.claim("of this solution", soln is s)
        return tuple(values)
    with env.patch(st, get_mach_numbers=numbers):
        got = st.get_max_mach_numbers(s)
    env.claim("names", set(got) == {
        f"max_{k}_mach{e}" for k in names for e in ("", "_angle_degrees")})
    m, a = got[f"max_{which}_mach"], got[f"max_{which}_mach_angle_degrees"]
    if not left:
        env.claim("nothing known", bool(isnan(m)) and bool(isnan(a)))
        return
    largest(env, m, [mine[r] for r in left], "Mach number")
    env.claim("at its angle", env.either(*[env.both(
        mine[r] == m, abs(a - s.angles[r] * (180 / π)) <= 1e-9)
        for r in left]))
    for k in names:
        if k != which:
            env.equal("other speed", got[f"max_{k}_mach"], 0.5)
            env.equal("other angle", got[f"max_{k}_mach_angle_degrees"],
                      s.angles[0] * (180 / π))


def sonic_points(env):
    s = object()
    values = [env.real(f"p{k}") if env.flag(f"has {k}") else None
              for k in range(4)]

    def points(soln):
        env.claim("of this solution", soln is s)
        return tuple(values)
    with env.patch(st, get_all_sonic_points=points):
        got = st.labelled_get_all_sonic_points(s)
    env.claim("named", set(got) == {
        k + "_sonic_point" for k in ("slow", "sonic", "alfven", "fast")})
    for k, v in zip(("slow", "sonic", "alfven", "fast"), values):
        g = got[k + "_sonic_point"]
        if v is None:
            env.claim("missing", g is None)
        else:
            env.equal(k, g, v)


def jet(env):
    s = a_solution(env, n=3)
    heights = env.array("height", 3)
    vert = env.asarray([[env.real(f"vert{r}_{i}", nan=i == I.v_θ)
                         for i in range(11)] for r in range(3)])
    env.assume(not bool(isnan(vert[0, I.v_θ])))
    inp = s.solution_input

    def convert(angles, solution, *, γ, c_s_on_v_k, use_E_r):
        env.claim("converted: this solution", angles is s.angles
                  and solution is s.solution and not use_E_r)
        env.equal("converted: index", γ, inp.γ)
        env.equal("converted: sound speed", c_s_on_v_k, inp.c_s_on_v_k)
        return heights, vert
    with env.patch(st, convert_spherical_to_cylindrical=convert):
        got = st.compute_max_vert_jet_velocity(s)
    v = vert[:, I.v_θ]
    left = [r for r in range(3) if not bool(isnan(v[r]))]
    largest(env, got["max_jet_v_z"], [v[r] for r in left], "velocity")
    env.claim("at its height", env.either(*[env.both(
        got["max_jet_v_z"] == v[r], got["max_jet_v_z_height"] == heights[r])
        for r in left]))


CHECKS = [
    ("continuity", "validate_continuity"), ("solenoid", "validate_solenoid"),
    ("radial_momentum", "validate_radial_momentum"),
    ("azimuthal_momentum", "validate_azimuthal_mometum"),
    ("polar_momentum", "validate_polar_momentum"),
    ("polar_induction", "validate_polar_induction"), ("E_φ", "validate_E_φ"),
]


def residuals(env, which):
    s = object()
    values = NS(initial_conditions=object())
    size = {k: env.array(k, 3) if k == which else
            env.asarray([0.5, -0.25, 0.125]) for k, _ in CHECKS}

    def get(soln):
        env.claim("of this solution", soln is s)
        return values

    def check(k):
        def f(cons, v):
            env.claim("of these values",
                      cons is values.initial_conditions and v is values)
            return size[k]
        return f
    with env.patch(st, get_values=get, **{f: check(k) for k, f in CHECKS}):
        got = st.compute_max_difference_in_equations(s)
    env.claim("names", set(got) == {"max_diff_" + k for k, _ in CHECKS})
    for k, _ in CHECKS:
        if k == which:
            largest(env, got["max_diff_" + k], [abs(v) for v in size[k]], k)
        else:
            env.equal(k, got["max_diff_" + k], 0.5)


def single(env, n):
    s = ordered(env, a_solution(env, n=n))
    y, θ = s.solution, s.angles
    Σ, M = env.real("Σ"), env.real("M")
    B = env.array("B", n)

    def given(x):
        def f(soln, *a, **kw):
            env.claim("of this whole solution", soln is s
                      and not a and not kw)
            return x
        return f
    with env.patch(st, compute_Σ=given(Σ),
                   compute_M_dot_out_on_M_dot_in=given(M),
                   compute_B_poloidal_vs_B_toroidal=given(B)):
        got = st.singluar_stats(s)
    env.equal("surface density", got["Σ"], Σ)
    env.equal("outflow", got["M_dot_out_on_M_dot_in"], M)
    largest(env, got["max_B_p_on_B_t"], list(B), "field ratio")
    env.equal("last angle", got["max_angle_reached_degrees"],
              θ[-1] * (180 / π))
    env.same("ends low", bool(got["v_θ_ends_low"]),
             bool(y[n - 1, I.v_θ] <= 10))
    below = [r for r in range(n) if θ[r] * (180 / π) <= 20]
    rising = all(bool(y[b, I.v_θ] >= y[a, I.v_θ])
                 for a, b in zip(below, below[1:]))
    env.same("rises", bool(got["v_θ_starts_monotonic"]), rising)


def field(env, known):
    s = a_solution(env)
    y = s.solution
    got = st.compute_B_poloidal_vs_B_toroidal(s)
    for r in range(2):
        env.assume(y[r, I.B_φ] != 0)
        p = env.sqrt(y[r, I.B_r] * y[r, I.B_r] + y[r, I.B_θ] * y[r, I.B_θ])
        if known:
            env.equal("poloidal on toroidal", got[r], p / y[r, I.B_φ])
        else:
            env.equal(f"field ratio {r}", got[r], y[r, I.B_φ] / p)


def all_columns(env):
    """Every statistic has its column; those that fail lose only their row"""
    names = set()
    s = a_solution(env, n=3)
    ordered(env, s)
    with contextlib.ExitStack() as stack:
        v = env.array("v", 4)
        stack.enter_context(env.patch(
            st, get_mach_numbers=lambda x: [s.angles] * 4,
            get_all_sonic_points=lambda x: list(v),
            compute_Σ=lambda x: v[0],
            compute_M_dot_out_on_M_dot_in=lambda x: v[1],
            convert_spherical_to_cylindrical=lambda *a, **kw: (
                s.angles, s.solution),
            get_values=lambda x: NS(initial_conditions=None),
            **{f: lambda *a: s.angles for _, f in CHECKS}))
        out = st.compute_solution_stats(s, metadata={
            "filename": "f", "solution_name": "0"})
    names = set(out)
    env.claim("columns", names <= set(st.FIELD_NAMES))
    env.claim("all columns filled", set(st.FIELD_NAMES) - names
              == set(st.SOLUTION_INPUT_FIELDS))


def failing(env):
    import io
    import csv
    bad = [env.flag(f"{k} fails") for k in range(3)]
    solns = []
    for k in range(3):
        solns.append((f"file{k // 2}", str(k % 2), NS(
            k=k, solution_input=NS(asdict=lambda k=k: {"start": str(k)}))))
    if env.flag("one file without final solution"):
        solns.insert(1, ("file0", "final", None))

    def stat(s):
        if bad[s.k]:
            raise ValueError("no")
        return {"Σ": str(s.k)}
    out = io.StringIO()

    @contextlib.contextmanager
    def stream(f, mode):
        env.claim("appended", f == "out.csv" and mode == "a")
        yield out
    with env.patch(st, STATS_FUNCS=[stat], open_or_stream=stream):
        st.write_stats(iter(solns), output_file="out.csv")
    rows = list(csv.DictReader(io.StringIO(out.getvalue())))
    want = [(f"file{k // 2}", str(k % 2), str(k), str(k))
            for k in range(3) if not bad[k]]
    env.claim("rows", [(r["filename"], r["solution_name"], r["start"],
                        r["Σ"]) for r in rows] == want, info=rows)


def cases(tier):
    kw = dict(nz_in_path=False, extra={scipy.integrate.simpson: simpson})
    out = [Case(f"density-{n}", density, params=dict(n=n), **kw)
           for n in (2, 3)]
    out += [Case(f"flux-{n}", flux, params=dict(n=n, known=False), **kw)
            for n in (2, 3)]
    out += [Case("flux-cone", flux, params=dict(n=2, known=True), **kw),
            Case("field", field, params=dict(known=False), **kw),
            Case("field-named", field, params=dict(known=True), **kw)]
    out += [Case("mach-" + k, mach, params=dict(which=k), **kw)
            for k in ("slow", "sonic", "alfven", "fast")]
    out += [Case("residual-" + k, residuals, params=dict(which=k), **kw)
            for k, _ in CHECKS]
    out += [Case("sonic-points", sonic_points, **kw), Case("jet", jet, **kw)]
    out += [Case(f"single-{n}", single, params=dict(n=n), **kw)
            for n in (2, 3)]
    out += [Case("columns", all_columns, **kw),
            Case("failing", failing, use_shim=False)]
    return out
