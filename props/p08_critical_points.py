"""P08: MHD wave speeds, Mach numbers and where they pass one"""
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import Case
from mhd import I

from disc_solver import critical_points as cp, utils as ut
from disc_solver.utils import MHD_Wave_Index as W

BOUNDS = (
    "wave speeds: arbitrary real state and sound speed, single states and "
    "arrays of 2; crossings: 4 stored points (thorough: 5) of arbitrary "
    "real values, up to two leading NaN"
)
OUTSIDE = "rounding; NaN after the first number; more than 5 stored points"
STUBS = ["crossing cases: Mach numbers arbitrary"]
ASSUMPTIONS = ["density positive, polar field non-zero (Mach numbers)"]
PI4 = 4 * np.pi


def speeds(env, many):
    shape = 2 if many else 1
    rows = env.asarray([
        [env.real(f"y{k}_{i}") for i in range(11)] for k in range(shape)
    ])
    cs = env.real("cs", pos=True)
    for y in rows:
        env.assume(y[I.ρ] > 0)
        env.assume(y[I.B_θ] != 0)
    got = cp.mhd_wave_speeds(
        values=rows if many else rows[0], sound_speed=cs
    )
    for k, y in enumerate(rows):
        slow, alf, fast = [np.atleast_1d(np.asarray(g))[k] for g in got]
        b2 = (y[I.B_r] ** 2 + y[I.B_φ] ** 2 + y[I.B_θ] ** 2)
        # in units of 4πρ: x = v²·4πρ
        n = PI4 * y[I.ρ]
        env.zero(f"alfven speed[{k}]", alf * n, -1 * y[I.B_θ] ** 2)
        # slow and fast: the roots of x² - (a² + c²) x + a² c² cos²
        env.zero(f"sum of slow and fast[{k}]", n * (slow + fast), -1 * b2,
                 -1 * n * cs ** 2)
        env.zero(f"product of slow and fast[{k}]", n * slow * fast,
                 -1 * cs ** 2 * y[I.B_θ] ** 2)
        # (product, sum and this: slow <= min(alfven, sound) and
        # fast >= max(alfven, sound) follow)
        env.claim(f"slow below fast[{k}]", slow <= fast)


def numbers(env):
    y = env.array("y", 11)
    env.assume(y[I.ρ] > 0)
    env.assume(y[I.B_θ] > 0)
    env.assume(y[I.v_θ] >= 0)
    w = env.reals("slow alfven fast", pos=True)
    seen = []

    def speeds_(*, values, sound_speed=1):
        seen.append((values, sound_speed))
        return w

    with env.patch(cp, mhd_wave_speeds=speeds_):
        m = cp.get_mach_numbers(NS(solution=y))
    for values, cs in seen:
        env.same("speeds of this state", np.asarray(values), y)
        env.equal("in units of the sound speed", cs, 1)
    v2 = y[I.v_θ] ** 2
    env.zero("slow", m[0] ** 2 * w[W.slow], -1 * v2)
    env.equal("sonic", m[1], y[I.v_θ])
    env.zero("alfven", m[2] ** 2 * w[W.alfven], -1 * v2)
    env.zero("fast", m[3] ** 2 * w[W.fast], -1 * v2)
    for i in range(4):
        env.claim(f"non-negative[{i}]", m[i] >= 0)


def units(env):
    """The same units as the equations: v_A² = a_0 B²/ρ"""
    y = env.array("y", 11)
    env.assume(y[I.ρ] > 0)
    env.assume(y[I.B_θ] > 0)
    env.assume(y[I.v_θ] > 0)
    a_0 = env.real("a_0", pos=True)
    m = cp.get_mach_numbers(NS(
        solution=y, initial_conditions=NS(a_0=a_0),
        solution_input=NS(v_a_on_c_s=env.sqrt(a_0)),
    ))
    env.zero("Alfven Mach number in the units of the equations",
             m[2] ** 2 * a_0 * y[I.B_θ] ** 2, -1 * y[I.v_θ] ** 2 * y[I.ρ])


def nan_lead(env, name, n, lead):
    v = env.array(name, n)
    for i in range(lead):
        v[i] = float("nan")
    return v


def first_at(env, a, val, lead):
    """The first index at or beyond `val`, seen from the first number"""
    if lead >= len(a):
        return None
    if bool(a[lead] == val):
        return lead
    below = bool(a[lead] < val)
    for i in range(lead, len(a)):
        if bool(a[i] >= val) if below else bool(a[i] <= val):
            return i
    return None


def crossing(env, n, lead):
    a, val = nan_lead(env, "a", n, lead), env.real("val")
    got = ut.first_closest_index(a, val)
    want = first_at(env, a, val, lead)
    env.claim("first index at or beyond the value", got == want,
              info=(got, want))


def interpolate(env, n, lead):
    ys, val = nan_lead(env, "a", n, lead), env.real("val")
    xs = env.array("x", n)
    for p, q in zip(xs, xs[1:]):
        env.assume(p < q)
    got = ut.interp_for_value(xs=xs, ys=ys, y=val)
    at(env, "", got, xs, ys, val, lead)


def at(env, tag, got, xs, ys, val, lead=0):
    i = first_at(env, ys, val, lead)
    if i is None:
        env.claim(tag + "no crossing, no angle", got is None)
        return
    env.claim(tag + "an angle", got is not None)
    if got is None:
        return
    if bool(ys[i] == val):
        env.equal(tag + "exact point", got, xs[i])
        return
    # between the bracketing points, on the straight line
    env.zero(
        tag + "on the chord", (got - xs[i - 1]) * (ys[i] - ys[i - 1]),
        -1 * (xs[i] - xs[i - 1]) * (val - ys[i - 1]),
        scale=0 if env.sym else 1e-6 * float(
            (abs(xs[i]) + abs(xs[i - 1])) * (abs(ys[i]) + abs(ys[i - 1]))
        ),
    )


def points(env, n):
    """Indices and angles of all four points, each from its own numbers"""
    names = "slow", "sonic", "alfven", "fast"
    which = env.pick("which", range(4))
    xs = env.array("x", n)
    for p, q in zip(xs, xs[1:]):
        env.assume(p < q)
    base = [0.5, 0.9] + [1.5] * (n - 2)
    m = [np.array(base, dtype=object if env.sym else float)
         for _ in range(4)]
    m[which] = env.array("m", n)
    soln = NS(angles=xs)
    with env.patch(cp, get_mach_numbers=lambda s: tuple(m)):
        idx = cp.get_critical_point_indices(soln)
        ang = cp.get_all_sonic_points(soln)
    for k, name in enumerate(names):
        want = first_at(env, m[k], 1, 0)
        env.claim(f"index of {name}", idx[k] == want)
        some = any(bool(v > 1) for v in m[k])
        if not some:
            env.claim(f"{name}: never exceeded, no angle", ang[k] is None)
        else:
            at(env, f"{name}: ", ang[k], xs, m[k], 1)


def closest(env, n):
    xs = env.array("x", n)
    ys = env.array("y", n)
    for p, q in zip(xs, xs[1:]):
        env.assume(p < q)
    v = env.real("v")
    env.assume(v <= xs[-1])
    got = ut.get_closest_value_sorted(xs=xs, ys=ys, x=v)
    d = [abs(x - v) for x in xs]
    near = [k for k in range(n) if all(bool(d[k] <= e) for e in d)]
    if len(near) == 1:
        env.equal("value of the closest stored point", got, ys[near[0]])
    else:
        env.claim("value of one of the closest stored points", env.either(
            *[got == ys[k] for k in near]))
    env.claim("increasing", bool(ut.is_monotonically_increasing(ys)) == all(
        bool(a <= b) for a, b in zip(ys, ys[1:])))


def cases(tier):
    n = 5 if tier == "thorough" else 4
    out = [
        Case("speeds-one", speeds, params=dict(many=False), nan_sqrt=True),
        Case("speeds-many", speeds, params=dict(many=True), nan_sqrt=True),
        Case("numbers", numbers),
        Case("units", units),
        Case("points", points, params=dict(n=n - 1)),
        Case("closest", closest, params=dict(n=n)),
    ]
    for lead in range(3):
        out.append(Case(f"crossing-nan{lead}", crossing,
                        params=dict(n=n, lead=lead)))
        out.append(Case(f"interpolate-nan{lead}", interpolate,
                        params=dict(n=n, lead=lead)))
    return out
