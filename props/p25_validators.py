"""P25: the checks of a solution compute the residuals of the equations"""
from types import SimpleNamespace as NS

import mhd
from mhd import I, ORDER
from symx.harness import Case

from disc_solver.analyse import (
    validate_plot as vp, component_plot as cp, hydro_check_plot as hp,
)

BOUNDS = (
    "solutions of two points, every state, rate, angle and parameter "
    "arbitrary, with and without internal data"
)
OUTSIDE = "rounding; numpy.gradient itself (an arbitrary function here)"
STUBS = ["gradient: an arbitrary value per entry, its arguments checked"]
NAMES = {
    "continuity": vp.validate_continuity,
    "solenoid": vp.validate_solenoid,
    "radial": vp.validate_radial_momentum,
    "azimuthal": vp.validate_azimuthal_mometum,
    "polar": vp.validate_polar_momentum,
}

EQUATIONS = ["radial momentum", "azimuthal momentum", "polar momentum",
             "continuity", "solenoid condition", "polar induction"]


def data(env, rows=2):
    y = env.asarray([env.real(f"y{r}_{i}") for r in range(rows)
                     for i in range(11)]).reshape(rows, 11)
    d = env.asarray([env.real(f"d{r}_{i}") for r in range(rows)
                     for i in range(11)]).reshape(rows, 11)
    θ = env.asarray([env.angle(f"θ{r}") for r in range(rows)])
    for r in range(rows):
        env.assume(y[r, I.ρ] > 0)
        env.assume(y[r, I.B_θ] > 0)
        env.assume(y[r, I.η_O] > 0)
        env.assume(y[r, I.η_A] >= 0)
    cons = NS(a_0=env.real("a_0"), γ=env.real("γ"),
              norm_kepler_sq=env.real("nk", pos=True))
    return y, d, θ, cons


def get_values(env, internal):
    y, d, θ, cons = data(env)
    if internal:
        soln = NS(internal_data=NS(params=y, derivs=d, angles=θ),
                  solution="unused", angles="unused",
                  initial_conditions=cons)
        return y, d, θ, cons, vp.get_values(soln)

    def gradient(f, x):
        env.claim("rates with respect to the angle", x is θ)
        for i in range(11):
            if all(f[r] is y[r, i] for r in range(2)):
                return d[:, i]
        env.claim("rate of a quantity", False)

    if not env.sym:
        def gradient(f, x):  # noqa: F811
            for i in range(11):
                if all(f[r] == y[r, i] for r in range(2)):
                    return d[:, i]
            env.claim("rate of a quantity", False)
    soln = NS(internal_data=None, solution=y, angles=θ,
              initial_conditions=cons)
    with env.patch(vp, gradient=gradient):
        return y, d, θ, cons, vp.get_values(soln)


def residuals(env, internal):
    y, d, θ, cons, v = get_values(env, internal)
    for name, func in NAMES.items():
        got = func(v.initial_conditions, v)
        env.claim("one residual per point", len(got) == 2)
        for r in range(2):
            t = env.tan(θ[r])
            terms, _ = mhd.equations(
                y[r], d[r], cons.γ, cons.a_0, cons.norm_kepler_sq, t)[name]
            env.equal(f"{name} {r}", got[r], sum(terms[1:], terms[0]))


def around(env, y, d, θ):
    """Size of the terms that cancel, for the tolerance of replays"""
    if env.sym:
        return []
    B = abs(y[0]) + abs(y[1]) + abs(y[2])
    x = (abs(y[8]) + abs(y[9]) + abs(y[10])) * (
        abs(d[0]) + abs(d[1]) + B * (1 + abs(env.tan(θ))))
    return [x, -x]


def field(env, y, d, θ, γ):
    t = env.tan(θ)
    m = env.sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2])
    B = [y[0], y[2], y[1]]
    b = [x / m for x in B]
    v = [y[3], y[5], y[4]]
    J = mhd.current(γ, t, B, d[0], d[1])
    E = mhd.electric(J, B, b, v, (y[8], y[9], y[10]))
    if env.sym:
        n = [env.fresh(s) for s in ("m", "br", "bt", "bp")]
        subs = [(m, n[0])] + [(x, n[0] * k) for x, k in zip(B, n[1:])]
    else:
        subs = ()
    return J, E, subs


def electric(env, internal, part):
    y, d, θ, cons, v = get_values(env, internal)
    for r in range(2):
        J, E, subs = field(env, y[r], d[r], θ[r], cons.γ)
        if part == "J":
            for k, name in enumerate(("J_r", "J_θ", "J_φ")):
                env.equal(f"{name} {r}", getattr(v, name)[r], J[k])
        elif part == "E":
            for k, name in enumerate(("E_r", "E_θ", "E_φ")):
                got = getattr(v, name)[r]
                env.equal(f"{name} {r}", got, sum(E[k][1:], E[k][0]),
                          subs=subs)
                got = getattr(v, name + "_dash")[r]
                env.equal(f"{name} of the moving gas {r}", got,
                          sum(E[k][1:3], E[k][0]), subs=subs)
        else:
            got = vp.validate_E_φ(v.initial_conditions, v)[r]
            env.equal(f"E_φ is the electric field {r}", got,
                      sum(E[2][1:], E[2][0]), subs=subs)
            got = vp.validate_polar_induction(v.initial_conditions, v)[r]
            env.zero(f"polar induction {r}", got, *E[2],
                     *around(env, y[r], d[r], θ[r]), subs=subs)


def no_outflow(env, part):
    """Residuals of the balance without outflow"""
    y, d, θ, cons = data(env)
    if part == "radial":
        cons.γ = 0
    k = env.sqrt(cons.norm_kepler_sq)
    soln = NS(internal_data=NS(params=y, derivs=d, angles=θ),
              solution="unused", angles="unused", initial_conditions=cons)
    v = vp.get_values(soln)
    got = {
        "azimuthal": hp.validate_hydro_azimuthal_mometum,
        "approximate": hp.validate_hydro_approximate_momenta,
        "radial": hp.validate_radial_momentum_mod_φ,
    }[part](v.initial_conditions, v)
    env.claim("one residual per point", len(got) == 2)
    for r in range(2):
        s = list(y[r])
        s[I.v_θ] = 0
        t = env.tan(θ[r])
        ρ, vr, vp_ = s[6], s[3], s[4]
        if part == "azimuthal":
            terms, _ = mhd.equations(
                s, d[r], cons.γ, cons.a_0, cons.norm_kepler_sq, t)[part]
            env.zero(f"azimuthal {r}", got[r], *[-1 * x for x in terms])
        elif part == "approximate":
            env.assume(vr != 0)
            env.assume(vp_ != 0)
            env.zero(f"torque over angular momentum {r}",
                     (1 - got[r]) * vr * vp_ / 2,
                     -1 * cons.a_0 / ρ * s[2] * d[r][1])
        else:
            # B_r' by E_φ = 0
            e = list(d[r])
            e[0] = 0
            _, E, subs = field(env, s, e, θ[r], 0)
            m = env.sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2])
            e[0] = -1 * sum(E[2][1:], E[2][0]) / (
                s[8] + s[9] * (1 - s[1] * s[1] / (m * m)))
            terms, _ = mhd.equations(
                s, e, 0, cons.a_0, cons.norm_kepler_sq, t)[part]
            env.zero(
                f"radial near Kepler rotation {r}", 2 * k * got[r],
                *[-1 * x for i, x in enumerate(terms) if i != 3],
                2 * k * vp_, -1 * k * k, subs=subs)


def components(env, equation):
    y, d, θ, cons = data(env, 1)
    y, d = y[0], d[0]
    soln = NS(solution=env.asarray([list(y)]), angles="unused",
              initial_conditions=cons)
    got = cp.compute_components(soln, [0], env.asarray([θ[0]]))
    env.claim("equations", list(got) == EQUATIONS)
    parts = {k: x[0] for k, x in got[equation].items()}
    total = parts.pop("all terms")
    env.claim("parts", len(parts) >= 2)
    env.equal("the parts add up", total, sum(parts.values()))
    s = y
    t = env.tan(θ[0])
    dBr = env.real("dB_r")
    subs = ()
    m = env.sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2])
    if env.sym:
        n = [env.fresh(x) for x in ("m", "br", "bt", "bp")]
        subs = [(m, n[0])] + [
            (x, n[0] * k) for x, k in zip((s[0], s[2], s[1]), n[1:])]
    J = mhd.current(cons.γ, t, [s[0], s[2], s[1]], dBr, s[7])
    b = [s[0] / m, s[2] / m, s[1] / m]
    E = mhd.electric(J, [s[0], s[2], s[1]], b, [s[3], s[5], s[4]],
                     (s[8], s[9], s[10]))[2]
    # B_r' by Ohm's law (E_φ = 0), linear in dB_r
    k = s[8] + s[9] * (1 - b[2] * b[2])
    rate = dBr - sum(E[1:], E[0]) / k
    if equation == "polar induction":
        env.equal("the sum is the rate of B_r", total, rate, subs=subs)
        return
    v = env.real("v_θ rate")
    r = env.fresh("rate") if env.sym else rate
    cut = [(rate, r)] if env.sym else ()
    dd = [rate, s[7], 0, 0, 0, v, 0]
    short = {"radial momentum": "radial", "azimuthal momentum": "azimuthal",
             "polar momentum": "polar", "continuity": "continuity",
             "solenoid condition": "solenoid"}[equation]
    terms = dict(mhd.equations(s, dd, cons.γ, cons.a_0,
                               cons.norm_kepler_sq, t))[short][0]
    left = sum(terms[1:], terms[0])
    if equation == "polar momentum":
        # ρ' / ρ by continuity
        con = mhd.equations(s, dd, cons.γ, cons.a_0, cons.norm_kepler_sq,
                            t)["continuity"][0]
        left = s[5] * left - sum(con[1:], con[0])
        want = (s[5] * s[5] - 1) * v
        env.zero("the sum is the rate required", left, -1 * want, -1 * total,
                 subs=subs)
    elif equation == "continuity":
        den = (1 - s[5]) * (1 + s[5])
        pol = mhd.equations(s, [rate, s[7], 0, 0, 0, 0, 0], cons.γ, cons.a_0,
                            cons.norm_kepler_sq, t)
        p = pol["polar"][0]
        c = pol["continuity"][0]
        rate_v = (s[5] * sum(p[1:], p[0]) - sum(c[1:], c[0])) / den
        env.zero("the sum is the rate required",
                 2 * cons.γ * s[3] + rate_v - s[5] * t + total, subs=subs)
    else:
        env.zero("the sum is the rate required", *terms, total,
                 *([] if env.sym else [rate, -rate]), subs=subs)


def cases(tier):
    kw = dict(nz_in_path=False)
    out = []
    for internal in (True, False):
        s = "stored" if internal else "estimated"
        out.append(Case(f"residuals-{s}", residuals,
                        params=dict(internal=internal), **kw))
        for part in ("J", "E", "induction"):
            out.append(Case(f"{part}-{s}", electric,
                            params=dict(internal=internal, part=part), **kw))
    for part in ("azimuthal", "approximate", "radial"):
        out.append(Case(f"no-outflow-{part}", no_outflow,
                        params=dict(part=part), **kw))
    for eq in EQUATIONS:
        out.append(Case(f"components-{eq.replace(' ', '-')}", components,
                        params=dict(equation=eq), **kw))
    return out
