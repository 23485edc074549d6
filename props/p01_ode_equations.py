"""P01: the right-hand side solves the steady self-similar MHD equations"""
import numpy as np

from symx.harness import Case
import mhd
from mhd import I

import disc_solver.solve
from disc_solver.solve.solution import ode_system

BOUNDS = (
    "one evaluation of the right-hand side at an arbitrary real state, angle, "
    "sound-speed-squared, diffusivities and start conditions; both closures "
    "(field derivative and radial electric field); scalar and array state "
    "(2 rows); diffusivity derivatives on and off; no bound on magnitudes"
)
OUTSIDE = "rounding; θ_scale other than 1 (not reachable from configuration)"
ASSUMPTIONS = [
    "ρ > 0, v_θ > 0, v_θ not 1, midplane density and η_O positive",
    "sqrt and tan by their defining equations (tan unconstrained, so every "
    "angle in (-90°, 90°))",
]


def inputs(env):
    st = env.array("s", 11)
    env.assume(st[6] > 0)
    env.assume(st[5] > 0)
    ic = env.array("i", 11)
    for i in (6, 8):
        env.assume(ic[i] > 0)
    env.assume(st[8] > 0)
    env.assume(st[9] >= 0)
    γ, a_0 = env.real("γ"), env.real("a_0")
    nk = env.real("nk", pos=True)
    θ = env.angle("θ")
    return st, ic, γ, a_0, nk, θ


def names(env):
    return [env.fresh(f"d{i}") for i in range(11)]


def cuts(env, d, keep):
    return [
        (d[i], v) for i, v in enumerate(names(env)) if i not in keep
    ] if env.sym else ()


def unit_subs(env, st, mag):
    """B = m b (proof only)"""
    if not env.sym:
        return ()
    m, br, bp, bt = [env.fresh(n) for n in "m br bp bt".split()]
    return [
        (mag, m), (st[0], m * br), (st[1], m * bp), (st[2], m * bt)
    ]


def rhs(env, use_E_r, *, η_derivs=True, rows=False, **kw):
    st, ic, γ, a_0, nk, θ = inputs(env)
    system, _ = ode_system(
        γ=γ, a_0=a_0, norm_kepler_sq=nk, init_con=ic, use_E_r=use_E_r,
        store_internal=False, η_derivs=η_derivs, derivs_post_solution=rows,
        **kw
    )
    if rows:
        other = env.array("o", 11)
        full = env.asarray([list(other), list(st)])
        d = np.zeros((2, 11), dtype=object if env.sym else float)
        angles = env.asarray([env.angle("θ2"), θ])
        ret = system(angles, full, d)
        d = d[1]
    else:
        d = np.zeros(11, dtype=object if env.sym else float)
        ret = system(θ, st, d)
    env.claim("success", not ret)
    return st, ic, γ, a_0, nk, θ, d


def momentum(env, use_E_r, rows):
    st, ic, γ, a_0, nk, θ, d = rhs(env, use_E_r, rows=rows)
    t = env.tan(θ)
    for name, (terms, keep) in mhd.equations(
        st, d, γ, a_0, nk, t
    ).items():
        env.zero(name, *terms, cuts=cuts(env, d, keep))


def ohm(env, use_E_r, rows):
    st, ic, γ, a_0, nk, θ, d = rhs(env, use_E_r, rows=rows)
    t = env.tan(θ)
    Br, Bp, Bt, vr, vp, vt, ρ, X, eO, eA, eH = st
    mag = env.sqrt(Br * Br + Bp * Bp + Bt * Bt)
    B = [Br, Bt, Bp]
    b = [x / mag for x in B]
    J = mhd.current(γ, t, B, d[0], d[1])
    E = mhd.electric(J, B, b, [vr, vt, vp], (eO, eA, eH))
    us = unit_subs(env, st, mag)
    env.zero("E_φ vanishes", *E[2], cuts=cuts(env, d, (0,)), subs=us)
    if use_E_r:
        env.zero(
            "E_r is Ohm's law", *E[0], -1 * X, cuts=cuts(env, d, (0, 1)),
            subs=us
        )
        # the one discrepancy on record: terms of E_φ = 0 entering with the
        # wrong sign
        q = 0.25 - γ
        br, bt, bp = b
        K = eA * bp * (br * t - bt * q) + eH * (br * q + bt * t)
        C = (eH * bt - eA * br * bp) / (eO + eA * (1 - bp * bp))
        base = E[0] + [-1 * X]
        env.zero_any(
            "no discrepancy but the recorded one", base,
            base + [-2 * C * Bp * K, 2 * C * eA * br * bp * d[1]],
            cuts=cuts(env, d, (0, 1)), subs=us
        )
        env.zero(
            "E_r' is (γ - 3/4) E_θ", d[7], *[(0.75 - γ) * x for x in E[1]],
            cuts=cuts(env, d, (7,)), subs=us
        )
    else:
        env.zero("B_φ' is carried", d[1], -1 * X)


def diffusivity(env, use_E_r, η_derivs):
    st, ic, γ, a_0, nk, θ, d = rhs(env, use_E_r, η_derivs=η_derivs)
    Br, Bp, Bt, vr, vp, vt, ρ = st[:7]
    for i, n in ((8, "η_O"), (9, "η_A"), (10, "η_H")):
        if not η_derivs:
            env.zero(n, d[i] * 1)
            continue
        env.zero(
            n, d[i],
            -1 * ic[i] * 2 * (Br * d[0] + Bp * d[1] + Bt * d[2]) / ρ,
            ic[i] * (Br * Br + Bp * Bp + Bt * Bt) * d[6] / (ρ * ρ),
            cuts=cuts(env, d, (i,))
        )


def sanity(env):
    """A state with negative density or outflow speed is refused"""
    st = env.array("s", 11)
    env.assume(env.either(st[6] < 0, st[5] < 0))
    ic = env.array("i", 11)
    for i in (6, 8):
        env.assume(ic[i] > 0)
    nk = env.real("nk", pos=True)
    system, _ = ode_system(
        γ=env.real("γ"), a_0=env.real("a_0"), norm_kepler_sq=nk, init_con=ic,
        use_E_r=env.flag("use_E_r"), store_internal=False,
    )
    d = np.zeros(11, dtype=object if env.sym else float)
    ret = system(env.angle("θ"), st, d)
    env.claim("refused", ret != 0)
    # CVODE: positive is recoverable (try a smaller step), negative is fatal
    if ret > 0:
        env.claim("retry only for density", st[6] < 0)


def frozen(env):
    """A prescribed dv_θ/dθ is used as given, and ρ' follows from it"""
    st, ic, γ, a_0, nk, θ, d = rhs(
        env, False,
        deriv_v_θ_func=lambda x: env.uf("prescribed", x)
    )
    env.zero("prescribed", d[5], -1 * env.uf("prescribed", θ))
    terms, keep = mhd.equations(
        st, d, γ, a_0, nk, env.tan(θ)
    )["continuity"]
    env.zero("continuity", *terms, cuts=cuts(env, d, keep))


def cases(tier):
    out = []
    for use_E_r in (False, True):
        for rows in (False, True):
            n = ("E_r" if use_E_r else "B_φ_prime") + (
                "-rows" if rows else ""
            )
            p = dict(use_E_r=use_E_r, rows=rows)
            out.append(Case("momentum-" + n, momentum, params=p))
            out.append(Case("ohm-" + n, ohm, params=p))
        for η in (True, False):
            out.append(Case(
                f"diffusivity-{'E_r' if use_E_r else 'B_φ_prime'}-{η}",
                diffusivity, params=dict(use_E_r=use_E_r, η_derivs=η)
            ))
    out.append(Case("sanity", sanity))
    out.append(Case("prescribed-acceleration", frozen))
    return out
