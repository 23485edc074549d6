"""P02: the second-derivative closure is the derivative of Ohm's law"""
import numpy as np

from symx.dual import Dual
from symx.harness import Case
import mhd
from p01_ode_equations import inputs, cuts, names

import disc_solver.solve
from disc_solver.solve.solution import ode_system

BOUNDS = (
    "one evaluation of the right-hand side (field-derivative closure) at an "
    "arbitrary real state, angle, diffusivities and start conditions with "
    "non-zero field; no bound on magnitudes"
)
OUTSIDE = "rounding; θ_scale other than 1"
ASSUMPTIONS = [
    "ρ > 0, v_θ > 0, v_θ not 1",
    "B_θ non-zero (v_r is eliminated through E_φ = 0 for the proof)",
]


def closure(env, η_derivs):
    st, ic, γ, a_0, nk, θ = inputs(env)
    system, _ = ode_system(
        γ=γ, a_0=a_0, norm_kepler_sq=nk, init_con=ic, use_E_r=False,
        store_internal=False, η_derivs=η_derivs,
    )
    d = np.zeros(11, dtype=object if env.sym else float)
    env.claim("success", not system(θ, st, d))

    t = env.tan(θ)
    q = 0.25 - γ
    mag = env.sqrt(st[0] * st[0] + st[1] * st[1] + st[2] * st[2])
    fresh = names(env)
    # B_φ' is both a state variable and a derivative
    D = [d[i] if i != 1 else st[7] for i in range(11)]
    S = [Dual(st[i], D[i]) for i in range(11)]
    Br, Bp, Bt, vr, vp, vt, ρ, _, eO, eA, eH = S
    bv = [st[0] / mag, st[1] / mag, st[2] / mag]
    dm = bv[0] * D[0] + bv[1] * D[1] + bv[2] * D[2]
    b = [
        Dual(bv[i], (D[i] - bv[i] * dm) / mag) for i in (0, 2, 1)
    ]
    T = Dual(t, 1 + t * t)
    g = Dual(γ)

    J = [
        Bp * T - Dual(D[1], d[7]), Bp * (g - 0.25),
        # B_r'' is eliminated below
        Dual(D[0], 0) + Bt * (0.25 - g),
    ]
    E = mhd.electric(J, [Br, Bt, Bp], b, [vr, vt, vp], (eO, eA, eH))
    E = [sum(x[1:], x[0]) for x in E]
    # dE_φ/dθ = 0 gives B_r''; substitute it into dE_r/dθ
    kφ = eO.v + eA.v * (1 - b[2].v * b[2].v)
    kr = eH.v * b[1].v - eA.v * b[0].v * b[2].v
    dEr = E[0].d - kr * E[2].d / kφ
    Eθ = E[1].v

    G = eO * T + eA * (
        (1 - b[0] * b[0]) * T + b[0] * b[1] * (0.25 - g)
    ) + (0.25 - g) * eH * b[2]
    recorded = (Bp * G).d

    cut, subs = (), ()
    if env.sym:
        cut = cuts(env, d, (1, 7))
        m, br, bp, bt = [env.fresh(n) for n in "m br bp bt".split()]
        # v_r from E_φ = 0 with B_r' kept as a variable
        Jm = mhd.current(γ, t, [m * br, m * bt, m * bp], fresh[0], st[7])
        z = st[3] * 0
        Eφ = mhd.electric(
            Jm, [m * br, m * bt, m * bp], [br, bt, bp], [z, st[5], z],
            (st[8], st[9], st[10])
        )[2]
        subs = [
            (mag, m), (st[0], m * br), (st[1], m * bp), (st[2], m * bt),
            (st[3], -1 * sum(Eφ[1:], Eφ[0]) / (m * bt)),
        ]
    env.zero(
        "B_φ'' differentiates Ohm's law", dEr, (0.75 - γ) * Eθ, cuts=cut,
        subs=subs
    )
    env.zero_any(
        "no discrepancy but the recorded one",
        [dEr, (0.75 - γ) * Eθ], [dEr, (0.75 - γ) * Eθ, -2 * recorded],
        cuts=cut, subs=subs
    )


def cases(tier):
    return [
        Case(f"closure-{η}", closure, params=dict(η_derivs=η))
        for η in (True, False)
    ]
