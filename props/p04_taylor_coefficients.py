"""P04: the Taylor coefficients off the midplane solve the MHD equations"""
import numpy as np

from symx.harness import Case
from mhd import I
from series import Series

import disc_solver.solve
from disc_solver.solve import deriv_midplane as dm

BOUNDS = (
    "first, second and third order coefficients at arbitrary real midplane "
    "radial and azimuthal speed, sound speed, field index and diffusivities; "
    "both induction closures; diffusivity derivatives on and off; no bound on "
    "magnitudes"
)
OUTSIDE = (
    "rounding; midplane density and vertical field other than one (the "
    "boundary conditions set both to one)"
)
ASSUMPTIONS = ["η_O > 0, η_A >= 0, v_r non-zero"]


def start(env):
    γ, a_0 = env.real("γ"), env.real("a_0", pos=True)
    v_r, v_φ = env.real("v_r", nz=True), env.real("v_φ")
    η_O, η_A = env.real("η_O", pos=True), env.real("η_A", nonneg=True)
    η_H = env.real("η_H")
    ic = env.asarray([0.0] * 11)
    ic[I.B_θ], ic[I.ρ], ic[I.v_r], ic[I.v_φ] = 1.0, 1.0, v_r, v_φ
    ic[I.η_O], ic[I.η_A], ic[I.η_H] = η_O, η_A, η_H
    return γ, a_0, v_r, v_φ, η_O, η_A, η_H, ic


def residuals(γ, a_0, s, η):
    """
    Series of the conservation laws; s maps names to series.  E is
    η_O J - η_H J x b + η_A J_perp + v x B
    """
    g = 0.25 - γ
    n = 4
    t = Series(0, 1, 0, 1 / 3, order=n)
    Br, Bp, Bt = s["B_r"], s["B_φ"], s["B_θ"]
    vr, vp, vt, ρ = s["v_r"], s["v_φ"], s["v_θ"], s["ρ"]
    cont = 2 * γ * vr * ρ + ρ * vt.d() + vt * ρ.d() - ρ * vt * t
    sol = Bt.d() - Bt * t + (γ + 0.75) * Br
    rad = (
        ρ * (vt * vr.d() - 0.5 * vr * vr - vt * vt - vp * vp)
        - a_0 * (Bt * Br.d() + g * (Bt * Bt + Bp * Bp))
    )
    az = ρ * (vt * vp.d() + 0.5 * vr * vp - t * vt * vp) - a_0 * (
        Bt * Bp.d() - g * Br * Bp - t * Bt * Bp
    )
    pol = ρ * (0.5 * vr * vt + vt * vt.d() + t * vp * vp) + ρ.d() + a_0 * (
        g * Bt * Br + Br * Br.d() + Bp * Bp.d() - Bp * Bp * t
    )
    J = [Bp * t - Bp.d(), -1 * g * Bp, Br.d() + g * Bt]
    B, v = [Br, Bt, Bp], [vr, vt, vp]
    # |B|: field squared is 1 + m θ² + ...; inverse magnitude to order θ²
    sq = Br * Br + Bt * Bt + Bp * Bp
    m = sq[2]
    minv = Series(1, 0, -0.5 * m, order=n)
    minv2 = Series(1, 0, -1 * m, order=n)

    def cross(a, b):
        return [
            a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0],
        ]
    JB, vB = cross(J, B), cross(v, B)
    Jd = J[0] * B[0] + J[1] * B[1] + J[2] * B[2]
    E = [
        η[0] * J[i] - η[2] * JB[i] * minv
        + η[1] * (J[i] - Jd * B[i] * minv2) + vB[i] for i in range(3)
    ]
    return dict(
        cont=cont, sol=sol, rad=rad, az=az, pol=pol, Er=E[0], Eθ=E[1], Eφ=E[2]
    )


def recorded(γ, a_0, v_r, v_φ, η_O, η_A, η_H, Br1, Bp1, Bt2, Er2, s):
    """The formulas on record as wrong (see known_findings.txt)"""
    ηP = η_O + η_A
    q = 0.25 - γ
    d_η = [s * x for x in (η_O, η_A, η_H)]
    d_ηP, d_ηH = d_η[0] + d_η[1], d_η[2]
    b2 = -1 * (Br1 * Br1 + Bp1 * Bp1)
    C = η_H / ηP
    k = d_ηH + η_H * b2 - 2 * η_A * Br1 * Bp1
    A1 = (k - C * (d_ηP - 2 * η_A * Bp1 * Bp1)) / ηP
    Z5 = (ηP * ηP + η_H * η_H) / ηP
    ddZ5 = d_ηP - 2 * η_A * Bp1 * Bp1 + A1 * η_H + C * k
    vt1 = -2 * γ * v_r
    Y1 = v_φ * v_φ + a_0 * (
        Br1 * (q + Br1) + Bp1 * Bp1
    ) - v_r * v_r * γ * (1 - 4 * γ)
    Y2 = (
        vt1 * Br1 - v_r * Bt2 - Bp1 * (d_ηH + η_H * (Br1 * q + 1 + b2))
        - (d_ηP - 2 * η_A * Br1 * Br1) * (Br1 + q)
    ) / ηP - Bt2 * q
    Y3 = -1 * (
        A1 * v_r - C * (vt1 * Br1 - v_r * Bt2) + Er2 + v_φ * Bt2 - Bp1 * (
            vt1 + ηP + q * (η_H * Bp1 + η_A * Br1)
            + C * (η_A * Bp1 * q - η_H * (Br1 * q + 1))
        ) + Bp1 * ddZ5
    ) / Z5
    Y4 = 2 * a_0 * (Y2 - Bp1 * (Br1 * (1.25 - γ) - Y1)) - 4 * γ * v_r * v_φ
    Y5 = v_r * (1 - 8 * γ) + 2 * a_0 / Z5
    w = 2 * a_0 * C / Z5 + v_φ
    Y6 = v_φ / Y5 * w - (4 * γ + 1) * v_r / 2 - a_0 / (2 * ηP) * (
        C * η_H / Z5 - 1 - η_H * w / (Z5 * Y5)
    )
    vr2 = (
        a_0 / 2 * (Y3 - Y2 * η_H / ηP + η_H * Y4 / (ηP * Y5 * Z5))
        + v_φ * Y4 / Y5 + 4 * γ * γ * v_r * v_r + a_0 / 2 * (
            Bt2 * Br1 + 2 * Bp1 * Bp1 * q + 2 * Bt2 * q + Y1 * (Br1 + q)
        )
    ) / Y6
    vp2 = Y4 / Y5 - vr2 / Y5 * w
    Bp3 = Y2 - (C * vr2 + vp2) / Z5
    Br3 = Y3 - (η_H * Bp3 + vr2) / ηP
    return vr2, vp2, Bp3, Br3


def coefficients(env, use_E_r, η_derivs):
    γ, a_0, v_r, v_φ, η_O, η_A, η_H, ic = start(env)
    kw = dict(init_con=ic, γ=γ, a_0=a_0)
    f = dm.get_taylor_first_order(**kw)
    s = dm.get_taylor_second_order(η_derivs=η_derivs, use_E_r=use_E_r, **kw)
    h = dm.get_taylor_third_order(η_derivs=η_derivs, use_E_r=use_E_r, **kw)

    X = I.E_r if use_E_r else I.B_φ_prime
    odd = [I.B_r, I.B_φ, I.v_θ]
    even = [
        I.B_θ, I.v_r, I.v_φ, I.ρ, X, I.η_O, I.η_A, I.η_H
    ]
    for name, got, want in (
        ("first", f, odd), ("second", s, even), ("third", h, odd)
    ):
        for i in range(11):
            if i not in want:
                env.equal(f"{name} order has only its own parity[{i}]",
                          got[i], 0)

    z = 0
    S = dict(
        B_r=Series(z, f[I.B_r], z, h[I.B_r] / 6),
        B_φ=Series(z, f[I.B_φ], z, h[I.B_φ] / 6),
        B_θ=Series(1, z, s[I.B_θ] / 2),
        v_r=Series(v_r, z, s[I.v_r] / 2),
        v_φ=Series(v_φ, z, s[I.v_φ] / 2),
        v_θ=Series(z, f[I.v_θ], z, h[I.v_θ] / 6),
        ρ=Series(1, z, s[I.ρ] / 2),
    )
    scale = (
        2 * (f[I.B_r] * f[I.B_r] + f[I.B_φ] * f[I.B_φ] + s[I.B_θ]) - s[I.ρ]
    ) if η_derivs else 0
    for i, name in ((I.η_O, "η_O"), (I.η_A, "η_A"), (I.η_H, "η_H")):
        env.equal(f"{name} follows B²/ρ", s[i], scale * ic[i])
    η = [
        Series(ic[i], z, s[i] / 2) for i in (I.η_O, I.η_A, I.η_H)
    ]
    one = dict(scale=1)
    R = residuals(γ, a_0, S, η)
    env.equal("mass conservation at the midplane", R["cont"][0], 0, **one)
    env.equal("azimuthal momentum at the midplane", R["az"][0], 0, **one)
    env.equal("azimuthal electric field at the midplane", R["Eφ"][0], 0, **one)
    env.equal("flux conservation, first order", R["sol"][1], 0, **one)
    env.equal("vertical balance, first order", R["pol"][1], 0, **one)
    env.equal("mass conservation, second order", R["cont"][2], 0, **one)
    Er2 = (γ - 0.75) * R["Eθ"][1]
    if use_E_r:
        env.equal("Faraday's law for E_r", s[I.E_r], Er2)
    else:
        env.equal("B_φ' and B_φ are one series", s[I.B_φ_prime], h[I.B_φ])

    # radial balance minus its midplane value (which fixes the Kepler speed)
    nk = -1 * R["rad"][0]
    eqs = {
        "v_r second order (radial momentum)": R["rad"][2] + nk * S["ρ"][2],
        "v_φ second order (azimuthal momentum)": R["az"][2],
        "B_φ third order (radial electric field)": R["Er"][2] - Er2 / 2,
        "B_r third order (azimuthal electric field)": R["Eφ"][2],
    }
    rec = recorded(
        γ, a_0, v_r, v_φ, η_O, η_A, η_H, f[I.B_r], f[I.B_φ], s[I.B_θ], Er2,
        scale
    )
    got = [s[I.v_r], s[I.v_φ], h[I.B_φ], h[I.B_r]]
    cut = ()
    if env.sym:
        cut = [(f[I.B_r], env.fresh("Br1")), (f[I.B_φ], env.fresh("Bp1")),
               (s[I.B_θ], env.fresh("Bt2")), (s[I.ρ], env.fresh("ρ2"))]
    for (name, e), x, y in zip(eqs.items(), got, rec):
        env.zero(name, e + 0 * v_r, **one)
        env.zero_any(
            f"only the recorded discrepancy in {name.split(' order')[0]}",
            [x, -1 * y], [e + 0 * v_r], cuts=cut, **one
        )


def cases(tier):
    return [
        Case(f"taylor-{'E_r' if u else 'B_φ_prime'}-η{int(n)}", coefficients,
             params=dict(use_E_r=u, η_derivs=n))
        for u in (True, False) for n in (True, False)
    ]
