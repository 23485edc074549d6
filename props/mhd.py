"""
The steady, radially self-similar, resistive MHD equations, written from the
physics (J = curl B, E = resistivity terms - v x B), not from the code.

Vectors are (r, theta, phi); lengths/speeds/fields in midplane units.
"""
from disc_solver.utils import ODEIndex as I

STATE = "B_r B_φ B_θ v_r v_φ v_θ ρ X η_O η_A η_H".split()
ORDER = [
    I.B_r, I.B_φ, I.B_θ, I.v_r, I.v_φ, I.v_θ, I.ρ, I.B_φ_prime, I.η_O, I.η_A,
    I.η_H
]


def cross(a, b):
    return [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]


def current(γ, t, B, dBr, dBp):
    """Self-similar curl of B (times r)"""
    return [
        B[2] * t - dBp,
        B[2] * (γ - 0.25),
        dBr + B[1] * (0.25 - γ),
    ]


def electric(J, B, b, v, η):
    """
    η_O J - η_H J x b + η_A J_perp + v x B (co-rotating sign convention),
    J_perp written without using |b| = 1 in its diagonal.
    """
    η_O, η_A, η_H = η
    JxB = cross(J, b)
    vxB = cross(v, B)
    perp = []
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        perp.append(
            J[i] * (1 - b[i] * b[i]) - J[j] * b[i] * b[j] - J[k] * b[i] * b[k]
        )
    return [
        [η_O * J[i], -1 * (η_H * JxB[i]), η_A * perp[i], vxB[i]]
        for i in range(3)
    ]


def equations(s, d, γ, a_0, nk, t):
    """Residual terms of mass, flux and momentum conservation"""
    Br, Bp, Bt, vr, vp, vt, ρ = s[:7]
    dBr, dBp, dBt, dvr, dvp, dvt, dρ = d[:7]
    g = 0.25 - γ
    return {
        "continuity": (
            [2 * γ * vr, dvt, vt * dρ / ρ, -1 * vt * t], (5, 6)
        ),
        "solenoid": ([dBt, -1 * Bt * t, (γ + 0.75) * Br], (2,)),
        "radial": (
            [vt * dvr, -1 * vr * vr / 2, -1 * vt * vt, -1 * vp * vp, nk,
             2 * γ - 2.5, -1 * a_0 / ρ * Bt * dBr,
             -1 * a_0 / ρ * g * (Bt * Bt + Bp * Bp)], (3,)
        ),
        "azimuthal": (
            [vt * dvp, vr * vp / 2, -1 * t * vt * vp, -1 * a_0 / ρ * Bt * dBp,
             a_0 / ρ * g * Br * Bp, a_0 / ρ * t * Bt * Bp], (4,)
        ),
        "polar": (
            [vr * vt / 2, vt * dvt, t * vp * vp, dρ / ρ,
             a_0 / ρ * g * Bt * Br, a_0 / ρ * Br * dBr, a_0 / ρ * Bp * dBp,
             -1 * a_0 / ρ * Bp * Bp * t], (5, 6)
        ),
    }
