"""P03: the midplane start conditions"""
import numpy as np

from symx.harness import Case
from mhd import I
from series import Series
from p04_taylor_coefficients import residuals

import disc_solver.solve
from disc_solver.file_format import SolutionInput
from disc_solver.solve.config import define_conditions
from disc_solver.solve.utils import SolverError

BOUNDS = (
    "one call at arbitrary real speeds, field index and diffusivities; "
    "3 angles; both induction closures; any one numeric parameter NaN"
)
OUTSIDE = "rounding; more angles (each is an affine function of its index)"
ASSUMPTIONS = [
    "η_O > 0, η_A >= 0, radial inflow, Alfvén and sound speed ratios > 0"
]
N = 3


def solution_input(env, nan="", **kw):
    """A real SolutionInput with arbitrary physical parameters"""
    r = {
        n: env.real(n, nan=(n == nan)) for n in
        "γ v_rin_on_c_s v_a_on_c_s c_s_on_v_k η_O η_H η_A start stop".split()
    }
    for n in "v_rin_on_c_s v_a_on_c_s c_s_on_v_k η_O".split():
        if n != nan:
            env.assume(r[n] > 0)
    if nan != "η_A":
        env.assume(r["η_A"] >= 0)
    d = dict(
        taylor_stop_angle=0.001, max_steps=1000, num_angles=N,
        relative_tolerance=1e-6, absolute_tolerance=1e-10, nwalkers=8,
        iterations=3, threads=1, target_velocity=0.9,
        split_method="v_θ_deriv",
    )
    d.update(r)
    d.update(kw)
    return SolutionInput(**d), r


def start(env, use_E_r, nan):
    inp, r = solution_input(env, use_E_r=use_E_r, nan=nan)
    try:
        cond = define_conditions(inp)
    except SolverError as e:
        cond, message = None, str(e)

    if nan:
        env.claim("NaN input is refused", env.either(
            cond is None, env.no(np.isnan(r[nan]) if not env.sym
                                 else r[nan].isnan())
        ))
        if cond is None:
            return
    vr = -1 * r["v_rin_on_c_s"]
    a_0 = r["v_a_on_c_s"] * r["v_a_on_c_s"]
    nk = 1 / (r["c_s_on_v_k"] * r["c_s_on_v_k"])
    γ, η_O, η_A, η_H = [r[n] for n in ("γ", "η_O", "η_A", "η_H")]
    η_P = η_O + η_A
    # radial balance with B_r' and B_φ' eliminated: v_φ² + p v_φ + q = 0;
    # its larger root is real iff the discriminant is not negative
    p = -1 * vr * η_H / (2 * η_P)
    q = vr * vr / 2 + 2.5 - 2 * γ - nk - a_0 * vr / η_P
    disc = p * p / 4 - q
    if cond is None:
        env.claim("refused only without a real rotation speed", disc < 0)
        env.claim("message names the quantity", "v_φ" in message)
        return
    ic = cond.init_con
    vp = ic[I.v_φ]
    if not nan:
        env.claim("no complex rotation speed", disc >= 0)
        env.equal("larger root", 2 * vp + p, 2 * env.sqrt(disc))

    env.equal("γ", cond.γ, γ)
    env.equal("a_0", cond.a_0, a_0)
    env.equal("Kepler speed squared", cond.norm_kepler_sq, nk)
    for name, want in (
        ("B_r", 0), ("B_φ", 0), ("B_θ", 1), ("v_θ", 0), ("ρ", 1),
        ("v_r", vr), ("η_O", η_O), ("η_A", η_A), ("η_H", η_H)
    ):
        env.equal(name, ic[getattr(I, name)], want)

    z = 0
    Bp1 = vr * vp / (2 * a_0)
    Br1 = γ - 0.25 - (Bp1 * η_H + vr) / η_P
    S = dict(
        B_r=Series(z, Br1), B_φ=Series(z, Bp1), B_θ=Series(1),
        v_r=Series(vr), v_φ=Series(vp), v_θ=Series(z), ρ=Series(1),
    )
    R = residuals(γ, a_0, S, [Series(i) for i in (η_O, η_A, η_H)])
    env.zero("E_φ vanishes (specification)", R["Eφ"][0], scale=1)
    env.zero("azimuthal balance (specification)", R["az"][0], scale=1)
    if not nan:
        env.zero("radial balance", R["rad"][0], nk, 2 * γ - 2.5)
    if use_E_r:
        env.equal("E_r by Ohm's law", ic[I.E_r], R["Er"][0], scale=1)
    else:
        env.equal("B_φ' by azimuthal balance", ic[I.B_φ_prime], Bp1)

    env.claim("number of angles", len(cond.angles) == N)
    rad = np.pi / 180
    for i in range(N):
        env.equal(f"angle[{i}]", cond.angles[i], rad * (
            r["start"] + i * (r["stop"] - r["start"]) / (N - 1)
        ), scale=1e-3)


def cases(tier):
    out = []
    for u in (True, False):
        for nan in ["", "γ", "η_H"] + (
            ["v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_A"]
            if tier == "thorough" else []
        ):
            out.append(Case(
                f"start-{'E_r' if u else 'B_φ_prime'}-{nan or 'real'}", start,
                params=dict(use_E_r=u, nan=nan), nan_sqrt=True,
            ))
    return out
