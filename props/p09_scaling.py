"""P09: moving a solution to other radii and to cylindrical coordinates"""
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import Case
from mhd import I

from disc_solver import utils as ut
from disc_solver.constants import G
from disc_solver.utils import CylindricalODEIndex as C, DiscSolverError

BOUNDS = (
    "one state, and arrays of 2 states, of arbitrary reals at arbitrary "
    "radii > 0 / angles in (-90°, 90°), field index and sound speed; the "
    "field index enters through arbitrary real powers of the radius"
)
OUTSIDE = "rounding; angles at 90° and beyond; the radial electric field"
STUBS = []
ASSUMPTIONS = ["c_s/v_k > 0, radii > 0"]

V = (I.v_r, I.v_φ, I.v_θ)
B = (I.B_r, I.B_φ, I.B_θ, I.B_φ_prime)
E = (I.η_O, I.η_A, I.η_H)


def powers(env, r, γ):
    """Self-similar scalings: v ~ r^-1/2, B ~ r^(γ-5/4), ρ ~ r^(2γ-3/2)"""
    half = env.sqrt(r)
    out = [None] * 11
    for i in V:
        out[i] = 1 / half
    for i in B:
        out[i] = r ** (γ - 5 / 4)
    for i in E:
        out[i] = half
    out[I.ρ] = r ** (2 * γ - 3 / 2)
    return out


def states(env, n):
    return env.asarray(
        [[env.real(f"y{k}_{i}") for i in range(11)] for k in range(n)]
    )


def radii(env, many):
    n = 2 if many else 1
    y, r, γ = states(env, n), env.array("r", n, pos=True), env.real("γ")
    before = y.copy()
    got = ut.scale_solution_to_radii(
        y if many else y[0], r if many else r[0], γ=γ, use_E_r=False
    )
    env.same("stored states untouched", y, before)
    env.claim("shape", got.shape == (y.shape if many else y[0].shape))
    got = np.atleast_2d(got)
    for k in range(n):
        p = powers(env, r[k], γ)
        for i in range(11):
            env.equal(f"scaled[{k},{I(i).name}]", got[k, i], y[k, i] * p[i])
    env.raises(
        "radial electric field refused", DiscSolverError,
        ut.scale_solution_to_radii, y, r, γ=γ, use_E_r=True,
    )


def cylinder(env, many):
    n = 2 if many else 1
    y, γ = states(env, n), env.real("γ")
    θ = env.asarray([env.angle(f"θ{k}") for k in range(n)])
    h = env.real("c_s_on_v_k", pos=True)
    before = y.copy()
    heights, got = ut.convert_spherical_to_cylindrical(
        θ if many else θ[0], y if many else y[0], γ=γ, c_s_on_v_k=h,
        use_E_r=False,
    )
    env.same("stored states untouched", y, before)
    env.claim("shape", got.shape == (y.shape if many else y[0].shape))
    got, heights = np.atleast_2d(got), np.atleast_1d(heights)
    scales = np.atleast_1d(ut.get_vertical_scaling(
        θ if many else θ[0], c_s_on_v_k=h
    ))
    for k in range(n):
        t = env.tan(θ[k])
        # at cylindrical radius one: spherical radius 1/cos
        r = env.sqrt(1 + t * t)
        env.zero(f"height in scale heights[{k}]", heights[k] * h, -1 * t)
        env.equal(f"radius[{k}]", scales[k], r)
        p = powers(env, r, γ)
        s = [y[k, i] * p[i] for i in range(11)]
        cos, sin = 1 / r, t / r
        for i in ("v", "B"):
            a, b = s[I[i + "_r"]], s[I[i + "_θ"]]
            R, z = got[k, C[i + "_r"]], got[k, C[i + "_z"]]
            env.zero(f"{i} outwards[{k}]", R, -1 * a * cos, b * sin)
            env.zero(f"{i} upwards[{k}]", z, -1 * a * sin, -1 * b * cos)
        for name in ("v_φ", "B_φ", "ρ", "η_O", "η_A", "η_H", "B_φ_prime"):
            env.equal(f"{name}[{k}]", got[k, C[name]], s[I[name]])
    env.raises(
        "radial electric field refused", DiscSolverError,
        ut.convert_spherical_to_cylindrical, θ, y, γ=γ, c_s_on_v_k=h,
        use_E_r=True,
    )


def norms(env):
    """Physical units from the input: c_s, v_A -> B, η = r c_s"""
    inp = NS(c_s_on_v_k=env.real("h", pos=True),
             v_a_on_c_s=env.real("va", pos=True))
    r, m, ρ = env.reals("r m ρ", pos=True)
    n = ut.get_normalisation(inp, radius=r, mass=m, density=ρ)
    cs = n["v_norm"]
    # c_s = h v_k, v_k² = G M / r
    env.zero("sound speed", cs ** 2 * r, -G * m * inp.c_s_on_v_k ** 2)
    env.claim("sound speed positive", cs > 0)
    # v_A² = B² / 4πρ
    env.zero("field", n["B_norm"] ** 2,
             -4 * np.pi * ρ * (inp.v_a_on_c_s * cs) ** 2)
    env.claim("field positive", n["B_norm"] > 0)
    env.equal("density", n["ρ_norm"], ρ)
    env.equal("diffusivity", n["η_norm"], r * cs)


def circular(env):
    θ = env.angle("θ", gt=0, lt=1.57)
    t = env.tan(θ)
    env.assume(t != 0)
    r = env.sqrt(1 + t * t)
    env.equal("sec", ut.sec(θ), r)
    env.zero("cot", ut.cot(θ) * t, -1.0)
    env.zero("cosec", ut.cosec(θ) * t, -1 * r)


def cases(tier):
    out = [Case("units", norms), Case("secant", circular)]
    for many in (False, True):
        tag = "many" if many else "one"
        out.append(Case(f"radii-{tag}", radii, params=dict(many=many)))
        out.append(Case(f"cylinder-{tag}", cylinder, params=dict(many=many)))
    return out
