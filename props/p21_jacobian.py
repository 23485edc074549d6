"""P21: Jacobians of existing solutions"""
from types import SimpleNamespace as NS
import inspect

import numpy as np

from symx.harness import Case
from p03_start_conditions import solution_input

from disc_solver.analyse import compute_jacobian as cj
from disc_solver.solve import solution as sol
from disc_solver.file_format import InitialConditions

BOUNDS = (
    "solutions of 1-3 points, every state, angle, parameter and offset "
    "arbitrary; both closures, diffusivity derivatives on and off; "
    "eigenvectors: every permutation type tried with arbitrary states"
)
OUTSIDE = "eigenvalues and inverses themselves (scipy); plots (P30)"
STUBS = ["the equations: an arbitrary function (their content is P01)",
         "eigenvectors for the coefficients: fixed invertible matrices"]
SIGNATURE = inspect.signature(sol.ode_system)


def system_of(env, seen):
    def system(*args, **kw):
        b = SIGNATURE.bind(*args, **kw)
        b.apply_defaults()
        a = b.arguments
        seen.append(a)
        tag = f"{a['η_derivs']}-{a['use_E_r']}-{a['with_taylor']}"
        tag += str(a["v_θ_sonic_crit"]) + str(a["deriv_v_θ_func"])
        given = [a["γ"], a["a_0"], a["norm_kepler_sq"], a["θ_scale"]] + list(
            a["init_con"])

        def rhs(θ, y, d):
            if np.ndim(y) == 1:
                for i in range(11):
                    d[i] = env.uf(f"d{i}-{tag}", θ, *y, *given)
                return 0
            for r in range(y.shape[0]):
                for i in range(11):
                    d[r, i] = env.uf(f"d{i}-{tag}", θ[r], *y[r], *given)
            return 0
        return rhs, None
    return system


def a_solution(env, n, η_derivs, use_E_r):
    y = env.asarray([env.real(f"y{r}_{i}") for r in range(n)
                     for i in range(11)]).reshape(n, 11)
    inp, _ = solution_input(env, use_E_r=use_E_r, η_derivs=η_derivs)
    cons = InitialConditions(
        norm_kepler_sq=env.real("nk"), a_0=env.real("a_0"),
        γ=env.real("cons γ"), angles=None,
        init_con=env.asarray([env.real(f"c{i}") for i in range(11)]))
    return NS(solution=y, angles=env.asarray(
        [env.real(f"θ{r}") for r in range(n)]), solution_input=inp,
        initial_conditions=cons)


def want(env, soln, r, i, c, e):
    cons, inp = soln.initial_conditions, soln.solution_input
    tag = f"{inp.η_derivs}-{inp.use_E_r}-FalseNoneNone"
    given = [cons.γ, cons.a_0, cons.norm_kepler_sq, 1.0] + list(cons.init_con)

    def f(sign):
        y = list(soln.solution[r])
        y[c] = y[c] + sign * e
        return env.uf(f"d{i}-{tag}", soln.angles[r], *y, *given)

    return (f(1) - f(-1)) / (2 * e)


def jacobian(env, n, at):
    soln = a_solution(env, n, env.flag("η_derivs"), env.flag("use_E_r"))
    e = env.real("eps", pos=True)
    kept = soln.solution.copy()
    seen = []
    with env.patch(cj, ode_system=system_of(env, seen)):
        if at is None:
            J = cj.compute_jacobian_from_solution(soln, eps=e)
            rows = range(n)
        else:
            J = [cj.compute_jacobian_at_index(soln, eps=e, index=at)]
            rows = [at]
    env.claim("size", len(J) == len(rows) and all(
        np.shape(j) == (11, 11) for j in J))
    for j, r in zip(J, rows):
        for i in range(11):
            for c in range(11):
                env.equal(f"dependence of {i} on {c}", j[i, c],
                          want(env, soln, r, i, c, e))
    env.claim("solution kept", all(
        a is b or a == b for a, b in zip(soln.solution.flat, kept.flat)))


def matrix(k):
    """An invertible matrix whose inverse is exact"""
    m = np.zeros((11, 11))
    for i in range(11):
        m[i, (i * 3 + k) % 11] = 2.0 if i % 2 else -0.5
    m[0, (4 + k) % 11] = 1.0
    return m


def coefficients(env, n, local):
    soln = a_solution(env, n, True, False)
    at = env.pick("critical point", list(range(n)) + [-1])
    tags = {}

    def eig(j):
        k = int(j[0, 0])
        return np.zeros(11), matrix(k)

    def from_solution(s, *, eps, **kw):
        env.claim("solution and offset", s is soln and eps == 0.125)
        return np.array([np.full((11, 11), float(r)) for r in range(n)])

    def at_index(s, *, eps, index, **kw):
        env.claim("point and offset", s is soln and eps == 0.125
                  and index == at)
        return np.full((11, 11), 5.0)

    with env.patch(cj, compute_eigenvalues_and_eigenvectors=eig,
                   compute_jacobian_from_solution=from_solution,
                   compute_jacobian_at_index=at_index):
        try:
            got = cj.get_eigenvector_coef_around_critical_point(
                soln, critical_point_index=at, eps=0.125, local_eigvecs=local)
        finally:
            tags.clear()
    env.claim("one set per point", np.shape(got) == (n, 11))
    for r in range(n):
        m = matrix(r if local else 5)
        for i in range(11):
            env.equal(f"component {r} {i}", sum(
                m[i, j] * got[r, j] for j in range(11) if m[i, j]),
                soln.solution[r, i] - soln.solution[at, i])


def infinite(env):
    j = np.eye(3)
    bad = env.pick("entry", [float("nan"), float("inf"), -float("inf"), 2.0])
    j[1, 2] = bad
    vals = cj.compute_eigenvalues(j)
    vals2, vecs = cj.compute_eigenvalues_and_eigenvectors(j)
    env.claim("sizes", np.shape(vals) == (3,) == np.shape(vals2)
              and np.shape(vecs) == (3, 3))
    env.claim("not a number exactly for unusable entries", all(
        bool(np.isnan(x).all()) == (bad != 2.0) and
        bool(np.isnan(x).any()) == (bad != 2.0) for x in (vals, vals2, vecs)))


def cases(tier):
    kw = dict(nz_in_path=False)
    out = [Case(f"jacobian-{n}", jacobian, params=dict(n=n, at=None), **kw)
           for n in ((1, 2) if tier == "quick" else (1, 2, 3))]
    out += [Case(f"jacobian-at-{at}", jacobian, params=dict(n=3, at=at), **kw)
            for at in (0, 1, 2)]
    out += [Case(f"coefficients-{'local' if k else 'global'}", coefficients,
                 params=dict(n=3, local=k), **kw) for k in (True, False)]
    return out + [Case("infinite", infinite, use_shim=False)]
