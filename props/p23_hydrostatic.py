"""P23: the solvers without outflow keep the disc's balance"""
from types import SimpleNamespace as NS

import numpy as np

from symx.harness import Case
import mhd
from mhd import I
from p01_ode_equations import names, cuts, unit_subs
from p03_start_conditions import solution_input

from stub_ode import Integrator
from p17_stepper import new_run

import disc_solver.solve
from disc_solver.file_format import InitialConditions, InternalData
from disc_solver.solve import hydrostatic as hs, mod_hydro as mh
from disc_solver.solve.utils import SolverError

BOUNDS = (
    "one evaluation of each right-hand side at an arbitrary real state, "
    "angle, diffusivities and start conditions; both closures of mod_hydro; "
    "repair of up to 2 stored points; every start parameter; rates of the "
    "speeds without electric field: field (2, 3, 6), diffusivities 2, 1/2, 1/4"
)
OUTSIDE = (
    "rates of v_r, v_φ and B_φ' without the electric field at other fields; "
    "which of several roots of the cubic is followed; rounding"
)
STUBS = ["root_solver.CubicTracker: any root of the polynomial given",
         "CVODE"]
ASSUMPTIONS = ["ρ > 0, η_O > 0, η_A >= 0, B_θ not 0"]


def state(env, tag="s"):
    st = env.array(tag, 11)
    env.assume(st[I.ρ] > 0)
    env.assume(st[I.η_O] > 0)
    env.assume(st[I.η_A] >= 0)
    return st


def start(env):
    ic = env.array("i", 11)
    for i in (6, 8):
        env.assume(ic[i] > 0)
    return ic


class Roots:
    """Any root of the polynomials it is given"""
    def __init__(self, env):
        self.env, self.made, self.asked = env, [], []

    def __call__(self, *, start_root, is_real, dtype):
        self.made.append(start_root)
        self.env.claim("real roots", is_real is True)
        return self

    def solve_root(self, coefs):
        k = len(self.asked)
        v = self.env.real(f"root{k}")
        self.env.claim("a cubic", len(coefs) == 4)
        self.asked.append((list(coefs), v))
        return v


def rates(env, mod, E_r, η_derivs=True):
    st, ic = state(env), start(env)
    a_0, nk = env.real("a_0", pos=True), env.real("nk", pos=True)
    θ = env.angle("θ")
    kw = dict(use_E_r=True) if E_r else (
        dict(no_v_deriv=False) if mod is hs else {})
    roots = Roots(env)
    patches = dict(CubicTracker=roots) if E_r else {}
    with env.patch(mod, **patches):
        system, data = mod.ode_system(
            a_0=a_0, norm_kepler_sq=nk, init_con=ic, store_internal=False,
            η_derivs=η_derivs, **kw)
        d = np.zeros(11, dtype=object if env.sym else float)
        ret = system(θ, st, d)
    env.claim("nothing stored", data is None)
    return st, ic, a_0, nk, θ, d, ret, roots


def balance(env, mod, E_r):
    st, ic, a_0, nk, θ, d, ret, roots = rates(env, mod, E_r)
    t = env.tan(θ)
    s = list(st)
    if mod is hs:
        rotation(env, s, a_0, nk, t, ret)
    else:
        env.claim("not refused", not ret)
    if ret:
        return
    env.claim("still no outflow", d[I.v_θ] == 0)
    s[I.v_θ] = 0
    for name, i in (("solenoid", 2), ("polar", 6)):
        terms, _ = mhd.equations(
            s, d, 0, a_0, nk, t)[name]
        env.zero(name, *terms, cuts=cuts(env, d, (i,)))
    Br, Bp, Bt, vr, vp, vt, ρ, X, eO, eA, eH = s
    mag = env.sqrt(Br * Br + Bp * Bp + Bt * Bt)
    B = [Br, Bt, Bp]
    b = [x / mag for x in B]
    J = mhd.current(0, t, B, d[0], d[1])
    E = mhd.electric(J, B, b, [vr, vt, vp], (eO, eA, eH))
    us = unit_subs(env, st, mag)
    env.zero("E_φ vanishes", *E[2], cuts=cuts(env, d, (0,)), subs=us)
    if not E_r:
        env.zero("B_φ' is carried", d[1], -1 * X)
        return
    env.claim("no rates of the speeds, which follow from the field",
              d[3] == 0 and d[4] == 0)
    env.claim("started from the midplane", roots.made[0] is ic[I.v_r] or
              (not env.sym and roots.made[0] == ic[I.v_r]))
    env.same("speed is the root", st[I.v_r], roots.asked[0][1])
    q = 0.25
    br, bt, bp = b
    K = eA * bp * (br * t - bt * q) + eH * (br * q + bt * t)
    C = (eH * bt - eA * br * bp) / (eO + eA * (1 - bp * bp))
    base = E[0] + [-1 * X]
    env.zero_any(
        "E_r is Ohm's law but for the recorded terms (P01)", base,
        base + [-2 * C * Bp * K, 2 * C * eA * br * bp * d[1]],
        cuts=cuts(env, d, (0, 1)), subs=us)
    env.zero("E_r' is -3/4 E_θ", d[7], *[0.75 * x for x in E[1]],
             cuts=cuts(env, d, (7,)), subs=us)


def rotation(env, s, a_0, nk, t, ret):
    """Refused exactly if no rotation balances both momenta"""
    Br, Bp, Bt, vr, _, _, ρ, _, eO, eA, eH = s
    mag = env.sqrt(Br * Br + Bp * Bp + Bt * Bt)
    br, bt, bp = Br / mag, Bt / mag, Bp / mag
    D = eO + eA * (1 - bp * bp)
    X = (eH * bt + eA * br * bp) / D
    P = Bp * (eA * bp * (br * t - bt / 4) + eH * (br / 4 + bt * t))
    S = a_0 / ρ
    # v_φ² + 2 h v_φ + q = 0, B_φ' eliminated by azimuthal balance
    h = -1 * X * vr / 4
    q = vr * vr / 2 + 2.5 - nk + S * (
        Bp * Bp / 4 - X * Bp * (Br / 4 + Bt * t)
        + Bt * (P - vr * Bt) / D)
    disc = h * h - q
    if ret:
        env.claim("refused only without a rotation", disc < 0)
    else:
        env.claim("no rotation is refused", disc >= 0)


def diffusivity(env, mod, E_r, η_derivs):
    st, ic, a_0, nk, θ, d, ret, _ = rates(env, mod, E_r, η_derivs)
    if ret:
        return
    Br, Bp, Bt, vr, vp, vt, ρ = st[:7]
    for i, n in ((8, "η_O"), (9, "η_A"), (10, "η_H")):
        if not η_derivs:
            env.zero(n, d[i] * 1)
            continue
        env.zero(
            n, d[i],
            -1 * ic[i] * 2 * (Br * d[0] + Bp * d[1] + Bt * d[2]) / ρ,
            ic[i] * (Br * Br + Bp * Bp + Bt * Bt) * d[6] / (ρ * ρ),
            cuts=cuts(env, d, (i,)))


def negative(env, mod, E_r):
    """A state of negative density is refused and told"""
    st, ic = env.array("s", 11), start(env)
    env.assume(st[I.ρ] < 0)
    kw = dict(use_E_r=E_r) if mod is mh else {}
    store = env.flag("store")
    with env.patch(mh, CubicTracker=Roots(env)):
        system, data = mod.ode_system(
            a_0=env.real("a_0", pos=True), init_con=ic, store_internal=store,
            norm_kepler_sq=env.real("nk", pos=True), **kw)
        d = np.zeros(11, dtype=object if env.sym else float)
        env.claim("refused, with a smaller step possible",
                  system(0.25, st, d) > 0)
    if store:
        env.claim("told at its angle", dict(data.problems) == {
            "0.25": ["negative density"]} or dict(data.problems) == {
            0.25: ["negative density"]})
        env.claim("not stored", len(data.params) == len(data.derivs)
                  == len(data.angles) == 0)


def conditions(env, mod, E_r, nan):
    """Start at the midplane"""
    inp, r = solution_input(env, use_E_r=E_r, nan=nan)
    define = hs.hydrostatic_define_conditions if mod is hs \
        else mh.mod_hydro_define_conditions
    vr = -1 * r["v_rin_on_c_s"]
    a_0 = r["v_a_on_c_s"] * r["v_a_on_c_s"]
    k = 1 / r["c_s_on_v_k"]
    η_O, η_A, η_H = [r[n] for n in ("η_O", "η_A", "η_H")]
    η_P = η_O + η_A
    if not nan:
        if env.sym:
            env.known_root(1 / r["c_s_on_v_k"] ** 2, k)
    if mod is mh and not nan:
        env.assume(2 * k - vr * η_H / (2 * η_P) != 0)
    try:
        cond = define(inp)
    except SolverError:
        cond = None
    if nan:
        # γ is not used by these solvers
        env.claim("NaN input is refused", env.either(
            cond is None, env.no(np.isnan(r[nan]) if not env.sym
                                 else r[nan].isnan())))
        if cond is None:
            return
    if cond is None:
        p = -1 * vr * η_H / (2 * η_P)
        q = vr * vr / 2 + 2.5 - k * k - a_0 * vr / η_P
        env.claim("only refused without a rotation", mod is hs)
        env.claim("refused only without a rotation", p * p / 4 - q < 0)
        return
    ic = cond.init_con
    env.equal("a_0", cond.a_0, a_0)
    env.equal("Kepler speed squared", cond.norm_kepler_sq, k * k)
    env.claim("no radial change of the field's slope", cond.γ == 0)
    for name, want in (
        ("B_r", 0), ("B_φ", 0), ("B_θ", 1), ("v_θ", 0), ("ρ", 1),
        ("v_r", vr), ("η_O", η_O), ("η_A", η_A), ("η_H", η_H)
    ):
        env.equal(name, ic[getattr(I, name)], want)
    if nan:
        return
    vp = ic[I.v_φ]
    dBp = vr * vp / (2 * a_0)
    dBr = -0.25 - (dBp * η_H + vr) / η_P
    if mod is hs:
        env.zero("radial balance", -1 * vr * vr / 2, -1 * vp * vp, k * k,
                 -2.5, -1 * a_0 * dBr, -0.25 * a_0)
    else:
        env.zero("radial balance near Kepler rotation", -1 * vr * vr / 2,
                 -2 * k * vp, 2 * k * k, -2.5, -1 * a_0 * dBr, -0.25 * a_0)
    if E_r:
        E = mhd.electric([-1 * dBp, 0, dBr + 0.25], [0, 1, 0], [0, 1, 0],
                         [vr, 0, vp], (η_O, η_A, η_H))
        env.zero("E_r by Ohm's law", ic[I.E_r], *[-1 * x for x in E[0]])
    else:
        env.equal("B_φ' by azimuthal balance", ic[I.B_φ_prime], dBp)
    rad = np.pi / 180
    env.claim("number of angles", len(cond.angles) == 3)
    for i in range(3):
        env.equal(f"angle {i}", cond.angles[i], rad * (
            r["start"] + i * (r["stop"] - r["start"]) / 2), scale=1e-3)


class Track:
    """One root per polynomial"""
    def __init__(self, env):
        self.env, self.made = env, []

    def __call__(self, *, start_root, **kw):
        self.made.append(start_root)
        return self

    def solve_root(self, coefs):
        return self.env.uf("root", *coefs)


def whole(env, mod, E_r, outcome):
    store = env.flag("store")
    cond_ic = start(env)
    cond = InitialConditions(
        norm_kepler_sq=env.real("nk", pos=True), γ=0,
        a_0=env.real("a_0", pos=True), init_con=cond_ic,
        angles=env.asarray([0.0, 0.25, 0.5]))
    inp, _ = solution_input(
        env, use_E_r=E_r, relative_tolerance=env.real("rtol", pos=True),
        absolute_tolerance=env.real("atol", pos=True),
        max_steps=env.integer("steps", 1, 9), η_derivs=env.flag("η_derivs"))
    kept = list(cond_ic)
    rows = env.asarray([list(state(env, "m0")), list(state(env, "m1"))])
    given = rows.copy()
    ts = [0.0, 0.25]
    ode = Integrator(env, [(outcome, ts, rows)], evaluate=False)
    run = new_run()
    name = ("hydrostatic" if mod is hs else "mod_hydro")
    made, asked = [], []

    def system(*, a_0, norm_kepler_sq, init_con, θ_scale=1.0, η_derivs=True,
               store_internal=True, use_E_r=False, no_v_deriv=True):
        env.claim("all rates", mod is mh or not no_v_deriv)
        made.append(InternalData() if store_internal else None)
        tag = f"{η_derivs}-{use_E_r}-{store_internal}"
        with_these = [a_0, norm_kepler_sq, θ_scale, *init_con]

        def rhs(θ, y, d):
            for i in range(11):
                d[i] = env.uf(f"d{i}-{tag}", θ, *y, *with_these)
            return 0
        return rhs, made[-1]

    def fix(soln, *, a_0, norm_kepler_sq, init_con, θ_scale=1.0,
            use_E_r=False):
        env.claim("fixed for this closure", use_E_r == E_r)
        env.claim("from this start", init_con is cond_ic)
        env.equal("in these units", θ_scale, 1)
        if use_E_r:
            for k, y in enumerate(soln.values.y):
                y[I.v_r] = env.uf(f"fixed v_r {k}", a_0)
                y[I.v_φ] = env.uf(f"fixed v_φ {k}", norm_kepler_sq)
        return soln

    def define(i):
        asked.append(i)
        return cond

    patches = {f"{name}_define_conditions": define, "ode": ode,
               "ode_system": system}
    if mod is mh:
        patches["fix_solution"] = fix
    with env.patch(mod, **patches):
        if mod is hs and E_r:
            env.raises("not without the field's rate", SolverError,
                       lambda: mod.solver(inp, run, store_internal=store))
            env.claim("nothing integrated", not ode.calls)
            return
        ok = mod.solver(inp, run, store_internal=store)
        env.claim("done", ok is True)
        env.claim("one integration", len(ode.calls) == 1
                  and asked == [inp])
        call, = ode.calls
        o = call["options"]
        env.same("grid", np.asarray(call["angles"]), cond.angles)
        env.same("start", np.asarray(call["y0"]), env.asarray(kept))
        env.equal("rtol", o["rtol"], inp.relative_tolerance)
        env.equal("atol", o["atol"], inp.absolute_tolerance)
        env.same("max steps", o["max_steps"], inp.max_steps)
        env.claim("no stops", o.get("tstop") is None
                  and o.get("rootfn") is None)
        d = np.zeros(11, dtype=object if env.sym else float)
        q = env.array("q", 11)
        env.claim("success", not call["rhs"](0.25, q, d))
        for i in range(11):
            env.equal(f"equation {i}", d[i], env.uf(
                f"d{i}-{inp.η_derivs}-{E_r}-{store}", 0.25, *q, cond.a_0,
                cond.norm_kepler_sq, 1.0, *kept))
    soln = run.final_solution
    env.claim("stored as the run's one and final solution",
              list(run.solutions) == ["0"]
              and run.solutions["0"] is soln)
    env.same("angles", np.asarray(soln.angles), env.asarray(ts))
    want = given
    if E_r:
        for k in (0, 1):
            want[k, I.v_r] = env.uf(f"fixed v_r {k}", cond.a_0)
            want[k, I.v_φ] = env.uf(f"fixed v_φ {k}", cond.norm_kepler_sq)
    env.same("states", np.asarray(soln.solution), want)
    env.claim("conditions and input kept", soln.solution_input is inp and
              soln.initial_conditions is cond)
    env.claim("flag", int(soln.flag) == {
        "finish": 0, "tstop": 1, "root": 2, "fail": -4}[outcome])
    env.claim("root", (soln.t_roots is not None) == (outcome == "root"))
    if outcome == "root":
        env.same("root angle", np.asarray(soln.t_roots),
                 env.asarray(ts[-1:]))
    env.claim("no sonic point", soln.sonic_point is None
              and soln.sonic_point_values is None)
    data = soln.internal_data
    env.claim("internal data as asked", (data is not None) == store)
    if store:
        env.claim("of this system", data is made[0])


def stored(env):
    """The speeds stored are those the rates were taken with"""
    ic = start(env)
    a_0, nk = env.real("a_0", pos=True), env.real("nk", pos=True)
    rows = env.asarray([list(state(env, "m0")), list(state(env, "m1"))])
    # fields of whole size, so that a model is found
    for r, b in zip(rows, ((2.0, 3.0, 6.0), (-1.0, 2.0, 2.0))):
        r[[I.B_r, I.B_φ, I.B_θ]] = b
    ts = env.asarray([0.0, env.angle("θ")])
    old = rows.copy()
    soln = NS(values=NS(t=ts, y=rows))
    kw = dict(a_0=a_0, norm_kepler_sq=nk, init_con=ic)
    E_r = env.flag("use_E_r")
    track = Track(env)
    with env.patch(mh, CubicTracker=track):
        got = mh.fix_solution(soln, use_E_r=E_r, **kw)
        env.claim("the solution", got is soln)
        system, _ = mh.ode_system(use_E_r=True, store_internal=False,
                                  η_derivs=False, **kw)
        for t, y in zip(ts, old):
            if E_r:
                system(t, y, np.zeros(11, dtype=object if env.sym else float))
    for k in (0, 1):
        for i in range(11):
            env.same(f"point {k}: {i}", got.values.y[k][i], old[k][i])
    env.claim("follows the midplane's root", all(
        m is ic[I.v_r] or (not env.sym and m == ic[I.v_r])
        for m in track.made))


def speeds(env):
    """Rotation and inflow balance momentum"""
    st, ic = state(env), start(env)
    a_0, k = env.real("a_0", pos=True), env.real("k", pos=True)
    nk = k * k
    if env.sym:
        env.known_root(nk, k)
    θ = env.angle("θ")
    v = env.real("v")
    asked = []

    class Tracker:
        def __init__(self, **kw):
            pass

        def solve_root(self, coefs):
            asked.append(((coefs[0] * v + coefs[1]) * v + coefs[2]) * v
                         + coefs[3])
            return v

    def run(E):
        s = st.copy()
        s[I.E_r] = E
        d = np.zeros(11, dtype=object if env.sym else float)
        with env.patch(mh, CubicTracker=Tracker):
            system, _ = mh.ode_system(
                a_0=a_0, norm_kepler_sq=nk, init_con=ic,
                store_internal=False, η_derivs=False, use_E_r=True)
            env.claim("success", not system(θ, s, d))
        return s, d
    for E in (0.0, 1.0):
        run(E)
    # the electric field for which v is a root
    E = asked[0] / (asked[0] - asked[1])
    s, d = run(E)
    t = env.tan(θ)
    s[I.v_θ] = 0
    eqs = mhd.equations(s, d, 0, a_0, nk, t)
    mag = env.sqrt(st[0] * st[0] + st[1] * st[1] + st[2] * st[2])
    us = unit_subs(env, st, mag)
    env.zero("azimuthal", *eqs["azimuthal"][0], subs=us)
    vp = s[I.v_φ]
    terms = [x for i, x in enumerate(eqs["radial"][0]) if i != 3]
    env.zero("radial near Kepler rotation", *terms, -2 * k * vp, k * k,
             subs=us)


class Dual:
    """A quantity and its rate along the integration"""
    def __init__(self, v, d=0):
        self.v, self.d = v, d

    @staticmethod
    def lift(o):
        return o if isinstance(o, Dual) else Dual(o)

    def __add__(self, o):
        o = Dual.lift(o)
        return Dual(self.v + o.v, self.d + o.d)
    __radd__ = __add__

    def __mul__(self, o):
        o = Dual.lift(o)
        return Dual(self.v * o.v, self.d * o.v + self.v * o.d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.lift(o)
        return Dual(self.v / o.v, (self.d * o.v - self.v * o.d) / (o.v * o.v))

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + -1 * Dual.lift(o)

    def __rsub__(self, o):
        return Dual.lift(o) - self


def kept(env, mod, known):
    """Without the electric field, the balances kept by the rates"""
    st, ic = state(env), start(env)
    a_0, k = env.real("a_0", pos=True), env.real("k", pos=True)
    nk = k * k
    if env.sym:
        env.known_root(nk, k)
    θ = env.angle("θ")
    tan = env.tan(θ)
    # a field of whole size; a state in azimuthal balance
    st[[I.B_r, I.B_φ, I.B_θ]] = (2.0, 3.0, 6.0)
    for i, v in ((I.η_O, 2.0), (I.η_A, 0.5), (I.η_H, 0.25)):
        st[i] = ic[i] = v
    if known:
        for i, v in ((I.ρ, 2.0), (I.v_φ, 3.0)):
            st[i] = v
        a_0 = 0.5
    for i in (I.v_φ, I.v_r):
        env.assume(st[i] != 0)
    st[I.v_r] = 2 * a_0 / (st[I.v_φ] * st[I.ρ]) * (
        st[I.B_θ] * st[I.B_φ_prime] - st[I.B_r] * st[I.B_φ] / 4
        - st[I.B_θ] * st[I.B_φ] * tan)
    system, _ = mod.ode_system(
        a_0=a_0, norm_kepler_sq=nk, init_con=ic, store_internal=False,
        **(dict(no_v_deriv=False) if mod is hs else {}))
    d = np.zeros(11, dtype=object if env.sym else float)
    if system(θ, st, d):
        return
    s = [Dual(a, b) for a, b in zip(st, d)]
    t = Dual(tan, 1 + tan * tan)
    Br, Bp, Bt, vr, vp, _, ρ, dBp, eO, eA, eH = s
    az = [vr * vp * ρ, -2 * a_0 * Bt * dBp, a_0 * Br * Bp / 2,
          2 * a_0 * Bt * Bp * t]
    if not known:
        env.zero("azimuthal balance is kept", *[x.d for x in az])
        return
    m = Dual(7, (Br * Br + Bp * Bp + Bt * Bt).d / 14)
    br, bt, bp = Br / m, Bt / m, Bp / m
    D = eO + eA * (1 - bp * bp)
    X = (eH * bt + eA * br * bp) / D
    K = eA * bp * (br * t - bt / 4) + eH * (br / 4 + bt * t)
    dBr = (Bp * K - vr * Bt) / D - X * dBp - Bt / 4
    radial = [-1 * vr * vr / 2,
              -1 * vp * vp if mod is hs else -2 * k * vp,
              -1 * a_0 * Bt * dBr / ρ, -0.25 * a_0 * (Bt * Bt + Bp * Bp) / ρ]
    env.zero("radial balance is kept", *[x.d for x in radial])
    J = [Bp * t - dBp, Bp * -0.25, dBr + Bt / 4]
    E = mhd.electric(J, [Br, Bt, Bp], [br, bt, bp], [vr, 0, vp],
                     (eO, eA, eH))
    env.zero("the electric field is kept", *[x.d for x in E[0]],
             *[0.75 * Dual.lift(x).v for x in E[1]])


def cases(tier):
    out = []
    for mod, n in ((hs, "hydrostatic"), (mh, "mod_hydro")):
        for E in (False, True):
            if mod is hs and E:
                continue
            out.append(Case(
                f"balance-{n}{'-E_r' if E else ''}", balance,
                params=dict(mod=mod, E_r=E)))
            for η in (True, False):
                out.append(Case(
                    f"diffusivity-{n}{'-E_r' if E else ''}-{η}", diffusivity,
                    params=dict(mod=mod, E_r=E, η_derivs=η)))
            out.append(Case(f"negative-{n}{'-E_r' if E else ''}", negative,
                            params=dict(mod=mod, E_r=E)))
        for E in (False, True):
            for nan in ["", "η_H"] + (
                ["v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_A"]
                if tier == "thorough" else []
            ):
                out.append(Case(
                    f"start-{n}{'-E_r' if E else ''}-{nan or 'real'}",
                    conditions, params=dict(mod=mod, E_r=E, nan=nan),
                    nan_sqrt=True))
            for o in ("finish", "root", "tstop", "fail"):
                out.append(Case(
                    f"whole-{n}{'-E_r' if E else ''}-{o}", whole,
                    params=dict(mod=mod, E_r=E, outcome=o)))
                if mod is hs and E:
                    break
    out.append(Case("speeds", speeds))
    out.append(Case("stored", stored))
    for mod, n in ((hs, "hydrostatic"), (mh, "mod_hydro")):
        out.append(Case(f"kept-{n}", kept, params=dict(mod=mod, known=False)))
        out.append(Case(f"rates-{n}", kept, params=dict(mod=mod, known=True)))
    return out
