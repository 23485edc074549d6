"""P13: joining, reversing and keeping results"""
import numpy as np

from symx.core import Sym
from symx.harness import Case

from disc_solver.file_format._containers import (
    InternalData, JacobianData, Problems, Solutions, InitialConditions, Run,
    ConfigInput, SolutionInput,
)
import attr

BOUNDS = (
    "parts of 0-2 rows, every number arbitrary; up to 3 problems per angle; "
    "up to 12 solutions, removed and added in any of the listed orders; "
    "start states of 8 or 11 values"
)
OUTSIDE = "longer parts (the operations treat all rows alike)"
STUBS = []
VECT = dict(derivs=(11,), params=(11,))
PLAIN = ("angles v_r_normal v_φ_normal ρ_normal v_r_taylor v_φ_taylor "
         "ρ_taylor").split()
FILL = 0.75


def table(env, name, n, shape, k):
    """n rows; row r has its r-th column arbitrary, the rest distinct"""
    out = np.empty((n,) + shape, dtype=object if env.sym else float)
    for pos, i in enumerate(np.ndindex(*out.shape)):
        out[i] = FILL + pos + 1000 * k
    for r in range(n):
        out[(r,) + tuple((r + 1) % s for s in shape)] = env.real(
            f"{name}{k}_{r}")
    return out


def make(env, k, n, lists):
    d = {f: table(env, f, n, VECT.get(f, ()), k)
         for f in list(VECT) + PLAIN}
    j = {f: table(env, "j" + f, n, s, k) for f, s in dict(
        derivs=(11,), params=(11,), angles=(), jacobians=(11, 11)).items()}

    def conv(a):
        return list(a.copy()) if lists else a.copy()
    problems = Problems()
    problems[0.25] = [f"p{k}{i}" for i in range(n)]
    problems[f"only {k}"] = "x"
    return InternalData(
        **{f: conv(v) for f, v in d.items()}, problems=problems,
        jacobian_data=JacobianData(**{f: conv(v) for f, v in j.items()}),
    ), d, j


def check(env, tag, got, d, j):
    env.claim(tag + " kind", type(got) is InternalData)
    for obj, want, t in ((got, d, ""), (got.jacobian_data, j, "jacobian ")):
        for f, w in want.items():
            g = getattr(obj, f)
            name = f"{tag}: {t}{f}"
            env.claim(name + " shape", isinstance(g, np.ndarray) and
                      g.shape == w.shape, info=(getattr(g, "shape", g),
                                                w.shape))
            if getattr(g, "shape", None) != w.shape:
                continue
            plain = True
            for i in np.ndindex(w.shape):
                if isinstance(g[i], Sym) or isinstance(w[i], Sym):
                    env.equal(f"{name}{list(i)}", g[i], w[i])
                else:
                    plain = plain and g[i] == w[i]
            env.claim(name + " values", bool(plain))


def join(env):
    n = env.pick("first", range(3))
    m = env.pick("second", range(3))
    la, lb = env.flag("lists?1"), env.flag("lists?2")
    a, da, ja = make(env, 1, n, la)
    b, db, jb = make(env, 2, m, lb)
    got = a + b
    check(env, "joined", got, {f: np.concatenate((da[f], db[f])) for f in da},
          {f: np.concatenate((ja[f], jb[f])) for f in ja})
    want = {"0.25": [f"p1{i}" for i in range(n)] + [
        f"p2{i}" for i in range(m)], "only 1": ["x"], "only 2": ["x"]}
    env.claim("problems of both", dict(got.problems) == want,
              info=repr(got.problems))
    check(env, "first kept", a, da, ja)
    check(env, "second kept", b, db, jb)
    env.claim("problems of the parts kept",
              len(a.problems["0.25"]) == n and len(b.problems["0.25"]) == m
              and len(a.problems) == 2 and len(b.problems) == 2)


def flip(env):
    n = env.pick("rows", range(3))
    a, d, j = make(env, 1, n, env.flag("lists"))
    r = a.flip()
    rev = {f: v[::-1] for f, v in d.items()}
    revj = {f: v[::-1] for f, v in j.items()}
    check(env, "reversed", r, rev, revj)
    check(env, "reversed twice", r.flip(), d, j)
    b, db, jb = make(env, 2, 1, False)
    check(env, "reversed and joined", a.flip() + b,
          {f: np.concatenate((rev[f], db[f])) for f in d},
          {f: np.concatenate((revj[f], jb[f])) for f in j})


def problems(env):
    p = Problems()
    x, y = 0.5, 0.75
    acts = [env.pick(f"act{i}", ["one", "many", "append", "other", "none"])
            for i in range(3)]
    want = {}
    for i, a in enumerate(acts):
        if a == "one":
            p[x] = f"a{i}"
            want.setdefault(str(x), []).append(f"a{i}")
        elif a == "many":
            p[x] = [f"b{i}", f"c{i}"]
            want.setdefault(str(x), []).extend([f"b{i}", f"c{i}"])
        elif a == "append":
            p[x].append(f"d{i}")
            want.setdefault(str(x), []).append(f"d{i}")
        elif a == "other":
            p[y] = f"e{i}"
            want.setdefault(str(y), []).append(f"e{i}")
    env.claim("every problem kept in order", dict(p) == want)
    env.claim("count", len(p) == len(want))
    q = Problems(**p)
    env.claim("copy", dict(q) == want)
    q[x] = "late"
    env.claim("copy is separate", p[x] == want.get(str(x), []))
    if str(y) in want:
        del p[y]
        env.claim("deleted by the key it was recorded under",
                  str(y) not in list(p) and len(p) == len(want) - 1 +
                  (str(x) not in want))


def solutions(env):
    n = env.pick("number", [1, 2, 9, 10, 11, 12])
    s = Solutions()
    objs = [object() for _ in range(n)]
    names = [s.add_solution(o) for o in objs]
    env.claim("names", names == [str(i) for i in range(n)])
    for k, o in zip(names, objs):
        env.claim("kept", s[k] is o)
    env.claim("last", s.get_last_solution() is objs[-1])
    env.claim("all", sorted(s, key=int) == names and len(s) == n)
    gone = env.pick("removed", ["none", "first", "last"])
    new = object()
    if gone == "first":
        del s["0"]
    elif gone == "last":
        del s[str(n - 1)]
    kept = {k: s[k] for k in s}
    try:
        k = s.add_solution(new)
        env.claim("added", s[k] is new)
        kept[k] = new
    except RuntimeError:
        env.claim("refused only with a gap", gone == "first" and n > 1)
    env.claim("nothing replaced", set(kept) == set(s) and all(
        s[k] is kept[k] for k in kept))


def final(env):
    a, b = object(), object()
    run = Run(config_input=None, config_filename="f", float_type="t",
              disc_solver_version="v", sonic_method="m")
    x, y = run.solutions.add_solution(a), run.solutions.add_solution(b)
    explicit = env.pick("final", [None, x, y])
    if explicit is not None:
        run.final_solution = run.solutions[explicit]
    run.finalise()
    want = b if explicit in (None, y) else a
    env.claim("final solution", run.final_solution is want)

    def change():
        run.final_solution = a
    env.raises("is final", RuntimeError, change)
    run.finalise()
    env.claim("still", run.final_solution is want)
    shock = run.create_shock_run(filename="g", solution_name="1")
    env.claim("shock run starts empty", len(shock.solutions) == 0 and
              shock.is_post_shock_only is True)
    env.claim("based on", shock.based_on_solution_filename == "g" and
              shock.based_on_solution_solution_name == "1")
    c = object()
    shock.solutions.add_solution(c)
    shock.finalise()
    env.claim("its own final", shock.final_solution is c)
    env.claim("original run untouched", len(run.solutions) == 2 and
              run.final_solution is want and not run.is_post_shock_only
              and run.based_on_solution_filename is None)
    for f in attr.fields(Run):
        if f.name in ("_final_solution", "solutions", "is_post_shock_only",
                      "based_on_solution_filename",
                      "based_on_solution_solution_name"):
            continue
        env.claim(f"copied {f.name}", getattr(shock, f.name) is getattr(
            run, f.name))


def start(env, size, given):
    state = env.array("c", size)
    eta = env.reals("η_O η_A η_H")
    base = dict(norm_kepler_sq=env.real("n"), a_0=env.real("a"),
                γ=env.real("γ"), angles=env.array("x", 2))
    kw = dict(zip(("η_O", "η_A", "η_H"), eta)) if given else {}
    before = state.copy()
    try:
        ic = InitialConditions(init_con=state, **base, **kw)
    except RuntimeError:
        env.claim("refused only when the diffusivities disagree", size == 11
                  and given and not all(
                      bool(a == b) for a, b in zip(eta, state[8:])))
        return
    env.same("state given is kept", state, before)
    env.claim("11 values", len(ic.init_con) == 11)
    env.same("state", ic.init_con[:8], before[:8])
    want = eta if size == 8 else before[8:]
    for k, v in enumerate(("η_O", "η_A", "η_H")):
        env.equal(f"state {v}", ic.init_con[8 + k], want[k])
        env.equal(v, getattr(ic, v), want[k])
        if given:
            env.equal(f"{v} as given", getattr(ic, v), eta[k])
    for k, v in base.items():
        env.same(k, getattr(ic, k), v)
    new = env.array("d", 11)
    other = env.array("y", 1)
    mod = ic.create_modified(init_con=new, angles=other)
    env.same("modified state", mod.init_con, new)
    env.same("modified angles", mod.angles, other)
    for k, v in enumerate(("η_O", "η_A", "η_H")):
        env.equal(f"modified {v}", getattr(mod, v), new[8 + k])
    for k in ("norm_kepler_sq", "a_0", "γ"):
        env.equal(f"modified keeps {k}", getattr(mod, k), base[k])
    env.same("original angles", ic.angles, base["angles"])
    env.same("original state", ic.init_con[:8], before[:8])


def cleared(env):
    """Input for later parts: no midplane or sonic options, all else kept"""
    from p10_config import numbers, ALL, same_field
    v = numbers(env)
    for f in ("η_derivs", "use_taylor_jump", "use_E_r"):
        v[f] = env.flag(f)
    inp = SolutionInput(**v)
    got = inp.new_without_sonic_taylor()
    drop = ("jump_before_sonic v_θ_sonic_crit after_sonic interp_range "
            "interp_slice sonic_interp_size").split()
    for f in ALL:
        if f in drop:
            env.claim(f"no {f}", getattr(got, f) is None)
        elif f == "use_taylor_jump":
            env.claim(f"no {f}", got.use_taylor_jump is False)
        else:
            same_field(env, "kept", f, getattr(got, f), v[f])
        same_field(env, "original", f, getattr(inp, f), v[f])


def cases(tier):
    out = [
        Case("join", join), Case("flip", flip), Case("problems", problems),
        Case("solutions", solutions), Case("final", final),
        Case("cleared", cleared),
    ]
    for size in (8, 11):
        for given in (True, False):
            if size == 8 and not given:
                continue
            out.append(Case(f"start-{size}-{'given' if given else 'own'}",
                            start, params=dict(size=size, given=given)))
    return out
