"""
Turn claims into solver queries.

`prove_zero` clears denominators (every divisor is assumed non-zero, as the
path records) and asks the solver whether the polynomial numerator can differ
from zero; `prove_true` asks for a model of the negation directly.
"""
import math
import random
import time
from fractions import Fraction

import z3

from . import core
from .core import Inconclusive, check

_ONE = z3.RealVal(1)


def som(e):
    """Sum of monomials (z3's rewriter needs a few rounds to settle)"""
    for _ in range(6):
        n = z3.simplify(e, som=True, som_blowup=10**6)
        if n.eq(e):
            break
        e = n
    return e


class Rat:
    """coef * prod(factor ** power), powers of either sign"""
    __slots__ = ("c", "f")

    def __init__(self, c, f=None):
        self.c = c
        self.f = f or {}


class Normaliser:
    """
    Rational normal form: sums are brought over their common factors, so that
    common variables and common divisors cancel without being expanded.
    """
    SMALL = 400

    def __init__(self, sqrts=None):
        self.cache = {}
        self.keep = []
        self.factors = {}
        self.sizes = {}
        self.sqrts = sqrts or {}

    def factor(self, e):
        k = e.get_id()
        self.factors[k] = e
        return k

    def size(self, e):
        k = e.get_id()
        if k not in self.sizes:
            self.keep.append(e)
            self.sizes[k] = min(
                10**6, 1 + sum(self.size(c) for c in e.children())
            )
        return self.sizes[k]

    def mul(self, a, b):
        f = dict(a.f)
        roots = []
        for k, p in b.f.items():
            p = f.get(k, 0) + p
            if p:
                f[k] = p
                if abs(p) > 1 and self.sqrts:
                    e = self.factors[k]
                    if z3.is_const(e) and e.decl().name() in self.sqrts:
                        roots.append(k)
            else:
                f.pop(k, None)
        r = Rat(a.c * b.c, f)
        for k in roots:
            # sqrt(x) ** 2 == x
            p = r.f[k]
            q, rem = divmod(abs(p), 2)
            base = self.norm(self.sqrts[self.factors[k].decl().name()])
            if p < 0:
                base = self.inv(base)
            f = dict(r.f)
            del f[k]
            if rem:
                f[k] = 1 if p > 0 else -1
            r = self.mul(Rat(r.c, f), Rat(
                base.c ** q, {x: n * q for x, n in base.f.items()}
            ))
        return r

    @staticmethod
    def inv(a):
        if a.c == 0:
            raise ZeroDivisionError("division by zero term")
        return Rat(1 / a.c, {k: -p for k, p in a.f.items()})

    def product(self, c, f):
        r = None
        # in a fixed order: equal products must be the same term
        for k, p in sorted(f.items()):
            for _ in range(p):
                r = self.factors[k] if r is None else r * self.factors[k]
        if r is None:
            return z3.RealVal(f"{c.numerator}/{c.denominator}")
        if c == 1:
            return r
        return z3.RealVal(f"{c.numerator}/{c.denominator}") * r

    def add(self, items):
        items = [a for a in items if a.c != 0]
        if not items:
            return Rat(Fraction(0))
        if len(items) == 1:
            return items[0]
        keys = set()
        for a in items:
            keys.update(a.f)
        common = {}
        for k in keys:
            m = min(a.f.get(k, 0) for a in items)
            if m:
                common[k] = m
        parts = [self.product(a.c, {
            k: a.f.get(k, 0) - common.get(k, 0)
            for k in keys if a.f.get(k, 0) != common.get(k, 0)
        }) for a in items]
        # likewise for sums
        self.keep.extend(parts)
        parts.sort(key=lambda t: t.get_id())
        total = parts[0]
        for t in parts[1:]:
            total = total + t
        if self.size(total) < self.SMALL:
            total = som(total)
            if z3.is_rational_value(total):
                c = total.as_fraction()
                return Rat(c, common if c else {})
            # a single monomial splits into its variables
            if not z3.is_add(total):
                return self.mul(Rat(Fraction(1), common),
                                self.monomial(total))
        k = self.factor(total)
        f = dict(common)
        f[k] = f.get(k, 0) + 1
        return Rat(Fraction(1), f)

    def monomial(self, e):
        r = Rat(Fraction(1))
        stack = [e]
        while stack:
            x = stack.pop()
            if z3.is_mul(x):
                stack.extend(x.children())
            elif z3.is_rational_value(x):
                r = Rat(r.c * x.as_fraction(), r.f)
            elif z3.is_int_value(x):
                r = Rat(r.c * x.as_long(), r.f)
            elif _int_power(x):
                r = self.mul(r, Rat(
                    Fraction(1), {self.factor(x.arg(0)): _int_power(x)}
                ))
            else:
                r = self.mul(r, Rat(Fraction(1), {self.factor(x): 1}))
        return r

    def terms(self, e):
        """The summands of e, however the sum is nested"""
        out = []
        stack = [(e, 1)]
        while stack:
            x, sign = stack.pop()
            k = x.decl().kind()
            if k == z3.Z3_OP_ADD:
                stack.extend((c, sign) for c in reversed(x.children()))
            elif k == z3.Z3_OP_SUB:
                first, *rest = x.children()
                stack.extend((c, -sign) for c in reversed(rest))
                stack.append((first, sign))
            elif k == z3.Z3_OP_UMINUS:
                stack.append((x.arg(0), -sign))
            else:
                a = self.norm(x)
                out.append(Rat(sign * a.c, a.f))
        return out

    def norm(self, e):
        key = e.get_id()
        if key in self.cache:
            return self.cache[key]
        self.keep.append(e)
        r = self._norm(e)
        self.cache[key] = r
        return r

    def _norm(self, e):
        if z3.is_int_value(e):
            return Rat(Fraction(e.as_long()))
        if z3.is_rational_value(e):
            return Rat(e.as_fraction())
        k = e.decl().kind()
        ch = e.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            return self.add(self.terms(e))
        if k == z3.Z3_OP_UMINUS:
            a = self.norm(ch[0])
            return Rat(-a.c, a.f)
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.norm(c))
            return r if r.c else Rat(Fraction(0))
        if k == z3.Z3_OP_DIV:
            return self.mul(self.norm(ch[0]), self.inv(self.norm(ch[1])))
        if _int_power(e):
            a = self.norm(ch[0])
            n = _int_power(e)
            if n < 0:
                a, n = self.inv(a), -n
            return Rat(a.c ** n, {q: p * n for q, p in a.f.items()})
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
            return Rat(Fraction(ch[0].as_long()))
        return Rat(Fraction(1), {self.factor(e): 1})

    def numerators(self, e):
        """z3 polynomials whose product is the numerator of e"""
        r = self.norm(e)
        if r.c == 0:
            return [z3.RealVal(0)]
        return [self.factors[k] for k, p in r.f.items() if p > 0] or [
            z3.RealVal(1)
        ]


def _int_power(e):
    if e.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
        f = e.arg(1).as_fraction()
        if f.denominator == 1:
            return int(f)
    return 0


def free_consts(*exprs):
    """Uninterpreted 0-ary constants of the expressions"""
    seen, out, stack = set(), {}, list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[e.decl().name()] = e
        stack.extend(e.children())
    return out


def has_kind(e, kinds):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in kinds:
            return True
        stack.extend(x.children())
    return False


def poly_dict(e):
    """som-simplified polynomial -> {monomial tuple: Fraction}"""
    e = som(e)
    terms = e.children() if z3.is_add(e) else [e]
    out = {}
    for t in terms:
        coef = Fraction(1)
        mono = {}
        stack = [t]
        while stack:
            x = stack.pop()
            if z3.is_mul(x):
                stack.extend(x.children())
            elif z3.is_rational_value(x):
                coef *= x.as_fraction()
            elif z3.is_int_value(x):
                coef *= x.as_long()
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
                coef = -coef
                stack.append(x.arg(0))
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER and (
                z3.is_rational_value(x.arg(1))
            ):
                n = int(x.arg(1).as_fraction())
                mono[x.arg(0)] = mono.get(x.arg(0), 0) + n
            else:
                mono[x] = mono.get(x, 0) + 1
        key = tuple(sorted(((v.get_id(), n) for v, n in mono.items())))
        out.setdefault(key, [Fraction(0), mono])
        out[key][0] += coef
    return out


def reduce_sqrts(num, sqrts):
    """
    Rewrite y**(2k) -> x**k for y = sqrt(x) (a consequence of the path's
    definitional constraints), clearing the denominators this introduces.
    """
    changed = True
    rounds = 0
    while changed and rounds < 6:
        changed = False
        rounds += 1
        names = [n for n in free_consts(num) if n in sqrts]
        for name in names:
            y = z3.Real(name)
            x = sqrts[name]
            terms = poly_dict(num)
            if not any(
                n >= 2 for _, mono in terms.values()
                for v, n in mono.items() if v.eq(y)
            ):
                continue
            changed = True
            parts = []
            if len(terms) > 4000:
                raise Inconclusive("polynomial too large to reduce")
            for coef, mono in terms.values():
                t = z3.RealVal(f"{coef.numerator}/{coef.denominator}")
                for v, n in mono.items():
                    if v.eq(y):
                        for _ in range(n // 2):
                            t = t * x
                        if n % 2:
                            t = t * y
                    else:
                        for _ in range(n):
                            t = t * v
                parts.append(t)
            num = z3.RealVal(1)
            for p in Normaliser().numerators(z3.Sum(parts)):
                num = num * p
            num = som(num)
    return num


class Verdict:
    def __init__(self, ok, model=None, why=""):
        self.ok = ok
        self.model = model
        self.why = why


def _nice_values(rng):
    return rng.choice([
        Fraction(1, 2), Fraction(1, 3), Fraction(2, 3), Fraction(3, 2),
        Fraction(1), Fraction(2), Fraction(5, 4), Fraction(3, 4),
        Fraction(-1, 2), Fraction(-1, 3), Fraction(-2), Fraction(-3, 2),
        Fraction(1, 10), Fraction(7, 3), Fraction(1, 5), Fraction(-1, 7),
    ])


def find_model(constraints, goal, seed=1, tries=40, timeout_ms=8000,
               full_timeout_ms=60000, try_full=True, soft=()):
    """
    Look for a model of constraints + goal.  First with randomly fixed values
    (a sat answer is a sat answer of the full query), then without.
    """
    rng = random.Random(seed)
    consts = free_consts(goal, *constraints)
    names = [
        n for n in sorted(consts)
        if z3.is_real(consts[n]) and not n.startswith(
            ("sqrt_", "cos_", "fresh_")
        )
    ]
    for attempt in range(tries):
        s = z3.Solver()
        s.add(*constraints)
        s.set("timeout", timeout_ms)
        fixed = 0
        for n in names:
            v = consts[n]
            for _ in range(3):
                val = _nice_values(rng)
                s.push()
                s.add(v == z3.RealVal(f"{val.numerator}/{val.denominator}"))
                r, _ = check(s, 1000)
                if r == z3.sat:
                    fixed += 1
                    break
                s.pop()
            if attempt < 2 and fixed > 24:
                break
        s.add(goal)
        r, _ = check(s, timeout_ms)
        if r == z3.sat:
            return z3.sat, s.model()
    if not try_full:
        return z3.unknown, None
    r, s = check(list(constraints) + [goal], full_timeout_ms)
    return r, (s.model() if r == z3.sat else None)


def quick_fixed_model(constraints, goal, seed, tries=12, zero_expr=None,
                      sqrts=None, limit=300):
    """
    Substitute concrete rationals for all inputs (respecting the constraints
    on single inputs), leave the solver the definitional variables.
    With `zero_expr`, the goal is zero_expr != 0, normalised after fixing.
    """
    rng = random.Random(seed)
    sqrts = sqrts or {}
    consts = free_consts(goal, *constraints)
    names = [
        n for n in sorted(consts)
        if z3.is_real(consts[n]) and not n.startswith(
            ("sqrt_", "cos_", "tan_")
        )
    ]
    tans = [n for n in sorted(consts) if n.startswith("tan_")]
    unary = {}
    for c in constraints:
        fc = free_consts(c)
        if len(fc) == 1:
            unary.setdefault(next(iter(fc)), []).append(c)
    t0 = time.time()
    for _ in range(tries):
        if time.time() > t0 + limit:
            break
        subs = []
        for n in names + tans:
            v = consts[n]
            for _try in range(30):
                val = _nice_values(rng)
                if n in tans:
                    # 2u / (1 - u^2), so that cos is rational too
                    val = 2 * val / (1 - val * val) if val * val != 1 else (
                        Fraction(3, 4)
                    )
                zv = z3.RealVal(f"{val.numerator}/{val.denominator}")
                if all(
                    z3.is_true(z3.simplify(z3.substitute(c, (v, zv))))
                    for c in unary.get(n, [])
                ):
                    subs.append((v, zv))
                    break
        query = [z3.simplify(z3.substitute(c, *subs)) for c in constraints]
        if any(z3.is_false(c) for c in query):
            continue
        if zero_expr is not None:
            fixed = {
                n: z3.simplify(z3.substitute(x, *subs))
                for n, x in sqrts.items()
            }
            g = z3.substitute(zero_expr, *subs)
            nums = [som(n) for n in Normaliser(fixed).numerators(g)]
            g = z3.And([n != 0 for n in nums])
        else:
            g = z3.substitute(goal, *subs)
        r, s = check(query + [g] + [v == val for v, val in subs], 3000)
        if r == z3.sat:
            return s.model()
    return None


def poly_query(num, timeout_ms):
    """Can this polynomial be non-zero?  z3 expands it to a sum of monomials"""
    step = z3.With("simplify", som=True, som_blowup=10**6)
    s = z3.Then(step, step, step, step, "smt").solver()
    s.add(num != 0)
    s.set("timeout", timeout_ms)
    t0 = time.time()
    if core.BEAT is not None:
        core.BEAT.value = t0
    r = s.check()
    if core.BEAT is not None:
        core.BEAT.value = 0
    core.STATS.solver_s += time.time() - t0
    core.STATS.queries += 1
    if r == z3.unsat:
        core.STATS.unsat += 1
    elif r == z3.sat:
        core.STATS.sat += 1
    else:
        core.STATS.unknown += 1
    return r


def _is_zero_poly(num):
    num = som(num)
    return z3.is_rational_value(num) and num.as_fraction() == 0


def any_model(constraints, seed=1, timeout_ms=8000):
    """Some model of the path, as cheaply as possible (None: not found)"""
    r, s = check(list(constraints), timeout_ms)
    if r == z3.sat:
        return s.model()
    if r == z3.unsat:
        return None
    model = quick_fixed_model(constraints, z3.BoolVal(True), seed)
    if model is not None:
        return model
    r, model = find_model(
        constraints, z3.BoolVal(True), seed=seed, tries=2, try_full=False
    )
    return model


PRIME = 2**61 - 1


class _GiveUp(Exception):
    pass


def value_mod_prime(e, sqrts, rng):
    """
    The rational function at a random point of the field of PRIME elements
    (None: a pole, a square root of a non-square or an unsupported term).
    """
    p = PRIME
    cache = {}
    apps = {}
    consts = {}

    def draw(name):
        if isinstance(rng, str):    # the same value in every expression
            return random.Random(rng + name).randrange(2, p)
        return rng.randrange(2, p)

    def const(name):
        if name not in consts:
            if name in sqrts:
                x = go(core.real(sqrts[name]))
                r = pow(x, (p + 1) // 4, p)
                if r * r % p != x:
                    raise _GiveUp
                consts[name] = r
            else:
                consts[name] = draw(name)
        return consts[name]

    def one(t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            num, den = (
                (t.as_long(), 1) if z3.is_int_value(t) else
                (t.numerator_as_long(), t.denominator_as_long())
            )
            return num * pow(den, -1, p) % p
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                return const(t.decl().name())
            key = (t.decl().name(), *(cache[c.get_id()] for c in t.children()))
            if key not in apps:
                apps[key] = draw(str(key))
            return apps[key]
        if k == z3.Z3_OP_POWER:
            n = z3.simplify(t.arg(1))
            if not z3.is_rational_value(n) and not z3.is_int_value(n):
                raise _GiveUp
            if z3.is_rational_value(n):
                n = n.as_fraction()
                if n.denominator != 1:
                    raise _GiveUp
                n = n.numerator
            else:
                n = n.as_long()
            return pow(cache[t.arg(0).get_id()], n, p)
        vals = [cache[c.get_id()] for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return sum(vals) % p
        if k == z3.Z3_OP_MUL:
            r = 1
            for v in vals:
                r = r * v % p
            return r
        if k == z3.Z3_OP_SUB:
            return (vals[0] - sum(vals[1:])) % p
        if k == z3.Z3_OP_UMINUS:
            return -vals[0] % p
        if k == z3.Z3_OP_DIV:
            return vals[0] * pow(vals[1], -1, p) % p
        if k == z3.Z3_OP_TO_REAL:
            return vals[0]
        raise _GiveUp

    def go(root):
        stack = [(root, False)]
        while stack:
            t, ready = stack.pop()
            i = t.get_id()
            if i in cache:
                continue
            if ready or t.num_args() == 0:
                cache[i] = one(t)
            else:
                stack.append((t, True))
                stack.extend((c, False) for c in t.children())
        return cache[root.get_id()]

    try:
        return go(e)
    except (_GiveUp, ValueError):
        return None


def not_an_identity(e, sqrts, tries=64):
    """A point where the rational function is not zero has been found"""
    rng = random.Random(1)
    for _ in range(tries):
        v = value_mod_prime(e, sqrts, rng)
        if v is not None:
            return v != 0
    return False


def zero_identity(e, sqrts, timeout_ms):
    """Is some factor of the numerator of `e` the zero polynomial?"""
    for num in Normaliser(sqrts).numerators(e):
        if not_an_identity(num, sqrts):
            continue
        # the solver's own expansion of the unexpanded numerator
        if _is_zero_poly(num) and poly_query(num, timeout_ms) == z3.unsat:
            return True
        if not any(n in sqrts for n in free_consts(num)):
            continue
        try:
            num = reduce_sqrts(num, sqrts)
        except Inconclusive:
            continue
        if _is_zero_poly(num) and poly_query(num, timeout_ms) == z3.unsat:
            return True
    return False


def prove_zero(sym_expr, path, *, cuts=(), subs=(), seed=1, timeout_ms=60000):
    """
    Is the expression zero for every value satisfying the path's constraints?
    `cuts` is a list of (subterm, fresh variable): shared subterms generalised to
    fresh variables (sound for proving; not used for counterexamples).
    `subs` is a list of (variable, term): equations var == term that
    the harness derived from its assumptions (used for proving only).
    """
    e = core.real(sym_expr.e)
    constraints = path.constraints()
    if z3.is_rational_value(z3.simplify(e)):
        if z3.simplify(e).as_fraction() == 0:
            check([z3.BoolVal(False)])
            return Verdict(True)
    attempts = []
    if cuts:
        a = z3.substitute(e, *[
            (core.real(sub.e), var.e) for sub, var in cuts
        ])
        for var, term in subs:
            a = z3.substitute(a, (var.e, core.real(term.e)))
        attempts.append(a)
    a = e
    for var, term in subs:
        a = z3.substitute(a, (var.e, core.real(term.e)))
    attempts.append(a)
    ite = has_kind(e, (z3.Z3_OP_ITE,))
    goal = e != 0
    if not ite:
        for a in attempts:
            if term_size(a) > SIZE_LIMIT:
                continue
            if not_an_identity(a, path.x.sqrts):
                continue
            if zero_identity(a, path.x.sqrts, timeout_ms):
                return Verdict(True)
    # not an identity: decide it as a query on the original expression
    small = term_size(e) < 400
    model = known_model(path, constraints, goal)
    if model is not None:
        return Verdict(False, model)
    if not ite:
        differs = not_an_identity(e, path.x.sqrts)
        model = quick_fixed_model(
            constraints, goal, seed, tries=40 if differs else 3, zero_expr=e,
            sqrts=path.x.sqrts, limit=40
        )
        if model is not None:
            path.kept.extend(constraints)
            path.models.append((model, {c.get_id() for c in constraints}))
            return Verdict(False, model)
    if small:
        r, s = check(constraints + [goal], min(timeout_ms, 20000))
        if r == z3.unsat:
            return Verdict(True)
        if r == z3.sat:
            return Verdict(False, s.model())
    model = quick_fixed_model(
        constraints, goal, seed, zero_expr=None if ite else e,
        sqrts=path.x.sqrts
    )
    if model is not None:
        return Verdict(False, model)
    r, model = find_model(
        constraints, goal, seed=seed, tries=4, full_timeout_ms=timeout_ms
    )
    if r == z3.unsat:
        return Verdict(True)
    if r == z3.sat:
        return Verdict(False, model)
    raise Inconclusive("no verdict on a zero claim")


def known_model(path, constraints, goal):
    """A model found for another claim of this path that serves here too"""
    if term_size(goal) > 400:
        return None
    for model, held in path.models:
        try:
            if all(
                z3.is_true(model.eval(c, model_completion=True))
                for c in [goal, *constraints] if c.get_id() not in held
            ):
                check([z3.BoolVal(True)])
                return model
        except z3.Z3Exception:
            continue
    return None


def is_identity(sym_expr, path, *, cuts=(), subs=(), timeout_ms=60000):
    """Zero for all values of its variables (after cuts and subs)?"""
    if not isinstance(sym_expr, core.Sym):
        return sym_expr == 0
    a = z3.substitute(core.real(sym_expr.e), *[
        (core.real(sub.e), var.e) for sub, var in cuts
    ])
    for var, term in subs:
        a = z3.substitute(a, (var.e, core.real(term.e)))
    if term_size(a) > SIZE_LIMIT or has_kind(a, (z3.Z3_OP_ITE,)):
        return False
    return not not_an_identity(a, path.x.sqrts) and zero_identity(
        a, path.x.sqrts, timeout_ms
    )


SIZE_LIMIT = 200000


def term_size(e):
    """Number of distinct subterms"""
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return len(seen)


def _sign_claim(e):
    """A comparison as (t, strict): t < 0 or t <= 0 (None: no comparison)"""
    neg = False
    while z3.is_not(e):
        e, neg = e.arg(0), not neg
    k = e.decl().kind() if z3.is_app(e) else None
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        return None
    a, b = (core.real(c) for c in e.children())
    if not (z3.is_real(a) and z3.is_real(b)):
        return None
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = b, a
    if neg:
        a, b, strict = b, a, not strict
    return a - b, strict


def _ratio(p, q, sqrts):
    """The small constant that p / q seems to be (None: no such)"""
    found = set()
    for seed in (1, 2):
        for n in range(16):
            a, b = (value_mod_prime(x, sqrts, f"{seed} {n} ")
                    for x in (p, q))
            if a is not None and b:
                break
        else:
            return None
        r = a * pow(b, -1, PRIME) % PRIME
        for den in range(1, 65):
            num = r * den % PRIME
            num = num - PRIME if num > PRIME // 2 else num
            if 0 < abs(num) <= 64:
                found.add(Fraction(num, den))
                break
        else:
            return None
    return found.pop() if len(found) == 1 else None


def follows_by_identity(e, path, timeout_ms):
    """
    The claim is a comparison the path already decided, up to an identity: its
    difference of sides is a positive multiple of the one of the path's.
    """
    claim = _sign_claim(e)
    if claim is None:
        return False
    p, strict = claim
    if term_size(p) < 20 or has_kind(p, (z3.Z3_OP_ITE,)):
        return False
    for c in reversed(path.pc):
        known = _sign_claim(c)
        if known is None or (strict and not known[1]):
            continue
        q = known[0]
        if term_size(q) < 20 or has_kind(q, (z3.Z3_OP_ITE,)):
            continue
        r = _ratio(p, q, path.x.sqrts)
        if r is None or r < 0:
            continue
        if zero_identity(
            p - z3.RealVal(f"{r.numerator}/{r.denominator}") * q,
            path.x.sqrts, timeout_ms
        ):
            return True
    return False


def prove_true(cond, path, *, seed=1, timeout_ms=60000):
    e = core.bool_expr(cond)
    constraints = path.constraints()
    e = z3.simplify(e)
    if z3.is_true(e):
        check([z3.BoolVal(False)])
        return Verdict(True)
    if z3.is_false(e):
        model = quick_fixed_model(constraints, z3.BoolVal(True), seed, tries=4)
        if model is not None:
            return Verdict(False, model)
    if follows_by_identity(e, path, timeout_ms):
        return Verdict(True)
    r, s = check(constraints + [z3.Not(e)], timeout_ms)
    if r == z3.unsat:
        return Verdict(True)
    if r == z3.sat:
        return Verdict(False, s.model())
    r, model = find_model(
        constraints, z3.Not(e), seed=seed, tries=8,
        full_timeout_ms=timeout_ms
    )
    if r == z3.unsat:
        return Verdict(True)
    if r == z3.sat:
        return Verdict(False, model)
    raise Inconclusive("no verdict on a boolean claim")


def model_value(model, e):
    """z3 model value -> float / int"""
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(30).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Inconclusive(f"model value {v}")


REAL_FUNCTIONS = {"exp": math.exp, "log": math.log, "log10": math.log10,
                  "pow": math.pow}


def with_real_functions(model, e, sqrts=None):
    """The term with exp, log of model values put in as numbers"""
    cache = {}
    sqrts = sqrts or {}

    def number(t):
        return float(model_value(model, t))

    def go(t):
        k = t.get_id()
        if k not in cache:
            kids = [go(c) for c in t.children()]
            new = t
            if kids and any(a is not b for a, b in zip(kids, t.children())):
                new = t.decl()(*kids)
            if kids and t.decl().kind() == (
                z3.Z3_OP_UNINTERPRETED
            ) and t.decl().name() in REAL_FUNCTIONS:
                x = [number(kid) for kid in kids]
                new = z3.RealVal(Fraction(REAL_FUNCTIONS[t.decl().name()](*x)))
            elif z3.is_const(t) and t.decl().name() in sqrts:
                # defined by such values
                x = number(go(core.real(sqrts[t.decl().name()])))
                new = z3.RealVal(Fraction(math.sqrt(x)))
            cache[k] = new, t
        return cache[k][0]

    return go(e)


def try_value(model, e, sqrts=None):
    """Numeric value of a term in a model, or None"""
    try:
        if core.TRANSCENDENTAL:
            e = with_real_functions(model, e, sqrts)
        return float(model_value(model, e))
    except (Inconclusive, ValueError, OverflowError, z3.Z3Exception):
        return None
