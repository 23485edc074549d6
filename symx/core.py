"""
Symbolic execution core: real Python code is run on `Sym` values (z3 terms).

* `Sym` overloads arithmetic/comparison, and carries the methods numpy's object
  loops look for (`sqrt`, `tan`, ...), so unmodified numpy code builds terms.
* `SymBool.__bool__` is the fork point: the explorer re-executes the harness
  once per feasible decision sequence, asking the solver which sides exist.
* Floats are exact rationals (stated in every evidence file); every
  counterexample is replayed on plain floats before it is reported.
"""
import hashlib
import time
from fractions import Fraction

import numpy as np
import z3

CURRENT = None  # the active Path


class Inconclusive(Exception):
    """The solver (or the engine) gave no answer"""


class Unsupported(Exception):
    """The code did something the engine does not model"""


class Infeasible(BaseException):
    """The current path has no model"""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.validated = 0
        self.claims = 0


STATS = Stats()


BEAT = None  # start of the query under way, watched by the parent process


def check(solver_or_constraints, timeout_ms=60000):
    """Run one query, counting it"""
    if isinstance(solver_or_constraints, z3.Solver):
        s = solver_or_constraints
    else:
        s = z3.Solver()
        s.add(*solver_or_constraints)
    s.set("timeout", timeout_ms)
    t0 = time.time()
    if BEAT is not None:
        BEAT.value = t0
    r = s.check()
    if BEAT is not None:
        BEAT.value = 0
    STATS.solver_s += time.time() - t0
    STATS.queries += 1
    if r == z3.sat:
        STATS.sat += 1
    elif r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return r, s


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        raise OverflowError("non-finite constant")
    # A float constant stands for the simplest rational that rounds to it
    # (1/3, 0.1, ...); np.longdouble goes through float.
    r = Fraction(f).limit_denominator(10000)
    return r if float(r) == f else Fraction(f)


def const(x):
    f = to_fraction(x)
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return z3.IntVal(int(x))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
TRANSCENDENTAL = set()  # the ones met so far
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())

_NUM = (int, float, np.integer, np.floating, Fraction)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CURRENT.branch(self.e)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __mul__(self, o):
        return int(self) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def __and__(self, o):
        return SymBool(z3.And(self.e, bool_expr(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, bool_expr(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, bool_expr(o)))
    __rxor__ = __xor__

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return SymBool(self.e == bool_expr(o))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return SymBool(self.e != bool_expr(o))

    __hash__ = object.__hash__


def bool_expr(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, z3.BoolRef):
        return o
    if isinstance(o, Sym):
        return o.e != 0
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return bool_expr(o.item())
    raise Unsupported(f"bool_expr({type(o)})")


def _u(name):
    return name


class Sym:
    """A symbolic number.  `nan` is None (never NaN) or a z3 Bool."""
    __slots__ = ("e", "nan")
    __array_priority__ = -1

    def __init__(self, e, nan=None):
        self.e = e
        self.nan = nan

    # -- helpers ---------------------------------------------------------
    @staticmethod
    def lift(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return Sym(z3.If(o.e, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(o, (bool, np.bool_)):
            return Sym(z3.IntVal(int(o)))
        if isinstance(o, (float, np.floating)) and o != o:
            return Sym(z3.RealVal(0), z3.BoolVal(True))
        if isinstance(o, _NUM):
            return Sym(const(o))
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return Sym.lift(o.item())
        return None

    @staticmethod
    def _nan(*syms):
        ns = [s.nan for s in syms if s.nan is not None]
        if not ns:
            return None
        return ns[0] if len(ns) == 1 else z3.Or(*ns)

    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _is_inf(o):
            raise Unsupported("arithmetic with an infinite constant")
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return Sym(f(a.e, b.e), Sym._nan(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    @staticmethod
    def _div(a, b):
        a, b = real(a), real(b)
        if CURRENT is not None:
            CURRENT.nonzero(b)
        return a / b

    def __truediv__(self, o):
        return self._bin(o, Sym._div)

    def __rtruediv__(self, o):
        return self._bin(o, Sym._div, True)

    def __floordiv__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if self.e.is_int() and o.e.is_int() and z3.is_int_value(o.e) and (
            o.e.as_long() > 0
        ):
            return Sym(self.e / o.e, Sym._nan(self, o))
        q = Sym._div(self.e, o.e)
        return Sym(z3.ToReal(z3.ToInt(q)), Sym._nan(self, o))

    def __mod__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if self.e.is_int() and o.e.is_int() and z3.is_int_value(o.e) and (
            o.e.as_long() > 0
        ):
            return Sym(self.e % o.e, Sym._nan(self, o))
        q = Sym._div(self.e, o.e)
        return Sym(
            real(self.e) - real(o.e) * z3.ToReal(z3.ToInt(q)),
            Sym._nan(self, o)
        )

    def __neg__(self):
        return Sym(-self.e, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(z3.If(self.e >= 0, self.e, -self.e), self.nan)

    absolute = fabs = __abs__

    def __pow__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        ee = z3.simplify(o.e)
        nan = Sym._nan(self, o)
        if z3.is_int_value(ee) or z3.is_rational_value(ee):
            f = Fraction(ee.as_string())
            if f.denominator == 1:
                return Sym(_ipow(self.e, f.numerator), nan)
            if f.denominator == 2:
                root = self.sqrt()
                return Sym(_ipow(root.e, f.numerator), nan)
        base = z3.simplify(real(self.e))
        expo = z3.simplify(real(o.e), som=True)
        TRANSCENDENTAL.add("pow")
        r = POW(base, expo)
        if CURRENT is not None:
            CURRENT.assume_def(z3.Implies(base > 0, r > 0))
        return Sym(r, nan)

    def __rpow__(self, o):
        return Sym.lift(o).__pow__(self)

    # -- comparisons -----------------------------------------------------
    def _cmp(self, o, f):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _is_inf(o):
            # every Sym is finite (or NaN)
            res = f(0, 1) if float(o) > 0 else f(0, -1)
            res = z3.BoolVal(bool(res))
            if self.nan is not None:
                res = z3.And(z3.Not(self.nan), res)
            return SymBool(res)
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        res = f(self.e, o.e)
        nan = Sym._nan(self, o)
        if nan is not None:
            res = z3.And(z3.Not(nan), res)
        return SymBool(res)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.e))

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        c = self.e != 0
        if self.nan is not None:
            c = z3.Or(self.nan, c)
        return CURRENT.branch(c)

    # -- functions -------------------------------------------------------
    def isnan(self):
        return SymBool(z3.BoolVal(False) if self.nan is None else self.nan)

    def isfinite(self):
        return SymBool(
            z3.BoolVal(True) if self.nan is None else z3.Not(self.nan)
        )

    def isinf(self):
        return SymBool(z3.BoolVal(False))

    def sqrt(self):
        e = real(self.e)
        if CURRENT.x.nan_sqrt:
            neg = z3.simplify(e < 0)
            if not z3.is_false(neg):
                return Sym(
                    CURRENT.sqrt(e), neg if self.nan is None
                    else z3.Or(self.nan, neg)
                )
        return Sym(CURRENT.sqrt(e), self.nan)

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def square(self):
        return self * self

    def tan(self):
        return Sym(CURRENT.trig(real(self.e))[0], self.nan)

    def cos(self):
        return Sym(CURRENT.trig(real(self.e), cs=True)[1], self.nan)

    def sin(self):
        t, c = CURRENT.trig(real(self.e), cs=True)
        return Sym(t * c, self.nan)

    def arctan(self):
        return Sym(CURRENT.fun("arctan", self.e), self.nan)

    def arctan2(self, other):
        return Sym(CURRENT.fun("arctan2", self.e, Sym.lift(other).e), self.nan)

    def exp(self):
        TRANSCENDENTAL.add("exp")
        return Sym(EXP(real(self.e)), self.nan)

    def log(self):
        TRANSCENDENTAL.add("log")
        return Sym(LOG(real(self.e)), self.nan)

    def log10(self):
        TRANSCENDENTAL.add("log10")
        return Sym(CURRENT.fun("log10", self.e), self.nan)

    def degrees(self):
        return self * (180 / np.pi)

    rad2deg = degrees

    def radians(self):
        return self * (np.pi / 180)

    deg2rad = radians

    def conjugate(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    def item(self):
        return self

    # -- conversions -----------------------------------------------------
    def __float__(self):
        v = z3.simplify(self.e)
        if z3.is_rational_value(v) or z3.is_int_value(v):
            return float(Fraction(v.as_string()))
        raise Unsupported("float() of a symbolic value")

    def __index__(self):
        return CURRENT.concretize_int(self)

    def __int__(self):
        return CURRENT.concretize_int(self)

    def __str__(self):
        return CURRENT.token(self) if CURRENT is not None else repr(self)

    def __format__(self, spec):
        return str(self)

    def __repr__(self):
        v = z3.simplify(self.e) if z3.is_const(self.e) else None
        return f"Sym({v})" if v is not None else f"Sym#{self.e.get_id()}"


def _is_inf(o):
    return isinstance(o, (float, np.floating)) and (
        o == float("inf") or o == float("-inf")
    )


def _ipow(e, n):
    if n == 0:
        return z3.RealVal(1)
    if n < 0:
        r = _ipow(e, -n)
        if CURRENT is not None:
            CURRENT.nonzero(real(e))
        return 1 / real(r)
    r = e
    for _ in range(n - 1):
        r = r * e
    return r


class Path:
    """One execution: prefix of decisions + path condition"""

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.defs = []      # definitional constraints (sqrt, trig, ...)
        self.nz = []        # denominators assumed non-zero
        self._nzset = set()
        self._defset = set()
        self.solver = z3.Solver()
        self.notes = []
        self.models = []    # models with the constraints they satisfy
        self.kept = []
        self.tokens = explorer.tokens

    # -- constraints -----------------------------------------------------
    def assume(self, e):
        e = bool_expr(e)
        self.pc.append(e)
        self.solver.add(e)

    def assume_def(self, e):
        k = e.get_id()
        if k in self._defset:
            return
        self._defset.add(k)
        self.defs.append(e)
        self.solver.add(e)

    def nonzero(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            if e.as_fraction() == 0:
                raise ZeroDivisionError("division by a constant zero")
            return
        k = e.get_id()
        if k in self._nzset:
            return
        self._nzset.add(k)
        self.nz.append(e)
        if self.x.nz_in_path:
            self.solver.add(e != 0)

    def constraints(self):
        return self.pc + self.defs + [e != 0 for e in self.nz]

    # -- forking ---------------------------------------------------------
    def _feasible(self, e):
        self.solver.push()
        self.solver.add(e)
        r, _ = check(self.solver, self.x.branch_timeout)
        self.solver.pop()
        return r != z3.unsat

    def implied(self, e):
        self.solver.push()
        self.solver.add(z3.Not(e))
        r, _ = check(self.solver, self.x.branch_timeout)
        self.solver.pop()
        return r == z3.unsat

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if len(self.decisions) > self.x.max_decisions:
                raise Inconclusive("too many decisions on one path")
            t = self._feasible(e)
            f = self._feasible(z3.Not(e)) if t else True
            if t and f:
                d = self.x.first_choice(i)
                self.x.todo.append(self.decisions + [not d])
                STATS.branches += 1
            elif t:
                d = True
            else:
                d = False
        self.decisions.append(d)
        c = e if d else z3.Not(e)
        self.pc.append(c)
        self.solver.add(c)
        return d

    def concretize_int(self, sym):
        v = z3.simplify(sym.e)
        if z3.is_int_value(v):
            return v.as_long()
        for k in self.x.int_candidates:
            if self.branch(sym.e == k):
                return k
        raise Unsupported(f"no candidate for index {sym.e}")

    # -- functions -------------------------------------------------------
    def sqrt(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            f = e.as_fraction()
            import math
            n, d = math.isqrt(abs(f.numerator)), math.isqrt(f.denominator)
            if f >= 0 and n * n == f.numerator and d * d == f.denominator:
                return z3.RealVal(f"{n}/{d}")
        canon = canonical(e)
        known = self.x.known_sqrt.get(canon)
        if known is not None:
            return known
        name = self.x.name_for("sqrt", canon)
        y = z3.Real(name)
        self.x.sqrts[name] = e
        if self.x.nan_sqrt:
            self.assume_def(z3.And(y >= 0, z3.Implies(e >= 0, y * y == e)))
        else:
            self.assume_def(z3.And(y >= 0, y * y == e))
        return y

    def trig(self, e, cs=False):
        e = z3.simplify(e)
        t = z3.Real(self.x.name_for("tan", canonical(e)))
        self.x.trigs[t.decl().name()] = e
        if not cs:
            return t, None
        # angles in (-pi/2, pi/2): cos = 1 / sqrt(1 + tan^2)
        return t, 1 / self.sqrt(1 + t * t)

    def fun(self, name, *args):
        args = [real(z3.simplify(a)) for a in args]
        f = z3.Function(
            name, *([z3.RealSort()] * len(args)), z3.RealSort()
        )
        return f(*args)

    def token(self, sym):
        k = sym.e.get_id()
        tok = f"<<sym{k}>>"
        self.tokens[tok] = sym
        return tok


def canonical(e, limit=400):
    """
    A text equal for sums and products that differ in order, nesting or
    expansion only (the expression itself where it is large)
    """
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            stack.extend(x.children())
    if len(seen) > limit:
        return e.sexpr()
    e = z3.simplify(z3.simplify(e, som=True), som=True)
    cache = {}

    def go(x):
        k = x.get_id()
        if k not in cache:
            ch = [go(c) for c in x.children()]
            if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                ch.sort()
            cache[k] = (
                f"({x.decl().name()} {' '.join(ch)})" if ch else x.sexpr()
            )
        return cache[k]
    return go(e)


class Explorer:
    def __init__(self, *, max_paths=4000, branch_timeout=10000,
                 max_decisions=400, nz_in_path=True, int_candidates=(),
                 nan_sqrt=False):
        self.nan_sqrt = nan_sqrt
        self.max_paths = max_paths
        self.branch_timeout = branch_timeout
        self.max_decisions = max_decisions
        self.nz_in_path = nz_in_path
        self.int_candidates = list(int_candidates)
        self.todo = []
        self.names = {}
        self.keep = []
        self.sqrts = {}
        self.trigs = {}
        self.tokens = {}
        self.known_sqrt = {}
        self.paths = 0

    def first_choice(self, i):
        return True

    def name_for(self, kind, e):
        h = hashlib.md5(e.encode()).hexdigest()[:10]
        return f"{kind}_{h}"

    def run(self, fn):
        """Yield (path, result or exception) for every feasible path"""
        global CURRENT
        self.todo = [[]]
        while self.todo:
            prefix = self.todo.pop()
            path = Path(self, prefix)
            self.paths += 1
            STATS.paths += 1
            if self.paths > self.max_paths:
                raise Inconclusive("path limit reached")
            prev, CURRENT = CURRENT, path
            try:
                try:
                    res, exc = fn(path), None
                except Infeasible:
                    continue
                except (Inconclusive, Unsupported):
                    raise
                except (Exception, SystemExit) as e:
                    # pylint: disable=broad-except
                    res, exc = None, e
                yield path, res, exc
            finally:
                CURRENT = prev
