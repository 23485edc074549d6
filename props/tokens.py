"""
Symbolic numbers inside text: `str` of a symbolic number is an opaque token,
and the converters of stringtopy / `int` / `float` give the number back.
"""
from fractions import Fraction

from symx import core
import disc_solver.utils as ut

REAL = dict(
    str_to_float=ut.str_to_float, str_to_int=ut.str_to_int,
)


def lookup(s):
    if core.CURRENT is None or not isinstance(s, str):
        return None
    return core.CURRENT.tokens.get(s.strip())


def wrap(fn):
    def conv(s, *a, **kw):
        sym = lookup(s)
        if sym is not None:
            return sym
        return fn(s, *a, **kw)
    return conv


def extra():
    """Table entries for Case(extra=...)"""
    return {v: wrap(v) for v in REAL.values()}


tok_int = wrap(int)
tok_float = wrap(float)
tok_fraction = wrap(lambda s: float(Fraction(s)))
