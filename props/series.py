"""Truncated power series in the angle, for specifications"""


class Series:
    """sum_i c[i] x**i, truncated at a fixed order"""
    def __init__(self, *c, order=4):
        self.n = order
        self.c = (list(c) + [0] * order)[:order]

    @staticmethod
    def lift(o, n):
        return o if isinstance(o, Series) else Series(o, order=n)

    def __add__(self, o):
        o = Series.lift(o, self.n)
        return Series(*[a + b for a, b in zip(self.c, o.c)], order=self.n)
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + Series.lift(o, self.n) * -1

    def __rsub__(self, o):
        return Series.lift(o, self.n) - self

    def __mul__(self, o):
        o = Series.lift(o, self.n)
        r = [0] * self.n
        for i, a in enumerate(self.c):
            for j, b in enumerate(o.c):
                if i + j < self.n and not (_zero(a) or _zero(b)):
                    r[i + j] = r[i + j] + a * b
        return Series(*r, order=self.n)
    __rmul__ = __mul__

    def d(self):
        return Series(
            *[(i + 1) * a for i, a in enumerate(self.c[1:])], order=self.n
        )

    def __getitem__(self, i):
        return self.c[i]


def _zero(a):
    return isinstance(a, (int, float)) and a == 0
