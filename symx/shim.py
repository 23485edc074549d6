"""
Let unmodified numpy code of disc_solver run on object arrays of `Sym`.

Every global of every disc_solver module that *is* one of numpy's allocation or
float-only functions is replaced (by identity, for the duration of one symbolic
run) by a version that accepts object arrays.  Everything else is the real
code and the real numpy.
"""
import contextlib
import math
import sys
import types

import numpy as np

from .core import Sym, SymBool


def _is_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_is_sym(i) for i in x)
    return False


def sym_float(x=0.0):
    """float64 constructor that keeps symbolic values"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    return np.float64(x)


def _dtype(dtype):
    if dtype in (sym_float, np.float64, float, None, np.longdouble):
        return object
    return dtype


def sym_zeros(shape, dtype=None, **kw):
    a = np.empty(shape, dtype=_dtype(dtype), **kw)
    a[...] = 0.0
    return a


def sym_empty(shape, dtype=None, **kw):
    return np.empty(shape, dtype=_dtype(dtype), **kw)


def sym_ones(shape, dtype=None, **kw):
    a = np.empty(shape, dtype=_dtype(dtype), **kw)
    a[...] = 1.0
    return a


def sym_full(shape, fill_value, dtype=None, **kw):
    a = np.empty(shape, dtype=_dtype(dtype), **kw)
    a[...] = fill_value
    return a


def sym_like(fn):
    def like(a, *args, dtype=None, **kw):
        return fn(np.shape(a), *args, dtype=dtype, **kw)
    return like


def sym_array(obj, dtype=None, **kw):
    if dtype in (sym_float, np.float64, float) and _is_sym(obj):
        dtype = object
    if dtype is sym_float:
        dtype = np.float64
    return np.array(obj, dtype=dtype, **kw)


def sym_asarray(obj, dtype=None, **kw):
    if isinstance(obj, np.ndarray) and dtype is None:
        return obj
    return sym_array(obj, dtype=dtype)


def elementwise(pyfn, npfn, out=bool):
    def fn(x, *args, **kw):
        if isinstance(x, np.ndarray) and x.dtype == object:
            res = np.empty(x.shape, dtype=out)
            for i in np.ndindex(x.shape):
                res[i] = bool(pyfn(x[i])) if out is bool else pyfn(x[i])
            return res if x.ndim else res.item()
        if isinstance(x, Sym):
            return pyfn(x)
        if isinstance(x, (list, tuple)) and _is_sym(x):
            return fn(np.array(x, dtype=object))
        return npfn(x, *args, **kw)
    return fn


def _isnan1(v):
    return v.isnan() if isinstance(v, Sym) else bool(np.isnan(v))


def _isfinite1(v):
    return v.isfinite() if isinstance(v, Sym) else bool(np.isfinite(v))


def _isinf1(v):
    return v.isinf() if isinstance(v, Sym) else bool(np.isinf(v))


sym_isnan = elementwise(_isnan1, np.isnan)
sym_isfinite = elementwise(_isfinite1, np.isfinite)
sym_isinf = elementwise(_isinf1, np.isinf)


def _ufunc_scalar(name, npfn):
    """ufunc on object data: method on Sym, numpy on plain numbers"""
    def one(v):
        if isinstance(v, Sym):
            return getattr(v, name)()
        return npfn(v)

    def fn(x, *args, **kw):
        if isinstance(x, np.ndarray) and x.dtype == object:
            res = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                res[i] = one(x[i])
            return res if x.ndim else res.item()
        if isinstance(x, Sym):
            return one(x)
        if isinstance(x, (list, tuple)) and _is_sym(x):
            return fn(np.array(x, dtype=object))
        return npfn(x, *args, **kw)
    return fn


UFUNCS = [
    "sqrt", "tan", "sin", "cos", "arctan", "exp", "log", "log10", "degrees",
    "radians", "rad2deg", "deg2rad", "square",
]


class InterpLinear:
    """
    scipy.interpolate.interp1d(kind='linear') by its documented contract, on
    symbolic data: sort by x, ValueError outside the range.
    """
    def __init__(self, x, y, kind="linear", bounds_error=None,
                 fill_value=None, assume_sorted=False, **kw):
        x, y = list(x), list(y)
        if len(x) != len(y):
            raise ValueError("x and y arrays must be equal in length")
        if kind != "linear":
            raise NotImplementedError("interpolation kind " + str(kind))
        pts = list(zip(x, y))
        # insertion sort, forking on each comparison
        out = []
        for p in pts:
            i = len(out)
            while i > 0 and bool(p[0] < out[i - 1][0]):
                i -= 1
            out.insert(i, p)
        self.pts = out
        self.extrapolate = isinstance(fill_value, str)

    def _one(self, v):
        pts = self.pts
        if len(pts) < 2:
            raise ValueError("x and y arrays must have at least 2 entries")
        if not self.extrapolate and (
            bool(v < pts[0][0]) or bool(v > pts[-1][0])
        ):
            raise ValueError("value outside the interpolation range")
        for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
            if bool(v <= x1):
                break
        return y0 + (y1 - y0) * (v - x0) / (x1 - x0)

    def __call__(self, v):
        if isinstance(v, np.ndarray) and v.ndim:
            return np.array([self._one(i) for i in v], dtype=object)
        return self._one(v)


def sym_interp1d(x, y, *args, **kw):
    import scipy.interpolate
    if _is_sym(np.asarray(x)) or _is_sym(np.asarray(y)):
        return InterpLinear(x, y, *args, **kw)
    return scipy.interpolate.interp1d(x, y, *args, **kw)


def sym_maxmin(which, npfn):
    def fn(x, *args, **kw):
        if not args and not kw and _is_sym(x):
            vals = list(np.asarray(x, dtype=object).ravel())
            best = vals[0]
            for v in vals[1:]:
                if bool(v > best) if which == "max" else bool(v < best):
                    best = v
            return best
        return npfn(x, *args, **kw)
    return fn


def sym_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if _is_sym(a) or _is_sym(b):
        a, b = np.broadcast_arrays(
            np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        )
        res = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(a.shape):
            d = a[i] - b[i]
            res[i] = bool(abs(d) <= atol + rtol * abs(b[i]))
        return res if res.ndim else bool(res.item())
    return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


class _Float(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is _Float.made

    def __hash__(cls):
        return hash(float)


class plain_float(float, metaclass=_Float):
    """float() that keeps symbolic values"""
    def __new__(cls, *args):
        if args and isinstance(args[0], Sym):
            return args[0]
        if args and isinstance(args[0], np.ndarray) and args[0].size == 1 \
                and isinstance(args[0].item(), Sym):
            return args[0].item()
        return float(*args)


_Float.made = plain_float


def sym_hypot(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return (x * x + y * y).sqrt()
    return math.hypot(x, y)


def sym_pow(x, y):
    return x ** y if _is_sym([x, y]) else math.pow(x, y)


def sym_fabs(x):
    return abs(x) if isinstance(x, Sym) else math.fabs(x)


def sym_mathclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not _is_sym([a, b]):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b)) or (
        bool(d <= abs_tol))


def sym_interp(x, xp, fp, left=None, right=None, period=None):
    if not _is_sym([x, xp, fp]) or period is not None:
        return np.interp(x, xp, fp, left, right, period)

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v > xp[-1]):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(v <= xp[i + 1]):
                break
        if len(xp) == 1:
            return fp[0]
        return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
    if np.ndim(x):
        return np.array([one(v) for v in x], dtype=object)
    return one(x)


def sym_linspace(start, stop, num=50, **kw):
    if _is_sym([start, stop]) and kw.get("endpoint") is True:
        kw.pop("endpoint")
    if _is_sym([start, stop]) and not kw:
        num = int(num)
        step = (stop - start) / (num - 1) if num > 1 else 0
        return np.array(
            [start + i * step for i in range(num)], dtype=object
        )
    return np.linspace(start, stop, num, **kw)


def sym_norm(x, ord=None, axis=None, keepdims=False):
    if _is_sym(x) and ord in (None, 2) and not keepdims:
        x = np.asarray(x, dtype=object)
        if axis is None:
            x, axis = x.ravel(), 0
        return _sqrt_fn((x * x).sum(axis=axis))
    return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)


def sym_nanarg(which, npfn):
    def fn(x, *args, **kw):
        if not args and not kw and _is_sym(x):
            best = None
            for i, v in enumerate(np.asarray(x, dtype=object).ravel()):
                if bool(sym_isnan(v)):
                    continue
                if best is None or bool(
                    v > best[1] if which == "max" else v < best[1]
                ):
                    best = (i, v)
            if best is None:
                raise ValueError("All-NaN slice encountered")
            return best[0]
        return npfn(x, *args, **kw)
    return fn


def sym_nanmaxmin(which, npfn):
    arg = sym_nanarg(which, None)

    def fn(x, *args, **kw):
        if not args and not kw and _is_sym(x):
            flat = np.asarray(x, dtype=object).ravel()
            if flat.size and all(bool(sym_isnan(v)) for v in flat):
                return np.nan
            return flat[arg(x)]
        return npfn(x, *args, **kw)
    return fn


def sym_allclose(a, b, **kw):
    return bool(np.all(sym_isclose(a, b, **kw)))


def sym_array_equal(a, b, **kw):
    a, b = np.asarray(a), np.asarray(b)
    if (a.dtype == object or b.dtype == object) and not kw:
        return a.shape == b.shape and all(
            bool(x == y) for x, y in zip(a.ravel(), b.ravel())
        )
    return np.array_equal(a, b, **kw)


def sym_gradient(f, *varargs, **kw):
    if kw or len(varargs) > 1 or not _is_sym([f, *varargs]) or np.ndim(f) > 1:
        return np.gradient(f, *varargs, **kw)
    f = np.asarray(f, dtype=object)
    x = varargs[0] if varargs else 1
    if np.ndim(x) == 0:
        x = np.arange(len(f)) * x
    h = np.diff(x)
    out = np.empty(len(f), dtype=object)
    out[0] = (f[1] - f[0]) / h[0]
    out[-1] = (f[-1] - f[-2]) / h[-1]
    for i in range(1, len(f) - 1):
        a, b = h[i - 1], h[i]
        out[i] = (a * a * f[i + 1] + (b * b - a * a) * f[i]
                  - b * b * f[i - 1]) / (a * b * (a + b))
    return out


def sym_fsum(seq):
    seq = list(seq)
    return sum(seq) if _is_sym(seq) else math.fsum(seq)


def sym_copysign(x, y):
    if not _is_sym([x, y]):
        return np.copysign(x, y)

    def one(a, b):
        return abs(a) if bool(b >= 0) else -abs(a)
    if np.ndim(x) or np.ndim(y):
        return np.frompyfunc(one, 2, 1)(x, y)
    return one(x, y)


def sym_signbit(x):
    if not _is_sym(x):
        return np.signbit(x)
    return x < 0


def sym_float_power(x, y):
    return x ** y if _is_sym([x, y]) else np.float_power(x, y)


def _sqrt_fn(x):
    return _ufunc_scalar("sqrt", np.sqrt)(x)


def build_table(extra=None):
    import math
    import scipy.interpolate
    table = {
        id(np.float64): sym_float,
        id(np.zeros): sym_zeros,
        id(np.empty): sym_empty,
        id(np.ones): sym_ones,
        id(np.full): sym_full,
        id(np.zeros_like): sym_like(sym_zeros),
        id(np.empty_like): sym_like(sym_empty),
        id(np.ones_like): sym_like(sym_ones),
        id(np.full_like): sym_like(sym_full),
        id(np.array): sym_array,
        id(np.asarray): sym_asarray,
        id(np.isnan): sym_isnan,
        id(np.isfinite): sym_isfinite,
        id(np.isinf): sym_isinf,
        id(np.isclose): sym_isclose,
        id(np.max): sym_maxmin("max", np.max),
        id(np.min): sym_maxmin("min", np.min),
        id(np.nanmax): sym_nanmaxmin("max", np.nanmax),
        id(np.nanmin): sym_nanmaxmin("min", np.nanmin),
        id(np.nanargmax): sym_nanarg("max", np.nanargmax),
        id(np.nanargmin): sym_nanarg("min", np.nanargmin),
        id(np.linspace): sym_linspace,
        id(np.interp): sym_interp,
        id(math.hypot): sym_hypot,
        id(math.pow): sym_pow,
        id(math.fabs): sym_fabs,
        id(math.isclose): sym_mathclose,
        id(np.linalg.norm): sym_norm,
        id(np.allclose): sym_allclose,
        id(np.gradient): sym_gradient,
        id(math.fsum): sym_fsum,
        id(math.copysign): sym_copysign,
        id(np.copysign): sym_copysign,
        id(np.signbit): sym_signbit,
        id(np.float_power): sym_float_power,
        id(np.array_equal): sym_array_equal,
        id(scipy.interpolate.interp1d): sym_interp1d,
    }
    for name in ("sqrt", "tan", "sin", "cos", "exp", "log", "log10",
                 "degrees", "radians"):
        f = getattr(math, name)
        table[id(f)] = _ufunc_scalar(name, f)
    for name in ("isnan", "isfinite", "isinf"):
        f = getattr(math, name)
        table[id(f)] = elementwise(
            dict(isnan=_isnan1, isfinite=_isfinite1, isinf=_isinf1)[name], f
        )
    for name in UFUNCS:
        f = getattr(np, name)
        table[id(f)] = _ufunc_scalar(name, f)
    for k, v in (extra or {}).items():
        table[id(k)] = v
    return table


class NumpyProxy(types.ModuleType):
    def __init__(self, mod, table):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        self.__dict__["_table"] = table

    def __getattr__(self, name):
        v = getattr(self._mod, name)
        if v is np.linalg:
            return NumpyProxy(v, self._table)
        return self._table.get(id(v), v)


@contextlib.contextmanager
def shim(extra=None, prefix="disc_solver"):
    """Swap the float-only numpy functions of all disc_solver modules"""
    table = build_table(extra)
    saved = []
    proxies = {}
    for name, mod in list(sys.modules.items()):
        if mod is None or not (
            name == prefix or name.startswith(prefix + ".")
        ):
            continue
        if "float" not in vars(mod):
            saved.append((mod, "float", None))
            mod.float = plain_float
        for k, v in list(vars(mod).items()):
            if k.startswith("__"):
                continue
            new = None
            try:
                new = table.get(id(v))
            except Exception:  # pylint: disable=broad-except
                continue
            if new is None and any(v is m for m in (np, math, np.linalg)):
                new = proxies.setdefault(v.__name__, NumpyProxy(v, table))
            if new is not None:
                saved.append((mod, k, v))
                setattr(mod, k, new)
            # default arguments holding a patched function (tan=np_tan)
            if isinstance(v, types.FunctionType) and v.__module__ and (
                v.__module__.startswith(prefix)
            ):
                kd = v.__kwdefaults__
                if kd and any(id(d) in table for d in kd.values()):
                    saved.append((v, "__kwdefaults__", kd))
                    v.__kwdefaults__ = {
                        a: table.get(id(d), d) for a, d in kd.items()
                    }
                dd = v.__defaults__
                if dd and any(id(d) in table for d in dd):
                    saved.append((v, "__defaults__", dd))
                    v.__defaults__ = tuple(table.get(id(d), d) for d in dd)
    try:
        yield
    finally:
        for obj, k, v in reversed(saved):
            if v is None and k == "float":
                delattr(obj, k)
            else:
                setattr(obj, k, v)
