"""Library contracts used while the code under verification runs on symbolic values.

The functions of /repo are executed unchanged; the *names of library functions* their module globals refer to (math.*,
numpy, builtins that are implemented in C and insist on machine floats) are rebound, by identity, to the stand-ins
below.  Each stand-in falls through to the original when no argument is symbolic.  These stand-ins are the assumed
contracts on dependencies (assumption A-LIB of DESIGN.md).
"""
import sys, math, builtins, types, bisect
from decimal import Decimal
from fractions import Fraction
from . import core as _core
import numpy as np
import z3
from .core import Sym, SBool, ctx, is_sym, bterm, as_real, Unsupported, realval, _is_inf, cancelled

_REAL = {k: getattr(builtins, k) for k in ("float", "int", "type", "len", "range", "zip", "enumerate", "sum", "tuple",
                                           "list", "any", "all", "min", "max", "round", "set", "bool", "sorted",
                                           "reversed", "map", "iter", "next")}


def has_sym(x, d=0):
    if type(x) in (Sym, SBool):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(type(e) in (Sym, SBool) for e in x.flat)
    if d < 4 and type(x) in (list, tuple):
        return any(has_sym(e, d + 1) for e in x)
    return getattr(type(x), "__vc_symbolic__", False)


def lift(x):
    return x if type(x) is Sym else Sym(z3.RealVal(0))._lift(x)


# --------------------------------------------------------------------------------------------- math
def m_sin(x):
    return ctx().trig(x)[0] if is_sym(x) else math.sin(x)


def m_cos(x):
    return ctx().trig(x)[1] if is_sym(x) else math.cos(x)


def m_tan(x):
    return ctx().tan(x) if is_sym(x) else math.tan(x)


def m_atan(x):
    return ctx().atan(x) if is_sym(x) else math.atan(x)


def m_atan2(y, x):
    return ctx().atan2(y, x)


def m_sqrt(x):
    return ctx().sqrt(x) if is_sym(x) else math.sqrt(x)


def m_hypot(*a):
    if not any(map(is_sym, a)):
        return math.hypot(*a)
    s = 0
    for x in a:
        s = s + x * x
    return ctx().sqrt(s, sumsq=True)


def m_fabs(x):
    return abs(x) if is_sym(x) else math.fabs(x)


def m_pow(x, y):
    return x**y if is_sym(x) or is_sym(y) else math.pow(x, y)


def m_floor(x):
    return x.__floor__() if is_sym(x) else math.floor(x)


def m_ceil(x):
    return x.__ceil__() if is_sym(x) else math.ceil(x)


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not (is_sym(a) or is_sym(b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if _is_inf(a) or _is_inf(b):
        return False
    d, m = abs(a - b), rel_tol * maximum(abs(a), abs(b))
    return d <= maximum(m, abs_tol)


def m_isnan(x):
    return False if is_sym(x) else math.isnan(x)


def m_isinf(x):
    return False if is_sym(x) else math.isinf(x)


def m_isfinite(x):
    return True if is_sym(x) else math.isfinite(x)


def m_radians(x):
    return x * (math.pi / 180) if is_sym(x) else math.radians(x)


def m_degrees(x):
    return x * (180 / math.pi) if is_sym(x) else math.degrees(x)


def m_copysign(x, y):
    if not (is_sym(x) or is_sym(y)):
        return math.copysign(x, y)
    return abs(x) if y >= 0 else -abs(x)


def m_fmod(x, y):
    if not (is_sym(x) or is_sym(y)):
        return math.fmod(x, y)
    q = x / y
    return x - y * (q.__trunc__())


def m_remainder(x, y):
    if not (is_sym(x) or is_sym(y)):
        return math.remainder(x, y)
    return x - y * ((x / y + 0.5).__floor__())  # ties aside


MATH = {
    "remainder": m_remainder,
    "sin": m_sin, "cos": m_cos, "tan": m_tan, "atan": m_atan, "atan2": m_atan2, "sqrt": m_sqrt, "hypot": m_hypot,
    "fabs": m_fabs, "pow": m_pow, "floor": m_floor, "ceil": m_ceil, "isclose": m_isclose, "isnan": m_isnan,
    "isinf": m_isinf, "isfinite": m_isfinite, "radians": m_radians, "degrees": m_degrees, "copysign": m_copysign,
    "fmod": m_fmod,
}


def maximum(a, b):
    return b if b > a else a


def minimum(a, b):
    return b if b < a else a


# --------------------------------------------------------------------------------------------- numpy
def _obj(x):
    """an object array of the same shape"""
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x
    a = np.array(x, dtype=object)
    return a


def np_array(x, *a, dtype=None, **k):
    if getattr(type(x), "__vc_symbolic__", False):
        return x.__vc_array__()
    if has_sym(x):
        k.pop("copy", None)
        if isinstance(x, np.ndarray):
            return np.array(x, dtype=object)
        return np.array(x, dtype=object)
    if a and dtype is None:
        return np.array(x, *a, **k)
    return np.array(x, dtype=dtype, **k) if dtype is not None else np.array(x, **k)


def np_asarray(x, dtype=None, **k):
    if has_sym(x):
        return x if isinstance(x, np.ndarray) else np_array(x)
    return np.asarray(x, dtype=dtype, **k)


def _zeros(shape, dtype=None, **k):
    a = np.empty(shape, dtype=object)
    a.fill(0.0)
    return a


def _ones(shape, dtype=None, **k):
    a = np.empty(shape, dtype=object)
    a.fill(1.0)
    return a


def _zeros_like(x, **k):
    return _zeros(np.shape(x))


def _eye(n, m=None, **k):
    return np.eye(n, m).astype(object)


def np_norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.astype(float)
        return np.linalg.norm(x, ord=ord, axis=axis)
    a = _obj(np_array(x))
    if axis is not None:
        if a.ndim == 2 and axis in (1, -1):
            return np.array([np_norm(r, ord) for r in a], dtype=object)
        if a.ndim == 2 and axis == 0:
            return np.array([np_norm(r, ord) for r in a.T], dtype=object)
        raise Unsupported("norm axis")
    f = list(a.flat)
    if ord in (None, 2, "fro") and (a.ndim <= 1 or ord != 2):
        if len(f) == 1:
            return abs(f[0])
        s = 0
        for e in f:
            s = s + e * e
        return ctx().sqrt(s, sumsq=True) if is_sym(s) else math.sqrt(s)
    if ord == 1 and a.ndim == 1:
        s = 0
        for e in f:
            s = s + abs(e)
        return s
    if ord in (np.inf,) and a.ndim == 1:
        s = abs(f[0])
        for e in f[1:]:
            s = maximum(s, abs(e))
        return s
    raise Unsupported("norm order")


def np_det(m):
    if not has_sym(m):
        return np.linalg.det(np.asarray(m, dtype=float))
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    if n == 3:
        return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
                + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))
    raise Unsupported("det")


def known(x, v):
    """is the entry that number"""
    if not is_sym(x):
        return float(x) == v
    t = z3.simplify(x.t)
    return z3.is_rational_value(t) and t.as_fraction() == v or z3.is_int_value(t) and t.as_long() == v


def np_inv(m):
    if not has_sym(m):
        return np.linalg.inv(np.asarray(m, dtype=float))
    n = m.shape[0]
    # an SE(2)/SO(2) block structure with unit determinant inverts without division
    if n == 3 and all(known(m[2, i], v) for i, v in enumerate((0, 0, 1))):
        d = np_det(m[:2, :2])
        r = np.empty((3, 3), dtype=object)
        a, b, c, e = m[0, 0], m[0, 1], m[1, 0], m[1, 1]
        unit = ctx().ring_zero(lift(d).t - 1) or ctx().check(lift(d).t != 1) == z3.unsat
        if not unit and ctx().branch(lift(d).t == 0):
            raise np.linalg.LinAlgError("Singular matrix")
        k = (lambda v: v) if unit else (lambda v: v / d)
        r[0, 0], r[0, 1], r[1, 0], r[1, 1] = k(e), k(-b), k(-c), k(a)
        x, y = m[0, 2], m[1, 2]
        r[0, 2] = -(r[0, 0] * x + r[0, 1] * y)
        r[1, 2] = -(r[1, 0] * x + r[1, 1] * y)
        r[2, 0], r[2, 1], r[2, 2] = 0.0, 0.0, 1.0
        return r
    d = np_det(m)
    if ctx().branch(lift(d).t == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    if n == 2:
        r = np.empty((2, 2), dtype=object)
        r[0, 0], r[0, 1], r[1, 0], r[1, 1] = m[1, 1] / d, -m[0, 1] / d, -m[1, 0] / d, m[0, 0] / d
        return r
    if n == 3:
        r = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                a = [[m[p, q] for q in range(3) if q != i] for p in range(3) if p != j]
                v = a[0][0] * a[1][1] - a[0][1] * a[1][0]
                r[i, j] = (v if (i + j) % 2 == 0 else -v) / d
        return r
    raise Unsupported("inv")


def _elementwise(f, *xs):
    if any(isinstance(x, np.ndarray) and x.ndim > 0 or isinstance(x, (list, tuple)) for x in xs):
        bs = np.broadcast_arrays(*[_obj(np_array(x)) for x in xs])
        out = np.empty(bs[0].shape, dtype=object)
        for idx in np.ndindex(bs[0].shape):
            out[idx] = f(*[b[idx] for b in bs])
        return out
    xs = [x.item() if isinstance(x, np.ndarray) else x for x in xs]
    return f(*xs)


def _wrap(name, f, native):
    def g(*xs, **k):
        if not any(has_sym(x) for x in xs):
            xs2 = [x.astype(float) if isinstance(x, np.ndarray) and x.dtype == object and name not in ("add",) else x for x in xs]
            return native(*xs2, **k)
        for x in xs:
            if getattr(type(x), "__vc_symbolic__", False):
                return x.__vc_map__(f, *xs)
        return _elementwise(f, *xs)

    g.__name__ = name
    return g


def np_clip(x, lo=None, hi=None, *a, a_min=None, a_max=None, **k):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    if not has_sym(x) and not has_sym(lo) and not has_sym(hi):
        return np.clip(x, lo, hi)

    def c1(v, l, h):
        # numpy: minimum(maximum(v, l), h)
        if l is not None:
            v = l if v < l else v
        if h is not None:
            v = h if v > h else v
        return v

    if isinstance(x, np.ndarray) and x.ndim > 0 or isinstance(x, (list, tuple)):
        return _elementwise(lambda v: c1(v, lo, hi), x)
    return c1(x.item() if isinstance(x, np.ndarray) else x, lo, hi)


def np_cross(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return np.cross(np.asarray(a, dtype=float), np.asarray(b, dtype=float), **k)
    a, b = _obj(np_array(a)), _obj(np_array(b))
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("cross")
    if len(a) == 2 and len(b) == 2:
        return a[0] * b[1] - a[1] * b[0]
    a = list(a) + [0.0] * (3 - len(a))
    b = list(b) + [0.0] * (3 - len(b))
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)


def np_where(c, *ab):
    if not has_sym(c) and not any(has_sym(x) for x in ab):
        return np.where(c, *ab)
    if not ab:
        if has_sym(c):
            c = np.array([bool(x) for x in _obj(c).flat])
        return np.where(c)
    c, a, b = np.broadcast_arrays(_obj(np_array(c)), _obj(np_array(ab[0])), _obj(np_array(ab[1])))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        out[i] = a[i] if c[i] else b[i]
    return out if out.ndim else out.item()


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not has_sym(a) and not has_sym(b):
        return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=rtol, atol=atol)
    a, b = np.broadcast_arrays(_obj(np_array(a)), _obj(np_array(b)))
    for x, y in zip(a.flat, b.flat):
        if not abs(x - y) <= atol + rtol * abs(y):
            return False
    return True


def np_all(a, *r, **k):
    if not has_sym(a):
        return np.all(a, *r, **k)
    return all(bool(x) for x in _obj(np_array(a)).flat)


def np_any(a, *r, **k):
    if not has_sym(a):
        return np.any(a, *r, **k)
    return any(bool(x) for x in _obj(np_array(a)).flat)


def np_sum(a, axis=None, **k):
    if getattr(type(a), "__vc_symbolic__", False):
        return a.__vc_sum__()
    if not has_sym(a):
        return np.sum(a, axis=axis, **k)
    return _obj(np_array(a)).sum(axis=axis)


def np_mean(a, axis=None, **k):
    if not has_sym(a):
        return np.mean(a, axis=axis, **k)
    a = _obj(np_array(a))
    n = a.size if axis is None else a.shape[axis]
    return a.sum(axis=axis) / n


def np_interp(x, xp, fp, **k):
    if not has_sym(x) and not has_sym(xp) and not has_sym(fp):
        return np.interp(x, xp, fp, **k)
    xp, fp = list(xp), list(fp)
    if x <= xp[0]:
        return fp[0]
    if x >= xp[-1]:
        return fp[-1]
    for i in range(len(xp) - 1):
        if x < xp[i + 1]:
            return fp[i] + (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (x - xp[i])
    return fp[-1]


def np_linspace(a, b, num=50, *r, **k):
    if not has_sym(a) and not has_sym(b) and not has_sym(num):
        return np.linspace(a, b, num, *r, **k)
    n = num.__index__() if is_sym(num) else int(num)
    return np.array([a + (b - a) * i / (n - 1) if n > 1 else a for i in range(n)], dtype=object)


def np_argmin(a, *r, **k):
    if not has_sym(a):
        return np.argmin(a, *r, **k)
    l = list(_obj(np_array(a)).flat)
    j = 0
    for i in range(1, len(l)):
        if l[i] < l[j]:
            j = i
    return j


def np_argmax(a, *r, **k):
    if not has_sym(a):
        return np.argmax(a, *r, **k)
    l = list(_obj(np_array(a)).flat)
    j = 0
    for i in range(1, len(l)):
        if l[i] > l[j]:
            j = i
    return j


def np_max(a, *r, **k):
    if not has_sym(a):
        return np.max(a, *r, **k)
    l = list(_obj(np_array(a)).flat)
    return l[np_argmax(a)]


def np_min(a, *r, **k):
    if not has_sym(a):
        return np.min(a, *r, **k)
    l = list(_obj(np_array(a)).flat)
    return l[np_argmin(a)]


def _sign(x):
    return 1.0 if x > 0 else (-1.0 if x < 0 else 0.0)


def np_float64(x=0.0):
    return s_float(x) if is_sym(x) else np.float64(x)


class _Linalg:
    norm = staticmethod(np_norm)
    det = staticmethod(np_det)
    inv = staticmethod(np_inv)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


LINALG = _Linalg()

NP = {
    "array": np_array, "asarray": np_asarray, "zeros": _zeros, "ones": _ones, "zeros_like": _zeros_like,
    "empty": _zeros, "eye": _eye, "identity": _eye, "clip": np_clip, "cross": np_cross, "where": np_where,
    "allclose": np_allclose, "all": np_all, "any": np_any, "sum": np_sum, "mean": np_mean, "interp": np_interp,
    "linspace": np_linspace, "argmin": np_argmin, "argmax": np_argmax, "max": np_max, "min": np_min, "amax": np_max,
    "amin": np_min,
    "arctan2": _wrap("arctan2", m_atan2, np.arctan2), "hypot": _wrap("hypot", m_hypot, np.hypot),
    "sin": _wrap("sin", m_sin, np.sin), "cos": _wrap("cos", m_cos, np.cos), "tan": _wrap("tan", m_tan, np.tan),
    "arctan": _wrap("arctan", m_atan, np.arctan), "sqrt": _wrap("sqrt", m_sqrt, np.sqrt),
    "abs": _wrap("abs", abs, np.abs), "absolute": _wrap("abs", abs, np.abs), "fabs": _wrap("fabs", m_fabs, np.fabs),
    "deg2rad": _wrap("deg2rad", m_radians, np.deg2rad), "rad2deg": _wrap("rad2deg", m_degrees, np.rad2deg),
    "radians": _wrap("deg2rad", m_radians, np.deg2rad), "degrees": _wrap("rad2deg", m_degrees, np.rad2deg),
    "sign": _wrap("sign", _sign, np.sign), "signbit": _wrap("signbit", lambda x: bool(x < 0), np.signbit),
    "maximum": _wrap("maximum", maximum, np.maximum), "minimum": _wrap("minimum", minimum, np.minimum),
    "isnan": _wrap("isnan", lambda x: False, np.isnan), "isinf": _wrap("isinf", lambda x: False, np.isinf),
    "isfinite": _wrap("isfinite", lambda x: True, np.isfinite),
    "isclose": _wrap("isclose", lambda a, b: abs(a - b) <= 1e-8 + 1e-5 * abs(b), np.isclose),
    "square": _wrap("square", lambda x: x * x, np.square),
    "power": _wrap("power", lambda x, y: x**y, np.power),
    "float64": np_float64, "round": lambda x, n=0, **k: np_round(x, n, **k), "around": lambda x, n=0, **k: np_round(x, n, **k), "rint": lambda x, *a, **k: np_round(x, 0) if has_sym(x) else np.rint(x, *a, **k),
    "floor": _wrap("floor", lambda x: x.floor() if is_sym(x) else math.floor(x), np.floor),
    "ceil": _wrap("ceil", lambda x: x.ceil() if is_sym(x) else math.ceil(x), np.ceil),
    "mod": _wrap("mod", lambda x, y: x % y, np.mod), "remainder": _wrap("mod", lambda x, y: x % y, np.mod),
}


class _NumpyProxy(types.ModuleType):
    linalg = LINALG

    def __getattr__(self, n):
        if n in NP:
            return NP[n]
        return getattr(np, n)


class _MathProxy(types.ModuleType):
    def __getattr__(self, n):
        if n in MATH:
            return MATH[n]
        return getattr(math, n)


NUMPY_PROXY = _NumpyProxy("numpy")
MATH_PROXY = _MathProxy("math")


# --------------------------------------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is s_float_cls

    def __hash__(cls):
        return hash(float)


class s_float_cls(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if type(x) is Sym:
            return Sym(as_real(x.t), "float")
        if type(x) is SBool:
            return Sym(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        return float(x)


s_float = s_float_cls


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is s_int

    def __hash__(cls):
        return hash(int)


class s_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if type(x) is Sym:
            return x if x.kind == "int" else x.__trunc__()
        if type(x) is SBool:
            return Sym(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), "int")
        return int(x, *a)


class _DecMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Decimal)

    def __subclasscheck__(cls, c):
        return issubclass(c, Decimal)

    def __eq__(cls, o):
        return o is Decimal or o is s_Decimal

    def __hash__(cls):
        return hash(Decimal)

    def __getattr__(cls, n):
        return getattr(Decimal, n)


class s_Decimal(metaclass=_DecMeta):
    def __new__(cls, x="0", *a):
        if type(x) is Sym:
            return Sym(as_real(x.t), "Decimal")
        return Decimal(x, *a)


def s_type(x, *a):
    if not a and type(x) is Sym:
        return x.__class__
    if not a and getattr(type(x), "__vc_symbolic__", False):
        return x.__class__
    return type(x, *a)


def s_round(x, n=None):
    if is_sym(x):
        # the contract of rounding: at most half a unit away (which neighbour of a tie is left open, so nothing is refuted by it)
        if is_sym(n):
            raise Unsupported("round")
        cx = ctx()
        cx.ex.approx = True
        t, h = (z3.ToReal(x.t) if x.t.is_int() else cancelled(x.t)), realval(Fraction(1, 2) / Fraction(10) ** (n or 0))
        if n is None:
            # an integer summand only shifts the result
            whole, part = [], []
            for a in (t.children() if z3.is_add(t) else [t]):
                if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
                    whole.append(a.arg(0))
                elif z3.is_mul(a) and a.num_args() == 2 and z3.is_rational_value(a.arg(0)) and a.arg(0).denominator_as_long() == 1 and z3.is_app_of(a.arg(1), z3.Z3_OP_TO_REAL):
                    whole.append(z3.IntVal(a.arg(0).numerator_as_long()) * a.arg(1).arg(0))
                elif z3.is_rational_value(a) and a.denominator_as_long() == 1:
                    whole.append(z3.IntVal(a.numerator_as_long()))
                else:
                    part.append(a)
            if not part:
                return Sym(z3.Sum(whole), "int")
            t = z3.Sum(part)
            r = cx.fresh("round", "int")
            cx.fact(z3.And(z3.ToReal(r) - t <= h, t - z3.ToReal(r) <= h))
            return Sym(z3.simplify(z3.Sum([r] + whole)), "int")
        r = cx.fresh("round")
        cx.fact(z3.And(r - t <= h, t - r <= h))
        return Sym(r, x.kind)
    return round(x, n) if n is not None else round(x)


def np_round(x, n=0, **k):
    if not has_sym(x):
        return np.round(x, n, **k)

    def one(v):
        r = s_round(v, n or None)
        return Sym(z3.ToReal(r.t)) if is_sym(r) and r.t.is_int() else r

    return _wrap("round", one, np.round)(x)


def s_bool(x=False):
    return bool(x)


def s_len(x):
    f = getattr(type(x), "__vc_len__", None)
    return f(x) if f else len(x)


BUILTINS = {"float": s_float_cls, "int": s_int, "type": s_type, "round": s_round, "len": s_len}


# --------------------------------------------------------------------------------------------- installation
def _identity_map():
    m = {}
    for k, v in MATH.items():
        m[id(getattr(math, k))] = v
    for k, v in NP.items():
        m[id(getattr(np, k))] = v
    m[id(np.linalg.norm)] = np_norm
    m[id(np.linalg.inv)] = np_inv
    m[id(np.linalg.det)] = np_det
    m[id(np.linalg)] = LINALG
    m[id(np)] = NUMPY_PROXY
    m[id(math)] = MATH_PROXY
    m[id(Decimal)] = s_Decimal
    return m


def target_modules(extra=()):
    out = []
    for n, mod in list(sys.modules.items()):
        if mod is None:
            continue
        if n == "dg_commons" or n.startswith("dg_commons.") or n in extra:
            out.append(mod)
    return out


GEOMETRY = tuple(f"geometry.{m}" for m in ("poses", "rotations", "basic_utils", "manifolds.special_euclidean",
                                            "manifolds.special_orthogonal", "manifolds.special_euclidean_algebra",
                                            "manifolds.matrix_lie_group", "poses_embedding", "rotations_embedding",
                                            "utils.numpy_backport", "manifolds.matrix_lie_algebra"))


def install():
    """rebind library names in the modules under verification (in this process only)"""
    m = _identity_map()
    for mod in target_modules(GEOMETRY):
        d = vars(mod)
        for k, v in list(d.items()):
            if id(v) in m and not k.startswith("__"):
                d[k] = m[id(v)]
        if mod.__name__.startswith("dg_commons"):
            for k, v in BUILTINS.items():
                d.setdefault(k, v)
        elif mod.__name__.startswith("geometry"):
            d.setdefault("float", s_float_cls)
