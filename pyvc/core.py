"""PyVC core: symbolic values over z3, path exploration by re-execution, proof obligations.

The code under verification is the code of /repo, executed by CPython on symbolic values.  Every branch on a
symbolic condition is explored both ways (re-execution along a decision trail), so an obligation proved on every
feasible path of a loop-free body holds for every input.  Loops over sequences of symbolic length are cut at a loop
invariant (see seqs.py).  Callees under their own contract may be replaced by that contract (see VC.stub).

Numbers are mathematical: float/Decimal -> reals, int -> integers (assumption A-REAL of DESIGN.md).
"""
import sys, time, math, os
from fractions import Fraction
from decimal import Decimal

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
import numpy as np


class PathEnd(BaseException):
    """This path is finished (end of an arbitrary loop iteration, or its condition became infeasible)."""


class Unsupported(BaseException):
    """The construct cannot be brought into the verifier's reach: undecided, never a violation."""


class Budget(BaseException):
    pass


# ------------------------------------------------------------------------------------------------ constants
_SNAP = 1e-15


def const_fraction(x):
    """A float literal denotes its shortest decimal; |x| < 1e-15 is rounding noise of 0 (assumption A-REAL)."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Decimal):
        return Fraction(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if abs(x) < _SNAP:
            return Fraction(0)
        return Fraction(repr(x))
    if isinstance(x, np.integer):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    raise Unsupported(f"constant {x!r}")


def _is_num(x):
    return isinstance(x, (int, float, Decimal, np.floating, np.integer, Fraction)) and not issubclass(type(x), Sym)


def _is_inf(x):
    if type(x) in (Sym, SBool):
        return False
    return (isinstance(x, (float, np.floating)) and math.isinf(x)) or (
        type(x) is Decimal and x.is_infinite()
    )


def _is_nan(x):
    if type(x) in (Sym, SBool):
        return False
    return (isinstance(x, (float, np.floating)) and math.isnan(x)) or (type(x) is Decimal and x.is_nan())


def realval(x):
    f = const_fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def as_real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


# ------------------------------------------------------------------------------------------------ symbolic numbers
class Sym:
    """A symbolic number."""

    __slots__ = ("t", "kind")
    __array_priority__ = 1000

    def __init__(self, t, kind="float"):
        self.t = t
        self.kind = kind

    # the dynamic type the program sees with isinstance()
    @property
    def __class__(self):
        return {"float": float, "Decimal": Decimal, "int": int}[self.kind]

    # -- helpers
    def _lift(self, o):
        if type(o) is Sym:
            return o
        if type(o) is SBool:
            return Sym(z3.If(o.t, z3.IntVal(1), z3.IntVal(0)), "int")
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return self._lift(o.item())
        if isinstance(o, (bool, np.bool_)):
            return Sym(z3.IntVal(int(o)), "int")
        if _is_num(o):
            if isinstance(o, (int, np.integer)):
                return Sym(z3.IntVal(int(o)), "int")
            return Sym(realval(o), "Decimal" if type(o) is Decimal else "float")
        return None

    def _kind(self, o):
        if self.kind == "int" and o.kind == "int":
            return "int"
        if "Decimal" in (self.kind, o.kind):
            if "float" in (self.kind, o.kind):
                raise TypeError("unsupported operand type(s): 'decimal.Decimal' and 'float'")
            return "Decimal"
        return "float"

    def _bin(self, o, f, swap=False):
        if getattr(type(o), "__vc_map__", None):
            return o.__vc_map__(lambda e: self._lift(e)._bin(self, f) if swap else self._bin(e, f))
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _over(o, lambda e: self._lift(e)._bin(self, f) if swap else self._bin(e, f))
        if _is_nan(o):
            raise Unsupported("nan operand")
        l = self._lift(o)
        if l is None:
            return NotImplemented
        k = self._kind(l)
        a, b = (l, self) if swap else (self, l)
        if k == "int":
            return Sym(f(a.t, b.t), k)
        return Sym(f(as_real(a.t), as_real(b.t)), k)

    def __add__(self, o):
        if _is_inf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _is_inf(o):
            return o
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if _is_inf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _is_inf(o):
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if _is_inf(o):
            if self > 0:
                return o
            if self < 0:
                return -o
            return float("nan")
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if _is_inf(o):
            return 0.0
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _over(o, lambda e: self / e)
        l = self._lift(o)
        if l is None:
            return NotImplemented
        k = self._kind(l)
        if ctx().branch(l.t == 0):
            raise ZeroDivisionError("division by zero")
        return Sym(as_real(self.t) / as_real(l.t), "float" if k == "int" else k)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _over(o, lambda e: e / self)
        if _is_inf(o):
            raise Unsupported("inf / symbolic")
        l = self._lift(o)
        if l is None:
            return NotImplemented
        return l.__truediv__(self)

    def __floordiv__(self, o):
        l = self._lift(o)
        if l is None:
            return NotImplemented
        if ctx().branch(l.t == 0):
            raise ZeroDivisionError("division by zero")
        k = self._kind(l)
        if k == "int" and z3.is_int_value(l.t) and l.t.as_long() > 0:
            return Sym(self.t / l.t, "int")
        q = as_real(self.t) / as_real(l.t)
        r = z3.ToInt(q)
        return Sym(r if k == "int" else z3.ToReal(r), k)

    def __mod__(self, o):
        l = self._lift(o)
        if l is None:
            return NotImplemented
        if self._kind(l) == "int" and z3.is_int_value(l.t) and l.t.as_long() > 0:
            return Sym(self.t % l.t, "int")
        return self - l * self.__floordiv__(l)

    def __rmod__(self, o):
        l = self._lift(o)
        return NotImplemented if l is None else l.__mod__(self)

    def __pow__(self, n, mod=None):
        if type(n) is Sym:
            raise Unsupported("symbolic exponent")
        if isinstance(n, (float, np.floating)) and float(n).is_integer():
            n = int(n)
        if n == 0.5:
            return ctx().sqrt(self)
        if isinstance(n, (float, np.floating)) and n > 0:
            # a positive real power: positive for positive numbers, zero for zero
            if self == 0:
                return Sym(z3.RealVal(0))
            if self < 0:
                raise Unsupported("real power of a negative number")
            cx, key = ctx(), ("pow", tkey(z3.simplify(as_real(self.t), som=True)), float(n))
            if key not in cx.memo:
                cx.memo[key] = cx.fresh("pow")
                cx.fact(cx.memo[key] > 0)
            return Sym(cx.memo[key])
        if not isinstance(n, (int, np.integer)) or abs(n) > 8:
            raise Unsupported(f"power {n!r}")
        if n < 0:
            return 1 / self.__pow__(-n)
        r = Sym(z3.IntVal(1), "int") if self.kind == "int" else Sym(z3.RealVal(1), self.kind)
        for _ in range(int(n)):
            r = r * self
        return r

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __neg__(self):
        return Sym(-self.t, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    # -- comparisons
    def _cmp(self, o, f, inf_lt):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _over(o, lambda e: self._cmp(e, f, inf_lt))
        if _is_inf(o):
            return inf_lt(o > 0)
        if _is_nan(o):
            return False
        l = self._lift(o)
        if l is None:
            return NotImplemented
        if self.kind == "int" and l.kind == "int":
            return SBool(f(self.t, l.t))
        return SBool(f(as_real(self.t), as_real(l.t)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda p: p)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda p: p)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda p: not p)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda p: not p)

    def __eq__(self, o):
        if o is self:
            return True
        if _is_inf(o) or _is_nan(o):
            return False
        r = self._cmp(o, lambda a, b: a == b, lambda p: False)
        return r

    def __ne__(self, o):
        if o is self:
            return False
        if _is_inf(o) or _is_nan(o):
            return True
        return self._cmp(o, lambda a, b: a != b, lambda p: True)

    def __hash__(self):
        return 7

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        s = z3.simplify(self.t)
        if self.kind == "int" and z3.is_int_value(s):
            return s.as_long()
        if self.kind == "int" and z3.is_mod(s) and z3.is_int_value(s.arg(1)) and 0 < s.arg(1).as_long() <= 12:
            m = s.arg(1).as_long()
            return next((k for k in range(m - 1) if ctx().branch(self.t == k)), m - 1)
        if self.kind == "int":  # one path per value; a value beyond the candidates leaves the path undecided
            for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3):
                if ctx().branch(self.t == k):
                    return k
        raise Unsupported("symbolic integer where CPython needs a machine index")

    def __float__(self):
        s = z3.simplify(self.t)
        if z3.is_rational_value(s) or z3.is_int_value(s):
            return float(Fraction(str(s)))
        raise Unsupported("symbolic number passed to native float code")

    def __int__(self):
        return self.__index__()

    # -- methods numpy's object loops call
    def sqrt(self):
        return ctx().sqrt(self)

    def sin(self):
        return ctx().trig(self)[0]

    def cos(self):
        return ctx().trig(self)[1]

    def tan(self):
        return ctx().tan(self)

    def arctan(self):
        return ctx().atan(self)

    def conjugate(self):
        return self

    def square(self):
        return self * self

    def fabs(self):
        return abs(self)

    def floor(self):
        return Sym(z3.ToReal(z3.ToInt(as_real(self.t))), "float")

    def ceil(self):
        return -(-self).floor()

    def rint(self):
        raise Unsupported("rint")

    def item(self):
        return self

    def is_infinite(self):
        return False

    def is_nan(self):
        return False

    def __floor__(self):
        return Sym(z3.ToInt(as_real(self.t)), "int")

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        return self.__floor__() if self >= 0 else -((-self).__floor__())

    def __round__(self, n=None):
        return self

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def _over(arr, f):
    """elementwise on an array, as numpy broadcasting of a scalar"""
    out = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(arr.shape):
        out[i] = f(arr[i])
    return out


class SBool:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        return SBool(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.t, bterm(o)))

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def logical_not(self):
        return SBool(z3.Not(self.t))

    def __eq__(self, o):
        return SBool(self.t == bterm(o))

    def __ne__(self, o):
        return SBool(self.t != bterm(o))

    def __hash__(self):
        return 11

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<symbool>"

    def __format__(self, s):
        return "<symbool>"


def bterm(x):
    if type(x) is SBool:
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is Sym:
        return x.t != 0
    if type(x).__name__ in ("All", "Ex", "Pairs") or type(x) in (list, tuple):
        raise Unsupported("a condition that is none")
    return z3.BoolVal(bool(x))


def is_sym(x):
    return type(x) in (Sym, SBool)


# ------------------------------------------------------------------------------------------------ context
def tkey(t):
    """canonical text of a term: commutative arguments sorted (memo keys of function atoms)"""
    if not z3.is_app(t) or t.num_args() == 0:
        return t.sexpr()
    ks = [tkey(c) for c in t.children()]
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ):
        ks.sort()
    return "(" + t.decl().name() + " " + " ".join(ks) + ")"


_CTX = None


def ctx():
    if _CTX is None:
        raise RuntimeError("no symbolic context")
    return _CTX


def set_ctx(c):
    global _CTX
    _CTX = c


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by_backend = {}


class Obl:
    __slots__ = ("label", "status", "backend", "time", "values", "path", "note")

    def __init__(self, label, status, backend="", t=0.0, values=None, path="", note=""):
        self.label, self.status, self.backend, self.time = label, status, backend, t
        self.values, self.path, self.note = values, path, note


class Context:
    """One path of one symbolic execution."""

    def __init__(self, ex, trail):
        self.ex = ex
        self.trail = list(trail)
        self.pos = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.feas_ms)
        self.n_fresh = 0
        self.trig_memo = {}
        self.unit_pairs = {}
        self.atom_by_id = {}
        self.memo = {}
        self.inputs = {}  # name -> InputSpec
        self.loops = []
        self.foralls = []
        self.touched = {}
        self.keep = []
        self.approx = False  # a havoc'd (over-approximated) value entered this path
        self.lengths = []  # symbolic lengths: small ones make handy examples
        self.loop_cut = False  # a loop invariant was used on this path
        self.n_dec = 0
        self.decided = []  # where in pc the branch conditions are
        self.pure = PureReal()
        self.polys, self.roots, self.applied = {}, {}, {}  # sqrt symbol -> radicand; applications of sqrt and atan2

    # ---- assertions
    def assume(self, c):
        c = z3.simplify(bterm(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        if self.ex.norm:
            p = self.poly(c)
            if not p.eq(c):
                self.pc.append(p)
                self.solver.add(p)
        self.pc.append(c)
        self.solver.add(c)

    def fact(self, c):
        c = bterm(c)
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.ex.stats.solver_s += time.time() - t0
        self.ex.stats.queries += 1
        return r

    def check_small(self, *extra):
        """satisfiability, with a model of short sequences if there is one"""
        if self.lengths:
            for b in (6, 40):
                if self.check(*extra, *[n <= b for n in self.lengths]) == z3.sat:
                    return z3.sat
        return self.check(*extra)

    def fresh(self, base, sort="real"):
        self.n_fresh += 1
        n = f"{base}!{self.n_fresh}"
        return {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[sort](n)

    # ---- branching
    def branch(self, c):
        c = z3.simplify(bterm(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.ex.deadline and time.time() > self.ex.deadline:
            raise Budget("time")
        if self.ex.norm:
            p = z3.simplify(self.poly(c))
            if z3.is_true(p) or z3.is_false(p):
                return z3.is_true(p)
            if not p.eq(c):
                self.fact(c == p)
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            self.decided.append(len(self.pc))
            self.fact(c if d else z3.Not(c))
            return d
        self.n_dec += 1
        if self.n_dec > self.ex.max_decisions:
            raise Budget("decisions")
        st = self.check_branch(c)
        if st == z3.unsat:
            d, both = False, False
        else:
            sf = self.check_branch(z3.Not(c))
            d, both = True, sf != z3.unsat
        if both:
            self.ex.work.append(self.trail + [False])
        self.trail.append(d)
        self.pos += 1
        self.decided.append(len(self.pc))
        self.fact(c if d else z3.Not(c))
        return d

    def check_branch(self, c):
        r = self.check(c)
        if r == z3.unknown and self.loop_cut and pure_real_unsat(self, c, 150):
            return z3.unsat
        return r

    def choose(self, n):
        """nondeterministic choice in range(n): all alternatives get explored"""
        for i in range(n - 1):
            if self.pos < len(self.trail):
                d = self.trail[self.pos]
            else:
                d = True
                self.ex.work.append(self.trail + [False])
                self.trail.append(True)
            self.pos += 1
            if d:
                return i
        return n - 1

    # ---- non-polynomial functions, as atoms with their defining (algebraic) facts
    def sqrt(self, x, sumsq=False):
        """sumsq: the argument is a sum of squares, so it cannot be negative"""
        if not is_sym(x):
            return math.sqrt(x)
        if not sumsq and x < 0:
            raise ValueError("math domain error")
        t = z3.simplify(as_real(x.t), som=True)
        key = ("sqrt", tkey(t))
        if key in self.memo:
            return Sym(self.memo[key])
        if z3.is_rational_value(t):
            f = Fraction(str(t))
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Sym(realval(Fraction(p, q)))
        r = self.fresh("sqrt")
        self.fact(z3.And(r >= 0, r * r == t, (t > 0) == (r > 0)))
        self.memo[key] = r
        if self.ex.congruent:
            self.congruent("sqrt", r, t)
        self.roots[r.get_id()] = t
        self.keep += [t, r]
        return Sym(r)

    def _atom_trig(self, t):
        key = tkey(t)
        if key in self.trig_memo:
            return self.trig_memo[key][:2]
        if self.ex.free_trig:  # nothing about sine and cosine is needed but that they are functions
            s, c = z3.Function("sin", z3.RealSort(), z3.RealSort())(t), z3.Function("cos", z3.RealSort(), z3.RealSort())(t)
            self.trig_memo[key] = (s, c, t)
            return s, c
        s, c = self.fresh("sin"), self.fresh("cos")
        self.fact(s * s + c * c == 1)
        # congruence and parity with the other atoms
        for s2, c2, t2 in self.trig_memo.values():
            self.fact(z3.Implies(t == t2, z3.And(s == s2, c == c2)))
            self.fact(z3.Implies(t == -t2, z3.And(s == -s2, c == c2)))
        self.fact(z3.Implies(t == 0, z3.And(s == 0, c == 1)))
        PI = realval(math.pi)
        self.fact(z3.Implies(z3.And(t > -PI / 2, t < PI / 2), c > 0))
        self.fact(z3.Implies(z3.And(t > 0, t < PI), s > 0))
        self.fact(z3.Implies(z3.And(t < 0, t > -PI), s < 0))
        self.fact(z3.Implies(t > 0, s < t))
        self.fact(z3.Implies(t < 0, s > t))
        self.fact(z3.Implies(z3.Or(t == PI, t == -PI), z3.And(s == 0, c == -1)))
        self.trig_memo[key] = (s, c, t)
        return s, c

    def trig(self, x):
        """(sin x, cos x); sums of angles are expanded with the addition theorems"""
        if not is_sym(x):
            return math.sin(x), math.cos(x)
        t = z3.simplify(as_real(x.t), som=True)
        parts = t.children() if z3.is_add(t) else [t]
        s, c = z3.RealVal(0), z3.RealVal(1)
        for p in parts:
            k, a = 1, p
            if z3.is_rational_value(p):
                v = float(Fraction(str(p)))
                ps, pcos = math.sin(v), math.cos(v)
                ps, pcos = [round(u) if abs(u - round(u)) < 1e-9 else u for u in (ps, pcos)]
                ps, pcos = realval(ps), realval(pcos)
            else:
                if z3.is_mul(p) and z3.is_rational_value(p.arg(0)):
                    f = Fraction(str(p.arg(0)))
                    rest = p.children()[1:]
                    a = rest[0] if len(rest) == 1 else z3.Product(*rest)
                    if f.denominator == 1 and abs(f) <= 4:
                        k = int(f)
                    elif f < 0:
                        k, a = -1, z3.simplify(-p, som=True)
                    else:
                        k, a = 1, p
                elif z3.is_app_of(p, z3.Z3_OP_UMINUS):
                    k, a = -1, p.arg(0)
                s1, c1 = self._atom_trig(a)
                ps, pcos = z3.RealVal(0), z3.RealVal(1)
                for _ in range(abs(k)):
                    ps, pcos = ps * c1 + pcos * s1, pcos * c1 - ps * s1
                if k < 0:
                    ps = -ps
            s, c = s * pcos + c * ps, c * pcos - s * ps
        s, c = z3.simplify(s), z3.simplify(c)
        self.unit_pairs[(tkey(z3.simplify(s, som=True)), tkey(z3.simplify(c, som=True)))] = (s, c)
        return Sym(s), Sym(c)

    def tan(self, x):
        if not is_sym(x):
            return math.tan(x)
        s, c = self.trig(x)
        key = ("tan", tkey(z3.simplify(as_real(x.t), som=True)))
        if key not in self.memo:
            t = self.fresh("tan")
            self.fact(t * c.t == s.t)
            self.fact(c.t != 0)  # tan is not applied at its poles (float pi/2 is not a pole)
            self.memo[key] = t
        return Sym(self.memo[key])

    def atan(self, x):
        if not is_sym(x):
            return math.atan(x)
        t = z3.simplify(as_real(x.t), som=True)
        key = ("atan", tkey(t))
        if key not in self.memo:
            a = self.fresh("atan")
            PI = realval(math.pi)
            self.fact(z3.And(a > -PI / 2, a < PI / 2))
            s, c = self._atom_trig(a)
            self.fact(z3.And(c > 0, s == t * c))
            self.fact(z3.And((t > 0) == (a > 0), (t == 0) == (a == 0)))
            self.memo[("tan", tkey(a))] = t
            self.memo[key] = a
            self.keep.append(t)
        return Sym(self.memo[key])

    def atan2(self, y, x):
        if not is_sym(y) and not is_sym(x):
            return math.atan2(y, x)
        y, x = Sym._lift(Sym(z3.RealVal(0)), y), Sym._lift(Sym(z3.RealVal(0)), x)
        ty, tx = z3.simplify(as_real(y.t), som=True), z3.simplify(as_real(x.t), som=True)
        key = ("atan2", tkey(ty), tkey(tx))
        if key not in self.memo:
            a = self.fresh("atan2")
            PI = realval(math.pi)
            unit = self.unit_pairs.get((tkey(ty), tkey(tx)))
            if unit is None and self.trig_memo and self.ring_zero(ty * ty + tx * tx - 1):
                unit = (ty, tx)
            if unit is not None:
                # the arguments are the sine and cosine of a known angle: a is that angle modulo full turns
                s, c = unit
                self.fact(z3.And(a >= -PI, a <= PI))
                self.fact(z3.And((s > 0) == z3.And(a > 0, a < PI), (s < 0) == z3.And(a < 0, a > -PI)))
                self.fact((c > 0) == z3.And(a > -PI / 2, a < PI / 2))
                self.fact(s * s + c * c == 1)
                self.trig_memo[tkey(a)] = (s, c, a)
                self.memo[key] = a
                self.keep += [ty, tx]
                return Sym(a)
            r = self.fresh("hyp")
            s, c = self._atom_trig(a)
            self.fact(z3.And(r >= 0, ty == r * s, tx == r * c, a >= -PI, a <= PI))
            self.fact(z3.Implies(z3.And(ty == 0, tx == 0), a == 0))
            self.fact(z3.Implies(ty > 0, z3.And(a > 0, a < PI)))
            self.fact(z3.Implies(ty < 0, z3.And(a < 0, a > -PI)))
            if self.ex.congruent:
                self.congruent("atan2", a, ty, tx)
            self.memo[key] = a
            self.keep += [ty, tx]
        return Sym(self.memo[key])

    def congruent(self, name, r, *ts):
        """equal arguments, equal results"""
        for r2, ts2 in self.applied.setdefault(name, []):
            self.fact(z3.Implies(z3.And(*[a == b for a, b in zip(ts, ts2)]), r == r2))
        self.applied[name].append((r, ts))

    def ring_zero(self, t):
        """is the term zero as a polynomial modulo s^2 + c^2 = 1 of the angles met so far (normal form, no search)"""
        rules = {}
        for s, c, _ in self.trig_memo.values():
            if z3.is_const(s) and z3.is_const(c) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                rules[c.get_id()] = s.get_id()
        p = polynomial(t)
        if p is None:
            return False
        return not reduce_trig(p, rules)

    def rational_zero(self, a, b):
        """are the terms equal as rational functions (modulo s^2 + c^2 = 1), with divisors that are not zero on this path"""
        rules = {c.get_id(): s.get_id() for s, c, _ in self.trig_memo.values()
                 if z3.is_const(s) and z3.is_const(c) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED}
        r = Rational()
        try:
            (n1, d1), (n2, d2) = r.of(z3.simplify(a)), r.of(z3.simplify(b))
            n = r.add(r.mul(n1, d2), r.mul(n2, d1), -1)
        except (OverflowError, RecursionError):
            return False
        if reduce_trig(n, rules):
            return False
        return all(self.check(d == 0) == z3.unsat for d in r.dens.values())

    # ---- comparisons of rational functions as comparisons of polynomials (where the signs of the divisors are known)
    def poly(self, c):
        k = c.get_id()
        if k not in self.polys:
            self.keep.append(c)
            self.polys[k] = self._poly(c)
        return self.polys[k]

    def _poly(self, c):
        if not z3.is_app(c):
            return c
        op = c.decl().kind()
        if op in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            return c.decl()(*[self.poly(x) for x in c.children()])
        if op not in POLY_CMP or not z3.is_real(c.arg(0)):
            return c
        d0 = c.arg(0) - c.arg(1)
        if not nonlinear(d0):
            return c
        r = Rational()
        try:
            n, d = r.of(z3.simplify(d0))
        except (OverflowError, RecursionError):
            return c
        atoms = {a.get_id(): a for a in r.keep}
        n, d = self.unroot(n, atoms), self.unroot(d, atoms)
        if any(self.sign(b) is None for b in r.dens.values()):
            return c  # a divisor may be zero
        sg = self.sign(poly_term(d, atoms))
        if sg is None:
            return c
        t = poly_term({m: x * sg for m, x in n.items()}, atoms)
        return POLY_CMP[op](t)

    def unroot(self, p, atoms):
        """sqrt(t)^2 = t"""
        out = {}
        todo = list(p.items())
        while todo:
            m, x = todo.pop()
            a = next((a for a in m if a in self.roots and m.count(a) >= 2), None)
            if a is None:
                out[m] = out.get(m, 0) + x
                continue
            r = Rational()
            q, _ = r.of(self.roots[a])
            atoms.update({b.get_id(): b for b in r.keep})
            rest = list(m)
            rest.remove(a)
            rest.remove(a)
            todo += [(tuple(sorted(rest + list(m2))), x * y) for m2, y in q.items()]
        return {m: x for m, x in out.items() if x}

    def sign(self, t):
        """1, -1, or None if not known on this path"""
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            f = Fraction(str(t))
            return 1 if f > 0 else -1 if f < 0 else None
        k = ("sign", t.get_id())
        if self.memo.get(k) is None:
            self.keep.append(t)
            r = None
            for v, bad in ((1, t <= 0), (-1, t >= 0)):
                if self.check(bad) == z3.unsat or pure_real_unsat(self, self.poly(bad) if nonlinear(t) and not has_div(t) else bad, 150):
                    r = v
                    break
            self.memo[k] = r
        return self.memo[k]

    # ---- obligations
    def prove(self, cond, label):
        c = z3.simplify(bterm(cond))
        if self.ex.norm and self.check(z3.Not(c)) != z3.unsat:
            c = self.poly(c)
        o = self.ex.discharge(self, c, label)
        self.ex.obligations.append(o)
        if o.status != "refuted":
            if not z3.is_true(c):
                self.fact(c)
        else:
            self.fact(c)
            if self.check() == z3.unsat:
                raise PathEnd()


class Explorer:
    def __init__(self, harness, make_vc, feas_ms=800, prove_ms=4000, max_paths=4000, max_decisions=400, budget_s=60,
                 thorough=False, norm=False, free_trig=False, congruent=False):
        self.harness, self.make_vc = harness, make_vc
        self.feas_ms, self.prove_ms = feas_ms, prove_ms
        self.max_paths, self.max_decisions = max_paths, max_decisions
        self.budget_s = budget_s
        self.thorough = thorough
        self.norm, self.free_trig, self.congruent = norm, free_trig, congruent
        self.stats = Stats()
        self.undecided_exc = ()
        self.drift = lambda e: False
        self.work = []
        self.obligations = []
        self.witnesses = []
        self.unsupported = []
        self.exceptions = []
        self.paths = 0
        self.covered = 0
        self.deadline = None

    # ---- discharge one obligation
    def discharge(self, cx, c, label):
        t0 = time.time()

        def done(status, backend, **kw):
            dt = time.time() - t0
            self.stats.solver_s += dt
            self.stats.queries += 1
            if status == "proved":
                self.stats.by_backend[backend] = self.stats.by_backend.get(backend, 0) + 1
            return Obl(label, status, backend, dt, path="".join("T" if d else "F" for d in cx.trail[: cx.pos]), **kw)

        if z3.is_true(c):
            return done("proved", "z3-simplify")
        goal = z3.simplify(z3.Not(c))
        # equality goals: normalise the difference of the two sides as a polynomial first
        if z3.is_eq(c) and z3.is_arith(c.arg(0)):
            d = z3.simplify(c.arg(0) - c.arg(1), som=True)
            if z3.is_rational_value(d) and Fraction(str(d)) == 0:
                return done("proved", "z3-simplify")
            if cx.trig_memo and cx.ring_zero(d):
                return done("proved", "trig-normal-form")
            if cx.rational_zero(c.arg(0), c.arg(1)):
                return done("proved", "rational-normal-form")
        if cx.loop_cut:
            # facts of quantifier instances are many and easy: ask the incremental solver of the path first
            try:
                r = cx.solver.check(goal)
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                return done("proved", "z3")
            if r == z3.sat:
                cx.check_small(goal)
                return done("refuted", "z3", values=self.concretize(cx, cx.solver.model(), goal))
            if pure_real_unsat(cx, goal, max(500, self.prove_ms // 8)):
                return done("proved", "z3-nlsat")
        facts = relevant(cx.pc, goal)
        # a few hops around the goal first: fewer facts, an easier (and sound) unsat
        n_prev = -1
        for hops in (0, 1):
            near = nearby(facts, goal, hops)
            if len(near) == n_prev or len(near) >= len(facts):
                break
            n_prev = len(near)
            sols = [z3.Solver()]
            if not has_int_or_array(near + [goal]):
                sols.append(z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver())
            for sol in sols:
                sol.set("timeout", max(300, self.prove_ms // 10))
                sol.add(*near)
                sol.add(goal)
                try:
                    r = sol.check()
                except z3.Z3Exception:
                    continue
                if r == z3.unsat:
                    return done("proved", "z3" if sol is sols[0] else "z3-nlsat")
                if r == z3.sat:
                    break
        tactics = []
        s = z3.Solver()
        tactics.append(("z3", s, self.prove_ms // 2))
        if not has_int_or_array(facts + [goal]):
            tactics.append(("z3-nlsat", z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver(), self.prove_ms))
        if len(facts) < len(cx.pc):
            tactics.append(("z3", z3.Solver(), self.prove_ms))
        sat_model = None
        for i, (name, sol, ms) in enumerate(tactics):
            fs = facts if not (i == len(tactics) - 1 and i > 0 and name == "z3") else cx.pc
            sol.set("timeout", ms)
            sol.add(*fs)
            sol.add(goal)
            try:
                r = sol.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return done("proved", name)
            if r == z3.sat and (len(fs) == len(cx.pc) or sat_model is None):
                # a model of the relevant facts may contradict an irrelevant one: only a model of all facts refutes
                if len(fs) == len(cx.pc):
                    return done("refuted", name, values=self.concretize(cx, sol.model(), goal))
                full = z3.Solver()
                full.set("timeout", self.prove_ms)
                full.add(*cx.pc)
                full.add(goal)
                r2 = full.check()
                if r2 == z3.sat:
                    return done("refuted", name, values=self.concretize(cx, full.model(), goal))
                if r2 == z3.unsat:
                    return done("proved", "z3")
                sat_model = sol.model()
        r = cvc5_check(cx.pc, goal, self.prove_ms)
        if r == "unsat":
            return done("proved", "cvc5")
        vals = None
        if sat_model is not None:
            try:
                vals = self.concretize(cx, sat_model, goal)
            except Exception:
                vals = None
        return done("unknown", "", values=vals)

    def feasible(self, cx):
        """is the path condition satisfiable: more effort than the pruning check of a branch"""
        r = cx.check_small()
        if r == z3.sat:
            self.last_model = cx.solver.model()
        if r != z3.unknown:
            return r
        if not has_int_or_array(cx.pc):
            sol = z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
            sol.set("timeout", self.prove_ms)
            sol.add(*cx.pc)
            try:
                r = sol.check()
                if r == z3.sat:
                    self.last_model = sol.model()
            except z3.Z3Exception:
                r = z3.unknown
        elif cx.loop_cut:
            if any(pure_real_unsat(cx, cx.pc[i], 300, i) for i in cx.decided[:-5:-1]):
                return z3.unsat
        if r == z3.unknown:
            if cvc5_check(cx.pc, z3.BoolVal(True), self.prove_ms) == "unsat":
                r = z3.unsat
        return r

    def concretize(self, cx, model, goal=None):
        """One or more candidate inputs from a model; moderate magnitudes and consistent angles are preferred."""
        out = []
        best = self.nice_model(cx, goal)
        for m in best + [model]:
            try:
                out.append(input_values(cx, m))
            except Exception:
                pass
        return out

    def nice_model(self, cx, goal):
        res = []
        terms = []
        for sp in cx.inputs.values():
            terms += sp.terms()
        base = cx.pc + ([goal] if goal is not None else [])
        # angles: pin trig atoms whose argument is an input
        pins_choices = [None]
        angle_atoms = []
        intvars = {str(t): t for t in terms}
        for s, c, t in cx.trig_memo.values():
            if str(t) in intvars:
                angle_atoms.append((s, c, t))
        import itertools
        if angle_atoms:
            import random
            rng = random.Random(5)
            pins_choices = []
            cands = [Fraction(0), Fraction(1, 3), Fraction(-1, 4), Fraction(1, 7), Fraction(-2, 3), Fraction(3, 2)]
            for k in range(4):
                pins_choices.append([rng.choice(cands) for _ in angle_atoms])
        for pins in pins_choices:
            s = z3.Solver()
            s.set("timeout", 1200)
            s.add(*base)
            for t in terms:
                if z3.is_arith(t):
                    s.add(t <= 60, t >= -60)
            s.add(*[n <= 8 for n in cx.lengths])
            if pins:
                for (sv, cv, tv), h in zip(angle_atoms, pins):
                    th = 2 * math.atan(h)
                    s.add(tv == realval(th), sv == realval(2 * h / (1 + h * h)), cv == realval((1 - h * h) / (1 + h * h)))
            try:
                if s.check() == z3.sat:
                    res.append(s.model())
                    if not angle_atoms or len(res) >= 2:
                        break
            except z3.Z3Exception:
                pass
        return res

    # ---- main loop
    def run(self):
        self.deadline = time.time() + self.budget_s
        self.work = [[]]
        complete = True
        while self.work:
            if self.paths >= self.max_paths or time.time() > self.deadline:
                complete = False
                self.unsupported.append("budget: paths or time exhausted")
                break
            trail = self.work.pop()
            cx = Context(self, trail)
            set_ctx(cx)
            self.paths += 1
            vc = self.make_vc(cx)
            ended = "ok"
            try:
                self.harness(vc)
            except PathEnd:
                ended = "end"
            except Unsupported as e:
                import traceback

                fr = [f for f in traceback.extract_tb(e.__traceback__) if "pyvc" not in f.filename]
                at = f" at {os.path.basename(fr[-1].filename)}:{fr[-1].lineno}" if fr else ""
                self.unsupported.append(f"unsupported: {e}{at}")
                ended = "unsupported"
            except Budget as e:
                self.unsupported.append(f"budget: {e}")
                complete = False
                ended = "unsupported"
            except self.undecided_exc as e:
                self.unsupported.append(f"undecided: {e}")
                ended = "unsupported"
            except RecursionError as e:
                self.unsupported.append("recursion")
                ended = "unsupported"
            except Exception as e:
                ended = "exception"
                import traceback

                tb = traceback.format_exc(limit=-4)
                r = self.feasible(cx)
                if r != z3.unsat and self.drift(e):
                    r = z3.unknown
                if r == z3.unknown:
                    self.unsupported.append(f"feasibility of the path raising {type(e).__name__} unknown")
                    ended = "unsupported"
                elif r != z3.unsat:
                    vals = []
                    if r == z3.sat:
                        try:
                            vals = self.concretize(cx, self.last_model)
                        except Exception:
                            vals = []
                    self.exceptions.append((f"{type(e).__name__}: {e}"[:300], vals, tb[-1200:]))
            finally:
                vc.cleanup()
                set_ctx(cx)
            # reachability cover of the path and an input that drives the real code along it
            if ended != "end" or cx.loop_cut:
                if len(self.witnesses) < (400 if self.thorough else 120):
                    try:
                        if cx.check_small() == z3.sat:
                            self.covered += 1
                            self.witnesses.append(input_values(cx, cx.solver.model()))
                    except (z3.Z3Exception, Unsupported):
                        pass
            set_ctx(None)
        if self.unsupported:
            complete = False
        return complete


def input_values(cx, m):
    out = {}
    for n, sp in cx.inputs.items():
        v = sp.from_model(m, cx)
        if isinstance(v, dict):
            out.update(v)
        else:
            out[n] = v
    return out


# ------------------------------------------------------------------------------------------------ solver helpers
def polynomial(t, cap=3000):
    """{monomial: coefficient} with monomial = sorted tuple of constant ids; None if not a (small) polynomial"""
    t = z3.simplify(t, som=True)
    out = {}
    for m in t.children() if z3.is_add(t) else [t]:
        coef, mono = Fraction(1), []
        todo = [m]
        while todo:
            e = todo.pop()
            if z3.is_mul(e):
                todo += e.children()
            elif z3.is_rational_value(e) or z3.is_int_value(e):
                coef *= Fraction(str(e))
            elif z3.is_const(e):
                mono.append(e.get_id())
            elif z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_const(e.arg(0)) and z3.is_rational_value(e.arg(1)):
                n = Fraction(str(e.arg(1)))
                if n.denominator != 1 or not 0 < n <= 8:
                    return None
                mono += [e.arg(0).get_id()] * int(n)
            elif z3.is_app_of(e, z3.Z3_OP_TO_REAL) and z3.is_const(e.arg(0)):
                mono.append(e.arg(0).get_id())
            elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
                coef = -coef
                todo.append(e.arg(0))
            else:
                return None
        k = tuple(sorted(mono))
        out[k] = out.get(k, 0) + coef
        if len(out) > cap:
            return None
    return {k: v for k, v in out.items() if v}


def reduce_trig(p, rules, cap=6000):
    """replace every c^2 by 1 - s^2"""
    todo, out = list(p.items()), {}
    steps = 0
    while todo:
        mono, coef = todo.pop()
        steps += 1
        if steps > cap:
            return {(): 1}
        for i in range(len(mono) - 1):
            if mono[i] == mono[i + 1] and mono[i] in rules:
                rest = mono[:i] + mono[i + 2:]
                s = rules[mono[i]]
                todo.append((rest, coef))
                todo.append((tuple(sorted(rest + (s, s))), -coef))
                break
        else:
            out[mono] = out.get(mono, 0) + coef
            if not out[mono]:
                del out[mono]
    return out


POLY_CMP = {z3.Z3_OP_EQ: lambda t: t == 0, z3.Z3_OP_LE: lambda t: t <= 0, z3.Z3_OP_LT: lambda t: t < 0,
            z3.Z3_OP_GE: lambda t: t >= 0, z3.Z3_OP_GT: lambda t: t > 0}


def has_div(t):
    todo = [t]
    while todo:
        e = todo.pop()
        if z3.is_app_of(e, z3.Z3_OP_DIV):
            return True
        todo.extend(e.children())
    return False


def nonlinear(t):
    """a product or quotient of unknowns"""
    todo = [t]
    while todo:
        e = todo.pop()
        if z3.is_app_of(e, z3.Z3_OP_MUL) and sum(not z3.is_rational_value(c) for c in e.children()) > 1:
            return True
        if z3.is_app_of(e, z3.Z3_OP_DIV) and not z3.is_rational_value(e.arg(1)) or z3.is_app_of(e, z3.Z3_OP_POWER):
            return True
        if z3.is_add(e) or z3.is_sub(e) or z3.is_mul(e) or z3.is_app_of(e, z3.Z3_OP_UMINUS) or z3.is_app_of(e, z3.Z3_OP_DIV):
            todo.extend(e.children())
    return False


def poly_term(p, atoms):
    ms = []
    for m, x in sorted(p.items()):
        t = realval(x)
        for a in m:
            t = t * atoms[a] if z3.is_real(atoms[a]) else t * z3.ToReal(atoms[a])
        ms.append(t)
    return z3.simplify(z3.Sum(ms), som=True) if ms else z3.RealVal(0)


class Rational:
    """quotients of polynomials over opaque atoms: a normal form in which equal rational functions are equal"""

    def __init__(self, cap=4000):
        self.cap, self.dens, self.keep = cap, {}, []

    def mul(self, p, q):
        out = {}
        if len(p) * len(q) > 4 * self.cap:
            raise OverflowError
        for a, x in p.items():
            for b, y in q.items():
                m = tuple(sorted(a + b))
                v = out.get(m, 0) + x * y
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        if len(out) > self.cap:
            raise OverflowError
        return out

    def add(self, p, q, k=1):
        out = dict(p)
        for m, x in q.items():
            v = out.get(m, 0) + k * x
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    def of(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = Fraction(str(e))
            return ({(): f} if f else {}), {(): Fraction(1)}
        if z3.is_add(e) or z3.is_sub(e):
            n, d = self.of(e.arg(0))
            for i in range(1, e.num_args()):
                n2, d2 = self.of(e.arg(i))
                k = -1 if z3.is_sub(e) else 1
                if d == d2:
                    n = self.add(n, n2, k)
                else:
                    n, d = self.add(self.mul(n, d2), self.mul(n2, d), k), self.mul(d, d2)
            return n, d
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            n, d = self.of(e.arg(0))
            return {m: -x for m, x in n.items()}, d
        if z3.is_mul(e):
            n, d = self.of(e.arg(0))
            for i in range(1, e.num_args()):
                n2, d2 = self.of(e.arg(i))
                n, d = self.mul(n, n2), self.mul(d, d2)
            return n, d
        if z3.is_app_of(e, z3.Z3_OP_DIV) and z3.is_real(e):
            b = e.arg(1)
            self.dens[b.get_id()] = b
            n, d = self.of(e.arg(0))
            n2, d2 = self.of(b)
            return self.mul(n, d2), self.mul(d, n2)
        if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)):
            k = Fraction(str(e.arg(1)))
            if k.denominator == 1 and 0 < k <= 8:
                n, d = self.of(e.arg(0))
                rn, rd = n, d
                for _ in range(int(k) - 1):
                    rn, rd = self.mul(rn, n), self.mul(rd, d)
                return rn, rd
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL) and (z3.is_add(e.arg(0)) or z3.is_int_value(e.arg(0))):
            return self.of(e.arg(0))
        self.keep.append(e)
        return {(e.get_id(),): Fraction(1)}, {(): Fraction(1)}


def cancelled(t):
    """the polynomial a quotient equals when its denominator (a monomial, known not to vanish where it was divided by) cancels; else the term"""
    try:
        r = Rational(400)
        n, d = r.of(t)
    except OverflowError:
        return t
    if len(d) != 1 or not r.dens:
        return t
    (m, q), = d.items()
    terms, atoms = [], {e.get_id(): e for e in r.keep}
    for a, x in n.items():
        rest = list(a)
        for v in m:
            if v not in rest:
                return t
            rest.remove(v)
        p = z3.RealVal(x / q) if not rest else None
        if p is None:
            fs = [z3.ToReal(atoms[v]) if z3.is_int(atoms[v]) else atoms[v] for v in rest]
            p = fs[0]
            for f in fs[1:]:
                p = p * f
            p = p if x == q else z3.RealVal(x / q) * p
        terms.append(p)
    return z3.simplify(z3.Sum(terms)) if terms else z3.RealVal(0)


def _vars(t, memo={}):
    k = t.get_id()
    if k in memo:  # the term is kept alive, so its id is not reused
        return memo[k][1]
    out = set()
    todo = [t]
    seen = set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        else:
            todo.extend(e.children())
    memo[k] = (t, out)
    return out


def relevant(pc, goal):
    """cone of influence of the goal"""
    want = set(_vars(goal))
    rest = [(f, _vars(f)) for f in pc]
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for f, vs in rest:
            if vs & want or not vs:
                out.append(f)
                if not vs <= want:
                    want |= vs
                    changed = True
            else:
                nxt.append((f, vs))
        rest = nxt
    return out


def nearby(pc, goal, hops):
    """facts over the variables of the goal only (0 hops), or of facts touching them (1 hop)"""
    want = set(_vars(goal))
    for _ in range(hops):
        extra = set()
        for f in pc:
            vs = _vars(f)
            if vs & want and len(vs - want) <= 3:
                extra |= vs
        want |= extra
    return [f for f in pc if _vars(f) <= want]


def has_int_or_array(ts):
    seen = set()
    todo = list(ts)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_int(e) or z3.is_array(e):
            return True
        todo.extend(e.children())
    return False


class PureReal:
    """weakening of a constraint to nonlinear real arithmetic: applications of uninterpreted functions become variables and
    atoms over anything else become booleans (equal terms alike), so that whatever is unsatisfiable stays so"""

    def __init__(self):
        self.reals, self.bools, self.keep = {}, {}, []
        self.memo = {}

    def var(self, e):
        d = self.reals if z3.is_real(e) else self.bools
        k = e.get_id()
        if k not in d:
            self.keep.append(e)
            d[k] = (z3.Real if z3.is_real(e) else z3.Bool)(f"abs!{k}")
        return d[k]

    def __call__(self, e):
        k = e.get_id()
        if k not in self.memo:
            self.keep.append(e)
            self.memo[k] = self._do(e)
        return self.memo[k]

    def _do(self, e):
        if not z3.is_app(e):
            return self.var(e) if z3.is_bool(e) else None
        op = e.decl().kind()
        if z3.is_bool(e):
            if z3.is_true(e) or z3.is_false(e):
                return e
            if op in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
                cs = [self(c) for c in e.children()]
                return e.decl()(*cs)
            if op == z3.Z3_OP_ITE:
                return z3.If(*[self(c) for c in e.children()])
            if op in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT):
                cs = e.children()
                if all(z3.is_real(c) or z3.is_bool(c) for c in cs):
                    return e.decl()(*[self(c) for c in cs])
            return self.var(e)
        if z3.is_real(e):
            if z3.is_rational_value(e):
                return e
            if op in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
                return e.decl()(*[self(c) for c in e.children()])
            if op == z3.Z3_OP_ITE:
                return z3.If(*[self(c) for c in e.children()])
            if op == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
                return self(e.arg(0)) ** e.arg(1)
            return self.var(e)
        return self.var(e)


def _conjuncts(ts):
    out, todo = [], list(ts)
    while todo:
        e = todo.pop()
        if z3.is_and(e):
            todo.extend(e.children())
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_NOT and z3.is_or(e.arg(0)):
            todo.extend(z3.Not(c) for c in e.arg(0).children())
        else:
            out.append(e)
    return out


def pure_real_unsat(cx, goal, ms, upto=None):
    """is the path condition and goal unsatisfiable by nonlinear real arithmetic alone"""
    t0 = time.time()
    try:
        return _pure_real_unsat(cx, goal, ms, cx.pc if upto is None else cx.pc[:upto])
    finally:
        cx.ex.stats.solver_s += time.time() - t0
        cx.ex.stats.queries += 1


def _pure_real_unsat(cx, goal, ms, pc):
    pr = cx.pure
    g = [pr(c) for c in _conjuncts([goal])]
    if all(z3.is_const(c) for x in g for c in [x.arg(0) if z3.is_not(x) else x]) and not any(z3.is_false(x) for x in g):
        return False
    fs = []
    for c in _conjuncts(pc):
        if z3.is_quantifier(c):
            continue
        f = pr(c)
        if z3.is_bool(f) and not (z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            fs.append(f)
    gg = z3.And(*g) if len(g) > 1 else g[0]
    n_prev = -1
    cone = relevant(fs, gg)
    for hops in (0, 1, 2, 9):
        near = cone if hops == 9 else nearby(cone, gg, hops)
        if len(near) == n_prev:
            continue
        n_prev = len(near)
        sol = z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
        sol.set("timeout", ms)
        sol.add(*near)
        sol.add(gg)
        try:
            r = sol.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return True
    return False


def cvc5_check(pc, goal, ms):
    """second solver on what z3 left open"""
    try:
        import cvc5

        s = z3.Solver()
        s.add(*pc)
        s.add(goal)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(ms))
        parser = cvc5.InputParser(slv)
        sm = parser.getSymbolManager()
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            r = cmd.invoke(slv, sm)
            if str(r).strip() in ("unsat", "sat", "unknown"):
                return str(r).strip()
    except Exception:
        return "unknown"
    return "unknown"


def model_fraction(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value")
