"""The contract language: the same contract harness runs symbolically (proof) and concretely (replay, stand-in)."""
import sys, os, re, math, random, inspect, types
from decimal import Decimal
from fractions import Fraction
from . import core as _core
import numpy as np
import z3
from .core import (Sym, SBool, Context, PathEnd, Unsupported, bterm, is_sym, as_real, realval, model_fraction, ctx,
                   set_ctx, _is_inf, _is_nan)


class Discard(Exception):
    """the sampled input does not meet the precondition"""


class ContractFailure(AssertionError):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


class Undecided(Exception):
    """the harness cannot observe what it needs on this tree (e.g. a probe was bypassed)"""


_SIG = re.compile(r"^module '.*' has no attribute|^type object '.*' has no attribute|unexpected keyword argument|required positional argument|"
                  r"positional arguments? but|required keyword-only argument|^cannot import name|got multiple values for argument")


def _stand_in(t):
    """a class of this machinery, not derived from one of the code under verification"""
    if t is types.SimpleNamespace:
        return True
    own = lambda c: (c.__module__ or "").split(".")[0] in ("specs", "pyvc")
    return own(t) and all(own(c) or c.__module__ in ("builtins", "abc", "typing", "collections", "types") for c in t.__mro__)


def _stand_in_named(name):
    if name in ("h", "types.SimpleNamespace"):
        return True
    for k, m in list(sys.modules.items()):
        if k.startswith(("specs.", "pyvc.")):
            o = vars(m).get(name)
            if getattr(o, "__module__", None) == k and (not isinstance(o, type) or _stand_in(o)):
                return True
    return False


def interface_drift(e):
    """the exception says that a contract no longer fits the code's interface (a renamed helper, another signature, something asked
    of a stand-in that it does not offer): undecided, not a violation"""
    if not isinstance(e, (AttributeError, TypeError, ImportError)):
        return False
    s = str(e)
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if o is not None and _stand_in(type(o)):
            return True
    if isinstance(e, TypeError):
        # "h.<locals>.stub() got an unexpected keyword argument", "'Stub' object is not subscriptable"
        m = re.match(r"([A-Za-z_]\w*)(\.[\w.<>]+)?\(\) (got|takes|missing)", s)
        if m and _stand_in_named(m.group(1)):
            return True
        if any(_stand_in_named(q) for q in re.findall(r"'([\w.]+)'", s)):
            return True
    if not _SIG.search(s):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    return os.sep + "specs" + os.sep in f or os.sep + "pyvc" + os.sep in f


_CURRENT = None


def current():
    return _CURRENT


# ------------------------------------------------------------------------------------------------ inputs
class RealSpec:
    def __init__(self, t, kind="float"):
        self.t, self.kind = t, kind

    def terms(self):
        return [self.t]

    def from_model(self, m, cx):
        f = model_fraction(m, self.t)
        return float(f)


class IntSpec:
    def __init__(self, t):
        self.t = t

    def terms(self):
        return [self.t]

    def from_model(self, m, cx):
        return int(model_fraction(m, self.t))


class SeqSpec:
    """the numbers of a sequence of arbitrary length: one input each in concrete runs"""

    def __init__(self, name, f, n, kind, increasing):
        self.name, self.f, self.n, self.kind, self.increasing = name, f, n, kind, increasing

    def terms(self):
        return []

    def from_model(self, m, cx):
        n = int(model_fraction(m, self.n))
        if n > 80:
            return {}
        val = lambda i: model_fraction(m, self.f(z3.IntVal(i)))
        if not self.increasing:
            return {f"{self.name}{i}": (int if self.kind == "int" else float)(val(i)) for i in range(n)}
        # the model orders the indices the path speaks about; the others lie in between
        known = {}
        for t in cx.univ.idx.values():
            i = int(model_fraction(m, t))
            if 0 <= i < n:
                known[i] = val(i)
        vals, ks = {}, sorted(known)
        for i in range(n):
            lo, hi = [k for k in ks if k <= i], [k for k in ks if k >= i]
            if not ks:
                v = Fraction(i)
            elif not lo:
                v = known[hi[0]] - (hi[0] - i)
            elif not hi:
                v = known[lo[-1]] + (i - lo[-1])
            else:
                a, b = lo[-1], hi[0]
                v = known[a] if a == b else known[a] + (known[b] - known[a]) * Fraction(i - a, b - a)
            vals[f"{self.name}{i}"] = float(v)
        return vals


class FlagsSpec:
    """one truth value per index"""

    def __init__(self, name, f, n):
        self.name, self.f, self.n = name, f, n

    def terms(self):
        return []

    def from_model(self, m, cx):
        n = int(model_fraction(m, self.n))
        if n > 80:
            return {}
        return {f"{self.name}{i}": z3.is_true(m.eval(self.f(z3.IntVal(i)), model_completion=True)) for i in range(n)}


class BoolSpec:
    def __init__(self, t):
        self.t = t

    def terms(self):
        return []

    def from_model(self, m, cx):
        return z3.is_true(m.eval(self.t, model_completion=True))


class ConstSpec:
    def __init__(self, v):
        self.v = v

    def terms(self):
        return []

    def from_model(self, m, cx):
        return self.v


# ------------------------------------------------------------------------------------------------ common part
class VC:
    symbolic = False
    __vc_opaque__ = True

    def __init__(self):
        global _CURRENT
        self._undo = []
        self.tags = {}
        _CURRENT = self

    # ---- stubs
    def patch(self, original, replacement, everywhere=True):
        """callee contract: rebind every module-global reference to `original` in the modules under verification"""
        from .shims import target_modules

        n = 0
        for mod in target_modules():
            d = vars(mod)
            for k, v in list(d.items()):
                if v is original and not k.startswith("__"):
                    self._undo.append((d.__setitem__, k, v))
                    d[k] = replacement
                    n += 1
        return n

    def use(self, dotted, spec):
        """modular reasoning: in the proof, calls of `dotted` are replaced by its contract (result term `spec(*args)`,
        discharged where that function is verified); concrete runs execute the real callee"""
        if not self.symbolic:
            return 0
        original = lookup(dotted)
        if original is None:
            return 0
        try:
            sig = inspect.signature(original)
        except (TypeError, ValueError):
            return 0

        def stub(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            args = list(b.arguments.values())
            if len(args) != len(inspect.signature(spec).parameters):
                raise Undecided(f"{dotted} has another signature than its contract")
            return spec(*args)

        head, _, last = dotted.rpartition(".")
        owner = lookup(head)
        if isinstance(owner, type):
            self.patch_attr(owner, last, stub)
            return 1
        return self.patch(original, stub)

    def patch_attr(self, obj, name, value):
        had = name in vars(obj)
        old = vars(obj).get(name)

        def undo(nm, o):
            if had:
                setattr(obj, nm, o)
            else:
                delattr(obj, nm)

        self._undo.append((undo, name, old))
        setattr(obj, name, value)

    def patch_item(self, d, key, value):
        """replace an entry of a dictionary until the end of the run"""
        had, old = key in d, d.get(key)

        def undo(k, o):
            if had:
                d[k] = o
            else:
                d.pop(k, None)

        self._undo.append((undo, key, old))
        d[key] = value

    def cleanup(self):
        for f, k, v in reversed(self._undo):
            f(k, v)
        self._undo = []

    # ---- derived input helpers
    def reals(self, prefix, names, lo=None, hi=None):
        return {n: self.real(f"{prefix}.{n}", lo, hi) for n in names}

    def vec(self, name, lo=None, hi=None, n=2):
        return np.array([self.real(f"{name}{i}", lo, hi) for i in range(n)])

    def angle(self, name):
        return self.real(name, lo=None, hi=None, typ=(-6.0, 6.0))

    def pos(self, name, hi=None, typ=(0.05, 50.0), kind="float"):
        return self.real(name, lo=0, hi=hi, lo_open=True, typ=typ, kind=kind)

    def limits(self, name, typ=(-30.0, 30.0)):
        """a pair lo < hi"""
        a = self.real(name + "_lo", typ=typ)
        if self.symbolic:
            b = self.real(name + "_hi", typ=typ)
            self.assume(a < b)
        else:
            b = self.real(name + "_hi", typ=(a + 0.01, a + 40.0), lo=a, lo_open=True)
        return (a, b)

    # ---- logic
    def And(self, *cs):
        cs = _flat(cs)
        if any(type(c).__name__ in ("All", "Ex", "Pairs") for c in cs):
            raise Undecided("a quantified condition in a conjunction")
        if any(type(c) is SBool for c in cs):
            return SBool(z3.And(*[bterm(c) for c in cs]))
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        cs = _flat(cs)
        if any(type(c) is SBool for c in cs):
            return SBool(z3.Or(*[bterm(c) for c in cs]))
        return any(bool(c) for c in cs)

    def Not(self, c):
        return SBool(z3.Not(c.t)) if type(c) is SBool else not c

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        if type(a) is SBool or type(b) is SBool:
            return SBool(bterm(a) == bterm(b))
        return bool(a) == bool(b)

    def If(self, c, a, b):
        if type(c) is not SBool:
            return a if c else b
        if isinstance(a, np.ndarray):
            return np.array([self.If(c, x, y) for x, y in zip(a, b)], dtype=object)
        A, B = Sym(z3.RealVal(0))._lift(a), Sym(z3.RealVal(0))._lift(b)
        if A.kind == "int" and B.kind == "int":
            return Sym(z3.If(c.t, A.t, B.t), "int")
        return Sym(z3.If(c.t, as_real(A.t), as_real(B.t)))

    # ---- numeric spec functions
    def min(self, a, b):
        return self.If(a <= b, a, b)

    def max(self, a, b):
        return self.If(a >= b, a, b)

    def clip(self, x, lo, hi):
        return self.min(self.max(x, lo), hi)

    def abs(self, a):
        return self.If(a >= 0, a, -a)

    def sin(self, x):
        return ctx().trig(x)[0] if is_sym(x) else math.sin(x)

    def cos(self, x):
        return ctx().trig(x)[1] if is_sym(x) else math.cos(x)

    def tan(self, x):
        return ctx().tan(x) if is_sym(x) else math.tan(x)

    def atan(self, x):
        return ctx().atan(x) if is_sym(x) else math.atan(x)

    def atan2(self, y, x):
        return ctx().atan2(y, x) if is_sym(x) or is_sym(y) else math.atan2(y, x)

    def sqrt(self, x):
        return ctx().sqrt(x) if is_sym(x) else math.sqrt(x)

    def norm(self, v):
        s = 0
        for e in v:
            s = s + e * e
        return self.sqrt(s)

    def dot(self, a, b):
        s = 0
        for x, y in zip(a, b):
            s = s + x * y
        return s

    def rot(self, th, v):
        s, c = self.sin(th), self.cos(th)
        return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])

    def same_angle(self, a, b):
        """equal modulo a full turn"""
        return self.And(self.eq(self.sin(a), self.sin(b)), self.eq(self.cos(a), self.cos(b)))

    # ---- relations (exact over the reals when symbolic, with a rounding tolerance when concrete)
    def eq(self, a, b, tol=1e-6):
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            a, b = list(np.asarray(a, dtype=object).reshape(-1)) if isinstance(a, np.ndarray) else list(a), (
                list(np.asarray(b, dtype=object).reshape(-1)) if isinstance(b, np.ndarray) else list(b))
            if len(a) != len(b):
                return False
            return self.And(*[self.eq(x, y, tol) for x, y in zip(a, b)])
        return self._eq1(a, b, tol)

    def all_eq(self, pairs):
        return self.And(*[self.eq(a, b) for a, b in pairs])

    def raises(self, excs, fn):
        try:
            fn()
        except excs:
            return True
        return False

    def opaque(self, label, fn):
        """run fn; an exception other than the declared ones is a failure of obligation `label`"""
        return fn()


def lookup(dotted):
    import importlib

    parts = dotted.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except Exception:
            continue
        for p in parts[i:]:
            o = getattr(o, p, None)
        return o
    return None


def _flat(cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            out += _flat(c)
        elif type(c).__name__ == "generator":
            out += _flat(list(c))
        else:
            out.append(c)
    return out


# ------------------------------------------------------------------------------------------------ symbolic
class SymVC(VC):
    symbolic = True

    def __init__(self, cx):
        super().__init__()
        self.cx = cx
        self.seen = {}

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, typ=None, kind="float"):
        t = z3.Real(name)
        if name not in self.cx.inputs:
            self.cx.inputs[name] = RealSpec(t, kind)
        if lo is not None:
            l = as_real(lo.t) if is_sym(lo) else realval(lo)
            self.cx.assume(t > l if lo_open else t >= l)
        if hi is not None:
            h = as_real(hi.t) if is_sym(hi) else realval(hi)
            self.cx.assume(t < h if hi_open else t <= h)
        return Sym(t, kind)

    def int(self, name, lo=None, hi=None, most=None):
        t = z3.Int(name)
        self.cx.inputs[name] = IntSpec(t)
        if lo is not None:
            self.cx.assume(t >= lo)
        if hi is not None:
            self.cx.assume(t <= hi)
        if most is not None:
            self.cx.lengths.append(t)
        return Sym(t, "int")

    def bool(self, name):
        t = z3.Bool(name)
        self.cx.inputs[name] = BoolSpec(t)
        return SBool(t)

    def flag(self, name):
        """a Python bool: both values are explored"""
        i = self.cx.choose(2)
        self.cx.inputs[name] = ConstSpec(bool(i))
        return bool(i)

    def choice(self, name, options):
        options = list(options)
        i = self.cx.choose(len(options))
        self.cx.inputs[name] = ConstSpec(i)
        return options[i]

    def havoc(self, name, kind="float"):
        """result of a callee known only through its contract: an arbitrary value"""
        return self.real("havoc:" + name, kind=kind)

    def assume(self, c):
        self.cx.assume(bterm(c))
        if not z3.is_true(z3.simplify(bterm(c))):
            # prune infeasible preconditions early
            if self.cx.check() == z3.unsat:
                raise PathEnd()

    def prove(self, label, c):
        if isinstance(c, (list, tuple)) or type(c).__name__ in ("All", "Ex"):
            from . import loops

            loops.prove(label, c)
            return
        self.cx.prove(c, label)

    def _eq1(self, a, b, tol):
        if type(a) in (Sym, SBool) or type(b) in (Sym, SBool):
            if type(a) is SBool or type(b) is SBool:
                return SBool(bterm(a) == bterm(b))
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return False
            if _is_inf(a) or _is_inf(b) or _is_nan(a) or _is_nan(b):
                return False
            r = a._num_eq(b) if type(a) is Sym else b._num_eq(a)
            return r
        if isinstance(a, (float, np.floating)) and isinstance(b, (int, float, np.floating)):
            return bool(a == b or abs(a - b) <= 1e-9 * (1 + max(abs(a), abs(b))))
        if isinstance(b, (float, np.floating)) and isinstance(a, (int, np.integer)):
            return bool(abs(a - b) <= 1e-9 * (1 + max(abs(a), abs(b))))
        return bool(a == b)

    def close(self, a, b, tol):
        d = a - b
        return self.And(d <= tol, -d <= tol)

    # ---- unbounded sequences and loops
    def loops(self, dotted, specs=None):
        """cut the loops of a function at invariants (see loops.py)"""
        from . import loops

        loops.instrument(dotted, specs or {})

    def again(self, name, make, key=None):
        return make()

    def forall(self, label, lo, hi, pred):
        from . import loops

        loops.prove(label, loops.All(lo, hi, lambda j: bterm(pred(Sym(j, "int")))))

    def exists(self, label, lo, hi, pred, alt=False):
        """pred holds at some index in the range (or else alt holds)"""
        from . import loops

        loops.prove(label, loops.Ex(lo, hi, lambda j: bterm(pred(Sym(j, "int"))), alt))

    def suppose(self, lo, hi, pred):
        """assume a quantified precondition"""
        from . import loops

        loops.uni().add(loops.All(lo, hi, lambda j: bterm(pred(Sym(j, "int")))))

    def some(self, lo, hi, pred):
        """(specification) case split: does pred hold at some index"""
        from . import loops

        f = lambda j: bterm(pred(Sym(j, "int")))
        if self.cx.choose(2) == 0:
            loops.uni().add(loops.Ex(lo, hi, f))
            loops.alive()
            return True
        loops.uni().add(loops.All(lo, hi, lambda j: z3.Not(f(j))))
        loops.alive()
        return False

    def ratio(self, a, b):
        """a / b in specifications, where b is known not to be zero whenever it matters"""
        z = Sym(z3.RealVal(0))
        return Sym(as_real(z._lift(a).t) / as_real(z._lift(b).t))

    def generated(self, label, gen, n, same):
        """the generator yields exactly n items, item j satisfying same(j, item)"""
        from . import loops

        loops.generated(label, gen, n, same)

    def le(self, a, b, tol=1e-6):
        r = a <= b
        return r

    def lt(self, a, b, tol=1e-6):
        return a < b

    def lt_strict(self, a, b):
        return a < b

    def margin(self, *pairs):
        """(concrete runs only) skip inputs within rounding distance of a discontinuity"""

    def cover(self, label, c=True):
        pass


def _num_eq(self, o):
    l = self._lift(o)
    if l is None:
        return False
    if self.kind == "int" and l.kind == "int":
        return SBool(self.t == l.t)
    return SBool(as_real(self.t) == as_real(l.t))


Sym._num_eq = _num_eq


# ------------------------------------------------------------------------------------------------ concrete
_KEPT = {}


class ConcVC(VC):
    symbolic = False
    fresh = False

    def __init__(self, values=None, rng=None, jitter=None):
        super().__init__()
        self.values = dict(values or {})
        self.rng = rng or random.Random(0)
        self.used = {}
        self.checked = []
        self.assumed = True
        self.pool = []
        self._objects = {}

    def _get(self, name, sampler):
        if name in self.used:
            return self.used[name]
        v = self.values[name] if name in self.values else sampler()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, typ=None, kind="float"):
        def sample():
            a, b = typ if typ else (lo if lo is not None else -40.0, hi if hi is not None else 40.0)
            if typ is None and lo is not None and hi is None:
                b = max(lo + 40.0, 40.0)
            if typ is None and hi is not None and lo is None:
                a = min(hi - 40.0, -40.0)
            a, b = float(a), float(b)
            r = self.rng.random()
            if r < 0.12:
                cand = [a, b, 0.0, 1.0, -1.0, (a + b) / 2]
                v = self.rng.choice(cand)
            elif r < 0.24 and self.pool:
                v = self.rng.choice(self.pool) * self.rng.choice([1, 1, 1, -1])
            elif r < 0.34:
                v = float(round(self.rng.uniform(a, b)))
            elif r < 0.42:
                v = self.rng.uniform(-1, 1) * 10 ** self.rng.uniform(-4, 0)
            else:
                v = self.rng.uniform(a, b)
            lo_, hi_ = (float(lo) if lo is not None else -math.inf), (float(hi) if hi is not None else math.inf)
            if not (lo_ <= v <= hi_) or (lo_open and v == lo_) or (hi_open and v == hi_):
                v = self.rng.uniform(max(a, lo_), min(b, hi_))
            return v

        v = self._get(name, sample)
        if v is not None:
            if (lo is not None and (v < lo or (lo_open and v == lo))) or (
                hi is not None and (v > hi or (hi_open and v == hi))
            ):
                raise Discard(name)
        if len(self.pool) < 40:
            self.pool.append(v)
        return Decimal(repr(v)) if kind == "Decimal" else v

    def int(self, name, lo=None, hi=None, most=None):
        def sample():
            a = lo if lo is not None else -6
            b = hi if hi is not None else a + 12
            if most is not None:
                b = most if self.rng.random() < 0.9 else 4 * most
            return self.rng.randint(a, b)

        v = int(self._get(name, sample))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard(name)
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    flag = bool

    def again(self, name, make, key=None):
        """an object that is often the one used by the run before (made of the same key): nothing it went through may matter"""
        n = self._objects.get(name, 0)
        self._objects[name] = n + 1
        name = f"{name} {n}" if n else name
        old = _KEPT.get(name)
        if old is not None and (key is None or old[0] == key) and not self.fresh and self._get("reused " + name, lambda: self.rng.random() < 0.75):
            return old[1]
        o = make()
        _KEPT[name] = (key, o)
        return o

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, lambda: self.rng.randrange(len(options)))
        return options[i % len(options)]

    def havoc(self, name, kind="float"):
        return self.real("havoc:" + name, kind=kind)

    def assume(self, c):
        if not bool(c):
            raise Discard("precondition")

    def prove(self, label, c):
        self.checked.append(label)
        if not bool(c):
            raise ContractFailure(label)

    def _eq1(self, a, b, tol):
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool, np.bool_, str)) or isinstance(b, (bool, np.bool_, str)):
            return bool(a == b)
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return bool(a == b)
        if math.isnan(a) or math.isnan(b):
            return False
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))

    def close(self, a, b, tol):
        return abs(float(a) - float(b)) <= tol * 1.01 + 1e-9

    def loops(self, dotted, specs=None):
        pass

    def forall(self, label, lo, hi, pred):
        self.prove(label, all(bool(pred(j)) for j in range(int(lo), int(hi))))

    def exists(self, label, lo, hi, pred, alt=False):
        self.prove(label, bool(alt) or any(bool(pred(j)) for j in range(int(lo), int(hi))))

    def suppose(self, lo, hi, pred):
        self.assume(all(bool(pred(j)) for j in range(int(lo), int(hi))))

    def some(self, lo, hi, pred):
        return any(bool(pred(j)) for j in range(int(lo), int(hi)))

    def ratio(self, a, b):
        return a / b

    def generated(self, label, gen, n, same):
        got = list(gen)
        self.prove(label + ": so many items", len(got) == max(0, int(n)))
        for j, x in enumerate(got):
            self.prove(label + ": the item", bool(same(j, x)))

    def le(self, a, b, tol=1e-6):
        if a is None or b is None:
            return False
        a, b = float(a), float(b)
        return a <= b or not (math.isinf(a) or math.isinf(b)) and a - b <= tol * (1 + max(abs(a), abs(b)))

    def lt(self, a, b, tol=1e-6):
        return self.le(a, b, tol)

    def lt_strict(self, a, b):
        return bool(a < b)

    def margin(self, *pairs):
        for a, b in pairs:
            a, b = float(a), float(b)
            if a != b and abs(a - b) < 1e-7 * (1 + max(abs(a), abs(b))):
                raise Discard("margin")

    def cover(self, label, c=True):
        pass


# ------------------------------------------------------------------------------------------------ registry
class Target:
    def __init__(self, pid, name, fn, funcs, kind, bound, samples, budget, note, tags):
        self.pid, self.name, self.fn, self.funcs = pid, name, fn, funcs
        self.kind, self.bound, self.samples, self.budget, self.note = kind, bound, samples, budget, note
        self.opts = tags


REGISTRY = []


def target(pid, name, funcs, kind="full", bound="", samples=200, budget=60, note="", **opts):
    """kind: full    - loop-free over the full input domain (complete)
             loop    - unbounded, loops cut at invariants (complete)
             bounded - symbolic up to the stated bound (never counted as proved)
             runtime - concrete evaluation only (bounded stand-in for code outside the verifier's reach)"""

    def deco(fn):
        REGISTRY.append(Target(pid, name, fn, list(funcs), kind, bound, samples, budget, note, opts))
        return fn

    return deco
