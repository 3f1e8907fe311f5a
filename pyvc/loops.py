"""Unbounded loops: the source of a function is taken from /repo on every run and its loops over symbolic sequences are cut
at invariants; nothing else of the function changes.

    for TARGET in ITER: BODY        becomes        prove the invariant on entry, then explore both
                                                   (a) one arbitrary iteration k from an arbitrary state satisfying the invariant
                                                       at k, ending with the proof of the invariant at k+1;
                                                   (b) the code after the loop, from the invariant at len(ITER)

`break` and `return` leave (a) through the code that follows.  A variable the body assigns and the invariant does not
determine is poisoned: using it afterwards is outside the verifier's reach (undecided), never unsound.  Objects the body changes behind
the invariant's back are caught by comparing snapshots (undecided as well).  Comprehensions over symbolic sequences become mapped or
filtered sequences.  Iterables that are not symbolic run as in the original.

Symbolic sequences (SSeq) have an arbitrary length n and an element function; universally quantified facts are instantiated at every
index term met on a path (Universe), so all queries stay quantifier free.
"""
import ast, copy, inspect, textwrap, types, bisect, builtins
import z3
from . import core, shims
from .core import Sym, SBool, PathEnd, Unsupported, ctx, bterm, is_sym, as_real, tkey


def I(x):
    """z3 integer term of an index"""
    if type(x) is Sym:
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(int(x))


# ---------------------------------------------------------------------------------------------- quantified facts
# Facts and index terms live in a space (None: the default one); a fact is instantiated at the index terms of its space.
class All:
    """for all lo <= i < hi: pred(i)"""

    def __init__(self, lo, hi, pred, space=None):
        self.lo, self.hi, self.pred, self.space = I(lo), I(hi), pred, space

    def guard(self, j):
        return z3.And(self.lo <= j, j < self.hi)

    def at(self, j):
        try:
            return z3.Implies(self.guard(j), bterm(self.pred(j)))
        except OutOfRange:
            return z3.BoolVal(True)


class OutOfRange(Unsupported):
    """an element at an index known not to be in range"""


def within(n, f):
    """elements of a comprehension: an error of the element is one only at an index in range"""

    def g(j):
        try:
            return f(j)
        except (PathEnd, Unsupported, core.Budget):
            raise
        except Exception:
            if ctx().branch(SBool(z3.And(0 <= j, j < n))):
                raise
            raise OutOfRange("index out of range")

    return g


class Pairs:
    """for all i < j of a sequence: pred(i, j)"""

    def __init__(self, pred, space=None):
        self.pred, self.space = pred, space


class Ex:
    """for some lo <= i < hi: pred(i)"""

    def __init__(self, lo, hi, pred, alt=False, space=None):
        self.lo, self.hi, self.pred, self.alt, self.space = I(lo), I(hi), pred, alt, space


class Universe:
    def __init__(self, cx):
        self.cx, self.spaces, self.alls, self.pairs, self.depth = cx, {None: {}}, [], [], 0
        self.filters, self.sums, self.bases, self.frozen, self.gaps = [], [], {}, False, False

    @property
    def idx(self):
        return self.spaces[None]

    def terms(self, space=None):
        return self.spaces.setdefault(space, {})

    def touch(self, j, space=None):
        if self.frozen:
            return
        j = z3.simplify(j)
        k = j.get_id()
        idx = self.terms(space)
        if k in idx or self.depth > 1:
            return
        if len(idx) > 60:
            import os

            if os.environ.get("PYVC_TERMS"):
                import sys; print(space, list(idx.values()), len(self.alls), len(self.pairs), file=sys.stderr)
            raise core.Budget("index terms")
        others = list(idx.values())
        idx[k] = j
        self.cx.keep.append(j)
        self.depth += 1
        try:
            for a in list(self.alls):
                if a.space == space:
                    self.cx.fact(a.at(j))
            for p in list(self.pairs):
                if p.space != space:
                    continue
                for o in others:
                    d = z3.simplify(j - o)
                    if not z3.is_int_value(d) or d.as_long() > 0:
                        self.cx.fact(p.pred(o, j))
                    if not z3.is_int_value(d) or d.as_long() < 0:
                        self.cx.fact(p.pred(j, o))
        finally:
            self.depth -= 1

    def add(self, q):
        if isinstance(q, Pairs):
            self.pairs.append(q)
            t = list(self.terms(q.space).values())
            for a in t:
                for b in t:
                    if a is not b:
                        d = z3.simplify(b - a)
                        if not z3.is_int_value(d) or d.as_long() > 0:
                            self.cx.fact(q.pred(a, b))
        elif isinstance(q, All):
            self.alls.append(q)
            for j in list(self.terms(q.space).values()):
                self.cx.fact(q.at(j))
        elif isinstance(q, Ex):
            j = self.cx.fresh("wit", "int")
            self.cx.fact(z3.And(q.lo <= j, j < q.hi))
            self.touch(j, q.space)
            self.cx.fact(bterm(q.pred(j)))
        elif isinstance(q, (list, tuple)):
            for x in q:
                self.add(x)
        else:
            self.cx.assume(bterm(q))


def uni():
    cx = ctx()
    u = getattr(cx, "univ", None)
    if u is None:
        u = cx.univ = Universe(cx)
    return u


def quiet(f):
    """evaluate a term without making its index terms instances of the quantified facts"""

    def g(*a):
        u = uni()
        old, u.frozen = u.frozen, True
        try:
            return f(*a)
        finally:
            u.frozen = old

    return g


def alive():
    """the current path ends if it is impossible"""
    if ctx().check() == z3.unsat:
        raise PathEnd()


def witness(cx, c):
    """does the conjunction hold on this path: linear parts first, equations of rational functions by normal form"""
    todo, easy, hard = [z3.simplify(c)], [], []
    while todo:
        e = todo.pop()
        if z3.is_and(e):
            todo += e.children()
        elif z3.is_eq(e) and z3.is_real(e.arg(0)):
            hard.append(e)
        else:
            easy.append(e)
    if easy and cx.check(z3.Not(z3.And(*easy))) != z3.unsat:
        return False
    return all(cx.rational_zero(e.arg(0), e.arg(1)) or cx.check(z3.Not(e)) == z3.unsat for e in hard)


def prove(label, q):
    """an obligation, possibly quantified"""
    cx = ctx()
    if isinstance(q, (list, tuple)):
        for x in q:
            prove(label, x)
    elif isinstance(q, All):
        j = cx.fresh("any", "int")
        uni().touch(j, q.space)
        cx.prove(SBool(q.at(j)), label)
    elif isinstance(q, Ex):
        us = list(uni().terms(q.space).values())
        for j in us[::-1]:
            if witness(cx, z3.And(q.lo <= j, j < q.hi, bterm(quiet(q.pred)(j)))):
                cx.ex.obligations.append(core.Obl(label, "proved", "z3", path="".join("T" if d else "F" for d in cx.trail[: cx.pos])))
                cx.ex.stats.by_backend["z3"] = cx.ex.stats.by_backend.get("z3", 0) + 1
                return
        cx.prove(SBool(z3.Or(bterm(q.alt), *[z3.And(q.lo <= j, j < q.hi, bterm(q.pred(j))) for j in us])), label)
    else:
        cx.prove(q if isinstance(q, (SBool, bool)) else SBool(bterm(q)), label)


def any_index(lo, hi, name="at", space=None):
    """an arbitrary index in the range (the path ends if there is none)"""
    cx = ctx()
    j = cx.fresh(name, "int")
    cx.assume(SBool(z3.And(I(lo) <= j, j < I(hi))))
    uni().touch(j, space)
    if cx.check() == z3.unsat:
        raise PathEnd()
    return j


# ---------------------------------------------------------------------------------------------- sequences
class SSeq:
    """a sequence of arbitrary length"""

    __vc_symbolic__ = True
    space = None

    def __init__(self, n, get, pytype=tuple, sorted_=False, inject=None):
        self.n, self._get, self.pytype, self.sorted, self.ver = z3.simplify(I(n)), get, pytype, sorted_, 0
        self.inject = inject
        self.memo = {}

    @property
    def __class__(self):
        return self.pytype

    def get(self, j):
        """element at an index term known to be in range"""
        j = z3.simplify(I(j))
        k = j.get_id()
        uni().touch(j, self.space)
        if k not in self.memo:
            self.memo[k] = (self._get(j), j)
        return self.memo[k][0]

    def __vc_len__(self):
        return Sym(self.n, "int")

    def __len__(self):
        return Sym(self.n, "int").__index__()

    def __bool__(self):
        return ctx().branch(SBool(self.n > 0))

    def _norm(self, k):
        k = I(k)
        if ctx().branch(SBool(k < 0)):
            k = z3.simplify(k + self.n)
        if not ctx().branch(SBool(z3.And(k >= 0, k < self.n))):
            raise IndexError("sequence index out of range")
        return k

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None and not (type(k.step) is int and k.step == 1):
                raise Unsupported("slice with a step")
            n = self.n

            def bound(b, d):
                if b is None:
                    return d
                b = I(b)
                if ctx().branch(SBool(b < 0)):
                    b = b + n
                    return z3.IntVal(0) if ctx().branch(SBool(b < 0)) else z3.simplify(b)
                return n if ctx().branch(SBool(b > n)) else b

            a, b = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
            m = z3.simplify(z3.If(b > a, b - a, 0))
            src = self.copy_()
            r = SSeq(m, lambda j: src.get(z3.simplify(j + a)), self.pytype, self.sorted)
            r.part = (self, a, b, self.ver)
            return r
        return self.get(self._norm(k))

    def __iter__(self):
        """natively only when the length is provably one small number"""
        cx = ctx()
        for k in range(5):
            if self.n.eq(z3.IntVal(k)) or (not z3.is_int_value(self.n) and cx.check(self.n != k) == z3.unsat):
                return iter([self.get(z3.IntVal(j)) for j in range(k)])
        return self

    def __next__(self):
        raise Unsupported("native iteration over a sequence of symbolic length")

    def __contains__(self, x):
        try:
            self.index(x)
            return True
        except ValueError:
            return False

    def index(self, x):
        """contract of tuple.index: the first position holding x"""
        cx = ctx()
        if not is_sym(x) and not core._is_num(x):
            raise Unsupported("index of a non-number")
        eq = lambda j: bterm(self.get(j) == x)
        if cx.choose(2) == 0:
            i = cx.fresh("index", "int")
            cx.fact(z3.And(0 <= i, i < self.n))
            uni().touch(i)
            cx.fact(eq(i))
            uni().add(All(0, i, lambda j: z3.Not(eq(j))))
            if cx.check() == z3.unsat:
                raise PathEnd()
            return Sym(i, "int")
        uni().add(All(0, self.n, lambda j: z3.Not(eq(j))))
        if cx.check() == z3.unsat:
            raise PathEnd()
        raise ValueError("not in sequence")

    # lists
    def append(self, v):
        self._need_list()
        old, n = self.copy_(), self.n
        self._get = lambda j: pick(z3.simplify(j == n), lambda: v, lambda: old.get(j))
        self.n, self.memo, self.ver, self.sorted = z3.simplify(n + 1), {}, self.ver + 1, False

    def extend(self, it):
        self._need_list()
        o, old, n = as_seq(it), self.copy_(), self.n
        self._get = lambda j: pick(z3.simplify(j < n), lambda: old.get(j), lambda: o.get(z3.simplify(j - n)))
        self.n, self.memo, self.ver, self.sorted = z3.simplify(n + o.n), {}, self.ver + 1, False

    def __add__(self, o):
        old, n, o = self.copy_(), self.n, as_seq(o)
        r = SSeq(n + o.n, lambda j: pick(z3.simplify(j < n), lambda: old.get(j), lambda: o.get(z3.simplify(j - n))), self.pytype)
        r.space = self.space
        return r

    def _need_list(self):
        if self.pytype is not list:
            raise AttributeError("'tuple' object has no attribute 'append'")

    def __setitem__(self, k, v):
        if self.pytype is not list:
            raise TypeError("'tuple' object does not support item assignment")
        k = self._norm(k)
        old = self.copy_()
        self._get = lambda j: pick(z3.simplify(j == k), lambda: v, lambda: old.get(j))
        self.memo, self.ver, self.sorted = {}, self.ver + 1, False

    def copy_(self, pytype=None):
        r = SSeq(self.n, self._get, pytype or self.pytype, self.sorted)
        r.memo, r.space = dict(self.memo), self.space
        return r

    def copy(self):
        return self.copy_()

    def map(self, f, sorted_=False):
        src = self.copy_()
        return SSeq(self.n, lambda j: f(src.get(j)), list, sorted_)

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of sequences")

    def __hash__(self):
        return 11

    def __repr__(self):
        return "<sequence>"

    def __format__(self, s):
        return "<sequence>"

    def __deepcopy__(self, memo):
        return self.copy_()

    # numpy hooks
    def __vc_array__(self):
        return SVec(self.n, self.get)

    def __array__(self, *a, **k):
        raise Unsupported("a sequence of symbolic length in native numpy code")


class SVec(SSeq):
    """a one-dimensional numpy array of arbitrary length"""

    def __init__(self, n, get):
        super().__init__(n, get, list)

    @property
    def __class__(self):
        import numpy as np

        return np.ndarray

    def _bin(self, o, f):
        import numpy as np

        if getattr(type(o), "__vc_symbolic__", False):
            return SVec(self.n, lambda j: f(self.get(j), o.get(j)))
        if isinstance(o, np.ndarray) and o.ndim > 0 or isinstance(o, (list, tuple)):
            raise Unsupported("array of symbolic length with one of fixed length")
        return SVec(self.n, lambda j: f(self.get(j), o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __neg__(self):
        return SVec(self.n, lambda j: -self.get(j))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    __hash__ = SSeq.__hash__

    def __bool__(self):
        raise Unsupported("truth of an array")

    def __vc_map__(self, f, *xs):
        return SVec(self.n, lambda j: f(self.get(j), *[x.get(j) if getattr(type(x), "__vc_symbolic__", False) else x for x in xs]))

    def __vc_array__(self):
        return self

    ndim = 1

    @property
    def size(self):
        return Sym(self.n, "int")

    @property
    def shape(self):
        return (Sym(self.n, "int"),)

    def tolist(self):
        return SSeq(self.n, self.get, list)

    def __vc_sum__(self):
        return prefix(self).total()

    sum = __vc_sum__

    def _width(self):
        """the fixed length of the rows of a matrix with any number of rows; None for numbers"""
        import numpy as np

        if not hasattr(self, "_w"):
            v = self._get(ctx().fresh("row", "int"))
            v = v if isinstance(v, (tuple, list, np.ndarray)) and not getattr(type(v), "__vc_symbolic__", False) else None
            self._w = None if v is None else len(v)
        return self._w

    @property
    def T(self):
        w = self._width()
        return self if w is None else SCols(self.n, w, self.get)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) != 2 or self._width() is None:
                raise Unsupported("index of an array")
            return SCols(self.n, self._width(), self.get)[k[1], k[0]]
        return super().__getitem__(k)


class SCols:
    """a matrix of any number of columns, each of fixed length"""

    __vc_symbolic__ = True
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, n, w, col):
        self.n, self.w, self.col = n, w, col

    @property
    def shape(self):
        return (self.w, Sym(self.n, "int"))

    @property
    def T(self):
        import numpy as np

        r = SVec(self.n, lambda j: np.array(list(self.col(j)), dtype=object))
        r._w = self.w
        return r

    def __rmatmul__(self, q):
        import numpy as np

        if not isinstance(q, np.ndarray) or q.ndim != 2 or q.shape[1] != self.w:
            raise ValueError("matrix product with mismatching dimensions")

        def col(j):
            c = list(self.col(j))
            return [sum(q[i, l] * c[l] for l in range(1, self.w)) + q[i, 0] * c[0] for i in range(q.shape[0])]

        return SCols(self.n, q.shape[0], col)

    def __getitem__(self, k):
        i, j = k if isinstance(k, tuple) else (k, slice(None))
        if isinstance(i, slice):
            ix = list(range(self.w))[i]
            m = SCols(self.n, len(ix), lambda j: [list(self.col(j))[a] for a in ix])
            if j == slice(None):
                return m
            raise Unsupported("part of a matrix")
        if type(i) is not int or not -self.w <= i < self.w:
            raise Unsupported("index of a matrix")
        return SVec(self.n, lambda j: list(self.col(j))[i])[j]

    def __iter__(self):
        return iter([self[i] for i in range(self.w)])

    def __len__(self):
        return self.w

    def __array__(self, *a, **k):
        raise Unsupported("a matrix of symbolic size in native numpy code")


def pick(c, a, b):
    """a() if c else b() without a branch for numbers, by branching for anything else"""
    if z3.is_true(c):
        return a()
    if z3.is_false(c):
        return b()
    x, y = a(), b()
    if type(x) is SBool or type(y) is SBool:
        return SBool(z3.If(c, bterm(x), bterm(y)))
    nx, ny = is_sym(x) or core._is_num(x), is_sym(y) or core._is_num(y)
    if nx and ny:
        z = Sym(z3.RealVal(0))
        X, Y = z._lift(x), z._lift(y)
        if X.kind == "int" and Y.kind == "int":
            return Sym(z3.If(c, X.t, Y.t), "int")
        return Sym(z3.If(c, as_real(X.t), as_real(Y.t)), X.kind if X.kind != "int" else Y.kind)
    if isinstance(x, tuple) and isinstance(y, tuple) and type(x) is tuple and type(y) is tuple and len(x) == len(y):
        return tuple(pick(c, (lambda p=p: p), (lambda q=q: q)) for p, q in zip(x, y))
    if x is y:
        return x
    if type(x) is type(y) and hasattr(type(x), "__vc_pick__"):
        return x.__vc_pick__(c, y)
    return x if ctx().branch(SBool(c)) else y


def as_seq(x):
    if isinstance(x, SSeq) or getattr(type(x), "__vc_symbolic__", False):
        return x
    xs = list(x)
    return SSeq(len(xs), lambda j: _at(xs, j), list)


def _at(xs, j):
    j = z3.simplify(j)
    if z3.is_int_value(j):
        return xs[j.as_long()]
    r = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        r = pick(z3.simplify(j == i), (lambda i=i: xs[i]), (lambda r=r: r))
    return r


def base(name, n, kind="float", increasing=False, pytype=tuple):
    """an arbitrary sequence of numbers: one uninterpreted function"""
    f = z3.Function(name, z3.IntSort(), z3.IntSort() if kind == "int" else z3.RealSort())
    s = SSeq(n, lambda j: Sym(f(j), kind), pytype, increasing)
    from .vc import SeqSpec

    known = uni().bases.get(name)
    if known is not None:
        return known
    uni().bases[name] = s
    ctx().inputs[name + "[]"] = SeqSpec(name, f, s.n, kind, increasing)
    uni()
    if increasing:
        uni().add(Pairs(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < s.n), f(i) < f(j))))
    return s


def flags(name, n):
    """an arbitrary truth value per index"""
    from .vc import FlagsSpec

    f = z3.Function(name, z3.IntSort(), z3.BoolSort())
    ctx().inputs.setdefault(name + "[]", FlagsSpec(name, f, I(n)))
    return lambda j: SBool(f(j))


class Filtered:
    """the subsequence of the indices 0 <= i < n with keep(i), enumerated by pos; count(k) = how many before k"""

    def __init__(self, n, keep, name="filter", space=None):
        cx = ctx()
        terms, keep0 = {}, keep

        def keep(i):
            k = i.get_id()
            if k not in terms:
                terms[k] = (bterm(keep0(i)), i)
            return terms[k][0]

        self.n, self.keep, self.space, self.nths = I(n), keep, space, {}
        u = uni()
        for o in u.filters:
            # filters that keep the same indices enumerate the same ones (induction over the length)
            if o.space == space and extensional(self.n, o.n, lambda j: bterm(keep(j)) == bterm(o.keep(j)), space):
                self.pos, self.count = o.pos, o.count
                return
        self.pos = z3.Function(f"{name}.pos!{cx.n_fresh}", z3.IntSort(), z3.IntSort())
        self.count = z3.Function(f"{name}.count!{cx.n_fresh}", z3.IntSort(), z3.IntSort())
        cx.n_fresh += 1
        pos, count = self.pos, self.count
        cx.fact(count(0) == 0)
        one = lambda i: z3.If(bterm(keep(i)), z3.IntVal(1), z3.IntVal(0))
        # count is the prefix sum of keep; pos enumerates the kept indices
        u.add(All(0, self.n, lambda i: z3.And(count(i + 1) == count(i) + one(i), count(i) >= 0, count(i) <= i,
                                              z3.Implies(bterm(keep(i)), pos(count(i)) == i)), space))
        u.add(Pairs(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j <= self.n), z3.And(count(i) + one(i) <= count(j), count(j) - count(i) <= j - i)), space))
        if u.gaps:
            # a stretch over which the count does not change keeps nothing, and vice versa (induction over its length)
            gap = z3.Function(f"{name}.gap!{cx.n_fresh - 1}", z3.IntSort(), z3.IntSort(), z3.IntSort())

            def same(i, j):
                g, was, u.frozen = gap(i, j), u.frozen, True
                try:
                    return z3.Implies(z3.And(0 <= i, i < j, j <= self.n), z3.Or(count(i) == count(j), z3.And(i <= g, g < j, bterm(keep(g)))))
                finally:
                    u.frozen = was

            u.add(Pairs(same, space))
        u.touch(z3.IntVal(0), space)
        u.touch(self.n, space)
        cx.fact(z3.And(count(self.n) >= 0, count(self.n) <= self.n))
        u.filters.append(self)

    def nth(self, m):
        """the index kept as number m"""
        p = self.pos(m)
        if m.get_id() in self.nths:
            return p
        self.nths[m.get_id()] = m
        ctx().fact(z3.Implies(z3.And(0 <= m, m < self.count(self.n)), z3.And(0 <= p, p < self.n, bterm(self.keep(p)), self.count(p) == m)))
        uni().touch(p, self.space)
        return p

    def seq(self, of, k=None, pytype=list):
        """the kept elements of `of` among the first k"""
        k = self.n if k is None else I(k)

        def get(m):
            p = self.nth(m)
            return of.get(p) if isinstance(of, SSeq) else of(p)

        r = SSeq(self.count(k), get, pytype)
        if k.eq(self.n):
            r.over = (self.n, lambda i: bterm(self.keep(i)), of.get if isinstance(of, SSeq) else of)
        return r


class Concat:
    """the concatenation of n sequences, the i-th of length size(i): off(i) elements come before it; element g is number within(g) of
    sequence part(g)"""

    def __init__(self, n, size, name="concat"):
        cx = ctx()
        self.n, self.size, self.known = I(n), size, {}
        u, Z = cx.n_fresh, z3.IntSort()
        cx.n_fresh += 1
        self.space = f"{name}{u}"
        self.off, self.part_, self.within_ = z3.Function(f"{name}.off!{u}", Z, Z), z3.Function(f"{name}.part!{u}", Z, Z), z3.Function(f"{name}.in!{u}", Z, Z)
        off = self.off
        cx.fact(off(0) == 0)
        U = uni()
        U.add(All(0, self.n, lambda i: z3.And(size(i) >= 0, off(i) >= 0, off(i + 1) == off(i) + size(i))))
        # monotone by induction
        U.add(Pairs(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j <= self.n), off(i) + size(i) <= off(j))))
        U.touch(z3.IntVal(0))
        U.touch(self.n)
        self.total = z3.simplify(off(self.n))
        cx.fact(self.total >= 0)

    def part(self, g):
        self._known(g)
        return z3.simplify(self.part_(g))

    def within(self, g):
        self._known(g)
        return z3.simplify(self.within_(g))

    def _known(self, g):
        if g.get_id() in self.known:
            return
        self.known[g.get_id()] = g
        i, r = self.part_(g), self.within_(g)
        ctx().fact(z3.Implies(z3.And(0 <= g, g < self.total), z3.And(0 <= i, i < self.n, 0 <= r, r < self.size(i), self.off(i) + r == g)))
        uni().touch(i)

    def at(self, i, r):
        """where element r of sequence i is"""
        i, r = I(i), I(r)
        uni().touch(i)
        g = z3.simplify(self.off(i) + r)
        ctx().fact(z3.Implies(z3.And(0 <= i, i < self.n, 0 <= r, r < self.size(i)), z3.And(0 <= g, g < self.total, self.part_(g) == i, self.within_(g) == r)))
        uni().touch(g, self.space)
        return g


class Prefix:
    """prefix sums of a sequence of numbers: S(0) = 0, S(k+1) = S(k) + x(k)"""

    def __init__(self, seq, name="sum"):
        cx = ctx()
        self.seq = seq
        u = uni()
        for o in u.sums:
            # equal terms have equal sums (induction over the length)
            if extensional(seq.n, o.seq.n, lambda j: as_real(num(seq.get(j))) == as_real(num(o.seq.get(j)))):
                self.f = o.f
                return
        self.f = z3.Function(f"{name}!{cx.n_fresh}", z3.IntSort(), z3.RealSort())
        cx.n_fresh += 1
        cx.fact(self.f(z3.IntVal(0)) == 0)
        u.add(All(0, seq.n, lambda k: self.f(k + 1) == self.f(k) + as_real(num(seq.get(k)))))
        u.touch(seq.n)
        u.sums.append(self)

    def upto(self, k):
        uni().touch(I(k))
        return Sym(self.f(I(k)))

    def total(self):
        n = self.seq.n
        ctx().fact(z3.Implies(n >= 1, z3.BoolVal(True)))
        uni().touch(z3.simplify(n - 1))
        return Sym(self.f(n))


def extensional(n, m, same, space=None):
    """n = m, and same(j) for every index: established by the solver at an arbitrary index"""
    cx = ctx()
    if not z3.is_true(z3.simplify(n == m)) and cx.check(n != m) != z3.unsat:
        return False
    j = cx.fresh("ext", "int")
    pos = cx.pos
    uni().touch(j, space)
    ok = cx.check(z3.And(0 <= j, j < n, z3.Not(same(j)))) == z3.unsat
    uni().terms(space).pop(j.get_id(), None)
    if cx.pos != pos:
        raise Unsupported("elements of several cases")
    return ok


def num(x):
    return Sym(z3.RealVal(0))._lift(x).t


def prefix(seq):
    p = getattr(seq, "_prefix", None)
    if p is None or p[0] != seq.ver:
        p = seq._prefix = (seq.ver, Prefix(seq.copy_()))
    return p[1]


# ---------------------------------------------------------------------------------------------- builtins
def symbolic(x):
    return getattr(type(x), "__vc_symbolic__", False)


def iterable(x):
    """the symbolic sequence behind an iterable, or None"""
    if symbolic(x):
        return x
    f = getattr(type(x), "__iter__", None)
    if isinstance(f, types.FunctionType):
        y = f(x)
        if symbolic(y):
            return y
        return _Plain(y)
    return None


class _Plain:
    def __init__(self, it):
        self.it = it


def b_range(*a):
    if any(type(x) is Sym for x in a):
        if len(a) == 3 and not (type(a[2]) is int and a[2] == 1):
            raise Unsupported("range with a step")
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        lo, hi = I(lo), I(hi)
        return SSeq(z3.If(hi > lo, hi - lo, 0), lambda j: Sym(z3.simplify(lo + j), "int"), range)
    return range(*a)


def _len_min(ns):
    r = ns[0]
    for m in ns[1:]:
        if not z3.is_true(z3.simplify(r == m)):
            r = z3.If(r <= m, r, m)
    return z3.simplify(r)


def _seqs(xs):
    ys = []
    for x in xs:
        y = iterable(x)
        ys.append(y.it if isinstance(y, _Plain) else x if y is None else y)
    return ys


def b_zip(*xs, **k):
    ys = _seqs(xs)
    if any(symbolic(y) for y in ys):
        ss = [as_seq(y) for y in ys]
        return SSeq(_len_min([s.n for s in ss]), lambda j: tuple(s.get(j) for s in ss), list)
    return zip(*ys, **k)


def b_enumerate(x, start=0):
    y = _seqs([x])[0]
    if symbolic(y):
        return SSeq(y.n, lambda j: (Sym(z3.simplify(j + I(start)), "int"), y.get(j)), list)
    return enumerate(y, start)


def b_reversed(x):
    y = _seqs([x])[0]
    if symbolic(y):
        return SSeq(y.n, lambda j: y.get(z3.simplify(y.n - 1 - j)), list)
    return reversed(y)


def b_iter(x, *a):
    y = _seqs([x])[0]
    return y if symbolic(y) else iter(y, *a)


def b_map(f, *xs):
    ys = _seqs(xs)
    if any(symbolic(y) for y in ys):
        ss = [as_seq(y) for y in ys]
        return SSeq(_len_min([s.n for s in ss]), lambda j: f(*[s.get(j) for s in ss]), list)
    return map(f, *ys)


def b_sum(x, start=0):
    y = _seqs([x])[0]
    if symbolic(y):
        if type(y._get(z3.IntVal(0))) is not Sym and not core._is_num(y._get(z3.IntVal(0))):
            raise Unsupported("sum of non-numbers")
        part = getattr(y, "part", None)
        if part is not None and part[0].ver == part[3] and y.ver == 0 and part[0].space is None:
            # the sum of a slice is the difference of two sums from the start
            base, a, b, _ = part
            p = prefix(base)
            t = p.upto(z3.simplify(z3.If(b > a, b, a))) - p.upto(a)
        else:
            t = prefix(y).total()
        return t if not is_sym(start) and start == 0 else t + start
    return sum(y, start)


def over(y):
    """the elements of a sequence by index: how many indices, which of them count, the element of an index; the subsequence of the indices
    that satisfy a condition is described by the indices of the whole"""
    o = getattr(y, "over", None)
    return o if o is not None else (y.n, lambda j: z3.BoolVal(True), y.get)


def b_any(x):
    y = _seqs([x])[0]
    if symbolic(y):
        n, keep, get = over(y)
        cx = ctx()
        if cx.choose(2) == 0:
            uni().add(Ex(0, n, lambda j: z3.And(keep(j), bterm(_truth(get(j))))))
            alive()
            return True
        uni().add(All(0, n, lambda j: z3.Implies(keep(j), z3.Not(bterm(_truth(get(j)))))))
        alive()
        return False
    return any(y)


def b_all(x):
    y = _seqs([x])[0]
    if symbolic(y):
        n, keep, get = over(y)
        cx = ctx()
        if cx.choose(2) == 0:
            uni().add(All(0, n, lambda j: z3.Implies(keep(j), bterm(_truth(get(j))))))
            alive()
            return True
        uni().add(Ex(0, n, lambda j: z3.And(keep(j), z3.Not(bterm(_truth(get(j)))))))
        alive()
        return False
    return all(y)


def _truth(v):
    if type(v) is SBool:
        return v
    if type(v) is Sym:
        return SBool(v.t != 0)
    return bool(v)


def _extreme(name, native, better):
    def g(*a, **k):
        if len(a) == 1:
            y = _seqs(a)[0]
            if symbolic(y):
                key = k.get("key")
                cx = ctx()
                if not ctx().branch(SBool(y.n > 0)):
                    if "default" in k:
                        return k["default"]
                    raise ValueError(f"{name}() arg is an empty sequence")
                n, keep, get = over(y)
                i = cx.fresh(name, "int")
                cx.fact(z3.And(0 <= i, i < n, keep(i)))
                uni().touch(i)
                v = get(i)
                if key is not None:
                    # the first of the best ones
                    w = key(v)
                    uni().add(All(0, n, lambda j: z3.Implies(keep(j), bterm(better(w, key(get(j)))))))
                    uni().add(All(0, i, lambda j: z3.Implies(keep(j), z3.Not(bterm(better(key(get(j)), w))))))
                    return v
                uni().add(All(0, n, lambda j: z3.Implies(keep(j), bterm(better(v, get(j))))))
                return v
            return native(y, **k)
        return native(*a, **k)

    return g


b_max = _extreme("max", max, lambda v, w: v >= w)
b_min = _extreme("min", min, lambda v, w: v <= w)


def _ctor(pt):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, pt)

        def __subclasscheck__(cls, c):
            return issubclass(c, pt)

        def __eq__(cls, o):
            return o is pt or o is cls

        def __hash__(cls):
            return hash(pt)

        def __getitem__(cls, k):
            return pt[k]

        def __getattr__(cls, n):
            return getattr(pt, n)

    class C(metaclass=Meta):
        def __new__(cls, x=()):
            if type(x).__name__ == "Flat":
                return x.as_(pt)
            y = _seqs([x])[0]
            if symbolic(y):
                if pt is set or pt is frozenset:
                    if not y:
                        return pt()
                    cx = ctx()
                    before = cx.pos
                    v = y._get(cx.fresh("elem", "int"))
                    if isinstance(v, type) and cx.pos == before:
                        return pt([v])
                    raise Unsupported("set of symbolic elements")
                return y.copy_(pt)
            return pt(y)

    C.__name__ = pt.__name__
    return C


b_tuple, b_list, b_set, b_frozenset = _ctor(tuple), _ctor(list), _ctor(set), _ctor(frozenset)


def b_sorted(x, **k):
    y = _seqs([x])[0]
    if symbolic(y):
        if k or not y.sorted:
            raise Unsupported("sorting")
        return y.copy_(list)
    return sorted(y, **k)


def _bisect(right, native):
    def g(a, x, lo=0, hi=None, **k):
        if not symbolic(a):
            if is_sym(x) or any(is_sym(e) for e in a):
                pass
            return native(a, x, lo, len(a) if hi is None else hi, **k)
        if k or hi is not None or not (type(lo) is int and lo == 0):
            raise Unsupported("bisection with options")
        if not a.sorted:
            prove("the sequence bisected is in order", All(0, a.n - 1, lambda j: bterm(a.get(j) <= a.get(z3.simplify(j + 1)))))
        cx = ctx()
        i = cx.fresh("bisect", "int")
        cx.fact(z3.And(0 <= i, i <= a.n))
        uni().touch(i)
        uni().touch(z3.simplify(i - 1))
        before = (lambda e: e <= x) if right else (lambda e: e < x)
        uni().add(All(0, i, lambda j: bterm(before(a.get(j)))))
        uni().add(All(i, a.n, lambda j: z3.Not(bterm(before(a.get(j))))))
        return Sym(i, "int")

    return g


b_bisect_right, b_bisect_left = _bisect(True, bisect.bisect_right), _bisect(False, bisect.bisect_left)


def b_accumulate(op, seq, *init):
    """contract of toolz.accumulate(operator.add, seq)"""
    import operator, toolz

    y = _seqs([seq])[0]
    if symbolic(y):
        if op is not operator.add or init:
            raise Unsupported("accumulate")
        p = prefix(y)
        return SSeq(y.n, lambda j: p.upto(z3.simplify(j + 1)), list)
    return toolz.accumulate(op, y, *init)


def np_diff(x, *a, **k):
    import numpy as np

    y = x
    if symbolic(y):
        if a or k:
            raise Unsupported("np.diff")

        def d(j):
            u, v = y.get(j), y.get(z3.simplify(j + 1))
            if type(u) is SBool or isinstance(u, bool):
                return SBool(z3.Xor(bterm(u), bterm(v)))
            return v - u

        return SVec(z3.If(y.n > 0, y.n - 1, 0), d)
    return np.diff(x, *a, **k)


def np_signbit(x):
    """over the reals there is no negative zero"""
    import numpy as np

    if symbolic(x):
        return SVec(x.n, lambda j: x.get(j) < 0)
    return shims.NUMPY_PROXY.signbit(x) if False else np.signbit(x)


def np_where_(c, *ab):
    if symbolic(c) and not ab:
        fl = Filtered(c.n, lambda i: _truth(c.get(i)), "where")
        r = fl.seq(lambda p: Sym(p, "int"))
        return (SVec(r.n, r.get),)
    return shims.np_where(c, *ab)


def np_max_(a, *r, **k):
    return b_max(a) if symbolic(a) and not r and not k else shims.np_max(a, *r, **k)


def np_min_(a, *r, **k):
    return b_min(a) if symbolic(a) and not r and not k else shims.np_min(a, *r, **k)


def _arg(name, better):
    """contract of numpy's argmin and argmax: the first index of the least or largest element"""
    native = getattr(shims, "np_" + name)

    def g(a, *r, **k):
        if not symbolic(a):
            return native(a, *r, **k)
        if r or k:
            raise Unsupported(name + " with options")
        cx, a = ctx(), as_seq(a)
        if not cx.branch(SBool(a.n > 0)):
            raise ValueError(f"attempt to get {name} of an empty sequence")
        i = cx.fresh(name, "int")
        cx.fact(z3.And(0 <= i, i < a.n))
        uni().touch(i, getattr(a, "space", None))
        v = a.get(i)
        uni().add(All(0, a.n, lambda j: bterm(better(v, a.get(j))), getattr(a, "space", None)))
        uni().add(All(0, i, lambda j: z3.Not(bterm(better(a.get(j), v))), getattr(a, "space", None)))
        return Sym(i, "int")

    return g


def _kept(pred, x, want, original):
    y = iterable(x)
    if y is None or isinstance(y, _Plain):
        return original(pred, x if y is None else y.it)
    ctx().loop_cut = True
    f = getattr(pred, "__vc_straight__", pred)
    f = captured(f) if isinstance(f, types.FunctionType) else (f or (lambda v: v))
    cond = (lambda v: bterm(_truth(f(v)))) if want else (lambda v: z3.Not(bterm(_truth(f(v)))))
    s = Filtered(y.n, lambda i: cond(y.get(i)), "kept").seq(y)
    return SSeq(s.n, within(s.n, lazily(s.get)), list)


def b_filter(pred, x):
    """contract of filter"""
    return _kept(pred, x, True, filter)


def b_remove(pred, x):
    """contract of toolz.remove and itertools.filterfalse"""
    import itertools

    return _kept(pred, x, False, itertools.filterfalse)


BUILTINS = dict(filter=b_filter, range=b_range, zip=b_zip, enumerate=b_enumerate, reversed=b_reversed, iter=b_iter, map=b_map, sum=b_sum, any=b_any, all=b_all,
                max=b_max, min=b_min, tuple=b_tuple, list=b_list, set=b_set, frozenset=b_frozenset, sorted=b_sorted)


def _identities():
    import itertools, toolz, cytoolz, numpy as np

    from . import dicts

    return {id(toolz.remove): b_remove, id(cytoolz.remove): b_remove, id(itertools.filterfalse): b_remove,
            id(bisect.bisect_right): b_bisect_right, id(bisect.bisect_left): b_bisect_left, id(bisect.bisect): b_bisect_right,
            id(toolz.accumulate): b_accumulate, **dicts.identities()}


_number = num


def np_linspace(start, stop, num=50, *r, **k):
    a, b, count, num = start, stop, num, _number
    if type(count) is Sym and not r and not k:
        n = I(count)
        if ctx().branch(SBool(n < 0)):
            raise ValueError("Number of samples must be non-negative")
        d = b - a
        one = ctx().branch(SBool(n == 1))
        return SVec(n, lambda j: Sym(as_real(num(a)) if one else as_real(num(a)) + as_real(num(d)) * as_real(j) / as_real(n - 1)))
    return shims.np_linspace(a, b, count, *r, **k)


_NPX = dict(linspace=np_linspace, diff=np_diff, signbit=np_signbit, where=np_where_, max=np_max_, amax=np_max_, min=np_min_, amin=np_min_,
            argmin=_arg("argmin", lambda v, w: v <= w), argmax=_arg("argmax", lambda v, w: v >= w))


def install(mod):
    """sequence builtins in the globals of a module under verification (this process only)"""
    d = vars(mod)
    if d.get("__vc_loops__"):
        return
    d["__vc_loops__"] = True
    ids = _identities()
    for k, v in list(d.items()):
        if id(v) in ids:
            d[k] = ids[id(v)]
    for k, v in BUILTINS.items():
        d.setdefault(k, v)
    for k, v in _NPX.items():
        shims.NP[k] = v


def generated(label, gen, n, same):
    """the contract of a generator with one loop: it yields exactly n items, item j with same(j, item)"""
    cx = ctx()
    cx.loop_now = None
    got = []

    def end(loop):
        prove(label + ": one item per iteration", len(got) == 1)
        prove(label + ": so many items", SBool(loop.n == z3.If(I(n) > 0, I(n), 0)))

    cx.on_step_end = end
    try:
        x = next(gen)
    except StopIteration:
        lp = cx.loop_now
        if lp is None or lp.case != "exit":
            prove(label + ": no item", SBool(I(n) <= 0))
        else:
            prove(label + ": so many items", SBool(lp.n == z3.If(I(n) > 0, I(n), 0)))
        return
    lp = cx.loop_now
    if lp is None:
        raise Unsupported("a generator that yields outside its loop")
    if lp.case == "exit":
        prove(label + ": no item after the last", False)
        return
    got.append(x)
    prove(label + ": the item", bterm(same(Sym(lp.k, "int"), x)))
    try:
        got.append(next(gen))
    except StopIteration:
        pass
    prove(label + ": one item per iteration", False)


# ---------------------------------------------------------------------------------------------- cutting loops
class Poison:
    """a variable the invariant says nothing about"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _no(self, *a, **k):
        raise Unsupported(f"variable {object.__getattribute__(self, '_n')} after a loop whose invariant does not determine it")

    __getattr__ = __setattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __contains__ = __float__ = __int__ = __index__ = __iadd__ = __and__ = __or__ = __invert__ = _no
    __hash__ = object.__hash__


class LoopSpec:
    """vals: name -> (k -> value of the variable after k iterations);  inv: k, env -> conditions (terms, All, Ex);
    attrs: (name, attribute) -> (k -> value) for object state the loop changes;
    fams: family -> (object, index) -> None, what the iteration of a name does to its object"""

    def __init__(self, vals=None, inv=None, attrs=None, fams=None):
        self.vals, self.inv, self.attrs, self.fams = vals or {}, inv or (lambda k, env: []), attrs or {}, fams or {}


def conj(cs):
    """conditions of `equal` as one term"""
    out = []
    for c in cs:
        if isinstance(c, (All, Ex)):
            raise Unsupported("a mapping of mappings")
        out.append(bterm(c))
    return z3.And(*out)


def equal(a, b):
    """structural equality as a list of conditions"""
    if type(a).__name__ == "SDict" or type(b).__name__ == "SDict":
        from . import dicts

        if not isinstance(a, dict) or not isinstance(b, dict):
            return [False]
        return dicts.dict_equal(a, b)
    if getattr(type(a), "__vc_key__", False) or getattr(type(b), "__vc_key__", False):
        return [a == b]
    if hasattr(type(a), "__vc_equal__"):
        return a.__vc_equal__(b)
    if hasattr(type(b), "__vc_equal__"):
        return b.__vc_equal__(a)
    if symbolic(a) or symbolic(b):
        if not (symbolic(a) or isinstance(a, (list, tuple))) or not (symbolic(b) or isinstance(b, (list, tuple))):
            return [False]
        x, y = as_seq(a), as_seq(b)
        out = [SBool(x.n == y.n)]
        if any(z3.is_int_value(z.n) and z.n.as_long() == 0 for z in (x, y)):
            return out
        if z3.is_int_value(x.n) and z3.is_int_value(y.n) and x.n.as_long() == y.n.as_long() <= 4:
            for i in range(x.n.as_long()):
                out += equal(x.get(z3.IntVal(i)), y.get(z3.IntVal(i)))
            return out
        out.append(All(0, x.n, lambda j: z3.And(*[bterm(c) for c in equal(x.get(j), y.get(j))]), x.space if x.space == y.space else None))
        return out
    if type(a) is Sym or type(b) is Sym:
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return [False]
        return [a._num_eq(b) if type(a) is Sym else b._num_eq(a)]
    if type(a) is SBool or type(b) is SBool:
        return [SBool(bterm(a) == bterm(b))]
    if type(a).__name__ == "ndarray" or type(b).__name__ == "ndarray":
        if type(a) is not type(b) or a.shape != b.shape:
            return [False]
        return [c for x, y in zip(a.ravel().tolist(), b.ravel().tolist()) for c in equal(x, y)]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return [False]
        return [c for x, y in zip(a, b) for c in equal(x, y)]
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return [False]
        return [c for k in a for c in equal(a[k], b[k])]
    if a is b:
        return [True]
    if type(a) is type(b) and hasattr(a, "__dict__") and not isinstance(a, type):
        va, vb = vars(a), vars(b)
        if set(va) - {"__orig_class__"} != set(vb) - {"__orig_class__"}:
            return [False]
        return [c for k in va if k != "__orig_class__" for c in equal(va[k], vb[k])]
    return [bool(a == b)]


def snap(x, depth=4, seen=None):
    seen = {} if seen is None else seen
    if id(x) in seen or depth < 0:
        return id(x)
    t = type(x)
    if t is Sym:
        return ("s", x.t.get_id())
    if t is SBool:
        return ("b", x.t.get_id())
    if isinstance(x, SSeq):
        return ("q", id(x), x.ver)
    if getattr(t, "__vc_dict__", False):
        return ("d", id(x), x.ver)
    if getattr(t, "__vc_key__", False):
        return ("k", x.i.get_id())
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if getattr(t, "__vc_opaque__", False):
        return id(x)
    seen[id(x)] = x
    if t in (list, tuple):
        return (id(x),) + tuple(snap(e, depth - 1, seen) for e in x)
    if t in (set, frozenset):
        return (id(x), len(x))
    if t is dict:
        return (id(x),) + tuple((str(k), snap(v, depth - 1, seen)) for k, v in x.items())
    if hasattr(x, "__dict__") and not isinstance(x, (type, types.ModuleType, types.FunctionType)):
        return (id(x),) + tuple((k, snap(v, depth - 1, seen)) for k, v in vars(x).items())
    return id(x)


class Loop:
    plain = False
    space = None

    def __init__(self, key, seq, specf):
        self.key, self.seq, self.specf = key, seq, specf
        self.case, self.space = None, getattr(seq, "space", None)
        self.order = getattr(seq, "order", None) or (lambda i: (z3.And(0 <= i, i < seq.n), i))
        self.where = getattr(seq, "where", None) or (lambda k: k)

    def enter(self, env, names):
        cx = ctx()
        self.n = self.seq.n
        names = self._changed(env, names)
        self._entry(env, names)
        if cx.choose(2) == 0:
            self.case = "step"
            k = cx.fresh("k", "int")
            cx.assume(SBool(z3.And(0 <= k, k < self.n)))
            self.k = k
            uni().touch(k, self.space)
        else:
            self.case = "exit"
            self.k = self.n
            uni().touch(self.n, self.space)
        self._havoc(env, names)
        from . import dicts

        for fam in list(dicts.families()):
            after = self.spec.fams.get(fam)
            if self.case == "step":
                fam.begin(self, after)
            else:
                fam.finish(self, after)
        return self.case == "step"

    def _changed(self, env, names):
        """the locals the body may change; an object (not a container) whose method happens to be called `update` or the like is itself no
        such local: its state is compared instead"""
        self.kept = {}
        out = []
        for nm in names:
            if nm[0] == "~":
                nm = nm[1:]
                v = env.get(nm)
                if v is not None and hasattr(v, "__dict__") and not isinstance(v, (list, dict, set, tuple)) and not symbolic(v) and not hasattr(v, "dtype") and not hasattr(type(v), "__vc_equal__"):
                    self.kept[nm] = v
                    continue
            out.append(nm)
        return tuple(out)

    @staticmethod
    def _obj(env, nm):
        return env[nm] if isinstance(nm, str) else nm

    def _entry(self, env, names):
        cx = ctx()
        cx.loop_cut = True
        cx.ex.loop_cut = True
        sp = self.specf(self, env) if self.specf else None
        if sp is None:
            sp = LoopSpec()
        self.spec, self.names, self.env = sp, names, env
        zero = z3.IntVal(0)
        for nm, f in sp.vals.items():
            if nm not in names:
                raise Unsupported(f"invariant speaks about {nm}, which {self.key} does not change")
            if nm not in env:
                continue
            prove(f"invariant of {self.key} holds on entry: {nm}", equal(env[nm], f(zero)))
        for (nm, at), f in sp.attrs.items():
            prove(f"invariant of {self.key} holds on entry: {nm if isinstance(nm, str) else type(nm).__name__}.{at}", equal(getattr(self._obj(env, nm), at), f(zero)))
        prove(f"invariant of {self.key} holds on entry", list(sp.inv(zero, dict(env))))

    def _havoc(self, env, names):
        """the state after k iterations: what the invariant says, and nothing else about what the body changes"""
        cx, sp = ctx(), self.spec
        self.state = {nm: sp.vals[nm](self.k) if nm in sp.vals else Poison(nm) for nm in names}
        for (nm, at), f in sp.attrs.items():
            o = self._obj(env, nm)
            cur, new = getattr(o, at), f(self.k)
            if getattr(type(cur), "__vc_dict__", False) and getattr(type(new), "__vc_dict__", False):
                cur.become(new)
            else:
                setattr(o, at, new)
        src = getattr(self.seq, "source", None)
        self.src_ver = src.ver if src is not None else None
        # what the body must not touch
        self.frame0 = {nm: self._strip(nm, v) for nm, v in env.items() if nm not in names and not nm.startswith("__vc_")}
        e1 = dict(env)
        e1.update(self.state)
        uni().add(list(sp.inv(self.k, e1)))
        if cx.check() == z3.unsat:
            raise PathEnd()
        cx.loop_now = self

    def _strip(self, nm, v):
        """the state of a local the invariant does not speak about"""
        ats = [at for (m, at) in self.spec.attrs if m is v or isinstance(m, str) and m == nm]
        if ats and hasattr(v, "__dict__"):
            return (id(v),) + tuple((k, snap(x, 3)) for k, x in sorted(vars(v).items()) if k not in ats)
        return snap(v)

    def val(self, nm):
        return self.kept[nm] if nm in self.kept else self.state[nm]

    def item(self):
        return self.seq.get(self.k)

    def step_end(self, env):
        for nm, s in self.frame0.items():
            if nm in env and self._strip(nm, env[nm]) != s:
                raise Unsupported(f"{self.key} changes {nm}, which its invariant does not mention")
        src = getattr(self.seq, "source", None)
        if src is not None and src.ver != self.src_ver:
            raise Unsupported(f"{self.key} changes the mapping it iterates over")
        k1 = z3.simplify(self.k + 1)
        uni().touch(k1, self.space)
        from . import dicts

        for fam in list(dicts.families()):
            fam.end()
        for nm, f in self.spec.vals.items():
            prove(f"invariant of {self.key} is preserved: {nm}", equal(env[nm], f(k1)))
        for (nm, at), f in self.spec.attrs.items():
            prove(f"invariant of {self.key} is preserved: {nm if isinstance(nm, str) else type(nm).__name__}.{at}", equal(getattr(self._obj(env, nm), at), f(k1)))
        prove(f"invariant of {self.key} is preserved", list(self.spec.inv(k1, env)))
        h = getattr(ctx(), "on_step_end", None)
        if h:
            h(self)
        raise PathEnd()


class While(Loop):
    """a loop of arbitrarily many iterations"""

    def __init__(self, key, specf):
        self.key, self.seq, self.specf = key, None, specf
        self.order, self.where = (lambda i: (z3.BoolVal(False), i)), (lambda k: k)

    def enter(self, env, names):
        cx = ctx()
        names = self._changed(env, names)
        self._entry(env, names)
        self.case = "while"
        self.k = self.n = cx.fresh("k", "int")
        cx.assume(SBool(self.k >= 0))
        uni().touch(self.k, self.space)
        self._havoc(env, names)
        from . import dicts

        for fam in list(dicts.families()):
            fam.begin(self, None)


class Plain:
    plain = True

    def __init__(self, it):
        self.it = it


class Cut:
    """loop specifications of one function"""

    def __init__(self, dotted, specs):
        self.dotted, self.specs = dotted, specs

    def loop(self, idx, it):
        y = iterable(it)
        if y is None:
            return Plain(it)
        if isinstance(y, _Plain):
            return Plain(y.it)
        if z3.is_int_value(y.n) and y.n.as_long() <= 4:
            return Plain([y.get(z3.IntVal(i)) for i in range(y.n.as_long())])
        f = self.specs.get(idx) if isinstance(self.specs, dict) else self.specs
        return Loop(f"loop {idx} of {self.dotted.rsplit('.', 1)[-1]}", y, f)

    def while_(self, idx):
        f = self.specs.get(("while", idx)) if isinstance(self.specs, dict) else None
        return Plain(None) if f is None else While(f"while loop {idx} of {self.dotted.rsplit('.', 1)[-1]}", f)

    def contains(self, x, d, neg=False):
        return contains(x, d, neg)

    def junction(self, conj, *fs):
        v, terms = None, []
        for f in fs:
            try:
                v = f()
            except Exception as e:
                if terms:
                    raise Unsupported(f"{type(e).__name__} in the part of a condition that may not be reached")
                raise
            if type(v) is SBool:
                terms.append(v.t)
            elif terms and not isinstance(v, bool):
                raise Unsupported("a condition of several kinds of values")
            elif bool(v) is not conj:
                return v
        if not terms:
            return v
        return SBool(z3.And(*terms) if conj else z3.Or(*terms))

    def straight(self, f):
        """a function of the function under verification, in the version that decides no condition"""
        g = f.__dict__.get("__vc_straight__") if type(f) is types.FunctionType else None
        return f if g is None else captured(g)

    def negation(self, v):
        return SBool(z3.Not(v.t)) if type(v) is SBool else not v

    def dictcomp(self, elt, conds, it):
        from . import dicts

        y = iterable(it)
        if isinstance(y, _Plain):
            it, y = y.it, None
        if y is None:
            return dict(elt(x) for x in it if all(c(x) for c in conds))
        ctx().loop_cut = True
        elt, conds = captured(elt), [captured(c) for c in conds]
        if not hasattr(y, "order"):
            raise Unsupported("a mapping from a sequence")
        # the j-th name of the domain, as the sequence presents it
        j = ctx().fresh("name", "int")
        uni().touch(j)
        ok, rank = y.order(j)
        k, _ = elt(y.get(z3.simplify(rank)))
        if type(k) is not dicts.Key or ctx().check(z3.And(ok, k.i != j)) != z3.unsat:
            raise Unsupported("a mapping with other names")
        get = lambda i: y.get(z3.simplify(y.order(i)[1]))
        total = getattr(y.source, "present_", 0) is None and not conds
        present = None if total else (lambda i: z3.And(y.order(i)[0], *[bterm(_truth(c(get(i)))) for c in conds]))
        return dicts.SDict(k.dom, dicts.lazily(lambda i: elt(get(i))[1]), present)

    def comp(self, kind, elt, conds, it):
        y = iterable(it)
        if isinstance(y, _Plain):
            it, y = y.it, None
        if y is None:
            r = (elt(x) for x in it if all(c(x) for c in conds))
            return {"list": list, "set": set, "gen": lambda g: g}[kind](r)
        ctx().loop_cut = True
        elt, conds = captured(elt), [captured(c) for c in conds]
        n, keep, get = over(y)
        if conds:
            fl = Filtered(y.n, lambda i: z3.And(*[bterm(_truth(c(y.get(i)))) for c in conds]), "comp")
            s = fl.seq(y)
            r = SSeq(s.n, within(s.n, lazily(lambda j: elt(s.get(j)))), list)
            r.over = (n, lambda i: z3.And(keep(i), *[bterm(_truth(c(get(i)))) for c in conds]), within(n, lazily(lambda i: elt(get(i)))))
            return r
        r = SSeq(y.n, within(y.n, lazily(lambda j: elt(y.get(j)))), list)
        if hasattr(y, "over"):
            r.over = (n, keep, within(n, lazily(lambda i: elt(get(i)))))
        return b_set(r) if kind == "set" else r


MUTATORS = {"append", "extend", "add", "update", "pop", "insert", "remove", "clear", "setdefault", "discard", "popitem", "sort", "reverse"}


def lazily(f):
    """elements of a comprehension are computed when they are looked at: not after a loop has changed the objects they may depend on"""
    from . import dicts

    e = dicts._epoch()

    def g(j):
        if dicts._epoch() != e:
            raise Unsupported("elements that may depend on objects changed since")
        return f(j)

    return g


def captured(f):
    """a function of a comprehension with the locals it uses as they are now: elements are computed when they are looked at"""
    if not getattr(f, "__closure__", None):
        return f

    def cell(c):
        try:
            return types.CellType(c.cell_contents)
        except ValueError:
            return c

    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cell(c) for c in f.__closure__))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


def contains(x, d, neg=False):
    """`x in d` without deciding it"""
    if getattr(type(d), "__vc_dict__", False):
        r = d.contains(x)
    elif getattr(d, "names", None) is True and symbolic(d) and d.source.ver == d.source_ver:
        r = d.source.contains(x)
    else:
        r = x in d
    if not neg:
        return r
    return SBool(z3.Not(r.t)) if type(r) is SBool else not r


class Names(ast.NodeVisitor):
    """locals a loop body may change"""

    def __init__(self):
        self.out, self.assigned = [], set()

    def put(self, n, assigned=True):
        if n not in self.out:
            self.out.append(n)
        if assigned:
            self.assigned.add(n)

    def marked(self):
        """names that are only the receiver of a mutating method are marked"""
        return [v if v in self.assigned else "~" + v for v in self.out]

    def root(self, e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Attribute) and True:
                e = e.value
                continue
            e = e.value
        return e.id if isinstance(e, ast.Name) else None

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.put(n.id)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            v = n.value
            while isinstance(v, ast.Subscript):
                v = v.value
            if isinstance(v, ast.Name):
                self.put(v.id, v is n.value)
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
            self.put(n.func.value.id, False)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.put(n.target.id)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.put(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        for g in n.generators:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp


class Junctions(ast.NodeTransformer):
    """and, or, not and chained comparisons of conditions without branching (elements of comprehensions)"""

    def _call(self, attr, args, n):
        f = ast.Attribute(value=ast.Name(id="__vc_cut__", ctx=ast.Load()), attr=attr, ctx=ast.Load())
        return ast.copy_location(ast.Call(func=f, args=args, keywords=[]), n)

    def visit_BoolOp(self, n):
        n = self.generic_visit(n)
        return self._call("junction", [ast.Constant(isinstance(n.op, ast.And)), *[ast.Lambda(args=_args([]), body=v) for v in n.values]], n)

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Name):
            n.func = self._call("straight", [n.func], n.func)
        return n

    def visit_UnaryOp(self, n):
        n = self.generic_visit(n)
        return self._call("negation", [n.operand], n) if isinstance(n.op, ast.Not) else n

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 or any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            return n
        xs = [n.left] + n.comparators
        cs = [ast.Compare(left=xs[i], ops=[n.ops[i]], comparators=[xs[i + 1]]) for i in range(len(n.ops))]
        return self._call("junction", [ast.Constant(True), *[ast.Lambda(args=_args([]), body=c) for c in cs]], n)


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.w = 0

    def visit_FunctionDef(self, n):
        """a function of this function, with a version that decides no condition (for predicates of filters)"""
        if n.decorator_list or not any(isinstance(b, (ast.BoolOp, ast.Not, ast.Compare)) for b in ast.walk(n)) \
                or any(isinstance(b, (ast.Nonlocal, ast.Yield, ast.YieldFrom)) for b in ast.walk(n)):
            return n
        m = copy.deepcopy(n)
        m.name = f"_vc_straight_{n.name}"
        for r in ast.walk(m):
            if isinstance(r, ast.Return) and r.value is not None:
                r.value = Junctions().visit(r.value)
        mark = ast.Assign(targets=[ast.Attribute(value=ast.Name(id=n.name, ctx=ast.Load()), attr="__vc_straight__", ctx=ast.Store())],
                          value=ast.Name(id=m.name, ctx=ast.Load()))
        return [n, m, mark]

    def visit_Lambda(self, n):
        return n

    def visit_ClassDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_ClassDef

    def visit_For(self, node):

        i = self.n
        self.n += 1
        node.iter = self.visit(node.iter)
        plain = copy.deepcopy(node)
        # inner loops are numbered once: transform the body, use it in both versions
        body = [self.visit(b) for b in node.body]
        orelse = [self.visit(b) for b in node.orelse]
        body, orelse = _flatl(body), _flatl(orelse)
        nm = Names()
        for b in plain.body + [ast.Assign(targets=[plain.target], value=ast.Constant(None))]:
            nm.visit(b)
        L = f"__vc_L{i}__"
        N = lambda s, c=None: ast.Name(id=s, ctx=c or ast.Load())
        call = lambda a, *args: ast.Call(func=ast.Attribute(value=N(L), attr=a, ctx=ast.Load()), args=list(args), keywords=[])
        loc = ast.Call(func=N("locals"), args=[], keywords=[])
        restore = [ast.Assign(targets=[N(v, ast.Store())], value=call("val", ast.Constant(v))) for v in nm.out]
        for_plain = ast.For(target=copy.deepcopy(node.target), iter=ast.Attribute(value=N(L), attr="it", ctx=ast.Load()),
                            body=copy.deepcopy(body), orelse=copy.deepcopy(orelse))
        step = [ast.Assign(targets=[copy.deepcopy(node.target)], value=call("item")),
                ast.For(target=N("__vc_once__", ast.Store()), iter=ast.Tuple(elts=[ast.Constant(0)], ctx=ast.Load()),
                        body=copy.deepcopy(body), orelse=[ast.Expr(call("step_end", copy.deepcopy(loc)))])]
        names = ast.Tuple(elts=[ast.Constant(v) for v in nm.marked()], ctx=ast.Load())
        cut = ast.If(test=call("enter", loc, names), body=copy.deepcopy(restore) + step, orelse=restore + orelse or [ast.Pass()])
        out = [ast.Assign(targets=[N(L, ast.Store())], value=ast.Call(func=ast.Attribute(value=N("__vc_cut__"), attr="loop", ctx=ast.Load()),
                                                                      args=[ast.Constant(i), node.iter], keywords=[])),
               ast.If(test=ast.Attribute(value=N(L), attr="plain", ctx=ast.Load()), body=[for_plain], orelse=[cut])]
        for o in out:
            ast.copy_location(o, node)
        return out

    def visit_While(self, node):

        i = self.w
        self.w += 1
        names_of = copy.deepcopy(node.body)
        test = self.visit(node.test)
        body = _flatl([self.visit(b) for b in node.body])
        if node.orelse:
            node.test, node.body = test, body
            return node
        nm = Names()
        for b in names_of:
            nm.visit(b)
        W = f"__vc_W{i}__"
        N = lambda s, c=None: ast.Name(id=s, ctx=c or ast.Load())
        call = lambda a, *args: ast.Call(func=ast.Attribute(value=N(W), attr=a, ctx=ast.Load()), args=list(args), keywords=[])
        loc = lambda: ast.Call(func=N("locals"), args=[], keywords=[])
        restore = [ast.Assign(targets=[N(v, ast.Store())], value=call("val", ast.Constant(v))) for v in nm.out]
        names = ast.Tuple(elts=[ast.Constant(v) for v in nm.marked()], ctx=ast.Load())
        once = ast.For(target=N("__vc_once__", ast.Store()), iter=ast.Tuple(elts=[ast.Constant(0)], ctx=ast.Load()),
                       body=copy.deepcopy(body), orelse=[ast.Expr(call("step_end", loc()))])
        out = [ast.Assign(targets=[N(W, ast.Store())], value=ast.Call(func=ast.Attribute(value=N("__vc_cut__"), attr="while_", ctx=ast.Load()),
                                                                      args=[ast.Constant(i)], keywords=[])),
               ast.If(test=ast.Attribute(value=N(W), attr="plain", ctx=ast.Load()), body=[ast.While(test=test, body=body, orelse=[])],
                      orelse=[ast.Expr(call("enter", loc(), names))] + restore + [ast.If(test=copy.deepcopy(test), body=[once], orelse=[])])]
        for o in out:
            ast.copy_location(o, node)
        return out

    def _lams(self, node):
        """element and conditions of a comprehension as functions of the item"""

        if len(node.generators) != 1 or node.generators[0].is_async:
            return None
        g = node.generators[0]
        t = g.target

        def lam(e):
            if isinstance(t, ast.Name):
                return ast.Lambda(args=_args([t.id]), body=e)
            if isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
                inner = ast.Lambda(args=_args([x.id for x in t.elts]), body=e)
                return ast.Lambda(args=_args(["__vc_x__"]), body=ast.Call(func=inner, args=[ast.Starred(value=ast.Name(id="__vc_x__", ctx=ast.Load()), ctx=ast.Load())], keywords=[]))
            return None

        if lam(node.elt) is None:
            return None
        node.elt = Junctions().visit(node.elt)
        return [lam(node.elt), ast.List(elts=[lam(Junctions().visit(copy.deepcopy(c))) for c in g.ifs], ctx=ast.Load()), g.iter]

    def _comp(self, kind, node):
        node = self.generic_visit(node)
        r = self._lams(node)
        if r is None:
            return node
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id="__vc_cut__", ctx=ast.Load()), attr="comp", ctx=ast.Load()),
            args=[ast.Constant(kind)] + r, keywords=[]), node)

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return ast.copy_location(ast.Call(
                func=ast.Attribute(value=ast.Name(id="__vc_cut__", ctx=ast.Load()), attr="contains", ctx=ast.Load()),
                args=[n.left, n.comparators[0], ast.Constant(isinstance(n.ops[0], ast.NotIn))], keywords=[]), n)
        return n

    def visit_DictComp(self, n):
        n = self.generic_visit(n)
        m = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        r = self._lams(m)
        if r is None:
            return n
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id="__vc_cut__", ctx=ast.Load()), attr="dictcomp", ctx=ast.Load()), args=r, keywords=[]), n)

    def visit_ListComp(self, n):
        return self._comp("list", n)

    def visit_SetComp(self, n):
        return self._comp("set", n)

    def visit_GeneratorExp(self, n):
        return self._comp("gen", n)


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _flatl(xs):
    out = []
    for x in xs:
        out += x if isinstance(x, list) else [x]
    return out


_DONE = {}


def instrument(dotted, specs):
    """cut the loops of the current source of a function; specs: loop number -> (loop, locals) -> LoopSpec"""
    from .vc import Undecided

    fn = raw(dotted)
    if fn is None:
        raise Undecided(f"{dotted} does not exist")
    if dotted not in _DONE:
        try:
            src = textwrap.dedent(inspect.getsource(fn))
            tree = ast.parse(src)
        except (OSError, SyntaxError) as e:
            raise Undecided(f"no source of {dotted}: {e}")
        fd = tree.body[0]
        if not isinstance(fd, ast.FunctionDef):
            raise Undecided(f"{dotted} is not a plain function")
        fd.decorator_list, fd.returns = [], None
        for a in fd.args.args + fd.args.kwonlyargs + fd.args.posonlyargs + [x for x in (fd.args.vararg, fd.args.kwarg) if x]:
            a.annotation = None
        fd.args.defaults = [ast.Constant(None) for _ in fd.args.defaults]
        fd.args.kw_defaults = [ast.Constant(None) if d is not None else None for d in fd.args.kw_defaults]
        tr = Transform()
        fd.body = _flatl([tr.visit(b) for b in fd.body])
        free = fn.__code__.co_freevars
        holder = fd
        cls = fn.__qualname__.split(".")[-2] if "." in fn.__qualname__ and "<locals>" not in fn.__qualname__ else None
        outer = ast.FunctionDef(name="__outer__", args=_args([]), body=[ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=ast.Constant(None))
                                                                       for v in free if v != "__class__"] + [holder], decorator_list=[], returns=None, type_params=[])
        if cls:
            outer = ast.ClassDef(name=cls, bases=[], keywords=[], body=[holder], decorator_list=[], type_params=[])
        mod = ast.fix_missing_locations(ast.Module(body=[outer], type_ignores=[]))
        ast.increment_lineno(mod, fn.__code__.co_firstlineno - 1)
        code = find_code(compile(mod, fn.__code__.co_filename, "exec"), fd.name)
        if code is None or code.co_freevars != free:
            raise Undecided(f"closure of {dotted}")
        _DONE[dotted] = (fn, code, fn.__code__)
    fn, code, _ = _DONE[dotted]
    cut = Cut(dotted, specs)
    g = fn.__globals__
    import sys

    install(sys.modules[fn.__module__])
    # several instrumented functions may share their globals: one dispatcher by function name
    nm = "__vc_cut_" + dotted.replace(".", "_") + "__"
    fn.__code__ = rename(code, "__vc_cut__", nm)
    g[nm] = cut
    return cut


def rename(code, a, b):
    """the same code with another global name"""
    consts = tuple(rename(c, a, b) if isinstance(c, types.CodeType) else c for c in code.co_consts)
    return code.replace(co_names=tuple(b if x == a else x for x in code.co_names), co_consts=consts)


def find_code(c, name):
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            if k.co_name == name:
                return k
            r = find_code(k, name)
            if r is not None:
                return r
    return None


def raw(dotted):
    """the plain function behind a dotted name"""
    import importlib

    parts = dotted.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except Exception:
            continue
        for p in parts[i:]:
            o = vars(o).get(p) if isinstance(o, type) else getattr(o, p, None)
            if o is None:
                return None
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            o = o.fget
        o = inspect.unwrap(o)
        return o if isinstance(o, types.FunctionType) else None
    return None
