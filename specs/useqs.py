"""Sequences of arbitrary length: symbolic (any n) in proofs, seeded lists in concrete runs"""
import z3
from pyvc import loops as L
from pyvc import core
from pyvc.core import Sym, ctx
from pyvc.vc import Undecided, Discard
from . import seqs as Q
from .seqs import DgSampledSequence, S

NMAX = 7


class Seq:
    """the samples of a sequence: n, t(j), v(j); ts and vs are what the code is given"""

    def __init__(self, n, ts, vs):
        self.n, self.ts, self.vs = n, ts, vs

    def t(self, j):
        return self.ts.get(L.I(j)) if L.symbolic(self.ts) else self.ts[int(j)]

    def v(self, j):
        return self.vs.get(L.I(j)) if L.symbolic(self.vs) else self.vs[int(j)]


def length(vc, name, nmin=0, nmax=NMAX):
    return vc.int(name, nmin, None, most=nmax)


def numbers(vc, name, n, kind="float", increasing=False, pytype=tuple, typ=(-5.0, 5.0)):
    if vc.symbolic:
        return L.base(name, n, kind, increasing, pytype)
    if increasing:
        return pytype(Q.increasing(vc, name, int(n), kind))
    return pytype([vc.real(f"{name}{i}", typ=typ, kind=kind) for i in range(int(n))])


def samples(vc, name, kind="float", nmin=0, pytype=tuple, nmax=NMAX):
    n = length(vc, name + ".n", nmin, nmax)
    return Seq(n, numbers(vc, name + ".t", n, kind, True, pytype), numbers(vc, name + ".v", n, "float", False, pytype))


def fields():
    """the names of the attributes holding timestamps and values"""
    a, b = (0.25, 0.5, 0.75), (7.0, 8.0, 9.0)
    o = DgSampledSequence[float](list(a), list(b))
    d = vars(o)
    t = [k for k, v in d.items() if isinstance(v, tuple) and v == a]
    v = [k for k, x in d.items() if isinstance(x, tuple) and x == b]
    if len(t) != 1 or len(v) != 1 or set(d) - {t[0], v[0], "__orig_class__"}:
        raise Undecided("representation of sampled sequences")
    return t[0], v[0]


_F = []


def make(ts, vs, T=float, cls=None):
    """a sampled sequence satisfying the class invariant (established by P01)"""
    if not L.symbolic(ts):
        return DgSampledSequence[T](ts, vs)
    if not _F:
        _F.append(fields())
    L.install(__import__("sys").modules[DgSampledSequence.__module__])
    if "__bool__" not in vars(DgSampledSequence) and "__len__" in vars(DgSampledSequence):
        # Python's own rule: the truth of an object without __bool__ is that of its length
        def truth(self):
            n = type(self).__len__(self)
            return bool(n != 0)

        DgSampledSequence.__bool__ = truth
    o = object.__new__(cls or DgSampledSequence)
    o.__dict__[_F[0][0]], o.__dict__[_F[0][1]] = ts, vs
    o.__orig_class__ = DgSampledSequence[T]
    return o


def constructor(vc, may_reject=False):
    """the contract of the constructor (P01): strictly increasing timestamps, as many values -- else an error.
    With may_reject the error is a case to be explored, otherwise the precondition is an obligation of the caller."""
    if not vc.symbolic:
        return
    if not _F:
        _F.append(fields())
    f = _F[0]
    L.install(__import__("sys").modules[DgSampledSequence.__module__])
    orig = DgSampledSequence.__init__

    def init(self, timestamps, values):
        if not (L.symbolic(timestamps) or L.symbolic(values)):
            return orig(self, timestamps, values)
        a, b = L.as_seq(timestamps), L.as_seq(values)
        rising = lambda j: L.bterm(a.get(j) < a.get(z3.simplify(j + 1)))
        if may_reject:
            if not ctx().branch(L.SBool(a.n == b.n)):
                raise Q.ZValueError("Length mismatch")
            if not a.sorted:
                if ctx().choose(2):
                    L.uni().add(L.Ex(0, a.n - 1, lambda j: z3.Not(rising(j))))
                    L.alive()
                    raise Q.ZValueError("Invalid dt")
                L.uni().add(L.All(0, a.n - 1, rising))
                L.alive()
        else:
            L.prove("new sequences: as many values as timestamps", L.SBool(a.n == b.n))
            if not a.sorted:
                L.prove("new sequences: strictly increasing timestamps", L.All(0, a.n - 1, rising))
        if not a.sorted:
            L.uni().add(L.Pairs(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < a.n), L.bterm(a.get(i) < a.get(j)))))
        a, b = a.copy_(tuple), b.copy_(tuple)
        a.sorted = True
        self.__dict__[f[0]], self.__dict__[f[1]] = a, b

    vc.patch_attr(DgSampledSequence, "__init__", init)


def seq(vc, name="s", kind="float", nmin=0, T=float):
    q = samples(vc, name, kind, nmin)
    q.s = vc.again(name, lambda: make(q.ts, q.vs, T), (q.ts, q.vs, T) if not vc.symbolic else None)
    return q


def query(vc, name, q, kind):
    if vc.symbolic:
        return vc.real(name, kind=kind)
    return Q.query(vc, name, list(q.ts), kind)


def holds(vc, label, s, n, t, v, eqv=None):
    """the sampled sequence s has n samples (t(j), v(j))"""
    vc.prove(label + ": a sequence", Q.is_seq(s))
    if vc.symbolic:
        a, b = L.as_seq(s.timestamps), L.as_seq(s.values)
        L.prove(label + ": so many", [L.SBool(a.n == L.I(n)), L.SBool(b.n == L.I(n))])
        vc.forall(label + ": times", 0, n, lambda j: vc.eq(a.get(L.I(j)), t(j)))
        vc.forall(label + ": values", 0, n, lambda j: (eqv or vc.eq)(b.get(L.I(j)), v(j)))
    else:
        n = int(n)
        vc.prove(label + ": so many", len(s.timestamps) == n and len(s.values) == n)
        vc.forall(label + ": times", 0, n, lambda j: vc.eq(s.timestamps[j], t(j)))
        vc.forall(label + ": values", 0, n, lambda j: (eqv or vc.eq)(s.values[j], v(j)))


def unchanged(vc, q, kind=None):
    holds(vc, "the sequence itself is left alone", q.s, q.n, q.t, q.v)


def before_next(vc, q, j, t):
    """t lies before sample j+1, if there is one"""
    if vc.symbolic:
        return vc.Or(j == q.n - 1, t < q.t(j + 1))
    return int(j) + 1 >= q.n or bool(t < q.t(j + 1))


def flt(vc, x):
    from pyvc.shims import s_float_cls

    return s_float_cls(x)


def pairs_of(vc, ts, vs):
    """the items of iterate_with_dt over these samples"""
    from dg_commons.seq.sequence import IterateDT

    def get(j):
        a, b = flt(vc, ts.get(j)), flt(vc, ts.get(z3.simplify(j + 1)))
        return IterateDT(a, b, b - a, vs.get(j), vs.get(z3.simplify(j + 1)))

    return L.SSeq(z3.If(ts.n > 0, ts.n - 1, 0), get, list)


def iterated(vc):
    """the contract of iterate_with_dt (P03): one item per pair of consecutive samples, times as floats"""
    from dg_commons.seq import sequence as M

    orig = M.iterate_with_dt

    def spec(sequence):
        ts, vs = sequence.timestamps, sequence.values
        return pairs_of(vc, ts, vs) if L.symbolic(ts) else orig(sequence)

    vc.use(Q.S + "iterate_with_dt", spec)


class Running:
    """running sums of terms x(0), x(1), ... as a specification function"""

    def __init__(self, vc, n, term):
        self.vc = vc
        if vc.symbolic:
            self.p = L.Prefix(L.SSeq(L.I(n), lambda j: term(Sym(j, "int")), list), "spec.sum")
        else:
            self.s = [0]
            for j in range(int(n)):
                self.s.append(self.s[-1] + term(j))

    def upto(self, k):
        return self.p.upto(z3.simplify(L.I(k))) if self.vc.symbolic else self.s[int(k)]


def rising(vc, sums, n, term, least):
    """running sums of terms of at least `least` > 0 increase that much per term, by induction over the number of terms"""
    if not vc.symbolic:
        return
    cx, u, n, least = ctx(), L.uni(), L.I(n), core.realval(least)
    F = lambda k: L.as_real(L.num(sums.upto(k)))
    up = lambda i, k: F(k) - F(i) >= least * z3.ToReal(k - i)
    i, k = cx.fresh("i", "int"), cx.fresh("k", "int")
    u.touch(k)
    step = z3.And(0 <= i, i <= k, k < n, z3.Implies(i < k, up(i, k)))
    cx.prove(L.SBool(z3.Implies(step, up(i, z3.simplify(k + 1)))), "lemma: sums of positive terms increase")
    for t in (i, k, z3.simplify(k + 1)):
        u.terms(None).pop(z3.simplify(t).get_id(), None)
    u.add(L.Pairs(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j <= n), up(i, j))))
    u.touch(z3.IntVal(0))
    u.touch(n)


def objects(vc, name, n, cls, names, fixed=None, pytype=tuple, typ=None):
    """n arbitrary objects of a state or command class, one uninterpreted function per component"""
    fixed = fixed or {}
    if not vc.symbolic:
        mk = lambda i: cls(**{k: vc.real(f"{name}.{k}{i}", typ=(typ or {}).get(k, (-3.0, 3.0) if k in ("psi", "delta", "phi") else (-20.0, 20.0))) for k in names}, **fixed)
        return pytype(mk(i) for i in range(int(n)))
    comp = {k: L.base(f"{name}.{k}", n) for k in names}
    return L.SSeq(L.I(n), lambda j: cls(**{k: c.get(j) for k, c in comp.items()}, **fixed), pytype)


def state_seq(vc, name, cls, names, kind="float", nmin=0, seqcls=None, fixed=None):
    """an arbitrary sequence of states; q.f(j, component) is what it was given"""
    n = length(vc, name + ".n", nmin)
    q = Seq(n, numbers(vc, name + ".t", n, kind, True), objects(vc, name, n, cls, names, fixed))
    q.names = names
    if vc.symbolic:
        q.f = lambda j, k: L.base(f"{name}.{k}", n).get(L.I(j))
        q.s = make(q.ts, q.vs, cls, seqcls)
    else:
        q.f = lambda j, k, v=[{k: getattr(x, k) for k in names} for x in q.vs]: v[int(j)][k]
        q.s = seqcls(timestamps=q.ts, values=q.vs) if seqcls else DgSampledSequence[cls](q.ts, q.vs)
    return q


def same_state(vc, x, cls, names, f):
    """x is a `cls` with the given components"""
    return vc.And(type(x) is cls, *[vc.eq(getattr(x, k), f(k)) for k in names])


def left_alone(vc, q, cls):
    """a sequence of states is as it was given"""
    s = q.s
    holds(vc, "the sequence itself is left alone", s, q.n, q.t, lambda j: j, lambda x, j: same_state(vc, x, cls, q.names, lambda k: q.f(j, k)))
    if vc.symbolic:
        for key, (x, j) in list(q.vs.memo.items()):
            vc.prove("the states themselves are left alone", same_state(vc, x, cls, q.names, lambda k: q.f(j, k)))


class Fold:
    """a specification function by recursion over a prefix: F(0) = init, F(k+1) = step(k, F(k))"""

    def __init__(self, vc, name, n, init, step, sort="real"):
        self.vc, self.sort = vc, sort
        if vc.symbolic:
            cx = ctx()
            f = self.fn = z3.Function(f"{name}!{cx.n_fresh}", z3.IntSort(), z3.IntSort() if sort == "int" else z3.RealSort())
            cx.n_fresh += 1
            self.wrap = lambda t: Sym(t, "int" if sort == "int" else "float")
            low = lambda v: L.I(v) if sort == "int" else L.as_real(L.num(v))
            cx.fact(f(z3.IntVal(0)) == low(init))
            L.uni().add(L.All(0, n, lambda k: f(k + 1) == low(step(Sym(k, "int"), self.wrap(f(k))))))
        else:
            self.vals = [init]
            for k in range(int(n)):
                self.vals.append(step(k, self.vals[-1]))

    def at(self, k):
        if not self.vc.symbolic:
            return self.vals[int(k)]
        k = z3.simplify(L.I(k))
        L.uni().touch(k)
        return self.wrap(self.fn(k))


class Best:
    """index of the first candidate with the largest key among the first k, or -1; its characterisation is proved by induction over k"""

    def __init__(self, vc, name, n, cand, key, space=None):
        self.vc, self.n, self.cand, self.key, self.space = vc, n, cand, key, space
        if not vc.symbolic:
            return
        cx, u, B, n = ctx(), L.uni(), L.bterm, L.I(n)
        I, R, Z = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        W, K, C = (z3.Function(f"{name}.{x}!{cx.n_fresh}", I, y) for x, y in (("at", I), ("key", R), ("cand", Z)))
        cx.n_fresh += 1
        self.W = W
        step = lambda k: W(k + 1) == z3.If(z3.And(C(k), z3.Or(W(k) < 0, K(k) > K(W(k)))), k, W(k))
        good = lambda k: z3.And(W(k) >= -1, W(k) < k, z3.Implies(W(k) >= 0, C(W(k))))
        top = lambda i, k: z3.Implies(C(i), z3.And(W(k) >= 0, K(i) <= K(W(k))))
        k, i = cx.fresh("k", "int"), cx.fresh("i", "int")
        hyp = z3.And(0 <= k, k < n, 0 <= i, i <= k, step(k), good(k), z3.Implies(i < k, top(i, k)))
        cx.prove(L.SBool(z3.Implies(hyp, z3.And(good(k + 1), top(i, k + 1)))), name + ": lemma, the best so far is a candidate and none is better")
        cx.fact(W(z3.IntVal(0)) == -1)
        defn = L.quiet(lambda i: z3.And(C(i) == B(cand(Sym(i, "int"))), K(i) == L.as_real(L.num(key(Sym(i, "int"))))))
        u.add(L.All(0, n, lambda k: z3.And(step(k), defn(k)), space))
        u.add(L.All(0, n + 1, good, space))
        u.add(L.Pairs(lambda i, k: z3.Implies(z3.And(0 <= i, i < k, k <= n), top(i, k)), space))

    def at(self, k):
        if self.vc.symbolic:
            k = z3.simplify(L.I(k))
            L.uni().touch(k, self.space)
            w = self.W(k)
            L.uni().touch(w, self.space)
            return Sym(w, "int")
        w = -1
        for i in range(int(k)):
            if self.cand(i) and (w < 0 or self.key(i) > self.key(w)):
                w = i
        return w


def transformed(vc):
    """the contract of transform_values (P03) for functions that never return None"""
    from dg_commons.seq.sequence import DgSampledSequence as D

    orig = D.transform_values

    def spec(self, f, YT):
        if not L.symbolic(self.timestamps):
            return orig(self, f, YT)

        def g(x):
            y = f(x)
            if y is None:
                raise L.Unsupported("a function that may drop samples")
            return y

        return make(self.timestamps, L.as_seq(self.values).map(g).copy_(tuple), YT)

    vc.use(Q.S + "DgSampledSequence.transform_values", spec)
