"""P04 integration, differentiation and accumulation of sampled signals"""
from pyvc.vc import target
from dg_commons.seq import seq_op
from . import seqs as Q
from .seqs import O


def F(vc, ts):
    if vc.symbolic:
        from pyvc.shims import s_float_cls

        return [s_float_cls(t) for t in ts]
    return [float(t) for t in ts]


@target("P04", "seq_integrate", [O + "seq_integrate"], kind="bounded", bound="2..4 samples, all timestamps and values", samples=300)
def h(vc):
    s, ts, vs = Q.seq(vc, nmin=2)
    f = F(vc, ts)
    r = seq_op.seq_integrate(s)
    tot, ex = 0, []
    for i in range(1, len(ts)):
        tot = tot + (vs[i - 1] + vs[i]) / 2 * (f[i] - f[i - 1])
        ex.append(tot)
    vc.prove("trapezoidal integral up to every sample", Q.same(vc, r, f[1:], ex))
    vc.prove("the signal is left alone", Q.same(vc, s, ts, vs))


@target("P04", "seq_differentiate", [O + "seq_differentiate"], kind="bounded", bound="1..4 samples, all timestamps and values", samples=300)
def h(vc):
    s, ts, vs = Q.seq(vc)
    f = F(vc, ts)
    if not vc.symbolic:
        vc.assume(all(b - a > 1e-4 for a, b in zip(f, f[1:])))
    r = seq_op.seq_differentiate(s)
    vc.prove("one slope per interval", len(r) == len(ts) - 1)
    for i, (t, v) in enumerate(r):
        vc.prove("at the middle of the interval", vc.eq(t, (f[i] + f[i + 1]) / 2))
        vc.prove("slope between neighbours", vc.eq(v * (f[i + 1] - f[i]), vs[i + 1] - vs[i]))
    vc.prove("the signal is left alone", Q.same(vc, s, ts, vs))


@target("P04", "seq_accumulate", [O + "seq_accumulate"], kind="bounded", bound="1..4 samples, all timestamps and values")
def h(vc):
    s, ts, vs = Q.seq(vc)
    r = seq_op.seq_accumulate(s)
    tot, ex = 0, []
    for v in vs:
        tot = tot + v
        ex.append(tot)
    vc.prove("running sums at the same times", Q.same(vc, r, ts, ex))
    vc.prove("the signal is left alone", Q.same(vc, s, ts, vs))


@target("P04", "empty signals", [O + "seq_integrate", O + "seq_differentiate"], kind="bounded", bound="the empty sequence", samples=1)
def h(vc):
    e = Q.DgSampledSequence[float]([], [])
    vc.prove("integrating nothing is an error", vc.raises(ValueError, lambda: seq_op.seq_integrate(e)))
    vc.prove("differentiating nothing is an error", vc.raises(ValueError, lambda: seq_op.seq_differentiate(e)))


@target("P04", "integral and derivative are inverse", [O + "seq_integrate", O + "seq_differentiate"], kind="bounded", bound="3..4 samples")
def h(vc):
    s, ts, vs = Q.seq(vc, nmin=3, kind="float")
    if not vc.symbolic:
        vc.assume(all(b - a > 1e-3 for a, b in zip(ts, ts[1:])))
    d = seq_op.seq_differentiate(seq_op.seq_integrate(s))
    for i, (t, v) in enumerate(d):
        vc.prove("slopes of the integral are the interval means", vc.eq(v, (vs[i + 1] + vs[i + 2]) / 2, 1e-5))
        vc.prove("in their interval", vc.And(ts[i + 1] < t, t < ts[i + 2]))


@target("P04", "find_crossings", [O + "find_crossings"], kind="bounded", bound="1..4 samples, all timestamps and values", samples=400)
def h(vc):
    s, ts, vs = Q.seq(vc, kind="float")
    th = vc.real("threshold")
    r = seq_op.find_crossings(s, th)
    ex = []
    for i in range(len(ts) - 1):
        a, b = vs[i] - th, vs[i + 1] - th
        below_a, below_b = bool(a < 0), bool(b < 0)
        if below_a != below_b:
            ex.append((i, a, b))
    vc.prove("one crossing per change of side", len(r) == len(ex))
    for t, (i, a, b) in zip(r, ex):
        vc.prove("where the segment meets the threshold", vc.eq((t - ts[i]) * (b - a), -a * (ts[i + 1] - ts[i]), 1e-5))
        vc.prove("within its segment", vc.And(vc.le(ts[i], t), vc.le(t, ts[i + 1])))


# ------------------------------------------------------------------------------------------------ any length
import z3
from pyvc.core import Sym
from . import useqs as U


def _seq(vc, nmin=1, kind=None):
    U.constructor(vc)
    U.iterated(vc)
    kind = kind or vc.choice("kind", ["float", "Decimal"])
    return U.seq(vc, "s", kind, nmin), (lambda x: U.flt(vc, x))


def _s(n, f, t=list):
    return U.L.SSeq(U.L.I(n), lambda j: f(Sym(z3.simplify(j), "int")), t)


@target("P04", "seq_integrate, any length", [O + "seq_integrate"], kind="loop", samples=300)
def h(vc):
    q, F = _seq(vc, 2)
    tot = U.Running(vc, q.n - 1, lambda i: (q.v(i) + q.v(i + 1)) / 2 * (F(q.t(i + 1)) - F(q.t(i))))
    vc.loops(O + "seq_integrate", {0: lambda l, env: U.L.LoopSpec(vals={
        "total": lambda k: tot.upto(k), "timestamps": lambda k: _s(k, lambda j: F(q.t(j + 1))), "values": lambda k: _s(k, lambda j: tot.upto(j + 1))})})
    r = seq_op.seq_integrate(q.s)
    U.holds(vc, "trapezoidal integral up to every sample", r, q.n - 1, lambda j: F(q.t(j + 1)), lambda j: tot.upto(j + 1))
    U.unchanged(vc, q)


@target("P04", "seq_differentiate, any length", [O + "seq_differentiate"], kind="loop", samples=300)
def h(vc):
    q, F = _seq(vc, 1)
    mid = lambda j: F(q.t(j)) + (F(q.t(j + 1)) - F(q.t(j))) / 2
    slope = lambda j: vc.ratio(q.v(j + 1) - q.v(j), F(q.t(j + 1)) - F(q.t(j)))
    if not vc.symbolic:
        vc.assume(all(float(q.t(j + 1)) - float(q.t(j)) > 1e-4 for j in range(int(q.n) - 1)))
    vc.loops(O + "seq_differentiate", {0: lambda l, env: U.L.LoopSpec(vals={
        "timestamps": lambda k: _s(k, mid), "values": lambda k: _s(k, slope)})})
    r = seq_op.seq_differentiate(q.s)
    U.holds(vc, "slope between neighbours at the middle of the interval", r, q.n - 1, mid, slope)
    U.unchanged(vc, q)


@target("P04", "seq_accumulate, any length", [O + "seq_accumulate"], kind="loop", samples=300)
def h(vc):
    q, F = _seq(vc, 0)
    tot = U.Running(vc, q.n, q.v)
    vc.loops(O + "seq_accumulate")
    r = seq_op.seq_accumulate(q.s)
    U.holds(vc, "running sums at the same times", r, q.n, q.t, lambda j: tot.upto(j + 1))
    U.unchanged(vc, q)


@target("P04", "find_crossings, any length", [O + "find_crossings"], kind="loop", samples=400)
def h(vc):
    q, F = _seq(vc, 1, "float")
    th = vc.real("threshold")

    def meets(j):
        a, b = q.v(j) - th, q.v(j + 1) - th
        return q.t(j) + vc.ratio(a, a - b) * (q.t(j + 1) - q.t(j))

    changes = lambda j: vc.Not(vc.Iff(q.v(j) - th < 0, q.v(j + 1) - th < 0)) if vc.symbolic else (q.v(j) - th < 0) != (q.v(j + 1) - th < 0)
    if vc.symbolic:
        fl = U.L.Filtered(U.L.I(q.n - 1), lambda j: U.L.bterm(changes(Sym(j, "int"))), "changes")
        at = fl.seq(lambda p: meets(Sym(p, "int")))
        vc.loops(O + "find_crossings", {0: lambda l, env: U.L.LoopSpec(vals={
            "crossings": lambda k: U.L.SSeq(k, at.get, list)})})
        n, get = Sym(at.n, "int"), lambda j: at.get(U.L.I(j))
    else:
        pos = [j for j in range(int(q.n) - 1) if changes(j)]
        n, get = len(pos), lambda j: meets(pos[j])
    r = seq_op.find_crossings(q.s, th)
    vc.prove("one crossing per change of side", (r.__vc_len__() if U.L.symbolic(r) else len(r)) == n)
    vc.forall("where the segment meets the threshold", 0, n, lambda j: vc.eq(r.get(U.L.I(j)) if U.L.symbolic(r) else r[int(j)], get(j), 1e-5))
    U.unchanged(vc, q)
