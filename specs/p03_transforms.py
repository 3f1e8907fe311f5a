"""P03 transformations of sampled sequences"""
from pyvc.vc import target
from . import seqs as Q
from .seqs import S

B = "0..4 samples, all timestamps and values"


@target("P03", "get_subsequence", [S + "DgSampledSequence.get_subsequence"], kind="bounded", bound=B, samples=400)
def h(vc):
    s, ts, vs = Q.seq(vc, nmin=0, kind="float")
    a, b = Q.query(vc, "from", ts, "float"), Q.query(vc, "to", ts, "float")
    try:
        r = s.get_subsequence(a, b)
    except (AssertionError, ValueError):
        vc.prove("refused only for an inverted interval", a > b)
        return
    vc.prove("inverted intervals are refused", a <= b)
    inside = [i for i, t in enumerate(ts) if a <= t and t <= b]
    vc.prove("exactly the samples within the interval, bounds included", Q.same(vc, r, [ts[i] for i in inside], [vs[i] for i in inside]))
    vc.prove("the original is left alone", Q.same(vc, s, ts, vs))


@target("P03", "shift_timestamps", [S + "DgSampledSequence.shift_timestamps"], kind="bounded", bound=B)
def h(vc):
    s, ts, vs = Q.seq(vc, nmin=0)
    kind = "Decimal" if (ts and not vc.symbolic and type(ts[0]).__name__ == "Decimal") or (vc.symbolic and ts and ts[0].kind == "Decimal") else "float"
    dt = vc.real("dt", kind=kind)
    r = s.shift_timestamps(dt)
    vc.prove("every timestamp moved by dt, values kept", Q.same(vc, r, [t + dt for t in ts], vs))
    vc.prove("the original is left alone", Q.same(vc, s, ts, vs))


@target("P03", "transform_values", [S + "DgSampledSequence.transform_values"], kind="bounded", bound=B)
def h(vc):
    s, ts, vs = Q.seq(vc, nmin=0)
    k, c, z = vc.real("k"), vc.real("c"), vc.flag("zero")

    def f(v):
        if v > c:
            return None
        return 0 if z else v * k

    r = s.transform_values(f, float)
    keep = [i for i, v in enumerate(vs) if not v > c]
    vc.prove("function applied to every sample, dropping None only",
             Q.same(vc, r, [ts[i] for i in keep], [0 if z else vs[i] * k for i in keep]))
    vc.prove("the original is left alone", Q.same(vc, s, ts, vs))
    vc.prove("type parameter", s.transform_values(f, int).XT is int)


@target("P03", "iterate_with_dt", [S + "iterate_with_dt"], kind="bounded", bound=B)
def h(vc):
    s, ts, vs = Q.seq(vc, nmin=0)
    its = list(Q.iterate_with_dt(s))
    n = max(0, len(ts) - 1)
    vc.prove("one item per pair of consecutive samples", len(its) == n)
    for i, it in enumerate(its):
        f = (lambda x: x) if not vc.symbolic else __import__("pyvc.shims").shims.s_float_cls
        a, b = (f(ts[i]), f(ts[i + 1])) if vc.symbolic else (float(ts[i]), float(ts[i + 1]))
        vc.prove("consecutive samples in order", vc.eq((it.t0, it.t1, it.v0, it.v1), (a, b, vs[i], vs[i + 1])))
        vc.prove("dt is their distance, and positive", vc.And(vc.eq(it.dt, b - a), it.dt > 0 if vc.symbolic else it.dt >= 0))
    vc.prove("the original is left alone", Q.same(vc, s, ts, vs))


@target("P03", "sample and hold", [S + "DgSampledSequence.get_subsequence", S + "DgSampledSequence.shift_timestamps"], kind="bounded", bound="1..3 samples")
def h(vc):
    s, ts, vs = Q.seq(vc, nmax=3, kind="float")
    dt = vc.real("dt")
    t = Q.query(vc, "q", ts, "float")
    r = s.shift_timestamps(dt)
    vc.margin(*[(t, x) for x in ts])
    if t >= ts[0]:
        vc.prove("shifting then looking up", vc.eq(r.at_or_previous(t + dt), s.at_or_previous(t)))
    full = s.get_subsequence(s.get_start(), s.get_end())
    vc.prove("the whole interval gives the whole sequence", Q.same(vc, full, ts, vs))


# ------------------------------------------------------------------------------------------------ any length
import z3
from pyvc.core import Sym, SBool, ctx
from . import useqs as U


def _at(xs, j):
    return xs.get(U.L.I(j)) if U.L.symbolic(xs) else xs[int(j)]


def _bounds(vc, q, a, b):
    """how many samples lie before a, how many not after b"""
    import bisect

    if vc.symbolic:
        return U.L.b_bisect_left(q.ts, a), U.L.b_bisect_right(q.ts, b)
    return bisect.bisect_left(q.ts, a), bisect.bisect_right(q.ts, b)


@target("P03", "get_subsequence, any length", [S + "DgSampledSequence.get_subsequence"], kind="loop", samples=300)
def h(vc):
    U.constructor(vc)
    kind = vc.choice("kind", ["float", "Decimal"])
    q = U.seq(vc, "s", kind)
    a, b = U.query(vc, "from", q, kind), U.query(vc, "to", q, kind)
    try:
        r = q.s.get_subsequence(a, b)
    except (AssertionError, ValueError):
        vc.prove("refused only for an inverted interval", a > b)
        return
    vc.prove("inverted intervals are refused", a <= b)
    lo, hi = _bounds(vc, q, a, b)
    U.holds(vc, "exactly the samples within the interval, bounds included", r, vc.If(hi > lo, hi - lo, 0) if vc.symbolic else max(0, hi - lo),
            lambda j: q.t(lo + j), lambda j: q.v(lo + j))
    vc.forall("all of them within", 0, r.timestamps.__vc_len__() if vc.symbolic else len(r), lambda j: vc.And(a <= _at(r.timestamps, j), _at(r.timestamps, j) <= b))
    U.unchanged(vc, q)


@target("P03", "shift_timestamps, any length", [S + "DgSampledSequence.shift_timestamps"], kind="loop", samples=200)
def h(vc):
    U.constructor(vc)
    vc.loops(S + "DgSampledSequence.shift_timestamps")
    kind = vc.choice("kind", ["float", "Decimal"])
    q = U.seq(vc, "s", kind)
    dt = vc.real("dt", kind=kind)
    r = q.s.shift_timestamps(dt)
    U.holds(vc, "every timestamp moved by dt, values kept", r, q.n, lambda j: q.t(j) + dt, q.v)
    U.unchanged(vc, q)


@target("P03", "transform_values, any length", [S + "DgSampledSequence.transform_values"], kind="loop", samples=200)
def h(vc):
    U.constructor(vc)
    kind = vc.choice("kind", ["float", "Decimal"])
    q = U.seq(vc, "s", kind)
    if vc.symbolic:
        # an arbitrary function: it drops some values and maps the others
        drop, g = z3.Function("drop", z3.RealSort(), z3.BoolSort()), z3.Function("g", z3.RealSort(), z3.RealSort())

        def f(v):
            return None if ctx().branch(SBool(drop(v.t))) else Sym(g(v.t))

        kept = U.L.Filtered(U.L.I(q.n), lambda i: z3.Not(drop(q.v(i).t)), "kept")
        value = lambda p: Sym(g(q.v(p).t))
        vs, ts = kept.seq(value), kept.seq(q.t)

        def inv(l, env):
            return U.L.LoopSpec(vals={"values": lambda k: kept.seq(value, k), "timestamps": lambda k: kept.seq(q.t, k)})

        vc.loops(S + "DgSampledSequence.transform_values", {0: inv})
        r = q.s.transform_values(f, float)
        U.holds(vc, "function applied to every sample, dropping None only", r, Sym(vs.n, "int"), lambda j: _at(ts, j), lambda j: _at(vs, j))
    else:
        c, k = vc.real("c"), vc.real("k")
        z = vc.flag("zero")

        def f(v):
            return None if v > c else 0 if z else k * v

        r = q.s.transform_values(f, float)
        keep = [i for i in range(int(q.n)) if not q.v(i) > c]
        U.holds(vc, "function applied to every sample, dropping None only", r, len(keep), lambda j: q.t(keep[j]), lambda j: f(q.v(keep[j])))
    U.unchanged(vc, q)


@target("P03", "iterate_with_dt, any length", [S + "iterate_with_dt"], kind="loop", samples=200)
def h(vc):
    vc.loops(S + "iterate_with_dt", {0: lambda l, env: U.L.LoopSpec()} if vc.symbolic else None)
    kind = vc.choice("kind", ["float", "Decimal"])
    q = U.seq(vc, "s", kind)
    F = lambda x: U.flt(vc, x)

    def item(j, it):
        a, b = F(q.t(j)), F(q.t(j + 1))
        return vc.And(vc.eq(it.t0, a), vc.eq(it.t1, b), vc.eq(it.v0, q.v(j)), vc.eq(it.v1, q.v(j + 1)), vc.eq(it.dt, b - a), it.dt > 0)

    vc.generated("consecutive samples in order, with their distance", Q.iterate_with_dt(q.s), q.n - 1, item)
    U.unchanged(vc, q)
