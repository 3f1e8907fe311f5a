"""P01 sampled sequences are well formed"""
import math
from decimal import Decimal
from pyvc.vc import target, Discard
from . import seqs as Q
from .seqs import S


def _sorted(vc, ts):
    return vc.And(*[a < b for a, b in zip(ts, ts[1:])])


@target("P01", "construction of up to five samples", [S + "DgSampledSequence.__post_init__"], kind="bounded", bound="0..5 timestamps",
        samples=600)
def h(vc):
    n, m = vc.choice("n", range(6)), vc.choice("m", [0, 0, 1, -1])
    kind = vc.choice("kind", ["float", "Decimal"])
    ts = [vc.real(f"t{i}", typ=(i * 0.7, i * 0.7 + 1.0), kind=kind) for i in range(n)]
    vs = [vc.real(f"v{i}") for i in range(max(0, n + m))]
    arg = vc.choice("container", [list, tuple])
    try:
        s = Q.DgSampledSequence[float](arg(ts), arg(vs))
    except Q.REJECT:
        vc.prove("rejected only if ill-formed", vc.Not(vc.And(len(ts) == len(vs), _sorted(vc, ts))))
        return
    vc.prove("accepted only with equally many timestamps and values", len(ts) == len(vs))
    vc.prove("accepted only if strictly increasing", _sorted(vc, ts))
    vc.prove("keeps the samples", Q.same(vc, s, ts, vs))
    vc.prove("size", len(s) == n)
    pairs = list(s)
    vc.prove("iteration yields the samples in order", vc.And(len(pairs) == n, vc.eq([p[0] for p in pairs], ts), vc.eq([p[1] for p in pairs], vs)))
    if n:
        vc.prove("start and end", vc.eq((s.get_start(), s.get_end()), (ts[0], ts[-1])))
    else:
        vc.prove("no start of an empty sequence", vc.raises(Q.REJECT, s.get_start))
        vc.prove("no end of an empty sequence", vc.raises(Q.REJECT, s.get_end))
    vc.prove("sampling points", vc.eq(list(s.get_sampling_points()), ts))


@target("P01", "malformed timestamps", [S + "DgSampledSequence.__post_init__"], kind="runtime", samples=400,
        bound="seeded sequences of up to 6 samples with one malformed timestamp")
def h(vc):
    n = vc.choice("n", range(1, 7))
    kind = vc.choice("kind", ["float", "Decimal"])
    ts = Q.increasing(vc, "t", n, kind)
    vs = list(range(n))
    k = vc.choice("where", range(n))
    what = vc.choice("what", ["nan", "mixed", "mixed with integers", "str", "none", "complex", "repeat", "swap", "drop", "extra"])
    bad = list(ts)
    if what == "nan":
        if n == 1:
            raise Discard()
        bad[k] = float("nan") if kind == "float" else Decimal("nan")
    elif what == "mixed":
        if n == 1:
            raise Discard()
        bad[k] = Decimal(repr(bad[k])) if kind == "float" else float(bad[k])
    elif what == "mixed with integers":
        # in order: nothing but the mixture is wrong
        if n == 1:
            raise Discard()
        bad = [Decimal(3 * i) + (Decimal(1) / 2 if kind == "float" else 0) for i in range(n)]
        bad[k] = 3 * k
    elif what == "str":
        bad[k] = str(bad[k])
    elif what == "none":
        bad[k] = None
    elif what == "complex":
        bad[k] = complex(float(bad[k]))
    elif what == "repeat":
        bad.insert(k, bad[k])
        vs.append(n)
    elif what == "swap":
        if n == 1:
            raise Discard()
        j = (k + 1) % n
        bad[k], bad[j] = bad[j], bad[k]
    elif what == "drop":
        bad.pop(k)
    elif what == "extra":
        vs.append(0)
    vc.prove(f"rejected: {what}", vc.raises(Q.REJECT + (Exception,), lambda: Q.DgSampledSequence[float](bad, vs)))


@target("P01", "a sequence does not change", [S + "DgSampledSequence"], kind="bounded", bound="1..4 samples")
def h(vc):
    kind = vc.choice("kind", ["float", "Decimal"])
    n = vc.choice("n", range(1, 5))
    ts = Q.increasing(vc, "t", n, kind)
    vs = [vc.real(f"v{i}") for i in range(n)]
    t0, v0 = list(ts), list(vs)
    s = Q.DgSampledSequence[float](ts, vs)
    ts.append(ts[-1] + 1)
    ts[0] = ts[0] - 1
    vs.append(0.0)
    vs[0] = vs[0] + 1
    vc.prove("independent of the containers it was made from", Q.same(vc, s, t0, v0))
    for attr in ("timestamps", "values"):
        try:
            setattr(s, attr, (1, 2))
            vc.prove(f"{attr} cannot be assigned", False)
        except Exception as e:
            if type(e).__name__ == "ContractFailure":
                raise
    for attr in ("timestamps", "values"):
        try:
            getattr(s, attr)[0] = 5
        except TypeError:
            pass
        else:
            vc.prove(f"{attr} cannot be written through", Q.same(vc, s, t0, v0))
    vc.prove("unchanged", Q.same(vc, s, t0, v0))
    vc.prove("hash agrees with equality", hash(s) == hash(Q.DgSampledSequence[float](t0, v0)) if not vc.symbolic else True)


@target("P01", "builder", [S + "DgSampledSequenceBuilder.add", S + "DgSampledSequenceBuilder.as_sequence"], kind="bounded",
        bound="up to 4 additions", samples=400)
def h(vc):
    n = vc.choice("n", range(5))
    kind = vc.choice("kind", ["float", "Decimal"])
    b = Q.DgSampledSequenceBuilder[float]()
    ts, vs = [], []
    for i in range(n):
        if vc.flag(f"nan{i}") and not vc.symbolic and ts:
            vc.prove("nan rejected", vc.raises(Exception, lambda: b.add(float("nan") if kind == "float" else Decimal("nan"), 0.0)))
            continue
        t, v = vc.real(f"t{i}", typ=(i * 0.7, i * 0.7 + 1.0), kind=kind), vc.real(f"v{i}")
        try:
            b.add(t, v)
        except Q.REJECT:
            vc.prove("refused only if not later than the last sample", bool(ts) and t <= ts[-1])
        else:
            vc.prove("accepted only if later than the last sample", not ts or t > ts[-1])
            ts.append(t)
            vs.append(v)
        if not vc.symbolic and vc.flag(f"finished early {i}"):
            vc.prove("sequence of the samples accepted so far", Q.same(vc, b.as_sequence(), ts, vs))
        vc.prove("holds exactly the accepted samples", vc.And(len(b) == len(ts), vc.eq(list(b.timestamps), ts), vc.eq(list(b.values), vs)))
    s = b.as_sequence()
    vc.prove("sequence of the accepted samples", vc.And(Q.is_seq(s), Q.same(vc, s, ts, vs)))
    if ts:
        b.add(ts[-1] + 1, 0.0)
        vc.prove("finished sequences do not follow the builder", Q.same(vc, s, ts, vs))
    b2 = Q.DgSampledSequenceBuilder[float]()
    vc.prove("builders do not share samples", len(b2) == 0)


# ------------------------------------------------------------------------------------------------ any length
from . import useqs as U


def _check_loops(vc):
    def order(l, env):
        from pyvc import loops as L
        import z3

        ts = env["timestamps"]
        return L.LoopSpec(inv=lambda k, e: [L.All(0, k, lambda i: L.bterm(ts.get(i) < ts.get(z3.simplify(i + 1))))])

    vc.loops(S + "DgSampledSequence.__post_init__", {1: order})


@target("P01", "construction, any length", [S + "DgSampledSequence.__post_init__"], kind="loop", samples=300)
def h(vc):
    _check_loops(vc)
    kind = vc.choice("kind", ["float", "Decimal"])
    arg = vc.choice("container", [list, tuple])
    n, m = U.length(vc, "n"), U.length(vc, "m")
    if not vc.symbolic and vc.flag("equally many"):
        m = n
    ts, vs = U.numbers(vc, "t", n, kind, False, arg), U.numbers(vc, "v", m, "float", False, arg)
    if not vc.symbolic and vc.flag("sorted"):
        ts = arg(sorted(ts))
    get = lambda xs, j: xs[int(j)] if not vc.symbolic else xs.get(U.L.I(j))
    try:
        s = Q.DgSampledSequence[float](ts, vs)
    except Q.REJECT:
        if n == m:
            vc.exists("rejected only if ill-formed", 0, n - 1, lambda j: get(ts, j + 1) <= get(ts, j))
        return
    vc.prove("accepted only with equally many timestamps and values", n == m)
    vc.forall("accepted only if every timestamp is later than the one before", 0, n - 1, lambda j: get(ts, j) < get(ts, j + 1))
    U.holds(vc, "keeps the samples", s, n, lambda j: get(ts, j), lambda j: get(vs, j))
    vc.prove("size", (U.L.symbolic(s.timestamps) and s.timestamps.__vc_len__() == n) if vc.symbolic else len(s) == n)
    if n > 0:
        vc.prove("start", vc.eq(s.get_start(), get(ts, 0)))
        vc.prove("end", vc.eq(s.get_end(), get(ts, n - 1)))
    else:
        vc.prove("no start of an empty sequence", vc.raises(Q.REJECT, s.get_start))
        vc.prove("no end of an empty sequence", vc.raises(Q.REJECT, s.get_end))
    if arg is list:
        ts.append(ts[0] if n > 0 else 0.0)
        vs.append(1.0)
        if n > 0:
            t0, v0 = get(s.timestamps, 0), get(s.values, 0)
            ts[0] = ts[0] - 1
            vs[0] = vs[0] + 1
            vc.prove("independent of the containers it was made from", vc.And(vc.eq(get(s.timestamps, 0), t0), vc.eq(get(s.values, 0), v0)))
        vc.prove("independent of the containers it was made from", (s.timestamps.__vc_len__() == n) if vc.symbolic else len(s) == n)
    for attr in ("timestamps", "values"):
        try:
            setattr(s, attr, (1, 2))
        except Exception:
            pass
        else:
            vc.prove(f"{attr} cannot be assigned", False)
        try:
            getattr(s, attr)[0] = 5
        except (TypeError, IndexError):
            pass
        else:
            vc.prove(f"{attr} cannot be written through", False)


@target("P01", "order of neighbours is order of all", [S + "DgSampledSequence.__post_init__"], kind="loop", samples=50)
def h(vc):
    """lemma by induction on j: neighbours in order implies t(i) < t(j) for all i < j"""
    q = vc.int("j", 1, None if vc.symbolic else 8)
    ts = U.numbers(vc, "t", q + 1, "float", False)
    get = lambda j: ts.get(U.L.I(j)) if vc.symbolic else ts[int(j)]
    if not vc.symbolic:
        ts = sorted(ts)
    vc.suppose(0, q - 1, lambda i: get(i) < get(q - 1))
    vc.assume(get(q - 1) < get(q))
    vc.forall("induction step", 0, q, lambda i: get(i) < get(q))


@target("P01", "builder, any history", [S + "DgSampledSequenceBuilder.add", S + "DgSampledSequenceBuilder.as_sequence"], kind="loop", samples=300)
def h(vc):
    """one addition to a builder in any state its additions can produce; what it has then is such a state again"""
    kind = vc.choice("kind", ["float", "Decimal"])
    U.constructor(vc)
    q = U.samples(vc, "s", kind, pytype=list)
    b = Q.DgSampledSequenceBuilder[float]()
    vc.prove("a new builder is empty", len(b.timestamps) == 0 and len(b.values) == 0)
    if vc.symbolic:
        b.timestamps, b.values = q.ts.copy_(list), q.vs.copy_(list)
    else:
        for t, v in zip(q.ts, q.vs):
            b.add(t, v)
    n = q.n
    t = vc.real("t", typ=(-6.0, 12.0), kind=kind)
    v = vc.real("v")
    try:
        b.add(t, v)
    except Q.REJECT:
        vc.prove("refused only if not later than the last sample", vc.And(n > 0, vc.Not(vc.And(n > 0, q.t(n - 1) < t)) if vc.symbolic else not q.t(n - 1) < t))
        k, tt, vv = n, q.t, q.v
    else:
        if n > 0:
            vc.prove("accepted only if later than the last sample", q.t(n - 1) < t)
        k = n + 1
        if vc.symbolic:
            import z3

            tt = lambda j: U.L.pick(z3.simplify(U.L.I(j) == U.L.I(n)), lambda: t, lambda: q.t(j))
            vv = lambda j: U.L.pick(z3.simplify(U.L.I(j) == U.L.I(n)), lambda: v, lambda: q.v(j))
        else:
            tt, vv = (lambda j: t if j == n else q.t(j)), (lambda j: v if j == n else q.v(j))

    class View:
        timestamps, values = b.timestamps, b.values

    s = b.as_sequence()
    U.holds(vc, "sequence of the accepted samples", s, k, tt, vv)
    if vc.symbolic:
        vc.prove("holds exactly the accepted samples", b.timestamps.__vc_len__() == k)
        vc.prove("holds exactly the accepted samples", b.values.__vc_len__() == k)
        vc.forall("accepted samples are in order", 0, k - 1, lambda j: tt(j) < tt(j + 1))
    else:
        vc.prove("holds exactly the accepted samples", len(b) == k == len(b.values))
    b.add((t if k > n else q.t(n - 1)) + 1, 0.0)
    U.holds(vc, "finished sequences do not follow the builder", s, k, tt, vv)
