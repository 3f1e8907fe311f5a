"""P02 lookups in sampled sequences"""
from pyvc.vc import target
from . import seqs as Q, common as C
from .seqs import S

B = "1..4 samples, all timestamps and values"


@target("P02", "at", [S + "DgSampledSequence.at"], kind="bounded", bound=B, samples=400)
def h(vc):
    s, ts, vs = Q.seq(vc)
    t = Q.query(vc, "q", ts)
    Q.earlier(vc, s, ts)
    try:
        r = s.at(t)
    except Q.UndefinedAtTime:
        vc.prove("undefined only off the samples", vc.And(*[vc.Not(t == x) for x in ts]))
        return
    vc.prove("defined only on samples", vc.Or(*[t == x for x in ts]))
    for x, v in zip(ts, vs):
        vc.prove("the value sampled at that time", vc.Implies(t == x, vc.eq(r, v)))


@target("P02", "at_or_previous", [S + "DgSampledSequence.at_or_previous"], kind="bounded", bound=B, samples=400)
def h(vc):
    s, ts, vs = Q.seq(vc)
    t = Q.query(vc, "q", ts)
    Q.earlier(vc, s, ts)
    try:
        r = s.at_or_previous(t)
    except Q.UndefinedAtTime:
        vc.prove("undefined only before the start", t < ts[0])
        return
    vc.prove("defined from the start on", t >= ts[0])
    for i, (x, v) in enumerate(zip(ts, vs)):
        last = True if i + 1 == len(ts) else t < ts[i + 1]
        vc.prove("the latest sample not after the query", vc.Implies(vc.And(x <= t, last), vc.eq(r, v)))


@target("P02", "at_interp", [S + "DgSampledSequence.at_interp"], kind="bounded", bound=B, samples=600)
def h(vc):
    s, ts, vs = Q.seq(vc)
    t = Q.query(vc, "q", ts)
    Q.earlier(vc, s, ts)
    r = s.at_interp(t)
    tf, tsf = (t, ts) if vc.symbolic else (float(t), [float(x) for x in ts])
    if vc.symbolic:
        from pyvc.shims import s_float_cls as F

        tf, tsf = F(t), [F(x) for x in ts]
    vc.prove("held before the start", vc.Implies(tf <= tsf[0], vc.eq(r, vs[0])))
    vc.prove("held after the end", vc.Implies(tf >= tsf[-1], vc.eq(r, vs[-1])))
    for i in range(len(ts) - 1):
        a, b, va, vb = tsf[i], tsf[i + 1], vs[i], vs[i + 1]
        inside = vc.And(a <= tf, tf <= b)
        vc.prove("linear between neighbours", vc.Implies(inside, vc.eq(r * (b - a), va * (b - tf) + vb * (tf - a), 1e-6)))
        if not vc.symbolic and inside:
            vc.prove("between the neighbouring values", min(va, vb) - 1e-9 * (1 + abs(va) + abs(vb)) <= r <= max(va, vb) + 1e-9 * (1 + abs(va) + abs(vb)))


@target("P02", "interpolating states", [S + "DgSampledSequence.at_interp"], kind="bounded", bound="two samples of each state type", samples=200)
def h(vc):
    name = vc.choice("model", sorted(C.MODELS))
    X = C.MODELS[name][1]
    names = C.state_names(X)
    a, b = C.mk(vc, X, "a"), C.mk(vc, X, "b")
    ts = Q.increasing(vc, "t", 2)
    s = Q.DgSampledSequence[X](ts, [a, b])
    q = vc.real("q", lo=ts[0], hi=ts[1], typ=None if vc.symbolic else (float(ts[0]), float(ts[1])))
    va, vb = C.get(a, names), C.get(b, names)
    r = s.at_interp(q)
    vc.prove("type", type(r) is X)
    for n, x, y in zip(names, va, vb):
        vc.prove("every component is linear", vc.eq(getattr(r, n) * (ts[1] - ts[0]), x * (ts[1] - q) + y * (q - ts[0])))
    vc.prove("samples are left alone", vc.And(vc.eq(C.get(a, names), va), vc.eq(C.get(b, names), vb)))


@target("P02", "empty sequence", [S + "DgSampledSequence.get_start"], kind="bounded", bound="the empty sequence", samples=20)
def h(vc):
    s = Q.DgSampledSequence[float]([], [])
    t = vc.real("q")
    vc.prove("at is undefined", vc.raises(Q.UndefinedAtTime, lambda: s.at(t)))
    vc.prove("at_or_previous is an error", vc.raises((Q.UndefinedAtTime, ValueError), lambda: s.at_or_previous(t)))
    vc.prove("at_interp is an error", vc.raises((Q.UndefinedAtTime, ValueError), lambda: s.at_interp(t)))


@target("P02", "lookups agree", [S + "DgSampledSequence.at", S + "DgSampledSequence.at_or_previous", S + "DgSampledSequence.at_interp"],
        kind="bounded", bound=B)
def h(vc):
    s, ts, vs = Q.seq(vc)
    k = vc.choice("k", range(len(ts)))
    t = ts[k]
    Q.earlier(vc, s, ts)
    vc.prove("all lookups agree on samples", vc.And(vc.eq(s.at(t), vs[k]), vc.eq(s.at_or_previous(t), vs[k]), vc.eq(s.at_interp(t), vs[k])))
    vc.prove("reading does not write", Q.same(vc, s, ts, vs))


# ------------------------------------------------------------------------------------------------ any length
from . import useqs as U


@target("P02", "at, any length", [S + "DgSampledSequence.at"], kind="loop", samples=200)
def h(vc):
    kind = vc.choice("kind", ["float", "Decimal"])
    q = U.seq(vc, "s", kind)
    t = U.query(vc, "t", q, kind)
    Q.earlier(vc, q.s, q.ts)
    try:
        v = q.s.at(t)
    except Q.UndefinedAtTime:
        vc.forall("undefined only off the samples", 0, q.n, lambda j: vc.Not(q.t(j) == t))
    else:
        vc.exists("defined only on a sample", 0, q.n, lambda j: q.t(j) == t)
        vc.forall("the value sampled then", 0, q.n, lambda j: vc.Implies(q.t(j) == t, vc.eq(v, q.v(j))))
    U.unchanged(vc, q)


@target("P02", "at_or_previous, any length", [S + "DgSampledSequence.at_or_previous"], kind="loop", samples=200)
def h(vc):
    kind = vc.choice("kind", ["float", "Decimal"])
    q = U.seq(vc, "s", kind, nmin=1)
    t = U.query(vc, "t", q, kind)
    Q.earlier(vc, q.s, q.ts)
    try:
        v = q.s.at_or_previous(t)
    except Q.UndefinedAtTime:
        vc.prove("undefined only before the start", t < q.t(0))
    else:
        vc.prove("defined only from the start on", t >= q.t(0))
        vc.exists("the latest sample not after that time", 0, q.n, lambda j: vc.And(q.t(j) <= t, U.before_next(vc, q, j, t), vc.eq(v, q.v(j))))
    U.unchanged(vc, q)


@target("P02", "at_interp, any length", [S + "DgSampledSequence.at_interp"], kind="loop", samples=200)
def h(vc):
    kind = vc.choice("kind", ["float", "Decimal"])
    q = U.seq(vc, "s", kind, nmin=1)
    t = U.query(vc, "t", q, kind)
    Q.earlier(vc, q.s, q.ts)
    v = q.s.at_interp(t)
    F = lambda x: U.flt(vc, x)
    last = q.n - 1
    if t <= q.t(0):
        vc.prove("held before the start", vc.eq(v, q.v(0)))
    elif t >= q.t(last):
        vc.prove("held after the end", vc.eq(v, q.v(last)))
    else:
        def linear(j):
            a, b = F(q.t(j)), F(q.t(j + 1))
            return vc.And(q.t(j) <= t, t <= q.t(j + 1), vc.eq(v * (b - a), q.v(j) * (b - F(t)) + q.v(j + 1) * (F(t) - a)))

        vc.exists("linear between two neighbours around that time", 0, last, linear)
    U.unchanged(vc, q)


@target("P02", "interpolating states, any length", [S + "DgSampledSequence.at_interp"], kind="loop", samples=150, budget=150)
def h(vc):
    name = vc.choice("model", sorted(C.MODELS))
    X = C.MODELS[name][1]
    names = C.state_names(X)
    q = U.state_seq(vc, "s", X, names, "float", 1)
    t = vc.real("t", typ=(-2, 12))
    r = q.s.at_interp(t)
    vc.prove("a state of the same type", type(r) is X)
    last = q.n - 1
    if t <= q.t(0):
        vc.prove("held before the start", U.same_state(vc, r, X, names, lambda k: q.f(0, k)))
    elif t >= q.t(last):
        vc.prove("held after the end", U.same_state(vc, r, X, names, lambda k: q.f(last, k)))
    else:
        for k in names:  # times increase, so the neighbours are the same for every component
            vc.exists("every component is linear between two neighbours", 0, last, lambda j: vc.And(
                q.t(j) <= t, t <= q.t(j + 1), vc.eq(getattr(r, k) * (q.t(j + 1) - q.t(j)), q.f(j, k) * (q.t(j + 1) - t) + q.f(j + 1, k) * (t - q.t(j)), 1e-5)))
    U.left_alone(vc, q, X)
