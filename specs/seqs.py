"""Sampled sequences: inputs and specification functions"""
from decimal import Decimal
from dg_commons.seq.sequence import DgSampledSequence, DgSampledSequenceBuilder, UndefinedAtTime, iterate_with_dt, IterateDT
from zuper_commons.types import ZException, ZValueError

REJECT = (ValueError, ZException, TypeError, AssertionError)
S = "dg_commons.seq.sequence."
O = "dg_commons.seq.seq_op."
BASE = DgSampledSequence


def increasing(vc, name, n, kind="float", lo=None):
    """n strictly increasing timestamps"""
    ts, prev = [], lo
    for i in range(n):
        if prev is None:
            t = vc.real(f"{name}{i}", typ=(-5.0, 5.0), kind=kind)
        elif vc.symbolic:
            t = vc.real(f"{name}{i}", lo=prev, lo_open=True, kind=kind)
        else:
            p = float(prev)
            t = vc.real(f"{name}{i}", lo=p, lo_open=True, typ=(p + 0.01, p + 3.0), kind=kind)
            if not t > prev:
                from pyvc.vc import Discard

                raise Discard("rounding")
        ts.append(t)
        prev = t
    return ts


def seq(vc, name="s", nmax=4, nmin=1, kind=None, vals=None, T=float):
    """an arbitrary sequence of nmin..nmax samples"""
    kind = kind or vc.choice(name + ".kind", ["float", "Decimal"])
    n = vc.choice(name + ".n", range(nmin, nmax + 1))
    ts = increasing(vc, name + ".t", n, kind)
    vs = [vc.real(f"{name}.v{i}") for i in range(n)] if vals is None else [vals(i) for i in range(n)]
    return vc.again(name, lambda: DgSampledSequence[T](ts, vs), (ts, vs, T)), ts, vs


def query(vc, name, ts, kind=None):
    """a query time: arbitrary, or exactly a sample"""
    kind = kind or vc.choice(name + ".kind", ["float", "Decimal"])
    if vc.symbolic or not ts:
        return vc.real(name, typ=(-6.0, 12.0), kind=kind)
    k = vc.choice(name + ".pick", range(-1, len(ts)))
    if k >= 0 and name not in vc.values:
        vc.used[name] = float(ts[k])
    return vc.real(name, typ=(float(ts[0]) - 1.5, float(ts[-1]) + 1.5), kind=kind)


def earlier(vc, s, ts):
    """(concrete runs) somebody else looked up other times before: that must not matter"""
    if vc.symbolic or not len(ts):
        return
    for i in range(vc.choice("earlier lookups", [0, 0, 1, 2])):
        t = query(vc, f"earlier{i}", ts)
        for f in (s.at, s.at_or_previous, s.at_interp):
            try:
                f(t)
            except UndefinedAtTime:
                pass


def same(vc, s, ts, vs):
    """the sequence holds exactly these samples, in this order"""
    return vc.And(len(s.timestamps) == len(ts) == len(s.values), vc.eq(list(s.timestamps), list(ts)), vc.eq(list(s.values), list(vs)))


def is_seq(s):
    return isinstance(s, BASE)
