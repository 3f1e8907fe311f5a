"""Worlds of an arbitrary number of players: symbolic (any number) in proofs, a few in concrete runs"""
import z3
from pyvc import loops as L, dicts as D
from pyvc.core import Sym, SBool, ctx
from .useqs import numbers, length, Fold

NMAX = 4


class Names:
    """n names; key(i) is the i-th"""

    def __init__(self, vc, name, nmin=0, nmax=NMAX):
        self.vc, self.name = vc, name
        self.n = length(vc, name + ".n", nmin, nmax)
        if vc.symbolic:
            self.dom = D.Domain(name, self.n)

    def key(self, i):
        return self.dom.key(i) if self.vc.symbolic else f"{self.name}{int(i)}"

    def indices(self):
        return range(int(self.n))

    def any(self, name):
        """an arbitrary index (there must be one)"""
        if self.vc.symbolic:
            i = self.vc.int(name, 0)
            self.vc.assume(i < self.n)
            L.uni().touch(i.t)
            return i
        self.vc.assume(self.n > 0)
        i = self.vc.int(name, 0, None, most=max(0, int(self.n) - 1))
        self.vc.assume(i < self.n)
        return i

    def dict(self, value, present=None):
        if self.vc.symbolic:
            return D.SDict(self.dom, lambda j: value(Sym(j, "int")), None if present is None else (lambda j: L.bterm(present(Sym(j, "int")))))
        return {self.key(i): value(i) for i in self.indices() if present is None or present(i)}

    def objects(self, make, name="object"):
        """one mutable object per name"""
        if self.vc.symbolic:
            return D.Family(make, name)
        return _Objects(make)

    def numbers(self, name, kind="float", typ=(-5.0, 5.0)):
        s = numbers(self.vc, name, self.n, kind, typ=typ)
        return lambda i: at(s, i)

    def flags(self, name):
        """one truth value per name"""
        if self.vc.symbolic:
            return lambda i: L.flags(name, self.n)(L.I(i))
        return lambda i: self.vc.bool(f"{name}{int(i)}")

    def unchanged(self, i):
        return None


class _Objects:
    def __init__(self, make):
        self.make, self.objs = make, {}

    def get(self, i):
        i = int(i)
        if i not in self.objs:
            self.objs[i] = self.make(i)
        return self.objs[i]


def at(xs, j):
    return xs.get(L.I(j)) if L.symbolic(xs) else xs[int(j)]


def index(vc, k, names):
    """the index behind a name"""
    return Sym(k.i, "int") if vc.symbolic else int(k[len(names.name):]) if isinstance(k, str) and k.startswith(names.name) else None


def same(vc, a, b):
    """structural equality of two values"""
    if vc.symbolic:
        return SBool(L.conj(L.equal(a, b)))
    return eqv(vc, a, b)


def eqv(vc, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eqv(vc, x, y) for x, y in zip(a, b))
    if hasattr(a, "items") and hasattr(b, "items"):
        return set(a) == set(b) and all(eqv(vc, a[k], b[k]) for k in a)
    if a is b:
        return True
    if type(a) is type(b) and hasattr(a, "__dict__"):
        va, vb = vars(a), vars(b)
        return set(va) == set(vb) and all(eqv(vc, va[k], vb[k]) for k in va)
    try:
        return bool(vc.eq(a, b))
    except Exception:
        return bool(a == b)


def holds_dict(vc, label, d, names, value, present=lambda i: True, eq=None):
    """the mapping has exactly these names with these values"""
    eq = eq or (lambda a, b: same(vc, a, b))
    if vc.symbolic:
        from pyvc.vc import Undecided

        if not isinstance(d, dict) and not hasattr(d, "items"):
            vc.prove(label + ": a mapping", False)
            return
        d = D.as_dict(d, names.dom)
        vc.prove(label + ": names of the same kind", d.dom is names.dom)
        vc.forall(label + ": exactly these names", 0, names.n, lambda i: vc.Iff(SBool(d.has(L.I(i))), present(i)))
        vc.forall(label + ": their values", 0, names.n,
                  lambda i: True if z3.is_false(z3.simplify(d.has(L.I(i)))) else vc.Implies(SBool(d.has(L.I(i))), eq(d.value(L.I(i)), value(i))))
        return
    want = [i for i in names.indices() if present(i)]
    vc.prove(label + ": exactly these names", set(d) == {names.key(i) for i in want})
    vc.prove(label + ": their values", all(bool(eq(d[names.key(i)], value(i))) for i in want))
