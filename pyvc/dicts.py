"""Mappings over an arbitrary number of names, and the mutable objects behind them.

A Domain holds n names (n arbitrary); Key is its i-th name.  An SDict maps the names that are present to values; it is iterated
in the order of the domain.  A Family is one mutable object per name, created on first use: two index terms that may denote the
same name are decided (both ways are explored) before they denote the same or different objects.  A loop contract states what one
iteration does to the object of its name (`after`); the loop cut checks that it does exactly that and leaves the others alone.
"""
import copy, itertools
import z3
from . import core, loops as L
from .core import Sym, SBool, Unsupported, PathEnd, ctx, bterm
from .loops import I, SSeq, All, Ex, uni, lazily


class Domain:
    ranked = False  # ranks in the order of iteration have index terms of their own

    def __init__(self, name, n):
        self.name, self.n = name, z3.simplify(I(n))

    def key(self, i):
        return Key(self, z3.simplify(I(i)))


class Key:
    """the i-th name"""

    __slots__ = ("dom", "i")
    __vc_key__ = True

    def __init__(self, dom, i):
        self.dom, self.i = dom, i

    @property
    def __class__(self):
        return str

    def __hash__(self):
        return hash(self.dom.name)

    def __eq__(self, o):
        if type(o) is not Key or o.dom is not self.dom:
            return False
        c = z3.simplify(self.i == o.i)
        return True if z3.is_true(c) else False if z3.is_false(c) else SBool(c)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if type(r) is SBool else not r

    def __lt__(self, o):
        raise Unsupported("order of names")

    __le__ = __gt__ = __ge__ = __lt__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return self.dom.name

    __repr__ = __str__

    def __format__(self, s):
        return self.dom.name

    def __getattr__(self, n):
        raise Unsupported(f"str.{n} of a name")


def is_dict(x):
    return type(x) is SDict


class SDict:
    __vc_dict__ = True

    def __init__(self, dom, value, present=None, pytype=dict):
        self.dom, self._value = dom, value
        self.present_ = present  # None: all names
        self.ver, self.memo, self.epoch, self.pytype = 0, {}, _epoch(), pytype

    @property
    def __class__(self):
        return self.pytype

    # ---- specification view
    def has(self, i):
        """term: the i-th name is present (i in range)"""
        return z3.BoolVal(True) if self.present_ is None else bterm(self.present_(i))

    def value(self, i):
        i = z3.simplify(I(i))
        uni().touch(i)
        k = i.get_id()
        if k not in self.memo:
            self.memo[k] = (self._value(i), i)
        return self.memo[k][0]

    def total(self):
        return self.present_ is None

    # ---- lookups
    def _index(self, k):
        if type(k) is not Key:
            return None
        if k.dom is not self.dom:
            return None
        return k.i

    def _in(self, i):
        return z3.simplify(z3.And(0 <= i, i < self.dom.n, self.has(i)))

    def contains(self, k):
        i = self._index(k)
        if i is None:
            return False
        uni().touch(i)
        c = self._in(i)
        return True if z3.is_true(c) else False if z3.is_false(c) else SBool(c)

    def __contains__(self, k):
        return bool(self.contains(k))

    def __getitem__(self, k):
        i = self._index(k)
        if i is None or not ctx().branch(SBool(self._in(i))):
            raise KeyError(k)
        return self.value(i)

    def get(self, k, default=None):
        i = self._index(k)
        if i is None or not ctx().branch(SBool(self._in(i))):
            return default
        return self.value(i)

    # ---- updates
    def _freeze(self):
        r = SDict(self.dom, self._value, self.present_, self.pytype)
        r.memo, r.epoch = dict(self.memo), self.epoch
        return r

    def _change(self):
        if self.pytype is not dict:
            raise TypeError("object does not support item assignment")
        self.ver += 1

    def __setitem__(self, k, v):
        i = self._index(k)
        if i is None:
            raise Unsupported("a name of another kind in a mapping")
        self._change()
        old = self._freeze()
        self._value = lambda j: L.pick(z3.simplify(j == i), lambda: v, lambda: old.value(j))
        if old.present_ is not None:
            self.present_ = lambda j: z3.Or(j == i, old.has(j))
        self.memo = {}

    def _drop(self, i):
        self._change()
        old = self._freeze()
        self.present_ = lambda j: z3.And(j != i, old.has(j))

    def __delitem__(self, k):
        i = self._index(k)
        if i is None or not ctx().branch(SBool(self._in(i))):
            raise KeyError(k)
        self._drop(i)

    def pop(self, k, *default):
        i = self._index(k)
        if i is None or not ctx().branch(SBool(self._in(i))):
            if default:
                return default[0]
            raise KeyError(k)
        v = self.value(i)
        self._drop(i)
        return v

    def delete(self, k):
        """frozendict's removal: a new mapping without the name"""
        if self.pytype is dict:
            raise AttributeError("delete")
        r = self._freeze()
        r.pytype = dict
        del r[k]
        r.pytype = self.pytype
        return r

    def set(self, k, v):
        """frozendict's update: a new mapping with the name"""
        if self.pytype is dict:
            raise AttributeError("set")
        r = self._freeze()
        r.pytype = dict
        r[k] = v
        r.pytype = self.pytype
        return r

    def setdefault(self, k, v=None):
        if k in self:
            return self[k]
        self[k] = v
        return v

    def clear(self):
        self._change()
        self.present_ = lambda j: z3.BoolVal(False)

    def update(self, *a, **kw):
        if kw or len(a) != 1:
            raise Unsupported("update with keywords")
        o = a[0]
        if is_dict(o):
            if o.dom is not self.dom:
                raise Unsupported("names of another kind")
            self._change()
            old, new = self._freeze(), o._freeze()
            self._value = lambda j: L.pick(z3.simplify(new.has(j)), lambda: new.value(j), lambda: old.value(j))
            self.present_ = None if old.present_ is None or new.present_ is None else (lambda j: z3.Or(new.has(j), old.has(j)))
            self.memo = {}
            return
        for k, v in o.items() if hasattr(o, "items") else o:
            self[k] = v

    def become(self, o):
        """take over the contents of another mapping (loop contracts)"""
        self.dom, self._value, self.present_, self.memo, self.epoch = o.dom, o._value, o.present_, dict(o.memo), o.epoch
        self.ver += 1

    def copy(self):
        r = self._freeze()
        r.pytype = dict
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        old = self._freeze()
        return SDict(self.dom, lambda j: copy.deepcopy(old.value(j)), self.present_, self.pytype)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def map(self, f):
        old = self._freeze()
        return SDict(self.dom, L.lazily(lambda j: f(old.value(j))), self.present_)

    # ---- iteration
    def _seq(self, f):
        n = self.dom.n
        if self.total():
            r = SSeq(n, f, list)
            r.order = lambda i: (z3.And(0 <= i, i < n), i)
            r.where = lambda k: k
        else:
            fl = self._present()
            r = fl.seq(f)
            r.order = lambda i: (z3.And(0 <= i, i < n, bterm(fl.keep(i))), fl.count(i))
            r.where = fl.nth
            if self.dom.ranked:
                r.space = "rank"
        r.source, r.source_ver = self, self.ver
        return r

    def _present(self):
        """the enumeration of the names present"""
        c = getattr(self, "_fl", None)
        if c is None or c[0] is not self.present_:
            c = self._fl = (self.present_, L.Filtered(self.dom.n, lambda i, p=self.present_: bterm(p(i)), "present"))
        return c[1]

    def where_(self, k):
        """the index of the k-th name in the order of iteration"""
        return z3.simplify(self.keys().where(I(k)))

    def keys(self):
        r = self._seq(lambda j: self.dom.key(j))
        r.names = True
        return r

    def __iter__(self):
        return self.keys()

    def values(self):
        old = self._freeze()
        return self._seq(lambda j: old.value(j))

    def items(self):
        old = self._freeze()
        return self._seq(lambda j: (self.dom.key(j), old.value(j)))

    def __vc_len__(self):
        return Sym(self.keys().n, "int")

    def __len__(self):
        return self.__vc_len__().__index__()

    def __bool__(self):
        if self.total():
            return ctx().branch(SBool(self.dom.n > 0))
        cx = ctx()
        if cx.choose(2) == 0:
            uni().add(Ex(0, self.dom.n, lambda j: self.has(j)))
            L.alive()
            return True
        uni().add(All(0, self.dom.n, lambda j: z3.Not(self.has(j))))
        L.alive()
        return False

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of mappings")

    __hash__ = None

    def __repr__(self):
        return "<mapping>"

    def __format__(self, s):
        return "<mapping>"


def _epoch():
    return getattr(ctx(), "fam_epoch", 0)


def as_dict(x, dom):
    """a native mapping with symbolic names"""
    if is_dict(x):
        return x
    r = SDict(dom, lambda j: None, lambda j: z3.BoolVal(False))
    for k, v in x.items():
        r[k] = v
    return r


def dict_equal(a, b):
    x, y = (a, b) if is_dict(a) else (b, a)
    if not is_dict(y):
        if not isinstance(y, dict) and not hasattr(type(y), "items"):
            return [False]
        y = as_dict(y, x.dom)
    if x.dom is not y.dom:
        return [False]
    n = x.dom.n
    if x.total() and y.total():
        pass
    out = [] if x.total() and y.total() else [All(0, n, lambda j: x.has(j) == y.has(j))]

    def same(j):
        if z3.is_false(z3.simplify(x.has(j))) or z3.is_false(z3.simplify(y.has(j))):
            return z3.BoolVal(True)
        return z3.Implies(z3.And(x.has(j), y.has(j)), L.conj(L.equal(x.value(j), y.value(j))))

    out.append(All(0, n, same))
    return out


# ---------------------------------------------------------------------------------------------- objects
def families():
    cx = ctx()
    f = getattr(cx, "fams", None)
    if f is None:
        f = cx.fams = []
    return f


def clone(o):
    """a copy of a recording object: its lists and recorders are its own, what they hold is shared"""
    r = copy.copy(o)
    for k, v in vars(r).items():
        if type(v) is list:
            r.__dict__[k] = list(v)
        elif getattr(type(v), "__vc_record__", False):
            r.__dict__[k] = clone(v)
    return r


class Family:
    """one mutable object per name"""

    def __init__(self, make, name="object"):
        self.make, self.name, self.objs, self.changes, self.levels = make, name, [], [], []
        families().append(self)

    def get(self, i):
        i = z3.simplify(I(i))
        for j, o in self.objs:
            if j.eq(i):
                return o
        for j, o in list(self.objs):
            if ctx().branch(SBool(z3.simplify(i == j))):
                return o
        uni().touch(i)
        o = self.make(Sym(i, "int"))
        self.objs.append((i, o))
        for c in self.changes:
            c(o, i)
        for lv in self.levels:
            self._prepare(lv, i, o)
        return o

    # ---- loops
    def begin(self, loop, after):
        ctx().fam_epoch = _epoch() + 1
        lv = (loop, after, [])
        self.levels.append(lv)
        for i, o in list(self.objs):
            self._prepare(lv, i, o)

    def _prepare(self, lv, i, o):
        loop, after, kept = lv
        if after is not None:
            ok, rank = loop.order(i)
            if ctx().branch(SBool(z3.And(ok, rank < loop.k))):
                after(o, Sym(i, "int"))
        kept.append((i, o, clone(o)))

    def end(self):
        loop, after, kept = self.levels[-1]
        k = z3.simplify(loop.where(loop.k))
        if after is not None:
            self.get(k)
        for i, o, before in kept:
            if after is not None and ctx().branch(SBool(z3.simplify(i == k))):
                after(before, Sym(k, "int"))
                L.prove(f"{loop.key}: what an iteration does to the {self.name} of its name", L.equal(o, before))
            else:
                L.prove(f"{loop.key}: an iteration leaves the other {self.name}s alone", L.equal(o, before))

    def finish(self, loop, after):
        """the loop is over: it did this to the object of every name it visited"""
        if after is None:
            return
        ctx().fam_epoch = _epoch() + 1

        def change(o, i):
            ok, rank = loop.order(i)
            if ctx().branch(SBool(z3.And(ok, rank < loop.n))):
                after(o, Sym(i, "int"))

        for i, o in list(self.objs):
            change(o, i)
        self.changes.append(change)


# ---------------------------------------------------------------------------------------------- library
def valmap(f, d, *r):
    import toolz

    if is_dict(d):
        if r:
            raise Unsupported("valmap with a factory")
        return d.map(f)
    return toolz.valmap(f, d, *r)


def fd(d):
    from dg_commons.utils_toolz import frozendict

    if is_dict(d):
        return d._freeze()
    return frozendict(d)


def combinations(x, r):
    """pairs in the order of itertools.combinations: all i < j, once each"""
    y = L.iterable(x)
    if isinstance(y, L._Plain) or y is None:
        return itertools.combinations(y.it if isinstance(y, L._Plain) else x, r)
    if r != 2:
        raise Unsupported("combinations of more than two")
    p = AllPairs(y.n)
    s = SSeq(p.n, lambda q: (y.get(p.a(q)), y.get(p.b(q))), list)
    s.pairs, s.space = p, p.space
    if hasattr(y, "source"):
        s.source, s.source_ver = y.source, y.source_ver
    return s


class AllPairs:
    """an enumeration of the pairs i < j of indices below n"""

    def __init__(self, n):
        cx = ctx()
        known = getattr(cx, "pairs_of", None)
        if known is None:
            known = cx.pairs_of = {}
        k = z3.simplify(I(n)).get_id()
        if k in known:
            self.__dict__ = known[k].__dict__
            return
        known[k] = self
        self.of, self.known = z3.simplify(I(n)), {}
        cx.keep.append(self.of)
        Z = z3.IntSort()
        u = cx.n_fresh
        cx.n_fresh += 1
        self.fa, self.fb, self.rank_ = z3.Function(f"pair.a!{u}", Z, Z), z3.Function(f"pair.b!{u}", Z, Z), z3.Function(f"pair.at!{u}", Z, Z, Z)
        self.space = f"pairs{u}"
        self.n = cx.fresh("pairs", "int")
        cx.fact(self.n >= 0)
        cx.fact(z3.Implies(self.of <= 1, self.n == 0))
        cx.fact(z3.Implies(self.of == 2, self.n == 1))

    def a(self, q):
        self._known(q)
        return z3.simplify(self.fa(q))

    def b(self, q):
        self._known(q)
        return z3.simplify(self.fb(q))

    def _known(self, q):
        a, b = self.fa(q), self.fb(q)
        k = q.get_id()
        if k in self.known:
            return
        self.known[k] = q
        ctx().fact(z3.Implies(z3.And(0 <= q, q < self.n), z3.And(0 <= a, a < b, b < self.of, self.rank_(a, b) == q)))

    def at(self, i, j):
        """where the pair i < j is enumerated"""
        i, j = I(i), I(j)
        q = self.rank_(i, j)
        ctx().fact(z3.Implies(z3.And(0 <= i, i < j, j < self.of), z3.And(0 <= q, q < self.n, self.fa(q) == i, self.fb(q) == j)))
        uni().touch(q, self.space)
        return q


def product(*xs, **k):
    """pairs in the order of itertools.product: every pair of items, once each"""
    ys = [L.iterable(x) for x in xs]
    if k or all(y is None or isinstance(y, L._Plain) for y in ys):
        return itertools.product(*[y.it if isinstance(y, L._Plain) else x for x, y in zip(xs, ys)], **k)
    if len(xs) != 2:
        raise Unsupported("products of more than two")
    a, b = [L.as_seq(x) if y is None or isinstance(y, L._Plain) else y for x, y in zip(xs, ys)]
    g = Grid(a.n, b.n)
    s = SSeq(g.n, lambda q: (a.get(g.a(q)), b.get(g.b(q))), list)
    s.grid, s.space = g, g.space
    return s


class Grid:
    """an enumeration of the pairs (i, j) of indices i < n, j < m"""

    def __init__(self, n, m):
        cx = ctx()
        known = getattr(cx, "grids", None)
        if known is None:
            known = cx.grids = {}
        n, m = z3.simplify(I(n)), z3.simplify(I(m))
        k = (n.get_id(), m.get_id())
        if k in known:
            self.__dict__ = known[k].__dict__
            return
        known[k] = self
        self.of, self.known = (n, m), {}
        cx.keep += [n, m]
        Z = z3.IntSort()
        u = cx.n_fresh
        cx.n_fresh += 1
        self.fa, self.fb, self.rank_ = z3.Function(f"grid.a!{u}", Z, Z), z3.Function(f"grid.b!{u}", Z, Z), z3.Function(f"grid.at!{u}", Z, Z, Z)
        self.space = f"grid{u}"
        self.n = cx.fresh("grid", "int")
        cx.fact(self.n >= 0)
        cx.fact((self.n == 0) == z3.Or(n <= 0, m <= 0))

    def a(self, q):
        self._known(q)
        return z3.simplify(self.fa(q))

    def b(self, q):
        self._known(q)
        return z3.simplify(self.fb(q))

    def _known(self, q):
        a, b = self.fa(q), self.fb(q)
        k = q.get_id()
        if k in self.known:
            return
        self.known[k] = q
        ctx().fact(z3.Implies(z3.And(0 <= q, q < self.n), z3.And(0 <= a, a < self.of[0], 0 <= b, b < self.of[1], self.rank_(a, b) == q)))

    def at(self, i, j):
        """where the pair (i, j) is enumerated"""
        i, j = I(i), I(j)
        q = self.rank_(i, j)
        ctx().fact(z3.Implies(z3.And(0 <= i, i < self.of[0], 0 <= j, j < self.of[1]), z3.And(0 <= q, q < self.n, self.fa(q) == i, self.fb(q) == j)))
        uni().touch(q, self.space)
        return q


class Bag:
    """a set built up by nested loops: item (k, l) -- iteration l < m of iteration k -- adds value(k, l) if keep(k, l); this is the set
    when iteration (k, l) is next"""

    def __init__(self, keep, value, m, k, l=0):
        self.keep, self.value, self.m, self.k, self.l, self.new = keep, value, I(m), z3.simplify(I(k)), z3.simplify(I(l)), []

    def add(self, x):
        self.new.append(x)

    append = add

    def __vc_len__(self):
        n = ctx().fresh("size", "int")
        ctx().fact(n >= 0)
        return Sym(n, "int")

    def __bool__(self):
        raise Unsupported("size of such a set")

    def __vc_equal__(self, o):
        if isinstance(o, Bag) and not o.new:
            cur, want = self, o
        elif isinstance(o, Bag) and not self.new:
            cur, want = o, self
        elif isinstance(o, (set, list)) and not o and not self.new:
            return [L.SBool(z3.And(self.k == 0, self.l == 0))]
        else:
            return [False]
        k, l, k2, l2 = cur.k, cur.l, want.k, want.l
        step = z3.Or(z3.And(k2 == k, l2 == l + 1), z3.And(k2 == k + 1, l2 == 0, l + 1 == cur.m))
        if not cur.new:
            return [L.SBool(z3.Or(z3.And(k == k2, l == l2), z3.And(k2 == k + 1, l2 == 0, l == cur.m), z3.And(step, z3.Not(L.bterm(cur.keep(k, l))))))]
        if len(cur.new) > 1:
            return [False]
        return [L.SBool(z3.And(step, L.bterm(cur.keep(k, l)))), *L.equal(cur.new[0], cur.value(k, l))]


class Flat:
    """the items of sequences of sequences, in no particular order (contract of interleave and chain.from_iterable)"""

    def __init__(self, parts, pytype=list):
        self.parts, self.pytype = parts, pytype

    @property
    def __class__(self):
        return self.pytype

    def as_(self, pytype):
        return Flat(list(self.parts), pytype)

    def __add__(self, o):
        if type(o) is Flat:
            return Flat(self.parts + o.parts)
        if isinstance(o, list) and not L.symbolic(o) and not o:
            return Flat(list(self.parts))
        raise Unsupported("items of several sequences and others")

    def __radd__(self, o):
        return self.__add__(o)

    def __iter__(self):
        raise Unsupported("order of the items of several sequences")

    def __len__(self):
        raise Unsupported("number of the items of several sequences")

    def __bool__(self):
        raise Unsupported("number of the items of several sequences")

    def __vc_equal__(self, o):
        if type(o) is not Flat or len(o.parts) != len(self.parts):
            return [False]
        return [c for a, b in zip(self.parts, o.parts) for c in L.equal(a, b)]


def _flattened(native):
    def g(x):
        y = L.iterable(x)
        if y is None or isinstance(y, L._Plain):
            return native(x if y is None else y.it)
        return Flat([y])

    return g


class _Chain:
    """itertools.chain"""

    from_iterable = staticmethod(_flattened(itertools.chain.from_iterable))

    def __call__(self, *xs):
        return itertools.chain(*xs)


chain = _Chain()


def identities():
    import toolz, cytoolz
    import dg_commons.utils_toolz as ut

    out = {id(itertools.chain): chain, id(cytoolz.interleave): _flattened(cytoolz.interleave), id(toolz.interleave): _flattened(toolz.interleave), id(cytoolz.concat): _flattened(cytoolz.concat), id(toolz.concat): _flattened(toolz.concat),
           id(itertools.combinations): combinations, id(itertools.product): product, id(toolz.valmap): valmap, id(cytoolz.valmap): valmap}
    for k, v in (("valmap", valmap), ("fd", fd)):
        if hasattr(ut, k):
            out[id(getattr(ut, k))] = v
    return out
