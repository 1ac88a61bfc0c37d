"""Tables of unbounded length whose i-th entry is a known function of i.

A *family* is a function of an index (the id of the i-th sheet, ...).  FamDict and FamList are exact while concrete in shape; once a loop over
unbounded data grows them they are known by their length n and, for each component, the family whose members they hold in order.  An entry may
only be added at the end and only if it provably is the next member of its family; keys of a dict come from a family without repetitions (inv)."""
from __future__ import annotations
import z3
from .engine import E, PathEnd
from .values import *   # noqa: F403
from .values import U, iv, sv, bv_, is_sym, eq_term, SView, SBytes, SEnc, length, getitem
from .heap import HeapObj

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()


class Fam:
    """name, fn(i) -> term; inv: term -> index (an uninterpreted function with inv(fn(i)) = i); on(i): further facts about member i;
    kind: "str" | "int" | "bool" | ("bytes", n): n bytes that are the little-endian number fn(i)
    | any other name: objects made by mk(term) whose vc_scalar() gives (kind, term)"""

    def __init__(self, name, fn, inv=None, on=None, kind=None, mk=None):
        self.name, self.fn, self.inv, self.on, self.mk = name, fn, inv, on, mk
        self.kind = kind or {S: "str", B: "bool"}.get(fn(z3.IntVal(0)).sort(), "int")

    def at(self, i):
        e = E()
        t = self.fn(i)
        if self.inv is not None:
            e.assume(self.inv(t) == i)
        if self.on is not None:
            for c in self.on(i):
                e.assume(c)
        return t

    def box(self, i):
        t = self.at(i)
        if self.mk is not None:
            return self.mk(t)
        if self.kind[0] == "bytes":
            return le_bytes(t, self.kind[1])
        return mkstr(t) if t.sort() == S else mkbool(t) if t.sort() == B else mkint(t)


def le_bytes(t, n):
    """the n bytes of a little-endian number"""
    a = z3.K(I, z3.IntVal(0))
    for k in range(n):
        a = z3.Store(a, k, t / 256 ** k % 256 if k else t % 256)
    return SBytes(a, z3.IntVal(0), z3.IntVal(n))


def mkstr(t):
    t = z3.simplify(t)
    return t.as_string() if z3.is_string_value(t) else SStr(t)


def scalar(x):
    """(kind, term) of a value"""
    if hasattr(type(x), "vc_scalar"):
        return x.vc_scalar()
    if isinstance(x, str):
        return "str", sv(x)
    if isinstance(x, bool) or type(x) is SBool:
        return "bool", bv_(x)
    if isinstance(x, int):
        return "int", iv(x)
    if isinstance(x, bytes) and (not is_sym(x) or hasattr(x, "vc_len")) and type(x) is not SEnc:
        n = length(x)
        if type(n) is not int:
            n = next((k for k in (1, 2, 3, 4) if E().valid(iv(n) == k)), None)
        if n is not None:
            return ("bytes", n), z3.Sum([iv(getitem(x, k)) * 256 ** k for k in range(n)]) if n else z3.IntVal(0)
    return None


def family(i, x):
    """the families whose i-th member x is"""
    e = E()
    t = scalar(x)
    if t is None:
        U(f"entry {x!r} of a table of unbounded length")
    out = []
    kind, t = t
    for f in e.families:
        if f.kind == kind:
            m = f.at(i)
            if e.valid(t == m):
                out.append(f.name)
    if not out:
        U(f"an entry of a table of unbounded length that is not the next member of a known family: {str(t)[:150]}")
    return tuple(out)


def both(a, b):
    """the shape both have"""
    if a[0] != b[0]:
        U("a table of unbounded length with entries of several kinds")
    out = tuple(tuple(x for x in p if x in q) for p, q in zip(a[1:], b[1:]))
    if not all(out):
        U(f"a table of unbounded length with entries of several families: {a} and {b}")
    return (a[0], *out)


def fam(name):
    return next(f for f in E().families if f.name == name)


def parts(x):
    """(constructor tag, components)"""
    if type(x) is tuple:
        return ("tuple", len(x)), list(x)
    for cls, (fields, _) in getattr(E(), "family_types", {}).items():
        if isinstance(x, cls):
            return (cls.__module__ + ":" + cls.__qualname__, len(fields)), [getattr(x, f) for f in fields]
    return ("", 1), [x]


def build(tag, xs, i):
    if tag[0] == "tuple":
        return tuple(xs)
    for cls, (_, mk) in getattr(E(), "family_types", {}).items():
        if tag[0] == cls.__module__ + ":" + cls.__qualname__:
            return mk(i, *xs)
    return xs[0]


class FamBase(HeapObj):
    """rows | (n, shape): shape None while nothing was ever added"""
    __slots__ = ("rows", "n", "shape")

    def __init__(self, items=()):
        self.rows = list(items)
        self.n = self.shape = None
        self._reg()

    def row(self, i, x):
        tag, xs = parts(x)
        return (tag, *[family(i, y) for y in xs])

    def entry(self, i):
        return build(self.shape[0], [fam(f[0]).box(iv(i)) for f in self.shape[1:]], iv(i))

    def vc_absterm(self):
        return {"n": ("int", z3.IntVal(len(self.rows)) if self.rows is not None else self.n)}

    def vc_abskinds(self):
        if self.rows is None:
            return () if self.shape is None else (self.shape,)
        return tuple(dict.fromkeys(self.row(z3.IntVal(i), x) for i, x in enumerate(self.rows)))

    def vc_makeabs(self, name, kinds):
        e = E()
        self.rows = None
        if kinds:
            self.shape = kinds[0]
            for k in kinds[1:]:
                self.shape = both(self.shape, k)
            self.n = e.fresh(name + "_n", I)
            e.assume(self.n >= 0)
        else:
            self.shape, self.n = None, z3.IntVal(0)

    def add(self, x):
        self.touch()
        r = self.row(self.n, x)
        self.shape = r if self.shape is None else both(self.shape, r)
        self.n = z3.simplify(self.n + 1)

    def view(self, pick=lambda x: x):
        if self.shape is None and self.rows is None:
            return []
        return SView(mkint(self.n), lambda i: pick(self.entry(i)))

    def vc_len(self):
        return len(self.rows) if self.rows is not None else mkint(self.n)

    def __len__(self):
        n = self.vc_len()
        if type(n) is int:
            return n
        U("len() of a table of unbounded length in native code")

    def __bool__(self):
        return bool(self.rows) if self.rows is not None else E().fork(self.n > 0)

    def clear(self):
        self.touch()
        self.rows = []

    __hash__ = None


class FamList(FamBase):
    __slots__ = ()

    @property
    def __class__(self):
        return list

    def append(self, x):
        if self.rows is None:
            return self.add(x)
        self.touch()
        self.rows.append(x)

    def extend(self, it):
        for x in it:
            self.append(x)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def vc_iter(self):
        return self.rows if self.rows is not None else self.view()

    vc_list = vc_iter

    def __iter__(self):
        if self.rows is None:
            U("iteration over a table of unbounded length in native code")
        return iter(self.rows)

    def vc_getitem(self, k):
        if self.rows is not None:
            return self.rows[k]
        return SView.vc_getitem(self.view(), k)

    __getitem__ = vc_getitem


class FamDict(FamBase):
    """insertion-ordered dict"""
    __slots__ = ()

    @property
    def __class__(self):
        return dict

    def _find(self, k):
        for i, (a, _) in enumerate(self.rows):
            if not is_sym(a) and not is_sym(k):
                if a == k:
                    return i
            elif E().fork(eq_term(a, k)):
                return i
        return -1

    def __setitem__(self, k, v):
        if self.rows is None:
            self.add((k, v))
            if fam(self.shape[1][0]).inv is None:
                U(f"a dict of unbounded length with keys that may repeat ({self.shape[1]})")
            return
        self.touch()
        i = self._find(k)
        if i < 0:
            self.rows.append((k, v))
        else:
            self.rows[i] = (self.rows[i][0], v)

    def where(self, k):
        """(is there an entry with key k, its position)"""
        t = scalar(k)
        if self.shape is None or t is None:
            return z3.BoolVal(False), z3.IntVal(0)
        f = fam(self.shape[1][0])
        kind, t = t
        if f.kind != kind:
            return z3.BoolVal(False), z3.IntVal(0)
        i = f.inv(t)
        return z3.And(i >= 0, i < self.n, f.at(i) == t), i

    def vc_contains(self, k):
        if self.rows is not None:
            return mkbool(z3.Or(*[eq_term(a, k) for a, _ in self.rows]) if self.rows else False)
        return mkbool(self.where(k)[0])

    def __contains__(self, k):
        return bool(self.vc_contains(k))

    def get(self, k, d=None):
        if self.rows is not None:
            i = self._find(k)
            return d if i < 0 else self.rows[i][1]
        c, i = self.where(k)
        if not E().fork(c):
            return d
        return self.entry(i)[1]

    def vc_getitem(self, k):
        miss = object()
        r = self.get(k, miss)
        if r is miss:
            raise KeyError("symbolic key" if is_sym(k) else k)
        return r

    __getitem__ = vc_getitem

    def setdefault(self, k, d=None):
        if self.vc_contains(k):
            return self.vc_getitem(k)
        self[k] = d
        return d

    def pick(self, f):
        return [f(x) for x in self.rows] if self.rows is not None else self.view(f)

    def items(self):
        return self.pick(lambda x: x)

    def vc_iter(self):
        return self.pick(lambda x: x[0])

    keys = vc_iter
    vc_list = vc_iter

    def values(self):
        return self.pick(lambda x: x[1])

    def __iter__(self):
        if self.rows is None:
            U("iteration over a dict of unbounded length in native code")
        return iter([k for k, _ in self.rows])

    def update(self, o=(), **kw):
        if kw or isinstance(o, dict):
            U("update of a table of unbounded length")
        for k, v in o:
            self[k] = v

    def vc_dict(self):
        if self.rows is not None:
            return FamDict(self.rows)
        r = FamDict()
        r.rows, r.n, r.shape = None, self.n, self.shape
        return r

    copy = vc_dict


# ------------------------------------------------------------------------------------------------ collections known by what they say of a few values
class Bag(HeapObj):
    """a set or list that is only filled, known by whether it holds the watched values: e.watched = [(kind, term), ...]"""
    __slots__ = ("has",)
    KIND = list

    def __init__(self, items=()):
        self.has = [z3.BoolVal(False) for _ in E().watched]
        self._reg()
        for x in items:
            self._add(x)

    @property
    def __class__(self):
        return self.KIND

    def _add(self, x):
        self.touch()
        k = scalar(x)
        if k is None:
            U(f"{x!r} in a watched collection")
        self.has = [z3.simplify(z3.Or(h, t == k[1])) if kd == k[0] else h for h, (kd, t) in zip(self.has, E().watched)]

    def update(self, *its):
        for it in its:
            if isinstance(it, Bag):
                self.touch()
                self.has = [z3.simplify(z3.Or(a, b)) for a, b in zip(self.has, it.has)]
            elif hasattr(type(it), "drain"):
                it.drain(lambda v, _: self._add(v))
            elif hasattr(type(it), "vc_set") and is_sym(it):
                self.update(it.vc_set())
            elif is_sym(it):
                U("a watched collection filled from a symbolic iterable")
            else:
                for x in it:
                    self._add(x)

    def copy(self):
        r = type(self)()
        r.has = list(self.has)
        return r

    def as_(self, cls):
        r = cls()
        r.has = list(self.has)
        return r

    def vc_set(self):
        return self.as_(WSet)

    def vc_list(self):
        return self.as_(WList)

    def vc_contains(self, x):
        e = E()
        k = scalar(x)
        if k is None:
            return False
        for h, (kd, t) in zip(self.has, e.watched):
            if kd == k[0] and e.valid(t == k[1]):
                return mkbool(h)
        r = e.fresh("other", B)         # nothing is known about other values
        for h, (kd, t) in zip(self.has, e.watched):
            if kd == k[0]:
                e.assume(z3.Implies(t == k[1], r == h))
        return mkbool(r)

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def vc_len(self):
        U("the number of elements of a watched collection")

    def __bool__(self):
        e = E()
        if e.valid(z3.Or(*self.has)):
            return True
        r = e.fresh("any", B)
        for h in self.has:
            e.assume(z3.Implies(h, r))
        return e.fork(r)

    def __iter__(self):
        U("iteration over a watched collection")

    __len__ = __getitem__ = __iter__

    def vc_iter(self):
        return BagIter(self)

    def vc_absterm(self):
        return {f"has{i}": ("bool", h) for i, h in enumerate(self.has)}

    def vc_abskinds(self):
        return ()

    def vc_makeabs(self, name, kinds):
        self.has = [E().fresh(f"{name}_has{i}", B) for i in range(len(self.has))]

    __hash__ = None


class BagElt(Sym):
    """any element of a watched collection: it can only be handed on"""
    __slots__ = ()


class BagIter(Sym):
    """what is left of a watched collection under iteration: comprehensions that keep each element itself"""
    __slots__ = ("bag",)

    def __init__(self, bag):
        self.bag = bag

    def vc_comp(self, kind, cond, elt):
        x = BagElt()
        if cond is not None:
            U("a filter over a watched collection")
        y = elt(x)
        if kind == "dict" and type(y) is tuple and y[0] is x and type(y[1]) is int:
            return WDict.of(self.bag, y[1])
        if kind in ("list", "set", "gen") and y is x:
            return self.bag.as_(WSet if kind == "set" else WList)
        if kind in ("list", "gen") and type(y) is tuple and len(y) == 2 and y[0] is x and type(y[1]) is int:
            return BagPairs(self.bag, y[1])
        U("a comprehension over a watched collection")

    def __iter__(self):
        U("iteration over a watched collection")

    def __next__(self):
        U("iteration over a watched collection")


class BagPairs(Sym):
    """pairs of each element of a watched collection and one value"""
    __slots__ = ("bag", "v")

    def __init__(self, bag, v):
        self.bag, self.v = bag, v

    def vc_dict(self):
        return WDict.of(self.bag, self.v)

    def __iter__(self):
        U("iteration over pairs of a watched collection")


class WList(Bag):
    __slots__ = ()
    append = Bag._add

    def extend(self, it):
        self.update(it)

    def __iadd__(self, it):
        self.update(it)
        return self


class WSet(Bag):
    __slots__ = ()
    KIND = set
    add = Bag._add

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    union = __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        o = o if isinstance(o, Bag) else WSet(o)
        r = self.copy()
        r.has = [z3.And(a, b) for a, b in zip(self.has, o.has)]
        return r

    def __sub__(self, o):
        o = o if isinstance(o, Bag) else WSet(o)
        r = self.copy()
        r.has = [z3.And(a, z3.Not(b)) for a, b in zip(self.has, o.has)]
        return r

    def discard(self, x):
        self.touch()
        k = scalar(x)
        self.has = [z3.simplify(z3.And(h, t != k[1])) if k and kd == k[0] else h for h, (kd, t) in zip(self.has, E().watched)]


class WDict(HeapObj):
    """a dict with number values, known by what it holds at the watched keys"""
    __slots__ = ("has", "val")

    def __init__(self, items=()):
        self.has = [z3.BoolVal(False) for _ in E().watched]
        self.val = [z3.IntVal(0) for _ in E().watched]
        self._reg()
        for k, v in items:
            self[k] = v

    @classmethod
    def of(cls, bag, v):
        r = cls()
        if not isinstance(v, int):
            U("values of a watched dict")
        r.has, r.val = list(bag.has), [iv(v) for _ in bag.has]
        return r

    @property
    def __class__(self):
        return dict

    def __setitem__(self, k, v):
        self.touch()
        k = scalar(k)
        if k is None or not isinstance(v, int):
            U("entries of a watched dict")
        for j, (kd, t) in enumerate(E().watched):
            if kd == k[0]:
                self.val[j] = z3.simplify(z3.If(t == k[1], iv(v), self.val[j]))
                self.has[j] = z3.simplify(z3.Or(self.has[j], t == k[1]))

    def update(self, o=(), **kw):
        if isinstance(o, WDict):
            self.touch()
            self.val = [z3.simplify(z3.If(h, v, w)) for h, v, w in zip(o.has, o.val, self.val)]
            self.has = [z3.simplify(z3.Or(a, b)) for a, b in zip(self.has, o.has)]
        elif isinstance(o, dict) and not is_sym(o):
            for k, v in o.items():
                self[k] = v
        elif isinstance(o, (list, tuple)) and not is_sym(o):
            for k, v in o:
                self[k] = v
        elif type(o) is BagPairs:
            self.update(o.vc_dict())
        else:
            U("update of a watched dict")
        if kw:
            U("update of a watched dict")

    def copy(self):
        r = WDict()
        r.has, r.val = list(self.has), list(self.val)
        return r

    vc_dict = copy

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def slot(self, x):
        e, k = E(), scalar(x)
        for j, (kd, t) in enumerate(e.watched):
            if k and kd == k[0] and e.valid(t == k[1]):
                return j
        U("another key of a watched dict")

    def vc_contains(self, x):
        return mkbool(self.has[self.slot(x)])

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def get(self, k, d=None):
        j = self.slot(k)
        return mkint(self.val[j]) if E().fork(self.has[j]) else d

    def vc_getitem(self, k):
        j = self.slot(k)
        if not E().fork(self.has[j]):
            raise KeyError("symbolic key")
        return mkint(self.val[j])

    __getitem__ = vc_getitem

    def setdefault(self, k, d=None):
        k1 = scalar(k)
        for j, (kd, t) in enumerate(E().watched):
            if kd == k1[0]:
                self.touch()
                self.val[j] = z3.simplify(z3.If(z3.And(t == k1[1], z3.Not(self.has[j])), iv(d), self.val[j]))
                self.has[j] = z3.simplify(z3.Or(self.has[j], t == k1[1]))

    def __iter__(self):
        U("iteration over a watched dict")

    vc_iter = __len__ = items = keys = values = __iter__

    def vc_absterm(self):
        return {**{f"has{i}": ("bool", h) for i, h in enumerate(self.has)}, **{f"val{i}": ("int", h) for i, h in enumerate(self.val)}}

    def vc_abskinds(self):
        return ()

    def vc_makeabs(self, name, kinds):
        self.has = [E().fresh(f"{name}_has{i}", B) for i in range(len(self.has))]
        self.val = [E().fresh(f"{name}_val{i}", I) for i in range(len(self.val))]

    __hash__ = None
