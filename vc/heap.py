"""Python containers created by the code under verification: exact while their content is concrete in shape, abstracted
to a z3 sequence / array when a loop over unbounded data changes them."""
from __future__ import annotations
import builtins
import z3
from .engine import E, Unsupported
from .values import *   # noqa: F403
from .values import U, is_sym, iv, bv_, sv, eq_term, slice_bounds, const, ArrII

_V = z3.Datatype("PyVal")
_V.declare("vnone")
_V.declare("vint", ("i", z3.IntSort()))
_V.declare("vbool", ("b", z3.BoolSort()))
_V.declare("vstr", ("s", z3.StringSort()))
_V.declare("venc", ("es", z3.StringSort()))
_V.declare("vbytes", ("bb", ArrII), ("bo", z3.IntSort()), ("bn", z3.IntSort()))
_V.declare("vpair", ("fst", _V), ("snd", _V))
_V.declare("vobj", ("oid", z3.IntSort()))
V = _V.create()
SeqV = z3.SeqSort(V)
SetV = z3.ArraySort(V, z3.BoolSort())

CONSTS = []      # process-wide table of constant python objects boxed by identity/value


def box(v):
    if v is None:
        return V.vnone
    t = type(v)
    if t in (bool, SBool):
        return V.vbool(bv_(v))
    if t in (int, SInt):
        return V.vint(iv(v))
    if t in (str, SStr):
        return V.vstr(sv(v))
    if t is SEnc:
        return V.vpair(V.venc(sv(v.s)), V.vstr(z3.StringVal(v.codec)))
    if t is SBytes:
        return V.vbytes(v.base, v.off, v.n)
    if t is bytes:
        return V.vpair(V.vobj(z3.IntVal(-1)), V.vstr(z3.StringVal(v.hex())))
    if t is tuple:
        r = V.vnone
        for x in reversed(v):
            r = V.vpair(box(x), r)
        return r
    m = getattr(t, "vc_box", None)
    if m:
        return m(v)
    f = fields_of(v)
    if f is not None:
        return V.vpair(V.vobj(z3.IntVal(cls_id(t))), box(tuple(getattr(v, n) for n in f)))
    U(f"cannot abstract a value of type {t.__name__}")


def cls_id(c):
    for i, x in enumerate(CONSTS):
        if x is c:
            return i
    CONSTS.append(c)
    return len(CONSTS) - 1


def fields_of(v):
    f = getattr(type(v), "__fields__", None)
    if isinstance(f, tuple) and f:
        return f
    import dataclasses
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return tuple(x.name for x in dataclasses.fields(v))
    return None


def boxkind(v):
    t = type(v)
    if v is None:
        return ("none",)
    if t in (bool, SBool):
        return ("bool",)
    if t in (int, SInt):
        return ("int",)
    if t in (str, SStr):
        return ("str",)
    if t is SEnc:
        return ("enc", v.codec)
    if t is SBytes:
        return ("bytes",)
    if t is bytes:
        return ("cbytes",)
    if t is tuple:
        return ("tuple", *[boxkind(x) for x in v])
    m = getattr(t, "vc_boxkind", None)
    if m:
        return m(v)
    f = fields_of(v)
    if f is not None:
        return ("obj", t, *[boxkind(getattr(v, n)) for n in f])
    U(f"cannot abstract a value of type {t.__name__}")


def kindcond(t, k):
    k0 = k[0]
    if k0 == "none":
        return V.is_vnone(t)
    if k0 == "bool":
        return V.is_vbool(t)
    if k0 == "int":
        return V.is_vint(t)
    if k0 == "str":
        return V.is_vstr(t)
    if k0 == "bytes":
        return V.is_vbytes(t)
    if k0 == "enc":
        return z3.And(V.is_vpair(t), V.is_venc(V.fst(t)), V.snd(t) == V.vstr(z3.StringVal(k[1])))
    if k0 == "tuple":
        cs = []
        for x in k[1:]:
            cs += [V.is_vpair(t), kindcond(V.fst(t), x)]
            t = V.snd(t)
        return z3.And(*cs, V.is_vnone(t))
    if k0 == "obj":
        return z3.And(V.is_vpair(t), V.fst(t) == V.vobj(z3.IntVal(cls_id(k[1]))), kindcond(V.snd(t), ("tuple", *k[2:])))
    return z3.BoolVal(True)


def unbox(t, kinds):
    e = E()
    kinds = list(kinds)
    if not kinds:
        U("element of an abstract container of unknown kind")
    k = kinds[e.choose(len(kinds), "kind")]
    e.assume(kindcond(t, k))
    e.check_feasible()
    return unbox1(t, k)


def unbox1(t, k):
    k0 = k[0]
    if k0 == "none":
        return None
    if k0 == "bool":
        return mkbool(V.b(t))
    if k0 == "int":
        return mkint(V.i(t))
    if k0 == "str":
        return mkstr(V.s(t))
    if k0 == "enc":
        s = mkstr(V.es(V.fst(t)))
        return s.encode(k[1])
    if k0 == "bytes":
        return SBytes(V.bb(t), V.bo(t), V.bn(t))
    if k0 == "tuple":
        out = []
        for x in k[1:]:
            out.append(unbox1(V.fst(t), x))
            t = V.snd(t)
        return tuple(out)
    if k0 == "obj":
        vals = unbox1(V.snd(t), ("tuple", *k[2:]))
        return k[1](*vals)
    U("unbox")


class HeapObj(Sym):
    __slots__ = ("version", "hid", "__weakref__")

    def _reg(self):
        e = E()
        self.version = 0
        self.hid = len(e.heap)
        e.heap.append(self)

    def touch(self):
        self.version += 1

    def __hash__(self):
        raise TypeError("unhashable type")


class SList(HeapObj):
    """list: self.items (python list) when concrete, else (self.seq, self.kinds)"""
    __slots__ = ("items", "seq", "kinds")

    def __init__(self, items=()):
        self.items = list(items)
        self.seq = None
        self.kinds = None
        self._reg()

    @property
    def __class__(self):
        return list

    @classmethod
    def abstract(cls, seq, kinds):
        x = cls(())
        x.items = None
        x.seq = seq
        x.kinds = list(kinds)
        return x

    def __repr__(self):
        return f"<list {self.items if self.items is not None else self.seq}>"

    # -- abstraction (used by loop cuts)
    def vc_absterm(self):
        if self.items is None:
            return self.seq
        if not self.items:
            return z3.Empty(SeqV)
        us = [z3.Unit(box(x)) for x in self.items]
        return z3.Concat(*us) if len(us) > 1 else us[0]

    def vc_abskinds(self):
        if self.items is None:
            return list(self.kinds)
        out = []
        for x in self.items:
            k = boxkind(x)
            if k not in out:
                out.append(k)
        return out

    def vc_makeabs(self, name, kinds):
        self.seq = E().fresh(name, SeqV)
        self.items = None
        self.kinds = list(kinds)

    # -- python protocol
    def vc_len(self):
        return len(self.items) if self.items is not None else mkint(z3.Length(self.seq))

    def __len__(self):
        if self.items is not None:
            return len(self.items)
        U("len() of an abstract list in native code")

    def __bool__(self):
        if self.items is not None:
            return bool(self.items)
        return E().fork(z3.Length(self.seq) > 0)

    def __iter__(self):
        if self.items is not None:
            return iter(self.items)
        U("iteration over an abstract list in native code")

    def vc_iter(self):
        if self.items is not None:
            return iter(self.items)
        seq, kinds = self.seq, self.kinds
        return SView(mkint(z3.Length(seq)), lambda i: unbox(seq[iv(i)], kinds), tag=("list", self))

    def append(self, x):
        self.touch()
        if self.items is not None:
            self.items.append(x)
        else:
            k = boxkind(x)
            if k not in self.kinds:
                self.kinds.append(k)
            self.seq = z3.Concat(self.seq, z3.Unit(box(x)))

    def extend(self, it):
        for x in it:
            self.append(x)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def clear(self):
        self.touch()
        self.items = []
        self.seq = None

    def copy(self):
        if self.items is not None:
            return SList(self.items)
        return SList.abstract(self.seq, self.kinds)

    def pop(self, i=-1):
        self.touch()
        if self.items is not None:
            return self.items.pop(i)
        U("pop from an abstract list")

    def insert(self, i, x):
        self.touch()
        if self.items is not None:
            return self.items.insert(i, x)
        U("insert into an abstract list")

    def reverse(self):
        self.touch()
        if self.items is None:
            U("reverse of an abstract list")
        self.items.reverse()

    def index(self, x):
        if self.items is None:
            U("index in an abstract list")
        for i, y in enumerate(self.items):
            if bool(eq(y, x)):
                return i
        raise ValueError("not in list")

    def sort(self, **k):
        self.touch()
        if self.items is None:
            U("sort of an abstract list")
        self.items.sort(**k)

    def vc_getitem(self, k):
        if self.items is not None:
            if isinstance(k, slice):
                return SList(self.items[k])
            if is_sym(k):
                n = len(self.items)
                for i in range(-n, n):
                    if E().fork(iv(k) == i):
                        return self.items[i]
                raise IndexError("list index out of range")
            return self.items[k]
        v = self.vc_iter()
        r = v.vc_getitem(k)
        if isinstance(k, slice):
            lo, hi, st = slice_bounds(k, z3.Length(self.seq))
            return SList.abstract(z3.SubSeq(self.seq, lo, z3.If(hi > lo, hi - lo, 0)), self.kinds)
        return r

    __getitem__ = vc_getitem

    def __setitem__(self, k, v):
        self.touch()
        if self.items is not None and not is_sym(k):
            self.items[k] = v
            return
        if self.items is not None:
            n = len(self.items)
            for i in range(n):
                if E().fork(iv(k) == i):
                    self.items[i] = v
                    return
            raise IndexError("list assignment index out of range")
        i = iv(k)
        n = z3.Length(self.seq)
        if not E().fork(z3.And(i >= 0, i < n)):
            U("negative or out of range store into an abstract list")
        kk = boxkind(v)
        if kk not in self.kinds:
            self.kinds.append(kk)
        self.seq = z3.Concat(z3.SubSeq(self.seq, z3.IntVal(0), i), z3.Unit(box(v)), z3.SubSeq(self.seq, i + 1, n - i - 1))

    def __delitem__(self, k):
        self.touch()
        del self.items[k]

    def vc_contains(self, x):
        if self.items is not None:
            return mkbool(z3.Or(*[eq_term(x, y) for y in self.items]) if self.items else False)
        return mkbool(z3.Contains(self.seq, z3.Unit(box(x))))

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def vc_eq(self, o):
        if self.items is not None:
            if type(o) is SList and o.items is not None:
                o = o.items
            if type(o) is list:
                return mkbool(eq_term(self.items, o)) if len(o) == len(self.items) else False
            return False
        if type(o) is SList:
            return mkbool(self.vc_absterm() == o.vc_absterm())
        U("comparison of an abstract list")

    def __eq__(self, o):
        return self.vc_eq(o)

    def __ne__(self, o):
        return not_(self.vc_eq(o))

    def __add__(self, o):
        if hasattr(type(o), "plus"):
            return o.plus(self)
        if self.items is not None:
            return SList(self.items + list(o))
        U("concatenation of abstract lists")

    def __radd__(self, o):
        if self.items is not None:
            return SList(list(o) + self.items)
        U("concatenation of abstract lists")

    def __mul__(self, n):
        if self.items is None:
            U("repetition of an abstract list")
        if is_sym(n):
            if len(self.items) != 1:
                U("a list repeated a symbolic number of times")
            x = self.items[0]
            return SView(mkint(z3.If(iv(n) > 0, iv(n), z3.IntVal(0))), lambda i: x)
        return SList(self.items * n)

    __rmul__ = __mul__

    __hash__ = None


def eq(a, b):
    return mkbool(eq_term(a, b))


class SSet(HeapObj):
    """set / frozenset"""
    __slots__ = ("items", "arr", "frozen", "kinds")

    def __init__(self, items=(), frozen=False):
        self.items = []
        self.arr = None
        self.frozen = frozen
        self.kinds = []
        self._reg()
        for x in items:
            self._add(x)

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    def _add(self, x):
        if self.items is not None:
            if not is_sym(x) and any((not is_sym(y)) and y == x for y in self.items):
                return
            self.items.append(x)
        else:
            k = boxkind(x)
            if k not in self.kinds:
                self.kinds.append(k)
            self.arr = z3.Store(self.arr, box(x), z3.BoolVal(True))

    def add(self, x):
        self.touch()
        self._add(x)

    def update(self, *its):
        for it in its:
            v = getattr(type(it), "vc_iter", None)
            for x in it:
                self.add(x)

    def discard(self, x):
        self.touch()
        if self.items is None:
            self.arr = z3.Store(self.arr, box(x), z3.BoolVal(False))
        else:
            self.items = [y for y in self.items if not bool(eq(x, y))]

    remove = discard

    def vc_contains(self, x):
        if self.items is not None:
            return mkbool(z3.Or(*[eq_term(x, y) for y in self.items]) if self.items else False)
        return mkbool(z3.Select(self.arr, box(x)))

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def __bool__(self):
        if self.items is not None:
            return bool(self.items)
        return E().fork(self.arr != z3.K(V, z3.BoolVal(False)))

    def vc_len(self):
        if self.items is not None:
            if any(is_sym(x) for x in self.items):
                n = 0
                seen = []
                for x in self.items:
                    if not any(bool(eq(x, y)) for y in seen):
                        seen.append(x)
                return len(seen)
            return len(self.items)
        U("len of an abstract set")

    def __len__(self):
        return self.vc_len()

    def __iter__(self):
        if self.items is not None:
            return iter(list(self.items))
        U("iteration over an abstract set")

    vc_iter = __iter__

    def vc_absterm(self):
        if self.items is None:
            return self.arr
        a = z3.K(V, z3.BoolVal(False))
        for x in self.items:
            a = z3.Store(a, box(x), z3.BoolVal(True))
        return a

    def vc_abskinds(self):
        if self.items is None:
            return list(self.kinds)
        out = []
        for x in self.items:
            if boxkind(x) not in out:
                out.append(boxkind(x))
        return out

    def vc_makeabs(self, name, kinds):
        self.arr = E().fresh(name, SetV)
        self.items = None
        self.kinds = list(kinds)

    def copy(self):
        r = SSet((), self.frozen)
        r.items = None if self.items is None else list(self.items)
        r.arr = self.arr
        r.kinds = list(self.kinds)
        return r

    def __or__(self, o):
        if hasattr(type(o), "plus"):
            return o.plus(self)
        r = self.copy()
        r.update(o)
        return r

    __hash__ = None


OptMap = {}


class SDict(HeapObj):
    """dict: insertion-ordered pairs when concrete in shape; z3 map (present, value) when abstract"""
    __slots__ = ("pairs", "pres", "vals", "kkinds", "vkinds")

    def __init__(self, pairs=()):
        self.pairs = []
        self.pres = self.vals = None
        self.kkinds, self.vkinds = [], []
        self._reg()
        for k, v in pairs:
            self._set(k, v)

    @property
    def __class__(self):
        return dict

    def _find(self, k):
        for i, (a, _) in enumerate(self.pairs):
            if not is_sym(a) and not is_sym(k):
                try:
                    if a == k:
                        return i
                except Exception:   # noqa: BLE001
                    pass
                continue
            if E().fork(eq_term(a, k)):
                return i
        return -1

    def _set(self, k, v):
        if self.pairs is not None:
            i = self._find(k)
            if i < 0:
                self.pairs.append((k, v))
            else:
                self.pairs[i] = (self.pairs[i][0], v)
        else:
            for lst, x in ((self.kkinds, k), (self.vkinds, v)):
                kk = boxkind(x)
                if kk not in lst:
                    lst.append(kk)
            self.pres = z3.Store(self.pres, box(k), z3.BoolVal(True))
            self.vals = z3.Store(self.vals, box(k), box(v))

    def __setitem__(self, k, v):
        self.touch()
        self._set(k, v)

    def __delitem__(self, k):
        self.touch()
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        del self.pairs[i]

    def vc_getitem(self, k):
        if self.pairs is not None:
            i = self._find(k)
            if i < 0:
                raise KeyError("symbolic key" if is_sym(k) else k)
            return self.pairs[i][1]
        b = box(k)
        if not E().fork(z3.Select(self.pres, b)):
            raise KeyError("symbolic key" if is_sym(k) else k)
        return unbox(z3.Select(self.vals, b), self.vkinds)

    __getitem__ = vc_getitem

    def get(self, k, d=None):
        if self.pairs is not None:
            i = self._find(k)
            return d if i < 0 else self.pairs[i][1]
        b = box(k)
        if not E().fork(z3.Select(self.pres, b)):
            return d
        return unbox(z3.Select(self.vals, b), self.vkinds)

    def setdefault(self, k, d=None):
        if self.vc_contains(k):
            return self.vc_getitem(k)
        self[k] = d
        return d

    def pop(self, k, *d):
        self.touch()
        i = self._find(k)
        if i < 0:
            if d:
                return d[0]
            raise KeyError(k)
        return self.pairs.pop(i)[1]

    def vc_contains(self, k):
        if self.pairs is not None:
            return mkbool(z3.Or(*[eq_term(a, k) for a, _ in self.pairs]) if self.pairs else False)
        return mkbool(z3.Select(self.pres, box(k)))

    def __contains__(self, k):
        return bool(self.vc_contains(k))

    def _need(self):
        if self.pairs is None:
            U("enumeration of an abstract dict")

    def keys(self):
        self._need()
        return [k for k, _ in self.pairs]

    def values(self):
        self._need()
        return [v for _, v in self.pairs]

    def items(self):
        self._need()
        return list(self.pairs)

    def __iter__(self):
        return iter(self.keys())

    vc_iter = __iter__

    def vc_len(self):
        self._need()
        return len(self.pairs)

    def __len__(self):
        return self.vc_len()

    def __bool__(self):
        if self.pairs is not None:
            return bool(self.pairs)
        return E().fork(self.pres != z3.K(V, z3.BoolVal(False)))

    def update(self, o=(), **kw):
        self.touch()
        if isinstance(o, dict):
            o = o.items()
        for k, v in o:
            self._set(k, v)
        for k, v in kw.items():
            self._set(k, v)

    def copy(self):
        r = SDict()
        r.pairs = None if self.pairs is None else list(self.pairs)
        r.pres, r.vals = self.pres, self.vals
        r.kkinds, r.vkinds = list(self.kkinds), list(self.vkinds)
        return r

    def clear(self):
        self.touch()
        self.pairs = []

    def vc_absterm(self):
        p = z3.K(V, z3.BoolVal(False))
        m = z3.K(V, V.vnone)
        if self.pairs is None:
            return self.pres, self.vals
        for k, v in self.pairs:
            p = z3.Store(p, box(k), z3.BoolVal(True))
            m = z3.Store(m, box(k), box(v))
        return p, m

    def vc_abskinds(self):
        if self.pairs is None:
            return list(self.kkinds), list(self.vkinds)
        ks, vs = [], []
        for k, v in self.pairs:
            for lst, x in ((ks, k), (vs, v)):
                kk = boxkind(x)
                if kk not in lst:
                    lst.append(kk)
        return ks, vs

    def vc_makeabs(self, name, kinds):
        self.pres = E().fresh(name + "_p", SetV)
        self.vals = E().fresh(name + "_m", z3.ArraySort(V, V))
        self.pairs = None
        self.kkinds, self.vkinds = list(kinds[0]), list(kinds[1])

    def __eq__(self, o):
        if self.pairs is not None and isinstance(o, dict):
            oi = list(o.items())
            if len(oi) != len(self.pairs):
                return False
            return all(bool(eq(self.vc_getitem(k), v)) for k, v in oi if True)
        U("comparison of abstract dicts")

    __hash__ = None


class FoldList(HeapObj):
    """a list that is only built (append/extend), observed through a ghost fold over the appended items"""
    __slots__ = ("fold",)

    def __init__(self, fold):
        self.fold = fold
        self._reg()

    @property
    def __class__(self):
        return list

    def append(self, x):
        self.touch()
        self.fold.step(x)

    def extend(self, it):
        for x in it:
            self.append(x)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def vc_absterm(self):
        return self.fold.terms()

    def vc_abskinds(self):
        return []

    def vc_makeabs(self, name, kinds):
        self.fold.havoc(name)
