"""C16-C20, C23: `read` (rxls.reader.common): the columns are collected from the cells, the header is found and named, rows are
filtered, types applied and the table built.

The sheet has any number of columns (NC; the p-th in order of first appearance has number COLNO(p) and LEN(p) rows); the reader, the
series (C06-C08), the two helpers and pa.table enter by contract.  One arbitrary column K of the table and one arbitrary row ROW are followed."""
from __future__ import annotations
import re
import zipfile
import z3
import pyarrow as pa
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, bv_, is_sym, U, SView, fresh_int
from vc.heap import HeapObj
from vc.loops import World
from vc.models_fam import Fam, FamDict, FamList, scalar
from .api import vc
import rxls.reader.common as common
from rxls.reader.common import read

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
F = z3.Function
COLNO, COLPOS, LEN, SORT, RANK = F("column_number", I, I), F("place_of_column", I, I), F("rows_of_column", I, I), F("sorted_column", I, I), F("rank_of_column", I, I)
NAME, GIVEN = F("header_name", I, S), F("given_name", I, S)
T0, TWANT, TNAMED, REQ = F("type_of_column", I, I), F("requested_type", I, I), F("type_named", S, I), F("type_requested_for", S, B)
TID = F("type_id", I, I)
NULL, NULLNAN = F("null_cell", I, I, B), F("null_or_nan_cell", I, I, B)
MATCH = F("matches", S, S, B)
OP = F("operator", I, S)
CH, CNT = F("filter_column", I, I), F("filter_columns_among_first", I, I)
ACC = F("kept_by_first_filters", I, B)
NC, MAXLEN, ARGMAX, K, ROW = (z3.Int(n) for n in ("columns", "longest", "longest_column", "K", "ROW"))
TRUST = ("the reader's cells are those of the sheet (C10, C11, C24), a column holds every cell at its row (C06), windows, masks and types of columns are exact (C07, C08)",
         "pyarrow's is_null, invert, and, or, cast and pa.table do what their documentation says")


class Boom(KeyError, IndexError, ValueError, TypeError, ArithmeticError, RuntimeError, AssertionError, EOFError, pa.ArrowException):
    """whatever a reader or a column may raise: caught by whoever expects one of the usual errors"""


class BoomOS(OSError):
    pass


class BoomAttribute(AttributeError):
    pass


class BoomUnicode(UnicodeError):
    pass


class BoomOther(Exception):
    pass


BOOMS = (Boom, BoomOS, BoomAttribute, BoomUnicode, BoomOther)


def may_fail(where):
    """C23: this step may fail"""
    e = E()
    if not own("C23") or not e.choose(2, where):
        return
    s = st()
    s.boom = s.boom_class(where)
    e.cover(f"fails: {where}")
    raise s.boom


class St:
    """the scenario of this execution"""


def st():
    return E().scn


def own(pid):
    return E().pid == pid


def prove(pid, cond, name, info=None):
    if own(pid):
        return E().prove(cond, name, info)
    return None


def fail(pid, name, info=None):
    if own(pid):
        E().fail(name, info)
    if own("C23") and st().boom is not None:
        E().fail("damaged: an error is not swallowed", f"{type(st().boom).__name__} while {st().boom.args[0]}, but the read goes on")
    raise PathEnd()


def in_range(i):
    return z3.And(i >= 0, i < NC)


# ------------------------------------------------------------------------------------------------ cells and columns
class Cell:
    def __init__(self, col):
        self.col = col

    @property
    def row(self):
        return mkint(E().fresh("row", I))

    @property
    def val(self):
        U("read looks at the value of a cell")

    xdt = val


class Cells(World):
    """the cells of the sheet, in order; ghost: columns met so far"""
    name = "cells"
    vc_stream = True

    def __init__(self):
        self.n = z3.IntVal(0)
        self.cur = self.pos = None
        self.pending = False
        super().__init__()

    def ghosts(self):
        return {"columns": self.n}

    def facts(self):
        return {"columns<=": z3.And(self.n >= 0, self.n <= NC)}

    def havoc(self, loc):
        self.n = E().fresh("met", I)
        self.pending = False

    def settled(self):
        if self.pending:
            fail("C19", "read: every cell goes to its column", "a cell was dropped")

    def arrive(self, key, entry):
        if st().boom is not None:
            E().fail("damaged: an error is not swallowed", f"{type(st().boom).__name__} while {st().boom.args[0]}, but the read goes on")
        self.settled()

    def vc_iter(self):
        return self

    __iter__ = None

    def vc_more(self):
        e = E()
        self.settled()
        may_fail("reading a cell")
        if e.choose(2, "cell") == 0:
            e.assume(self.n == NC)
            e.check_feasible()
            return False
        return True

    def vc_next(self):
        e = E()
        self.touch()
        f = e.by["column number"]
        if e.choose(2, "new column"):
            e.assume(self.n < NC)
            self.pos = self.n
            self.n = z3.simplify(self.n + 1)
            e.cover("new column")
        else:
            self.pos = e.fresh("p", I)
            e.assume(z3.And(self.pos >= 0, self.pos < self.n, self.n <= NC))
            e.cover("known column")
        e.check_feasible()
        self.cur = Cell(mkint(f.at(self.pos)))
        self.pending = True
        return self.cur


class Ser(Sym):
    """a column (contracts: C06-C08), known by its place in order of first appearance"""
    __slots__ = ("pos",)

    def __init__(self, pos=None):
        self.pos = pos

    @property
    def __class__(self):
        return common.xl_series

    def place(self):
        if self.pos is None:                # new: it is the column of the current cell
            if st().cells.pos is None:
                U("a column made before there is a cell")
            self.pos = st().cells.pos
        return self.pos

    def vc_scalar(self):
        return "series", self.place()

    def add(self, c):
        e = E()
        w = st().cells
        may_fail("adding a cell")
        if c is not w.cur or not w.pending:
            fail("C19", "read: every cell is added once", repr(c))
        w.pending = False
        prove("C19", self.place() == w.pos, "read: a cell goes to the column it is in")
        return mkint(e.fresh("row", I))

    def vc_len(self):
        return mkint(rows_of(self.place()))

    def __bool__(self):
        return E().fork(rows_of(self.place()) > 0)

    def to_arrow(self, offset=0, length=0, *, idx=None):
        may_fail("building an array")
        return Arr(self.place(), iv(offset), iv(length), idx, T0(self.place()))

    def to_utf8(self, offset=0, length=0, *, idx=None):
        if idx is not None:
            U("masked texts of a column")
        return getattr(st(), "texts", Texts)(self.place(), iv(offset), iv(length))


def rows_of(p):
    E().assume(z3.Implies(in_range(p), z3.And(LEN(p) >= 1, LEN(p) <= MAXLEN)))
    return LEN(p)


def window(p, off, ln):
    """number of rows of to_arrow(off, ln) (take_over, C07)"""
    E().prove(z3.And(off >= 0, z3.Or(ln >= 0, off >= rows_of(p))), "to_arrow: precondition of the window") if own("C19") else None
    return z3.If(ln >= 1, ln, z3.If(rows_of(p) > off, rows_of(p) - off, z3.IntVal(0)))


class SType(Sym):
    """a data type"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return pa.DataType

    def vc_scalar(self):
        return "type", self.t

    def __eq__(self, o):
        return mkbool(self.t == o.t) if type(o) is SType else False

    def __ne__(self, o):
        return mkbool(self.t != o.t) if type(o) is SType else True

    def equals(self, o, check_metadata=False):
        return self == o

    @property
    def id(self):
        return mkint(TID(self.t))

    def __hash__(self):
        U("hash of a symbolic type")

    def __repr__(self):
        return "DataType(?)"

    __str__ = __repr__


MADE = {}       # families of arrays met in lists made by loops


class Arr(Sym):
    """column `p`, rows off.. of the given number (or those kept by idx), converted to type t"""
    __slots__ = ("p", "off", "ln", "idx", "t")

    def __init__(self, p, off, ln, idx, t):
        self.p, self.off, self.ln, self.idx, self.t = p, off, ln, idx, t

    @property
    def __class__(self):
        return pa.Array

    @property
    def type(self):
        return SType(self.t)

    def rows(self):
        if self.idx is None:
            return window(self.p, self.off, self.ln)
        return self.idx.true()

    def vc_len(self):
        return mkint(self.rows())

    def __len__(self):
        U("len() of a symbolic array in native code")

    def vc_scalar(self):
        """as an entry of a list made by a loop: array of the i-th column by number, not converted, these rows"""
        e = E()
        if not e.valid(self.t == T0(self.p)):
            U("a converted array added to a list of unbounded length")
        off, ln, n, b = self.off, self.ln, *((None, None) if self.idx is None else (self.idx.n, self.idx.b))
        rest = z3.simplify(MAXLEN - off)
        if e.valid(ln == rest):
            ln = rest
        name = "array " + "|".join("" if t is None else z3.simplify(t).sexpr() for t in (off, ln, n, b))
        MADE[name] = Fam(name, sorted_at, kind=name, mk=lambda p: Arr(p, off, ln, None if n is None else Bits(n, b), T0(p)))
        if all(f.name != name for f in e.families):
            e.families = (*e.families, MADE[name])
        return name, self.p

    def same(self, o):
        return type(o) is Arr and (self.idx is o.idx or (type(self.idx) is Bits and type(o.idx) is Bits and self.idx.same(o.idx))) and z3.And(self.p == o.p, self.off == o.off, self.ln == o.ln)

    def cast(self, target_type=None, safe=None, options=None):
        e = E()
        if options is not None or type(target_type) is not SType:
            U(f"cast to {target_type!r}")
        k = RANK(self.p)
        e.assume(z3.Implies(in_range(self.p), z3.And(in_range(k), SORT(k) == self.p)))
        c, t = wanted(k)
        prove("C20", z3.And(c, t == target_type.t), "types: a column is converted to the type requested for it",
              lambda m: f"column {m.eval(k)}: requested {m.eval(c)} type {m.eval(t)}, converted to {m.eval(target_type.t)}")
        prove("C20", safe is None or safe is True, "types: conversions are safe")
        x = e.choose(3, "cast") if st().casts else 0
        if x:
            st().failed = k
            raise (pa.ArrowInvalid, pa.ArrowNotImplementedError)[x - 1]("no conversion")
        return Arr(self.p, self.off, self.ln, self.idx, target_type.t)

    def is_null(self, *, nan_is_null=False):
        f = NULLNAN if nan_is_null else NULL
        return Bits(self.rows(), f(self.p, self.off + ROW))

    def is_valid(self):
        return Bits(self.rows(), z3.Not(NULL(self.p, self.off + ROW)))


class Bits(Sym):
    """a boolean array without nulls: its length and bit ROW"""
    __slots__ = ("n", "b", "tc")

    def __init__(self, n, b, tc=None):
        self.n, self.b, self.tc = n, b, tc

    @property
    def __class__(self):
        return pa.BooleanArray

    def vc_kind(self):
        return ("obj", Bits)

    def vc_terms(self):
        return {"n": ("int", self.n), "b": ("bool", self.b)}

    @staticmethod
    def vc_havoc(name, orig, kind):
        e = E()
        return Bits(e.fresh(name + "_n", I), e.fresh(name + "_b", B))

    def vc_scalar(self):
        """as an entry of a list made by a loop"""
        return "mask" if E().valid(self.n == st().rows) else "a mask of another length", self.b

    def same(self, o):
        return z3.is_true(z3.simplify(z3.And(self.n == o.n, self.b == o.b)))

    def cast(self, t, safe=True):
        if t not in ("bool", "boolean", pa.bool_()):
            U("a filter converted to another type")
        return self

    def true(self):
        if self.tc is None:
            e = E()
            key = z3.simplify(self.n).sexpr(), z3.simplify(self.b).sexpr()       # the same mask
            known = st().counts
            if key in known:
                self.tc = known[key]
                return self.tc
            known[key] = self.tc = e.fresh("kept", I)
            e.assume(z3.And(self.tc >= 0, self.tc <= self.n, z3.Implies(z3.And(ROW >= 0, ROW < self.n, self.b), self.tc >= 1)))
        return self.tc

    @property
    def true_count(self):
        return mkint(self.true())

    @property
    def false_count(self):
        return mkint(self.n - self.true())

    null_count = 0

    def sum(self):
        return Scalar(mkint(self.true()))

    def vc_len(self):
        return mkint(self.n)

    def __len__(self):
        U("len() of a symbolic array in native code")


class Scalar(Sym):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def as_py(self):
        return self.v

    __class__ = pa.Scalar


# ------------------------------------------------------------------------------------------------ the header that is looked up
HIT = F("matching_cell", I, I, B)
NHIT, FIRST = F("matching_cells_of", I, I, I, I), F("first_matching_cell", I, I, I, I)
PS, RS = z3.Int("first_matching_column"), z3.Int("first_matching_row")


def hit(p, r):
    """does the pattern match the cell of the column at row r (a cell that is there); what the scenario says of it"""
    s, e = st(), E()
    e.assume(z3.Implies(HIT(p, r), z3.And(r >= 0, r < rows_of(p))))
    seen = z3.And(in_range(p), HIT(p, r), r < iv(s.size))
    if not s.exists:
        e.assume(z3.Not(seen) if s.by == "text" else z3.Not(z3.And(seen, p == PS)))
    elif s.by == "text":
        e.assume(z3.Implies(seen, z3.Or(p > PS, z3.And(p == PS, r >= RS))))
    else:
        e.assume(z3.Implies(z3.And(seen, p == PS), r >= RS))
    return HIT(p, r)


def hits(p, off, ln):
    """(number of matches in the window, the first of them)"""
    s, e = st(), E()
    n = window(p, off, ln)
    c, f = NHIT(p, off, ln), FIRST(p, off, ln)
    e.assume(z3.And(c >= 0, c <= n, (c >= 1) == z3.And(f >= 0, f < n, hit(p, off + f))))
    if s.exists:
        at = z3.And(p == PS, RS >= off, RS < off + n)
        e.assume(z3.Implies(at, z3.And(c >= 1, off + f <= RS)))
    return n, c, f


class Texts(Sym):
    """the texts of a column"""
    __slots__ = ("p", "off", "ln")

    def __init__(self, p, off, ln):
        self.p, self.off, self.ln = p, off, ln

    @property
    def __class__(self):
        return pa.StringArray

    def rows(self):
        return window(self.p, self.off, self.ln)

    def vc_len(self):
        return mkint(self.rows())

    def __len__(self):
        U("len() of a symbolic array in native code")

    def is_null(self, *, nan_is_null=False):
        if st().by != "place":
            U("empty cells of a column when a pattern is looked for")
        return Hits(self, False)

    def is_valid(self):
        if st().by != "place":
            U("empty cells of a column when a pattern is looked for")
        return Hits(self, True)


class Hits(Sym):
    """which texts match (yes), or which do not"""
    __slots__ = ("t", "yes")

    def __init__(self, t, yes):
        self.t, self.yes = t, yes

    @property
    def __class__(self):
        return pa.BooleanArray

    def data(self):
        return hits(self.t.p, self.t.off, self.t.ln)

    @property
    def true_count(self):
        n, c, _ = self.data()
        return mkint(c if self.yes else n - c)

    @property
    def false_count(self):
        if st().by != "place":
            U("cells that do not match")            # empty cells are null there
        n, c, _ = self.data()
        return mkint(n - c if self.yes else c)

    def sum(self):
        n, c, _ = self.data()
        if st().by != "place" and E().fork(c == 0) and E().choose(2, "only empty cells"):
            return Scalar(None)
        return Scalar(mkint(c if self.yes else n - c))

    def vc_len(self):
        return mkint(self.data()[0])

    def __len__(self):
        U("len() of a symbolic array in native code")

    def to_pylist(self):
        return HitList(self)

    tolist = to_pylist

    def index(self, v, start=None, end=None):
        if start is not None or end is not None:
            U("index within a part")
        n, c, f = self.data()
        v = v.as_py() if isinstance(v, pa.Scalar) and not isinstance(v, Scalar) else v
        if v is not self.yes:
            U("index of a cell that does not match")
        return Scalar(mkint(z3.If(c >= 1, f, z3.IntVal(-1))))

    def invert(self):
        return Hits(self.t, not self.yes) if st().by == "place" else U("inversion of matches")


class HitList(Sym):
    __slots__ = ("h",)
    __class__ = list

    def __init__(self, h):
        self.h = h

    def index(self, v, *a):
        if a or type(v) is not bool:
            U("index of something else")
        n, c, f = self.h.data()
        if v is not self.h.yes:
            e, t = E(), self.h.t
            g = e.fresh("no_match", I)
            if st().by != "place":          # the others may be empty cells
                if not e.choose(2, "one does not match"):
                    raise ValueError("is not in list")
            elif not e.fork(c < n):
                raise ValueError("is not in list")
            e.assume(z3.And(g >= 0, g < n, z3.Not(hit(t.p, t.off + g))))
            e.check_feasible()
            return mkint(g)
        if not E().fork(c >= 1):
            raise ValueError("is not in list")
        return mkint(f)

    def count(self, v):
        if v is not self.h.yes:
            U("number of cells that do not match")
        return mkint(self.h.data()[1])

    def vc_contains(self, v):
        if v is not self.h.yes:
            U("is there a cell that does not match")
        return mkbool(self.h.data()[1] >= 1)

    def vc_len(self):
        return self.h.vc_len()

    def vc_iter(self):
        t, h = self.h.t, self.h
        return SView(self.vc_len(), lambda i: mkbool(hit(t.p, t.off + iv(i)) if h.yes else z3.Not(hit(t.p, t.off + iv(i)))))


class Lookup(World):
    """ghost: columns passed by the innermost loop have no match"""
    name = "lookup"

    def loc(self):
        return ""

    def havoc(self, loc):
        pass

    def facts(self):
        s = st()
        if not own("C17") or s.lookup is None:
            return {}
        its = [w for w in E().world if w.name.startswith("it:")][-2:]
        out = {f"no match before{n}": PS >= w.i for n, w in enumerate(its)}
        for n, w in enumerate(its):
            out[f"no match above{n}"] = RS >= w.i
        if len(its) == 2:
            out["no match before this cell"] = z3.Or(PS >= its[0].i, z3.And(PS == its[0].i - 1, RS >= its[1].i))
        return out


def match(a, pattern, *, ignore_case=False):
    s = st()
    if type(a) is not Texts:
        U("matches of something else")
    if s.by != "text":
        fail("C17", "lookup: a column index is no pattern")
    prove("C17", pattern is s.lookup and ignore_case is False, "lookup: cells are matched with the given pattern", repr(pattern))
    return Hits(a, True)


def logic(f):
    def g(a, b):
        if type(a) is not Bits or type(b) is not Bits:
            U("and/or of something else")
        prove("C18", a.n == b.n, "filters: combined masks have one length")
        E().assume(a.n == b.n)
        return Bits(a.n, f(a.b, b.b))
    return g


def invert(a):
    if type(a) is Hits:
        return a.invert()
    if type(a) is not Bits:
        U("inversion of something else")
    return Bits(a.n, z3.Not(a.b))


# ------------------------------------------------------------------------------------------------ lists of unbounded length that are changed
class ArrList(HeapObj):
    """a list of arrays in table order; entry K is followed, only types may change"""
    __slots__ = ("view", "slot", "t")

    def __init__(self, view):
        self.view = view
        self.slot = None
        self.t = None
        self._reg()

    @property
    def __class__(self):
        return list

    def base(self):
        if self.slot is None:
            self.slot = self.view.f(mkint(K))
        return self.slot

    def vc_absterm(self):
        return {"t": ("int", self.base().t if self.t is None else self.t)}

    def vc_abskinds(self):
        return ()

    def vc_makeabs(self, name, kinds):
        self.base()
        self.t = E().fresh(name + "_type", I)

    def at_k(self):
        b = self.base()
        return b if self.t is None else Arr(b.p, b.off, b.ln, b.idx, self.t)

    def vc_getitem(self, i):
        e = E()
        if isinstance(i, slice):
            U("slice of a list of arrays")
        t = iv(i)
        n = iv(self.view.n)
        if not e.fork(z3.And(t >= 0, t < n)):
            if e.fork(z3.And(t < 0, t >= -n)):
                t = t + n
            else:
                raise IndexError("list index out of range")
        if e.fork(t == K):
            return self.at_k()
        a = self.view.f(mkint(t))
        return Arr(a.p, a.off, a.ln, a.idx, e.fresh("type", I))      # may have been converted before

    __getitem__ = vc_getitem

    def __setitem__(self, i, v):
        e = E()
        t = iv(i)
        if t is None or type(v) is not Arr:
            U("this change of a list of arrays")
        if not e.fork(z3.And(t >= 0, t < iv(self.view.n))):
            raise IndexError("list assignment index out of range")
        self.touch()
        same = self.view.f(mkint(t)).same(v)
        e.prove(same, "read: an array is replaced by itself converted")
        if e.fork(t == K):
            self.base()
            self.t = v.t

    def vc_iter(self):
        return SView(self.view.n, lambda i: self.vc_getitem(i))

    vc_list = vc_iter

    def vc_len(self):
        return self.view.n

    def __len__(self):
        U("len() of a list of unbounded length in native code")

    def __iter__(self):
        U("iteration over a list of unbounded length in native code")

    def __bool__(self):
        return E().fork(iv(self.view.n) > 0)


class RList(FamList):
    """a list made by a loop; arrays in table order may be replaced by converted ones (as in ArrList)"""
    __slots__ = ("kt",)

    def __init__(self, items=()):
        self.kt = None
        super().__init__(items)

    def arrays(self):
        return self.rows is None and self.shape is not None and self.shape[0] == ("", 1) and self.shape[1][0].startswith("array ")

    def kth(self):
        """type of entry K"""
        return T0(sorted_at(K)) if self.kt is None else self.kt

    def vc_absterm(self):
        d = super().vc_absterm()
        if self.arrays():
            d["t"] = ("int", self.kth())
        return d

    def vc_abskinds(self):
        return (*super().vc_abskinds(), *((("replaced",),) if self.kt is not None else ()))

    def vc_makeabs(self, name, kinds):
        super().vc_makeabs(name, [k for k in kinds if tuple(k) != ("replaced",)])
        if len(kinds) and any(tuple(k) == ("replaced",) for k in kinds):
            self.kt = E().fresh(name + "_type", I)

    def entry(self, i):
        x = super().entry(i)
        if type(x) is not Arr or self.kt is None:
            return x
        e = E()
        return Arr(x.p, x.off, x.ln, x.idx, self.kt if e.fork(iv(i) == K) else e.fresh("type", I))

    def add(self, x):
        if self.kt is not None:
            U("a list that grows after its entries were replaced")
        super().add(x)

    def __setitem__(self, i, v):
        e = E()
        if self.rows is not None and type(i) is int:
            self.touch()
            self.rows[i] = v
            return
        t = iv(i)
        if t is None or type(v) is not Arr or not self.arrays():
            U("this change of a list of unbounded length")
        if not e.fork(z3.And(t >= 0, t < self.n)):
            raise IndexError("list assignment index out of range")
        self.touch()
        e.prove(FamList.entry(self, t).same(v), "read: an array is replaced by itself converted")
        k = self.kth()
        self.kt = v.t if e.fork(t == K) else k


def comp_list(v):
    e = E()
    i = e.fresh("any", I)
    mark = len(e.pc)
    e.assume(z3.And(i >= 0, i < iv(v.n)))
    x = v.f(mkint(i))
    return ArrList(v) if type(x) is Arr else v


# ------------------------------------------------------------------------------------------------ the workbook
class Names(Sym):
    __slots__ = ()
    __class__ = list

    def vc_contains(self, x):
        if x == "xl/workbook.xml":
            return mkbool(st().xml)
        if x == "xl/workbook.bin":
            return mkbool(st().bin)
        if isinstance(x, str) and not is_sym(x):
            return mkbool(z3.Bool("archive has " + x))
        U(f"is {x!r} in the archive")

    def vc_iter(self):
        U("iteration over the names of an archive")

    def vc_set(self):
        return self

    vc_list = vc_set


class Archive(Sym):
    __slots__ = ()
    __class__ = zipfile.ZipFile

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    def namelist(self):
        return Names()


class Book(Sym):
    """a workbook reader"""
    __slots__ = ("kind",)

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        return self

    def __exit__(self, *a):
        s = st()
        if s.options and s.asked and a[0] is None:      # what follows is another property's matter
            E().cover("read")
            raise PathEnd()
        return None

    @property
    def shared(self):
        return st().shared

    def iter_worksheet(self, sheet=0, **kw):
        s = st()
        s.asked = True
        if own("C21") and sheet is not s.sheet:
            E().fail("read: the asked sheet is read", repr(sheet))
        for p in ("C10", "C11"):
            if own(p):
                for k in ("skip_rows", "take_rows"):
                    got, want = kw.get(k, 0), s.args[k]
                    if not isinstance(got, int):
                        E().fail(f"read: the sheet is read with the caller's {k}", repr(got))
                    E().prove(iv(got) == iv(want), f"read: the sheet is read with the caller's {k}")
                for k, d in (("take_rows_non_empty", True), ("skip_cols", None), ("row_callback", None)):
                    got = kw.get(k, d)
                    if isinstance(got, (bool, SBool)) and k == "take_rows_non_empty":
                        E().prove(bv_(got) == bv_(s.args[k]), f"read: the sheet is read with the caller's {k}")
                    elif got is not s.args[k]:
                        E().fail(f"read: the sheet is read with the caller's {k}", repr(got))
        may_fail("opening the sheet")
        s.cells = Cells()
        return s.cells


def sort_model(r, key=None, reverse=False):
    """sorted() of what stands for the columns"""
    e = E()
    if key is not None or reverse:
        U("sorted with a key")
    c = e.fresh("c", I)
    e.assume(z3.And(c >= 0, c < iv(r.n)))
    x = r.f(mkint(c))
    k = x[0] if type(x) is tuple else x
    if not e.valid(iv(r.n) == NC) or scalar(k) is None or scalar(k)[0] != "int" or not e.valid(iv(k) == COLNO(c)):
        U("sorted of a symbolic iterable")
    f = e.by["column number"]

    def at(i):
        p = sorted_at(iv(i))
        return (mkint(f.at(p)), *r.f(mkint(p))[1:]) if type(x) is tuple else mkint(f.at(p))
    return SView(mkint(NC), at)


def sorted_at(i):
    """place of the i-th column of the table"""
    e = E()
    p = SORT(i)
    e.assume(z3.Implies(in_range(i), z3.And(in_range(p), RANK(p) == i)))
    chosen_facts(i)
    return p


# ------------------------------------------------------------------------------------------------ names
def name(k):
    """name of the k-th column of the table"""
    s = st()
    return {"none": lambda: z3.Concat(z3.StringVal("Unnamed. "), z3.IntToStr(k)), "true": lambda: NAME(k), "height": lambda: NAME(k), "list": lambda: GIVEN(k)}[s.header]()


def make_header(columns, first_row, length):
    s = st()
    e = E()
    may_fail("making the header")
    if not isinstance(columns, FamDict):
        U("the header of something else")
    prove("C16", z3.And(iv(first_row) == s.first, iv(length) == s.height), "read: the header is made of the header rows",
          lambda m: f"rows {m.eval(iv(first_row))} and {m.eval(iv(length))} more instead of {m.eval(s.first)} and {m.eval(s.height)} more")
    if s.header not in ("true", "height"):
        fail("C16", "read: a header is made only when asked for", s.header)
    return famlist(FamList, NC, "column name")


def find_header(columns, pattern, min_row=0, max_head_length=30, *, ignore_case=False):
    s = st()
    e = E()
    if not isinstance(columns, FamDict):
        U("the header of something else")
    may_fail("looking up the header")
    if s.lookup is None:
        fail("C17", "read: a header is looked up only when asked for")
    prove("C17", pattern is s.lookup and ignore_case is False, "read: the header is looked up by the given pattern")
    prove("C17", z3.And(iv(min_row) == 0, iv(max_head_length) == iv(s.size)), "read: the header is looked up from the top, within lookup_size rows")
    s.looked = True
    return mkint(s.found)


def famlist(cls, n, *fams):
    t = cls()
    t.rows, t.n, t.shape = None, n, (("", 1) if len(fams) == 1 else ("tuple", len(fams)), *[(f,) for f in fams])
    return t


# ------------------------------------------------------------------------------------------------ filters
def chosen(k):
    """is the k-th column of the table a filter column"""
    kind, v = st().filters
    if kind == "name":
        return MATCH(z3.StringVal(v), name(k))
    if kind == "names":
        return z3.Or(*[MATCH(z3.StringVal(x), name(k)) for x in v])
    if kind == "places":
        return z3.Or(*[k == iv(x) for x in v])
    return z3.BoolVal(False)


def chosen_facts(i):
    e = E()
    if st().filters is None:
        return
    c = chosen(i)
    e.assume(z3.Implies(in_range(i), z3.And(CNT(i) >= 0, CNT(i) <= i, CNT(i + 1) == CNT(i) + z3.If(c, z3.IntVal(1), z3.IntVal(0)), z3.Implies(c, CH(CNT(i)) == SORT(i)), CNT(i + 1) <= CNT(NC))))
    e.assume(CNT(z3.IntVal(0)) == 0)


def op_and(k):
    s = st().strategy
    return z3.BoolVal(s == "and") if isinstance(s, str) else OP(k) == z3.StringVal("and")


def acc(k):
    """the first k+1 filters combined, at row ROW"""
    s = st()

    def bit(j):
        return z3.Not(NULLNAN(CH(j), s.off + ROW))
    E().assume(z3.And(z3.Implies(k == 0, ACC(k) == bit(k)), z3.Implies(k >= 1, ACC(k) == z3.If(op_and(k - 1), z3.And(ACC(k - 1), bit(k)), z3.Or(ACC(k - 1), bit(k))))))
    return ACC(k)


class Filters(World):
    """ghost: what the filters passed by the innermost loop keep"""
    name = "kept"

    def loc(self):
        return "on" if st().filters else ""

    def havoc(self, loc):
        pass

    def its(self):
        return [w for w in E().world if w.name.startswith("it:")][-1:]       # the innermost loop

    def ghosts(self):
        out = {}
        if st().filters:
            for n, w in enumerate(self.its()):
                i = z3.simplify(w.i)
                out[f"acc{n}"] = acc(i)
                out[f"before{n}"] = acc(z3.simplify(i - 1))
                out[f"chosen{n}"] = CNT(i)
                out[f"some{n}"] = i > 0
                out[f"length{n}"] = st().rows
        return out

    def guards(self):
        return [f"some{n}" for n in range(len(self.its()))]

    def facts(self):
        out = {}
        s = st()
        if s.bad is not None:
            for n, w in enumerate(self.its()):
                out[f"bad operator not seen{n}"] = s.bad >= w.i
        return out


class Types(World):
    """ghost: how far the types were applied"""
    name = "types"

    def loc(self):
        return ""

    def havoc(self, loc):
        pass

    def its(self):
        return [w for w in E().world if w.name.startswith("it:")][-1:]       # the innermost loop

    def ghosts(self):
        out = {}
        if st().types:
            c, t = wanted(K)
            t0 = T0(sorted_at(K))
            out["type"] = z3.If(c, t, t0)
            out["type0"] = t0
            for n, w in enumerate(self.its()):
                out[f"done{n}"] = w.i > K
        if not own("C19"):
            return out
        out["longest"] = MAXLEN
        for n, w in enumerate(self.its()):
            out[f"longest seen{n}"] = w.i > ARGMAX
        return out

    def guards(self):
        return [f"done{n}" for n in range(len(self.its()))] + [f"longest seen{n}" for n in range(len(self.its()))]

    def arrive(self, key, entry):
        if st().failed is not None:
            fail("C20", "types: a conversion that fails is reported", "the failure is ignored")


def wanted(k):
    """is a type requested for the k-th column of the table, and which"""
    kind = st().types
    if kind == "all":
        return z3.BoolVal(True), st().one.t
    if kind == "list":
        return z3.BoolVal(True), TWANT(k)
    if kind == "dict":
        return REQ(name(k)), TNAMED(name(k))
    return z3.BoolVal(False), z3.IntVal(0)


class TypeDict(Sym):
    __slots__ = ()
    __class__ = dict

    def vc_contains(self, k):
        return mkbool(REQ(sv(k))) if isinstance(k, str) else False

    def vc_getitem(self, k):
        if not isinstance(k, str):
            raise KeyError(k)
        if not E().fork(REQ(sv(k))):
            raise KeyError("name")
        return SType(TNAMED(sv(k)))

    __getitem__ = vc_getitem

    def get(self, k, d=None):
        if isinstance(k, str) and E().fork(REQ(sv(k))):
            return SType(TNAMED(sv(k)))
        return d

    def __bool__(self):
        return E().fork(st().some_type)

    def vc_iter(self):
        U("iteration over the requested types")

    def __iter__(self):
        U("iteration over the requested types")


# ------------------------------------------------------------------------------------------------ one execution of read
def families():
    return (Fam("column number", COLNO, COLPOS), Fam("column", lambda i: i, kind="series", mk=Ser), Fam("column name", NAME), Fam("given name", GIVEN),
            Fam("filter column", CH, on=lambda k: [z3.Implies(z3.And(k >= 0, k < CNT(NC)), in_range(CH(k)))], kind="series", mk=Ser),
            Fam("requested type", TWANT, kind="type", mk=SType),
            Fam("mask", lambda k: z3.Not(NULLNAN(CH(k), st().off + ROW)), kind="mask", mk=lambda b: Bits(st().rows, b)), Fam("operator name", OP, on=lambda k: [z3.Or(OP(k) == z3.StringVal("and"), OP(k) == z3.StringVal("or"))] if st().bad is None else []))


def setup(pid):
    e = E()
    e.pid = pid
    e.families = (*families(), *MADE.values())
    e.by = {f.name: f for f in e.families}
    e.family_types = {}
    e.list_factory, e.dict_factory = RList, FamDict
    e.sort_model, e.comp_list = sort_model, comp_list
    e.watch_points = (ARGMAX, RANK(ARGMAX))
    s = e.scn = St()
    s.header, s.lookup, s.filters, s.types, s.bad, s.failed, s.boom, s.asked, s.cells, s.casts, s.looked = "none", None, None, None, None, None, None, None, None, True, False
    s.shared = object()
    s.strategy = "or"
    s.table = None
    s.xml, s.bin = z3.BoolVal(True), z3.BoolVal(False)
    s.found, s.first, s.height = z3.Int("found_row"), z3.IntVal(0), z3.IntVal(0)
    s.some_type = z3.Bool("some_type")
    s.options = False
    s.none, s.counts = "", {}
    s.by, s.exists, s.size, s.want_formats = None, False, None, None
    if pid == "C17":
        Lookup()
    Filters()
    Types()
    return e, s


def stubs(e):
    d = common.__dict__

    def zf(*a, **k):
        if not a or a[0] is not e.scn.file:
            fail("C23", "read: opens the given file")
        may_fail("opening the file")
        return Archive()

    def book(kind):
        def make(file, **kw):
            s = e.scn
            if file is not s.file:
                fail("C23", "read: reads the given file")
            prove("C23", {"xlsx": s.xml, "xlsb": s.bin}[kind], "read: the workbook is read in its own format", kind)
            s.kind, s.book_args = kind, kw
            if own("C14") and kw.get("null_values") is not s.args["null_values"]:
                e.fail("read: the caller's null values are used", repr(kw))
            may_fail("opening the workbook")
            return Book(kind)
        return make

    def series(*a, **k):
        s = e.scn
        s.series_args = (a, k)
        args = dict(zip(("shared", "binary"), a))
        args.update(k)
        if args.get("shared") is not s.shared or args.get("binary", False) is not (s.kind == "xlsb"):
            for p in ("C23", "C19", "C24"):
                if own(p):
                    e.fail("read: columns use the workbook's string table and format", repr(args))
        for p, key, want in (("C08", "conflict_resolve", s.args["conflict_resolve"]), ("C09", "datetime_formats", s.want_formats), ("C05", "float_precision", s.args["float_precision"])):
            if own(p):
                got = args.get(key)
                same = iv(got) == iv(want) if type(want) is SInt and isinstance(got, int) and not isinstance(got, bool) else z3.BoolVal(got is want or isinstance(want, (tuple, str)) and type(got) is type(want) and same_texts(got, want))
                e.prove(same, f"read: columns get the caller's {key}", f"{got!r} for {want!r}")
        return Ser()

    def table(arrays, names=None, *a, **k):
        if a or [x for x in k if x != "names"] or e.scn.table is not None:
            U("another call of pa.table")
        e.scn.table = (arrays, k.get("names", names))
        return e.scn.result

    def rematch(p, x, *a):
        if a or is_sym(p):
            U("re.match with flags")
        r = MATCH(z3.StringVal(p), sv(x))
        return re.match("", "") if e.fork(r) else None
    out = {zipfile.ZipFile: zf, d["XlsxWorkbook"]: book("xlsx"), d["XlsbWorkbook"]: book("xlsb"), d["xl_series"]: series, pa.table: table, re.match: rematch}
    for n, f in (("__make_header", make_header), ("__find_header", find_header)):
        if n in d and not (n == "__find_header" and own("C17")):
            out[d[n]] = f
    pc = d.get("pc")
    if pc is not None:
        out.update({pc.or_: logic(z3.Or), pc.and_: logic(z3.And), pc.invert: invert, pc.match: match})
    return out


def run(e, s, **kw):
    """read with the scenario's arguments; the exception it ends with, or None"""
    e.scenario = "@" + "/".join(str(x) for x in (s.header, s.lookup is not None, s.filters and s.filters[0] + str(len(s.filters[1])), s.bad is None, s.strategy if isinstance(s.strategy, str) else "list", s.types, s.none))
    e.stubs = stubs(e)
    s.file = object()
    s.result = object()
    s.args = dict(dtypes=None, skip_cols=object(), skip_rows=object(), skip_rows_after_header=0, take_rows=object(), take_rows_non_empty=object(), lookup_head=None, lookup_size=30,
                  row_filters=None, row_filters_strategy="or", float_precision=object(), datetime_formats=None, conflict_resolve=object(), utf8_type_infers=True, null_values=object(), row_callback=object())
    s.args.update(kw)
    s.formats = s.args["datetime_formats"]
    header = s.args.pop("header", 0)
    s.sheet = object()
    e.assume(z3.And(NC >= 0, MAXLEN >= 0, z3.Implies(NC >= 1, z3.And(in_range(ARGMAX), LEN(ARGMAX) == MAXLEN, MAXLEN >= 1, in_range(RANK(ARGMAX)), SORT(RANK(ARGMAX)) == ARGMAX))))
    try:
        r = read(s.file, s.sheet, header, **s.args)
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        if type(ex).__name__ in ("Unsupported", "Restart", "PathEnd"):
            raise
        return ex
    if r is not s.result:
        e.fail("read: gives the table", repr(r))
    return None


def pick_header(e, s, modes):
    """the header argument"""
    s.header = modes[e.choose(len(modes), "header")]
    if s.header == "true":
        s.height = z3.IntVal(1)
        return True
    if s.header == "height":
        s.height = z3.Int("header_rows")
        e.assume(s.height >= 1)
        return mkint(s.height)
    if s.header == "list":
        s.given = z3.Int("given_names")
        e.assume(s.given >= 0)
        return famlist(FamList, s.given, "given name")
    return 0


def pick_lookup(e, s):
    if not e.choose(2, "lookup"):
        return {}
    s.lookup = SStr(z3.String("pattern"))
    s.size = mkint(z3.Int("lookup_size"))
    s.first = s.found
    e.assume(z3.And(s.found >= -1, s.size.t >= 1))
    # a row that was found is a row of some column (C17)
    c = e.fresh("c", I)
    e.assume(z3.Implies(s.found >= 0, z3.And(in_range(c), s.found < rows_of(c))))
    return dict(lookup_head=s.lookup, lookup_size=s.size)


def what(ex):
    return type(ex).__name__ + ": " + ", ".join(str(x.t) if is_sym(x) else str(x) for x in ex.args)


def says(t, k, kind):
    """does the text t, put together from pieces, name column k"""
    t = z3.simplify(t)
    if t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), says(t.arg(1), k, kind), says(t.arg(2), k, kind))
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return z3.Or(*[says(c, k, kind) for c in t.children()])
    if z3.is_string_value(t):
        return z3.BoolVal(False)
    if t.decl().name() in {"str.from_int", "int.to.str"}:
        return t.arg(0) == k if kind == "list" or st().header == "none" else z3.BoolVal(False)
    if st().header == "none":
        return z3.BoolVal(False)
    if t.decl().name() == "py_repr":
        t = t.arg(0)
    fn = GIVEN if st().header == "list" else NAME
    return t.arg(0) == k if t.decl().eq(fn) else t == name(k)


def text_of(ex):
    return sv(ex.args[0]) if ex.args and isinstance(ex.args[0], str) else z3.StringVal("")


@vc("C19", "read", functions=("rxls.reader.common:read",), covers=("new column", "known column", "table", "only a header"), assumes=TRUST)
def c19():
    e, s = setup("C19")
    h = pick_header(e, s, ("none", "true", "height", "list"))
    kw = pick_lookup(e, s)
    skip = fresh_int("skip_after")
    e.assume(skip.t >= 0)
    ex = run(e, s, header=h, skip_rows_after_header=skip, **kw)
    if ex is not None:
        if s.header == "list":
            e.prove(z3.Or(NC == 0, s.found == -1 if s.lookup is not None else z3.BoolVal(False), s.given != NC), "read: gives the table", what(ex))
        else:
            e.prove(z3.Or(NC == 0, s.found == -1 if s.lookup is not None else z3.BoolVal(False)), "read: gives the table", what(ex))
        return
    arrays, names = s.table
    left = MAXLEN - s.first - s.height - iv(skip)
    want = z3.If(left > 0, left, z3.IntVal(0))
    e.cover("table")
    check_arrays(e, s, arrays, names)
    a = arrays.vc_getitem(mkint(K))
    e.prove(a.idx is None, "read: nothing is filtered")
    e.prove(a.off == s.first + s.height + iv(skip), "read: row i of every column is row i after the header rows", lambda m: f"starts at {m.eval(a.off)}; first {m.eval(s.first)}, header {m.eval(s.height)}, skipped {m.eval(iv(skip))}")
    n = a.rows()
    e.prove(n == want, "read: the rows between the header and the last row with data", lambda m: f"{m.eval(n)} rows instead of {m.eval(want)}")
    if e.fork(want == 0):
        e.cover("only a header")


def check_arrays(e, s, arrays, names):
    """as many names as arrays; array K is the K-th column by number"""
    if not isinstance(arrays, (SView, ArrList, RList)):
        e.fail("read: a table of the columns", repr(arrays))
    n = iv(arrays.vc_len())
    e.prove(n == NC, "read: every column once")
    if not isinstance(names, (SView, FamList)):
        e.fail("read: a table with names", repr(names))
    e.prove(iv(names.vc_len()) == NC, "read: one name per column")
    e.assume(in_range(K))
    sorted_at(K)
    e.check_feasible()
    a = arrays.vc_getitem(mkint(K))
    if type(a) is not Arr:
        e.fail("read: columns as arrays", repr(a))
    e.prove(a.p == SORT(K), "read: columns in the order of the sheet")


# ------------------------------------------------------------------------------------------------ C18: row filters
FILTERS = ("by a name", "by names", "by places", "by a place")
STRATEGY = ("or", "and", "operators", "a bad operator")


def c18(f, g):
    e, s = setup("C18")
    s.casts = False
    h = pick_header(e, s, (("height",), ("list",), ("none",), ("height",))[f])
    if s.header == "list":
        e.assume(s.given == NC)
    s.filters = (("name", "text a"), ("names", ["text a", "text b"]), ("places", [fresh_int("place_a"), fresh_int("place_b")]), ("places", [fresh_int("place_a")]))[f]
    nops = fresh_int("operators")
    e.assume(nops.t >= 0)
    ops = famlist(FamList, nops.t, "operator name")
    s.strategy = ("or", "and", ops, ops)[g]
    bad = z3.Int("bad_operator")
    if g == 3:
        s.bad = bad
        e.assume(z3.And(bad >= 0, bad < nops.t, OP(bad) != z3.StringVal("and"), OP(bad) != z3.StringVal("or")))
    skip = fresh_int("skip_after")
    e.assume(skip.t >= 0)
    s.off = s.height + iv(skip)
    left = MAXLEN - s.height - iv(skip)
    s.rows = z3.If(left > 0, left, z3.IntVal(0))
    e.assume(z3.And(NC >= 1, in_range(K)))
    s.none = e.choose(3, "filter columns")
    e.assume((CNT(NC) == 0, CNT(NC) == 1, CNT(NC) >= 2)[s.none])
    ex = run(e, s, header=h, skip_rows_after_header=skip, row_filters=s.filters[1], row_filters_strategy=s.strategy)
    nf = CNT(NC)
    inside = z3.And(ROW >= 0, ROW < s.rows)
    if ex is None:
        arrays, names = s.table
        check_arrays(e, s, arrays, names)
        a = arrays.vc_getitem(mkint(K))
        e.prove(a.off == s.off, "filters: the table starts behind the header")
        if a.idx is None:
            e.prove(nf == 0, "filters: the rows are filtered")
            e.cover("no filter column")
            return
        if type(a.idx) is not Bits:
            e.fail("filters: a mask", repr(a.idx))
        e.prove(nf >= 1, "filters: there is a filter")
        e.cover("filtered")
        e.prove(a.idx.n == s.rows, "filters: every data row is decided", lambda m: f"{m.eval(a.idx.n)} of {m.eval(s.rows)} rows")
        e.prove(z3.Implies(inside, a.idx.b == acc(z3.simplify(nf - 1))), "filters: a row is kept exactly when the filters say so",
                lambda m: f"{m.eval(nf)} filter columns, row {m.eval(ROW)}: kept {m.eval(a.idx.b)}")
        e.prove(a.idx.true() >= 1, "filters: at least one row is kept")
        if g >= 2:
            e.prove(z3.Or(nf == 1, nops.t == nf - 1), "filters: a wrong number of operators is refused")
        if g == 3:
            e.prove(nf == 1, "filters: an unknown operator is refused")
        if e.choose(2, "one"):
            e.assume(nf == 1)
            if e.feasible():
                e.cover("one filter")
        else:
            e.assume(nf >= 2)
            if e.feasible():
                e.cover("several filters")
        return
    ok = z3.And(nf >= 1, z3.Not(z3.And(inside, acc(z3.simplify(nf - 1)))))          # no row is kept
    if e.fork(ok):
        e.cover("no row left")
        return
    if g >= 2 and e.fork(z3.And(nf >= 2, nops.t != nf - 1)):
        e.cover("wrong number")
        return
    if g == 3 and e.fork(nf >= 2):
        e.cover("unknown operator")
        return
    e.fail("filters: rows are kept", what(ex))


for _f in range(4):
    for _g in range(4):
        vc("C18", f"read (filters {FILTERS[_f]}, {STRATEGY[_g]})", functions=("rxls.reader.common:read",), assumes=TRUST, budget=300,
           covers=("one filter", *(("several filters",) if (_f, _g) not in ((3, 0), (3, 1), (3, 2)) and _g < 3 else ()), "filtered", "no row left", "no filter column", *(("wrong number",) if _g >= 2 and _f < 3 else ()),
                   *(("unknown operator",) if _g == 3 and _f < 3 else ())))(lambda f=_f, g=_g: c18(f, g))


@vc("C18", "read (filters, another strategy)", functions=("rxls.reader.common:read",), covers=("refused", "no filter column", "one filter"), assumes=TRUST)
def c18_strategy():
    e, s = setup("C18")
    s.casts = False
    h = pick_header(e, s, ("height",))
    s.filters = ("names", ["text a", "text b"])
    s.strategy = ("xor", "", None, 1, {"and"})[e.choose(5, "strategy")]
    s.off = s.height
    left = MAXLEN - s.height
    s.rows = z3.If(left > 0, left, z3.IntVal(0))
    e.assume(z3.And(NC >= 1, in_range(K)))
    s.none = e.choose(3, "filter columns")
    e.assume((CNT(NC) == 0, CNT(NC) == 1, CNT(NC) >= 2)[s.none])
    ex = run(e, s, header=h, row_filters=s.filters[1], row_filters_strategy=s.strategy)
    nf = CNT(NC)
    if ex is None:
        e.prove(nf < 2, "filters: an unknown operator is refused")
        a = s.table[0].vc_getitem(mkint(K)) if e.feasible() else None
        e.assume(nf == (1 if a.idx is not None else 0))
        e.check_feasible()
        e.cover("one filter" if a.idx is not None else "no filter column")
    elif e.fork(nf >= 2):
        e.cover("refused")


# ------------------------------------------------------------------------------------------------ C20: requested types
def c20(kind, header):
    e, s = setup("C20")
    h = pick_header(e, s, (header,))
    if header == "list":
        e.assume(s.given == NC)
    s.types = kind
    s.one = SType(z3.Int("requested_for_all"))
    n = z3.Int("requested_types")
    e.assume(z3.And(n >= 0, NC >= 1, in_range(K)))
    lst = famlist(FamList, n, "requested type")
    t = {"all": s.one, "list": lst, "dict": TypeDict()}[kind]
    c0, _ = wanted(K)
    if kind == "dict":
        e.assume(z3.Implies(z3.And(in_range(K), c0), s.some_type))
    ex = run(e, s, header=h, dtypes=t)
    wrong = z3.And(kind == "list", n != NC)
    if s.failed is not None:
        if ex is None:
            e.fail("types: a conversion that fails is reported", "a table is returned")
        e.cover("impossible conversion")
        k = s.failed
        e.assume(in_range(k))
        e.check_feasible()
        e.prove(says(text_of(ex), k, kind), "types: the error names the column that cannot be converted", what(ex))
        return
    if ex is not None:
        e.prove(wrong, "types: possible conversions are made", what(ex))
        e.cover("mismatch")
        return
    e.prove(z3.Not(wrong), "types: a wrong number of types is refused", lambda m: f"{m.eval(n)} types for {m.eval(NC)} columns")
    arrays, names = s.table
    check_arrays(e, s, arrays, names)
    e.cover("table")
    a = arrays.vc_getitem(mkint(K))
    c, t = wanted(K)
    e.prove(z3.Implies(c, a.t == t), "types: every requested column has exactly the requested type")
    e.prove(z3.Implies(z3.Not(c), a.t == T0(SORT(K))), "types: other columns keep their type")


for _k in ("all", "list", "dict"):
    for _h in ("height", "list", "none"):
        vc("C20", f"read (types: {_k}, header: {_h})", functions=("rxls.reader.common:read",), covers=("table", "impossible conversion", *(("mismatch",) if _k == "list" else ())), assumes=TRUST, budget=300)(lambda k=_k, h=_h: c20(k, h))


# ------------------------------------------------------------------------------------------------ C17: the header is looked up
def c17(by, exists):
    e, s = setup("C17")
    s.by, s.exists = by, exists
    h = pick_header(e, s, ("none", "true", "height"))
    s.size = mkint(z3.Int("lookup_size"))
    skip = fresh_int("skip_after")
    e.assume(z3.And(s.size.t >= 1, skip.t >= 0, NC >= 1))
    if by == "text":
        s.lookup = SStr(z3.String("pattern"))
    else:
        s.lookup = fresh_int("place")
        if exists or e.choose(2, "such a column"):
            e.assume(z3.And(in_range(PS), e.by["column number"].at(PS) == s.lookup.t))
        else:                       # no column has this index
            e.assume(z3.Not(z3.And(in_range(COLPOS(s.lookup.t)), COLNO(COLPOS(s.lookup.t)) == s.lookup.t)))
            e.assume(PS == -1)
    if exists:
        e.assume(z3.And(in_range(PS), RS >= 0, RS < s.size.t))
        e.assume(z3.And(RS < rows_of(PS), HIT(PS, RS)))
    s.first = RS
    e.scenario_more = by
    ex = run(e, s, header=h, lookup_head=s.lookup, lookup_size=s.size, skip_rows_after_header=skip)
    if not exists:
        if ex is None:
            e.fail("lookup: without a match the read raises", "a table is given")
        e.cover("refused")
        return
    if ex is not None:
        e.fail("lookup: a match starts the table", what(ex))
    arrays, names = s.table
    check_arrays(e, s, arrays, names)
    e.cover("found")
    a = arrays.vc_getitem(mkint(K))
    e.prove(a.off == RS + s.height + iv(skip), "lookup: the table starts at the topmost match", lambda m: f"starts at {m.eval(a.off)}; match at {m.eval(RS)}, header {m.eval(s.height)}, skipped {m.eval(iv(skip))}")


for _by in ("text", "place"):
    for _x in (True, False):
        vc("C17", f"read (lookup by {_by}, {'found' if _x else 'not found'})", functions=("rxls.reader.common:read", "rxls.reader.common:__find_header"), assumes=TRUST,
           covers=("found",) if _x else ("refused",))(lambda b=_by, x=_x: c17(b, x))


# ------------------------------------------------------------------------------------------------ C23: damaged input
STEPS = ("opening the file", "opening the workbook", "opening the sheet", "reading a cell", "adding a cell", "building an array")


def c23(header, lookup):
    e, s = setup("C23")
    s.casts = False
    s.boom_class = BOOMS[e.choose(len(BOOMS), "error")]
    s.xml, s.bin = z3.Bool("has_xlsx_workbook"), z3.Bool("has_xlsb_workbook")
    h = pick_header(e, s, (header,))
    kw = {}
    if lookup:
        s.lookup = SStr(z3.String("pattern"))
        s.size = 30
        kw = dict(lookup_head=s.lookup)
        c = e.fresh("c", I)
        e.assume(z3.And(s.found >= -1, z3.Implies(s.found >= 0, z3.And(in_range(c), s.found < rows_of(c)))))
    e.assume(z3.And(NC >= 1, in_range(K)))
    ex = run(e, s, header=h, **kw)
    if s.boom is not None:
        if ex is None:
            e.fail("damaged: an error is not swallowed", f"{type(s.boom).__name__} while {s.boom.args[0]}, but a table is given")
        x, seen = ex, 0
        while x is not None and x is not s.boom and seen < 8:
            x, seen = x.__cause__ or x.__context__, seen + 1
        if x is not s.boom:
            e.fail("damaged: the error reaches the caller", f"{what(ex)} instead of {type(s.boom).__name__} while {s.boom.args[0]}")
        return
    if ex is None:
        e.prove(z3.Or(s.xml, s.bin), "damaged: a file that is no workbook is refused")
        e.cover("table")
        return
    if e.fork(z3.Not(z3.Or(s.xml, s.bin))):
        e.cover("no workbook")
        return
    e.prove(z3.And(s.found == -1, lookup), "damaged: a sound workbook is read", what(ex))


vc("C23", "read (a step fails)", functions=("rxls.reader.common:read",), assumes=TRUST, covers=("table", "no workbook", *[f"fails: {x}" for x in STEPS]))(lambda: c23("none", False))
vc("C23", "read (a step fails, with a header)", functions=("rxls.reader.common:read",), assumes=TRUST, covers=("table", "no workbook", "fails: making the header", "fails: looking up the header"))(lambda: c23("true", True))


# ------------------------------------------------------------------------------------------------ C16: the names of the table
def c16(header):
    e, s = setup("C16")
    s.casts = False
    h = pick_header(e, s, (header,))
    kw = pick_lookup(e, s)
    skip = fresh_int("skip_after")
    e.assume(z3.And(skip.t >= 0, NC >= 1, in_range(K)))
    ex = run(e, s, header=h, skip_rows_after_header=skip, **kw)
    lost = s.found == -1 if s.lookup is not None else z3.BoolVal(False)
    if ex is not None:
        e.prove(z3.Or(lost, s.given != NC if header == "list" else z3.BoolVal(False)), "names: a sound header is accepted", what(ex))
        e.cover("refused" if header == "list" else "not found")
        return
    if header == "list":
        e.prove(s.given == NC, "names: a wrong number of names is refused", lambda m: f"{m.eval(s.given)} names for {m.eval(NC)} columns")
    arrays, names = s.table
    check_arrays(e, s, arrays, names)
    e.cover("named")
    x = names.vc_getitem(mkint(K))
    if not isinstance(x, str):
        e.fail("names: a name is a text", repr(x))
    e.prove(sv(x) == name(K), "names: column K of the table carries the K-th name", lambda m: f"{m.eval(sv(x))} instead of {m.eval(name(K))}")


for _h in ("true", "height", "list"):
    vc("C16", f"read (names, header: {_h})", functions=("rxls.reader.common:read",), assumes=TRUST, covers=("named", "refused" if _h == "list" else "not found"))(lambda h=_h: c16(h))


# ------------------------------------------------------------------------------------------------ read hands the caller's options on
def same_texts(got, want):
    if isinstance(want, str):
        return got == want
    return len(got) == len(want) and all(isinstance(g, str) and E().valid(sv(g) == sv(w)) for g, w in zip(got, want))


def options(pid):
    e, s = setup(pid)
    s.casts = False
    kind = e.choose(2, "format")
    if pid in ("C10", "C11"):
        kind = 0 if pid == "C11" else 1
    s.xml, s.bin = z3.BoolVal(kind == 0), z3.BoolVal(kind == 1)
    kw = {}
    if pid in ("C10", "C11"):
        kw = dict(skip_rows=fresh_int("skip_rows"), take_rows=fresh_int("take_rows"), take_rows_non_empty=SBool(z3.Bool("take_rows_non_empty")),
                  skip_cols=(None, [2, 5])[e.choose(2, "columns")], row_callback=(None, object())[e.choose(2, "callback")])
        e.assume(z3.And(kw["skip_rows"].t >= 0, kw["take_rows"].t >= 0))
    want = None
    if pid == "C09":
        i = e.choose(3, "formats")
        one = SStr(z3.String("format"))
        kw["datetime_formats"] = (None, ("%d.%m.%Y", "%Y"), one)[i]
        want = (None, ("%d.%m.%Y", "%Y"), (one,))[i]
    if pid == "C05":
        kw["float_precision"] = fresh_int("digits")
    if pid == "C08":
        kw["conflict_resolve"] = ("no", "temporal", "numeric", "all")[e.choose(4, "resolve")]
    e.assume(NC >= 1)
    s.want_formats, s.options = want, True
    ex = run(e, s, **kw)
    if ex is not None:
        e.fail("read: gives the table", what(ex))
    if not s.asked:
        e.fail("read: reads a sheet", "no sheet was read")
    e.cover("read")


for _p in ("C05", "C08", "C09", "C10", "C11", "C14", "C21"):
    vc(_p, "read (options)", functions=("rxls.reader.common:read",), assumes=TRUST, covers=("read",))(lambda p=_p: options(p))
