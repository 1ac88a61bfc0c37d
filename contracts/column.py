"""C06: a column collects every cell at its own row (rxls.series:xl_series, the constructors of rxls.chunk.chunk:chunk).

`xl_series` is a data structure: its invariant is stated over its private state (finished pieces, pending gap, open run), every public
operation is started in an arbitrary state satisfying the invariant, and one arbitrary row `rho` of the column is observed.  The
finished pieces are known through a ghost fold: the number of rows they hold, and what the piece covering `rho` holds there."""
from __future__ import annotations
import z3
import numpy as np
import pyarrow as pa
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, is_sym, fresh_int, ArrII, U
from vc.heap import FoldList, HeapObj
from vc import models_np as mn, models_pa as mp
from vc.models_np import NArr, RV, track, fact_all
from vc.models_pa import AArr, fresh_aarr
from .api import vc
from .numeric import call, size, same_rv, RKV, RKK
import rxls.series as series_mod
from rxls.series import xl_series
from rxls.cell import cell
import rxls.chunk.chunk as chunk_mod
from rxls.chunk.chunk import chunk
from rxls.constants import TYPE_NUMERIC, TYPE_STRING, TYPE_NULL, REPR_PREPARED, REPR_SHARED, REPR_RKNUMBER, REPR_TEMPORAL, REPR_BOOLEAN

I, S = z3.IntSort(), z3.StringSort()
TRUST = ("numpy.fromiter / frombuffer and pyarrow.array build arrays from their items in order",
         "cells are well formed: shared string numbers are in range, XLSB values have the length their kind defines")

# kinds of cells the two readers deliver
XLSB = ((TYPE_STRING | REPR_SHARED, "sst4"), (TYPE_STRING | REPR_PREPARED, "str"), (TYPE_NUMERIC | REPR_PREPARED, "b8"), (TYPE_NUMERIC | REPR_RKNUMBER, "b4"),
        (TYPE_NUMERIC | REPR_TEMPORAL, "b8"), (TYPE_NUMERIC | REPR_RKNUMBER | REPR_TEMPORAL, "b4"), (TYPE_NUMERIC | REPR_BOOLEAN, "b1"))
XLSX = ((TYPE_STRING | REPR_SHARED, "sstt"), (TYPE_STRING | REPR_PREPARED, "enc"), (TYPE_NUMERIC, "enc"), (TYPE_NUMERIC | REPR_TEMPORAL, "enc"))
NAMES = {TYPE_STRING | REPR_SHARED: "shared text", TYPE_STRING | REPR_PREPARED: "text", TYPE_NUMERIC | REPR_PREPARED: "doubles", TYPE_NUMERIC | REPR_RKNUMBER: "rk numbers",
         TYPE_NUMERIC | REPR_TEMPORAL: "serials", TYPE_NUMERIC | REPR_RKNUMBER | REPR_TEMPORAL: "rk serials", TYPE_NUMERIC | REPR_BOOLEAN: "booleans", TYPE_NUMERIC: "numbers"}
WIDTH = {"sst4": 4, "b4": 4, "b8": 8, "b1": 1}


def payload(x):
    """(form, term) of a cell's value"""
    if type(x) is SBytes:
        if z3.is_int_value(z3.simplify(x.n)) and z3.is_int_value(z3.simplify(x.off)) and z3.simplify(x.off).as_long() == 0:
            return z3.simplify(x.n).as_long(), x.base
        U("cell value of symbolic length")
    if type(x) is SStr:
        return "str", sv(x)
    if type(x) is SEnc and x.codec.replace("-", "").lower() == "utf8":
        return "enc", sv(x.s)
    U(f"cell value {x!r}")


def value(form, t):
    if form == "str":
        return SStr(t)
    if form == "enc":
        return SEnc(SStr(t), "utf-8")
    return SBytes(t, z3.IntVal(0), z3.IntVal(form))


class OpenList(HeapObj):
    """a list of symbolic length whose elements all have one form"""
    __slots__ = ("n", "form", "term")

    def __init__(self, n, form, term):
        self.n, self.form, self.term = n, form, term
        self._reg()

    @property
    def __class__(self):
        return list

    def vc_len(self):
        return mkint(self.n)

    def __len__(self):
        U("len() of an abstract list in native code")

    def __bool__(self):
        return E().fork(self.n > 0)

    def vc_iter(self):
        form, term = self.form, self.term
        return SView(mkint(self.n), lambda i: value(form, term(iv(i))))

    def __iter__(self):
        U("iteration over an abstract list in native code")

    def vc_getitem(self, k):
        return self.vc_iter().vc_getitem(k)

    __getitem__ = vc_getitem

    def copy(self):
        return OpenList(self.n, self.form, self.term)

    def append(self, x):
        self.touch()
        f, t = payload(x)
        if self.form is not None and f != self.form:
            if E().fork(self.n > 0):
                E().fail("series: an open run holds cells of one kind only", f"{f} after {self.form}")
            self.form = None
        n, old = self.n, self.term
        if self.form is None:
            self.form, self.term = f, lambda i: t
        else:
            self.term = lambda i: z3.If(i == n, t, old(i))
        self.n = z3.simplify(n + 1)

    def extend(self, xs):
        if is_sym(xs) and not (type(xs).__name__ == "SList" and xs.items is not None):
            U("an open run extended by a symbolic sequence")
        for x in list(xs):
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def clear(self):
        self.touch()
        self.n, self.form, self.term = z3.IntVal(0), None, None


def as_open(op):
    """a list of known shape as an OpenList"""
    xs = op if type(op) is list else op.items if type(op).__name__ == "SList" else None
    if xs is None:
        return op
    op = OpenList(z3.IntVal(0), None, None)
    for x in xs:
        op.append(x)
    return op


def attr(n):
    return f"_xl_series__{n}"


class Want:
    """what the observed row holds: None (null) or (cell kind, form, payload term)"""

    def __init__(self, binary, sst, k=None, form=None, t=None):
        self.binary, self.sst, self.k, self.form, self.t = binary, sst, k, form, t

    def number(self):
        """RV of a numeric cell"""
        k, t = self.k, self.t
        if not self.binary:
            ok, val, cls = mn.text_parse("f8")
            return RV(val(t), cls(t))
        b = lambda q: iv(SBytes(t, z3.IntVal(0), z3.IntVal(self.form)).at(z3.IntVal(q)))
        w = z3.IntVal(0)
        for q in range(self.form):
            w = w + b(q) * (1 << (8 * q))
        if k & REPR_RKNUMBER:
            return w
        if k & REPR_BOOLEAN:
            return RV(z3.ToReal(w), z3.IntVal(0))
        return RV(mn.F8BITS(w), mn.F8KIND(w))

    def index(self):
        if self.binary:
            return z3.simplify(sum((iv(SBytes(self.t, z3.IntVal(0), z3.IntVal(4)).at(z3.IntVal(q))) * (1 << (8 * q)) for q in range(4)), z3.IntVal(0)))
        return mn.text_parse("int")[1](self.t)

    def holds(self, x, j, what):
        """obligations: cell j of the finished piece x is the wanted cell"""
        e = E()
        f, d = x.type, x.data
        if f == TYPE_NULL:
            e.prove(self.k is None, f"{what}: only rows without a cell are null")
            return
        e.prove(self.k is not None, f"{what}: rows without a cell are null")
        if f & TYPE_STRING:
            if type(d) is not AArr:
                e.fail(f"{what}: text is kept in an array", repr(d))
            e.prove(d.valid(j), f"{what}: no text becomes null")
            if f & REPR_SHARED and not f & REPR_PREPARED:
                e.prove(str(d.type) in {"uint32", "int64", "uint64"} and x.sref is self.sst, f"{what}: shared strings refer to the workbook's table")
                e.prove(bool(self.k & TYPE_STRING and self.k & REPR_SHARED) and d.val(j) == self.index(), f"{what}: a shared string cell holds its own string number at its own row")
                return
            e.prove(str(d.type) == "large_string", f"{what}: text array", str(d.type))
            ok = mn.text_parse("f8")[0]
            if self.k & TYPE_NUMERIC:
                # XLSX: a run of number cells of which one is not a number is kept as text
                ws = [w for w in mn.indices() if not z3.eq(w, j)]
                e.prove(not self.binary and z3.Or(*[z3.And(w >= 0, w < iv(x.size), z3.Not(ok(d.val(w)))) for w in ws]) if ws else False,
                        f"{what}: number cells stay numbers unless one of them is not a number")
            else:
                e.prove(not self.k & REPR_SHARED, f"{what}: a shared string number is not a text")
            e.prove(d.val(j) == self.t, f"{what}: a text cell holds its own text at its own row")
            return
        if type(d) is not NArr:
            e.fail(f"{what}: numbers are kept in an array", repr(d))
        e.prove(bool(self.k & TYPE_NUMERIC), f"{what}: text is not a number")
        e.prove(bool(f & REPR_TEMPORAL) == bool(self.k & REPR_TEMPORAL), f"{what}: dates stay dates, numbers stay numbers")
        want = self.number()
        if f & REPR_RKNUMBER and not f & REPR_PREPARED:
            e.prove(d.dt == "u4" and bool(self.k & REPR_RKNUMBER), f"{what}: RK numbers keep their representation")
            e.prove(d.at(j) == want, f"{what}: an RK cell holds its own word at its own row")
            return
        if type(want) is not RV:
            e.prove(False, f"{what}: RK numbers keep their representation")
        e.prove(d.dt == "f8", f"{what}: numbers are doubles", d.dt)
        e.prove(same_rv(d.at(j), want.r, want.k), f"{what}: a number cell holds its own number at its own row")


class Pieces:
    """fold over the finished pieces: their rows so far, and the obligation on the piece covering the observed row"""

    def __init__(self, total, rho):
        self.total, self.rho, self.want = total, rho, None
        self.recount("pieces")

    def recount(self, name):
        """how many pieces there are: none is empty (an obligation of every step), so none exactly when there are no rows"""
        self.count = E().fresh(name + "_count", I)
        E().assume(z3.And(self.count >= 0, self.count <= self.total, (self.count == 0) == (self.total == 0)))

    def terms(self):
        return {"total": ("int", self.total)}

    def havoc(self, name):
        self.total = E().fresh(name + "_rows", I)
        E().assume(self.total >= 0)
        self.recount(name)

    def step(self, x):
        e = E()
        if type(x) is not chunk:
            e.fail("series: a finished run is a chunk", repr(x))
        n = iv(x.size)
        f, d = x.type, x.data
        e.prove(n >= 1, "series: no finished piece is empty")
        if f == TYPE_NULL:
            e.prove(iv(d) == n, "series: a gap has the stated length")
        else:
            if type(d) not in (NArr, AArr):
                e.fail("series: a finished run holds an array", repr(d))
            e.prove(iv(d.n) == n, "series: a finished run has the stated length")
            if f & TYPE_STRING:
                e.prove(f in (TYPE_STRING | REPR_PREPARED, TYPE_STRING | REPR_SHARED), "series: kinds of text runs", hex(f))
            else:
                e.prove(f in (TYPE_NUMERIC | REPR_PREPARED, TYPE_NUMERIC | REPR_PREPARED | REPR_RKNUMBER, TYPE_NUMERIC | REPR_RKNUMBER, TYPE_NUMERIC | REPR_TEMPORAL,
                              TYPE_NUMERIC | REPR_TEMPORAL | REPR_RKNUMBER), "series: kinds of number runs", hex(f))
        t0 = self.total
        self.total, self.count = z3.simplify(t0 + n), z3.simplify(self.count + 1)
        if self.want is None:
            return
        if e.fork(z3.And(self.rho >= t0, self.rho < t0 + n)):
            j = z3.simplify(self.rho - t0)
            track(j)
            self.want.holds(x, j, "series: finished run" if f else "series: gap")


class Chunks(FoldList):
    __slots__ = ()

    def __bool__(self):
        return E().fork(self.fold.total > 0)

    def vc_len(self):
        return mkint(self.fold.count)

    def __len__(self):
        U("len() of an abstract list in native code")


class State:
    """an arbitrary reachable state of a column of one reader, observed at row rho"""

    def __init__(self, e, binary, k0, strategy="no"):
        self.binary, self.k0 = binary, k0
        kinds = XLSB if binary else XLSX
        self.form = dict(kinds)[k0]
        self.sst = fresh_aarr("sst", pa.large_string(), size("sst_n"))
        self.prec, self.formats = fresh_int("precision"), ("%H",)
        s = call(e, "xl_series", xl_series, self.sst, binary, conflict_resolve=strategy, datetime_formats=self.formats, float_precision=self.prec)
        self.s = s
        T, off, m = z3.Ints("T gap m")
        e.assume(z3.And(T >= 0, off >= 0, m >= 0, z3.Implies(m == 0, off == 0)))
        self.T, self.off, self.m = T, off, m
        self.last = z3.simplify(T + off + m - 1)
        self.rho = z3.Int("rho")
        e.assume(self.rho >= 0)
        self.pieces = Pieces(T, self.rho)
        self.items = self.fresh_items("cell")
        setattr(s, attr("chunks"), Chunks(self.pieces))
        setattr(s, attr("chunk"), OpenList(m, self.pform(self.form), self.items))
        setattr(s, attr("xdtr"), k0)
        if hasattr(s, attr("ch_off")):
            setattr(s, attr("ch_off"), mkint(off))
        else:
            e.assume(off == 0)
        setattr(s, attr("e_row"), mkint(self.last))
        sr = z3.Int("first_row")
        e.assume(z3.And(sr >= -1, sr <= self.last, (sr == -1) == (self.last == -1)))
        if hasattr(s, attr("s_row")):
            setattr(s, attr("s_row"), mkint(sr))

    def pform(self, form):
        return WIDTH.get(form) or {"sstt": "enc"}.get(form, form)

    def fresh_items(self, name):
        f = self.form
        if self.pform(f) in ("str", "enc"):
            fn = z3.Function(name + "_text", I, S)
            if f == "sstt":
                ok, val, _ = mn.text_parse("int")
                fact_all(mkint(self.m), lambda i: z3.And(ok(fn(i)), val(fn(i)) >= 0, val(fn(i)) < 1 << 32))
            return fn
        return z3.Function(name + "_bytes", I, ArrII)

    def want(self, k=None, form=None, t=None):
        return Want(self.binary, self.sst, k, form, t)

    def observe(self, e, after):
        """choose where the observed row lies before the operation; sets the obligation on it"""
        T, off, m, rho = self.T, self.off, self.m, self.rho
        where = ("finished", "gap", "open", *after)[e.choose(3 + len(after), "rho")]
        if where == "finished":
            e.assume(rho < T)
            w = None
        elif where == "gap":
            e.assume(z3.And(rho >= T, rho < T + off))
            w = self.want()
        elif where == "open":
            e.assume(z3.And(rho >= T + off, rho < T + off + m))
            w = self.want(self.k0, self.pform(self.form), self.items(z3.simplify(rho - T - off)))
        e.check_feasible() if where in ("finished", "gap", "open") else None
        return where, (w if where in ("finished", "gap", "open") else None)

    def check(self, e, last, w, where, what, info=None):
        """the invariant and the observed row, after an operation"""
        s = self.s
        ch, op = getattr(s, attr("chunks")), getattr(s, attr("chunk"))
        if type(ch) is not Chunks or ch.fold is not self.pieces:
            e.fail(f"{what}: finished pieces are kept", repr(ch))
        op = as_open(op)
        if type(op) is not OpenList:
            e.fail(f"{what}: the open run is a list", repr(op))
        off, x, er = iv(getattr(s, attr("ch_off"), 0)), getattr(s, attr("xdtr")), iv(getattr(s, attr("e_row")))
        T = self.pieces.total
        e.prove(er == last, f"{what}: the last row is the last delivered row", info)
        e.prove(iv(call(e, "len", s.__len__)) == last + 1, f"{what}: the length is the last row plus one", info)
        e.prove(z3.And(T >= 0, off >= 0, T + off + op.n == last + 1), f"{what}: finished pieces, gap and open run hold exactly the rows up to the last one", info)
        e.prove(z3.Implies(op.n == 0, off == 0), f"{what}: a gap is followed by a cell", info)
        if where in ("finished", "beyond"):
            return
        rho = self.rho
        if e.fork(rho < T):
            return                       # already checked on the finished piece
        if e.fork(rho < T + off):
            e.prove(w.k is None, f"{what}: only rows without a cell are null", info)
            return
        e.prove(w.k is not None, f"{what}: rows without a cell are null", info)
        e.prove(not is_sym(x) and x == w.k, f"{what}: an open run holds cells of one kind", f"{x} for {w.k}")
        if op.form != w.form:
            e.fail(f"{what}: the open run holds the cells' values", f"{op.form} for {w.form}")
        e.prove(op.term(z3.simplify(rho - T - off)) == w.t, f"{what}: every cell of the open run is at its own row", info)


def add_vc(binary, k0):
    kinds = XLSB if binary else XLSX

    def harness():
        e = E()
        st = State(e, binary, k0)
        # a new cell of any kind, in the same or a later row
        k1, form1 = kinds[e.choose(len(kinds), "cell kind")]
        row = fresh_int("row")
        e.assume(z3.And(row.t >= 0, row.t >= st.last))
        pf = st.pform(form1)
        t = z3.Const("val", S if pf in ("str", "enc") else ArrII)
        if e.choose(2, "reset") == 1:
            # no open run of a known kind (before the first cell)
            e.assume(st.m == 0)
            setattr(st.s, attr("xdtr"), 0)
        where, w = st.observe(e, ("between", "cell"))
        if where == "between":
            e.assume(z3.And(st.rho > st.last, st.rho < row.t))
            w = st.want()
        elif where == "cell":
            e.assume(z3.And(st.rho == row.t, st.rho > st.last))
            w = st.want(k1, pf, t)
        e.check_feasible()
        st.pieces.want = w
        e.cover(where)
        e.cover(f"then {NAMES[k1]}")
        col = fresh_int("col")
        r = call(e, "series.add", st.s.add, cell(row, col, k1, value(pf, t)))
        last = z3.If(row.t > st.last, row.t, st.last)
        info = lambda m: (f"{m.eval(st.T)} finished rows, gap {m.eval(st.off)}, open run of {m.eval(st.m)} {NAMES[k0]}; new cell ({NAMES[k1]}) at row {m.eval(row.t)}; "
                          f"observed row {m.eval(st.rho)}")
        e.prove(iv(r) == last, "series.add: returns the last row", info)
        st.check(e, last, w, where, "series.add", info)
        op = as_open(getattr(st.s, attr("chunk")))
        if e.fork(row.t > st.last):
            e.prove(type(op) is OpenList and op.n >= 1, "series.add: a new cell is collected")
        if type(op) is OpenList and e.fork(op.n > 0):
            x = getattr(st.s, attr("xdtr"))
            e.prove(not is_sym(x) and x in dict(kinds) and st.pform(dict(kinds)[x]) == op.form, "series.add: an open run holds cells of one kind")
    return harness


CONSTR = ("rxls.chunk.chunk:chunk.nulls", "rxls.chunk.casts:_unsafe_data_to_array", "rxls.chunk.casts:_unsafe_data_to_arrow", "rxls.chunk.casts:_unsafe_strings_to_array")
for _bin, _kinds in ((True, XLSB), (False, XLSX)):
    for _k, _f in _kinds:
        _x = "xlsb" if _bin else "xlsx"
        for _p in ("C06", "C15") + (("C24",) if _bin else ()):
            vc(_p, f"add ({_x}, open run of {NAMES[_k]})", functions=("rxls.series:xl_series.add", "rxls.series:xl_series.__pull_chunk", "rxls.series:xl_series.__len__",
                                                                       "rxls.series:xl_series.__init__", f"rxls.chunk.chunk:chunk.{_x}_strings", f"rxls.chunk.chunk:chunk.{_x}_numeric", *CONSTR),
               covers=("finished", "gap", "open", "between", "cell", *[f"then {NAMES[q]}" for q, _ in _kinds]), assumes=TRUST)(add_vc(_bin, _k))


# ------------------------------------------------------------------------------------------------ reading
STRATEGIES = {"no": (False, False), "temporal": (True, False), "numeric": (False, True), "all": (True, True)}


def read_vc(binary, how):
    kinds = XLSB if binary else XLSX

    def harness():
        e = E()
        strat = list(STRATEGIES)[e.choose(4, "strategy")]
        k0 = kinds[e.choose(len(kinds), "kind")][0]
        st = State(e, binary, k0, strat)
        where, w = st.observe(e, ("beyond",))
        if where == "beyond":
            e.assume(st.rho > st.last)
        st.pieces.want = w
        off, ln = fresh_int("offset"), fresh_int("length")
        e.assume(z3.And(off.t >= 0, ln.t >= 0))
        idx = None
        if e.choose(2, "mask"):
            e.assume(ln.t == 0)
            idx = fresh_aarr("mask", pa.bool_(), size("mask_n"), nulls=False)
        calls = []

        def concat_stub(*a, **k):
            names = ("chunks", "offset", "length", "idx")
            calls.append((dict(zip(names, a)), k, len(e.heap)))
            got = {"offset": 0, "length": 0, "idx": None, "conf_to_datetime": False, "conf_to_numerics": False, "datetime_formats": None, "float_round_prec": 6, **calls[-1][0], **k}
            cs = got["chunks"]
            e.prove(type(cs) is Chunks and cs.fold is st.pieces, f"series.{how}: all finished pieces are read")
            e.prove(st.pieces.total == st.last + 1, f"series.{how}: the pieces read hold every row of the column")
            e.prove(iv(got["offset"]) == off.t, f"series.{how}: reads from the row asked for")
            e.prove(iv(got["length"]) == ln.t, f"series.{how}: reads as many rows as asked for")
            e.prove(got["idx"] is idx, f"series.{how}: reads the rows the mask selects")
            e.prove((bool(got["conf_to_datetime"]), bool(got["conf_to_numerics"])) == STRATEGIES[strat], f"series.{how}: conflicts are resolved as asked", f"{strat}: {got['conf_to_datetime']} {got['conf_to_numerics']}")
            e.prove(got["datetime_formats"] == st.formats, f"series.{how}: the datetime formats asked for are used")
            e.prove(iv(got["float_round_prec"]) == st.prec.t, f"series.{how}: the precision asked for is used")
            return fresh_aarr("result", pa.float64(), size("rows"), nulls=True)
        e.stubs = {chunk.concatenate: concat_stub}
        r = call(e, f"series.{how}", getattr(st.s, how), off, ln, idx=idx)
        st.check(e, st.last, w, where, f"series.{how}")
        if not calls:
            e.cover("empty")
            e.prove(st.last == -1, f"series.{how}: only a column without cells has no pieces")
            if idx is None:
                e.prove(iv(r.n if type(r) is AArr else len(r)) == ln.t, f"series.{how}: an empty column gives as many nulls as asked for")
            if type(r) is AArr:
                j = z3.Int("j!any")
                e.prove(z3.Implies(z3.And(j >= 0, j < iv(r.n)), z3.Not(r.valid(j))), f"series.{how}: an empty column holds nulls only")
            if how == "to_utf8":
                e.prove(str(r.type) == "large_string", f"series.{how}: gives text", str(r.type))
        else:
            e.cover("read")
            e.prove(len(calls) == 1 and type(r) is AArr and str(r.type) == ("large_string" if how == "to_utf8" else "double"), f"series.{how}: gives the resolved column{' as text' if how == 'to_utf8' else ''}")
    return harness


for _bin in (True, False):
    for _h in ("to_arrow", "to_utf8"):
        _x = "xlsb" if _bin else "xlsx"
        for _p in ("C06", "C07", "C08") + ((("C15", "C04") + (("C03", "C24") if _bin else ())) if _h == "to_arrow" else ()):
            vc(_p, f"{_h} ({_x})", functions=(f"rxls.series:xl_series.{_h}", "rxls.series:xl_series.__pull_chunk", "rxls.series:xl_series.__init__"), covers=("read", "empty"), assumes=TRUST)(read_vc(_bin, _h))


@vc("C06", "a new column is empty", functions=("rxls.series:xl_series.__init__", "rxls.series:xl_series.__len__"))
def new_column():
    e = E()
    s = call(e, "xl_series", xl_series, fresh_aarr("sst", pa.large_string(), size("sst_n")), bool(e.choose(2)))
    e.prove(iv(call(e, "len", s.__len__)) == 0, "a new column has no rows")
    g = lambda n: getattr(s, attr(n))
    e.prove(length(g("chunks")) == 0 and length(g("chunk")) == 0 and getattr(s, attr("ch_off"), 0) == 0 and g("e_row") == -1, "a new column satisfies the column invariant")
    e.prove(not is_sym(g("xdtr")) and g("xdtr") == 0, "a new column has no open run")
