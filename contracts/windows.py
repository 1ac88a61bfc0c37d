"""C07: windows and masks of a column (rxls.chunk.chunk: take, null_slice, take_over)."""
from __future__ import annotations
import z3
import numpy as np
import pyarrow as pa
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, is_sym, fresh_int, slice_bounds
from vc.heap import FoldList
from vc import models_np as mn, models_pa as mp
from vc.models_np import NArr, RV, fresh_narr, track
from vc.models_pa import AArr, fresh_aarr
from vc.loops import World
from .api import vc
from .numeric import call, size, same_rv
import rxls.chunk.chunk as chunk_mod
from rxls.chunk.chunk import chunk
from rxls.constants import TYPE_NUMERIC, TYPE_STRING, TYPE_NULL, REPR_PREPARED, REPR_SHARED, REPR_RKNUMBER, REPR_TEMPORAL

I = z3.IntSort()
TRUST = ("numpy and pyarrow slicing and filtering follow their documentation",)


# ------------------------------------------------------------------------------------------------ one chunk
KINDS = ("null", "plain text", "shared text", "numbers", "timestamps", "rk numbers")


def any_chunk(e, n):
    """an arbitrary chunk of n cells and a function (chunk, i) -> terms describing cell i"""
    k = e.choose(len(KINDS), "kind")
    if k == 0:
        return k, chunk.nulls(n)
    if k == 1:
        return k, chunk(fresh_aarr("text", pa.large_string(), n, nulls=False), TYPE_STRING | REPR_PREPARED, n)
    if k == 2:
        return k, chunk(fresh_aarr("index", pa.uint32(), n, nulls=False), TYPE_STRING | REPR_SHARED, n, fresh_aarr("sst", pa.large_string(), size("sst_n")))
    if k == 3:
        return k, chunk(fresh_narr("num", "f8", n, "math"), TYPE_NUMERIC | REPR_PREPARED, n)
    if k == 4:
        p = e.choose(2, "prepared")
        return k, chunk(fresh_narr("ts", "i8" if p else "f8", n, "math"), TYPE_NUMERIC | REPR_TEMPORAL | (REPR_PREPARED if p else 0), n)
    return k, chunk(fresh_narr("rk", "u4", n, "math"), TYPE_NUMERIC | REPR_RKNUMBER | (REPR_TEMPORAL if e.choose(2, "temporal") else 0), n)


def raw(c, i):
    """the stored cell i of a chunk that is not a gap"""
    d = c.data
    if type(d) is NArr:
        return d.at(i)
    return d.val(i)


def same_raw(a, b):
    return same_rv(a, b.r, b.k) if isinstance(a, RV) else a == b


def check_taken(e, what, r, c, k, want_n, row):
    """r holds the cells row(0..want_n-1) of chunk c"""
    if type(r) is not chunk:
        e.fail(f"{what}: gives a chunk", repr(r))
    e.prove(r is not c or z3.And(iv(want_n) == iv(c.size)), f"{what}: the chunk itself is left alone")
    e.prove(iv(r.size) == want_n, f"{what}: as many cells as selected", lambda m: f"size {m.eval(iv(c.size))}")
    e.prove(r.type == c.type, f"{what}: the kind of the cells is kept", f"{r.type} for {c.type}")
    if k == 0:
        e.prove(iv(r.data) == want_n, f"{what}: a gap stays a gap of the selected length")
        return
    e.prove(r.sref is c.sref, f"{what}: the string table stays the same")
    if type(r.data) is not type(c.data):
        e.fail(f"{what}: the cells keep their representation", repr(r.data))
    t = z3.Int("t!any")
    e.assume(z3.And(t >= 0, t < want_n))
    e.check_feasible()
    e.prove(iv(r.data.n) == want_n, f"{what}: as many cells as selected")
    e.prove(same_raw(raw(r, t), raw(c, row(t))), f"{what}: the selected cells in order")


@vc("C07", "chunk.take (window)", functions=("rxls.chunk.chunk:chunk.take", "rxls.chunk.chunk:null_slice", "rxls.chunk.chunk:chunk.nulls"),
    covers=tuple(f"{a}{b}" for a in "from upto between".split() for b in KINDS), assumes=TRUST)
def take_window():
    e = E()
    n = size()
    k, c = any_chunk(e, n)
    o = fresh_int("bound")
    form = e.choose(3, "form")
    if form == 2:
        b = fresh_int("upper_bound")
        e.assume(z3.And(o.t >= 0, o.t < b.t, b.t <= iv(n)))
        s, lo, m = slice(o, b), o.t, b.t - o.t
    elif form == 0:
        e.assume(z3.And(o.t >= 0, o.t < iv(n)))
        s, lo, m = slice(o, None), o.t, iv(n) - o.t
    else:
        e.assume(z3.And(o.t >= 1, o.t <= iv(n)))
        s, lo, m = slice(o), z3.IntVal(0), o.t
    e.cover(("from", "upto", "between")[form] + KINDS[k])
    r = call(e, "chunk.take", c.take, s)
    check_taken(e, "chunk.take of a window", r, c, k, m, lambda t: lo + t)


@vc("C07", "chunk.take (mask)", functions=("rxls.chunk.chunk:chunk.take",), covers=KINDS, assumes=TRUST)
def take_mask():
    e = E()
    n = size()
    k, c = any_chunk(e, n)
    mask = fresh_aarr("mask", pa.bool_(), n, nulls=False)
    e.cover(KINDS[k])
    r = call(e, "chunk.take", c.take, mask)
    s = mask.sel()
    check_taken(e, "chunk.take of a mask", r, c, k, s.count(), s.pos)


# ------------------------------------------------------------------------------------------------ a column of chunks
SZ = z3.Function("chunk_size", I, I)
BASE = z3.Function("first_row_of_chunk", I, I)


class GChunk(Sym):
    """any chunk of the column, known by the rows it holds: cell t is row at(t) (contract of take, proved above)"""
    __slots__ = ("size", "at", "null")

    def __init__(self, n, at):
        self.size, self.at = n, at

    @property
    def is_empty(self):
        return mkbool(iv(self.size) == 0)

    def __hash__(self):
        return id(self)

    def take(self, index):
        e = E()
        n = iv(self.size)
        if isinstance(index, slice):
            if index.step is not None and index.step != 1:
                U("take of a stepped slice")
            lo = z3.IntVal(0) if index.start is None else iv(index.start)
            e.prove(z3.And(lo >= 0, z3.Or(lo < n, n == 0)), "chunk.take: windows start inside the chunk")
            if index.stop is None:
                hi = n
            else:
                e.prove(z3.And(iv(index.stop) >= 1, iv(index.stop) <= n), "chunk.take: windows end inside the chunk, after its first cell")
                if index.start is not None:
                    e.prove(lo < iv(index.stop), "chunk.take: windows hold a cell")
                hi = z3.If(iv(index.stop) < n, iv(index.stop), n)
            at = self.at
            return GChunk(mkint(z3.simplify(hi - lo)), lambda t: at(lo + t))
        if type(index) is AArr:
            e.prove(iv(index.n) == n, "chunk.take: masks are as long as the chunk")
            s = index.sel()
            at = self.at
            return GChunk(mkint(s.count()), lambda t: at(s.pos(t)))
        U("take of another index")


class ColWorld(World):
    """ghost: the loop over the chunks has passed all rows below `base`"""
    name = "col"

    form = "limited"

    def __init__(self, o, length, n, sel):
        self.o, self.length, self.n, self.sel = o, length, n, sel
        super().__init__()

    def loc(self):
        return "mask" if self.sel is not None else "open" if z3.is_int_value(self.length) else self.form

    def havoc(self, loc):
        pass

    def k(self):
        for w in E().world:
            if w.name.startswith("it:"):
                return w.i
        return z3.IntVal(0)

    def ghosts(self):
        b = BASE(self.k())
        E().assume(z3.Implies(self.k() == 0, b == 0))
        done = z3.If(b > self.o, b - self.o, z3.IntVal(0))
        g = {"rest": z3.If(self.o > b, self.o - b, z3.IntVal(0)), "done": done}
        if self.sel is None:
            g["length"] = self.length
        else:
            lim = z3.If(done < iv(self.sel.n), done, iv(self.sel.n))
            self.mono(lim)
            g["chosen"] = self.sel.cnt(lim)
        return g

    def mono(self, x):
        s = self.sel
        E().assume(z3.And(z3.Implies(x <= iv(s.n), s.cnt(x) <= s.count()), s.cnt(x) >= 0, z3.Implies(x <= 0, s.cnt(x) == 0)))


def column(e):
    """an arbitrary list of chunks: rows 0 .. T-1"""
    n = fresh_int("chunks")
    e.assume(n.t >= 0)
    T = BASE(n.t)
    e.assume(z3.And(T >= 0, BASE(z3.IntVal(0)) == 0))

    def at(i):
        i = iv(i)
        e.assume(z3.And(SZ(i) >= 1, BASE(i + 1) == BASE(i) + SZ(i), z3.Implies(z3.And(i >= 0, i < n.t), z3.And(BASE(i) >= 0, BASE(i + 1) <= T))))
        b = BASE(i)
        return GChunk(mkint(SZ(i)), lambda t: b + t)
    return n, T, SView(n, at)


class RowFold:
    """result rows so far; each appended piece must hold the next rows asked for"""

    def __init__(self, want, limit, T):
        self.total = z3.IntVal(0)
        self.want, self.limit, self.T = want, limit, T

    def terms(self):
        return {"total": ("int", self.total)}

    def havoc(self, name):
        self.total = E().fresh(name + "_rows", I)

    def step(self, x):
        e = E()
        n = iv(x.size)
        e.prove(n >= 0, "take_over: pieces have a length")
        t = e.fresh("t", I)
        inside = z3.And(t >= 0, t < n)
        if self.limit is not None:
            e.prove(z3.Implies(inside, self.total + t < self.limit), "take_over: not more rows than asked for")
        w = self.want(z3.simplify(self.total + t))
        if type(x) is GChunk:
            e.prove(z3.Implies(inside, x.at(t) == w), "take_over: the rows asked for, in order, each from its own place in the column",
                    lambda m: f"result row {m.eval(self.total + t)}: wanted row {m.eval(w)}, got row {m.eval(x.at(t))}")
        elif type(x) is chunk and x.type == TYPE_NULL:
            e.prove(iv(x.data) == n, "take_over: padding of the stated length")
            e.prove(z3.Implies(inside, w >= self.T), "take_over: only rows beyond the end are padded", lambda m: f"result row {m.eval(self.total + t)}, sheet row {m.eval(w)}, column length {m.eval(self.T)}")
        else:
            U("another piece of a column")
        self.total = z3.simplify(self.total + n)


def take_over_vc(masked):
    def harness():
        e = E()
        n, T, view = column(e)
        o = fresh_int("offset")
        e.assume(o.t >= 0)
        if masked:
            mask = fresh_aarr("mask", pa.bool_(), size("mask_n"), nulls=False)
            s = mask.sel()
            w = ColWorld(o.t, None, n.t, s)
            limit = s.count()

            def want(t):
                p = s.pos(t)
                s.unfold(p)
                e.assume(z3.And(z3.Implies(p + 1 <= T - o.t, s.cnt(p + 1) <= s.cnt(z3.simplify(T - o.t))), z3.Implies(p + 1 <= iv(mask.n), s.cnt(p + 1) <= s.count())))
                return o.t + p
            total = s.count()
            ln = 0
        else:
            mask, s = None, None
            form = e.choose(3, "limited")
            if form == 2:           # nothing is left: the reader asks for a negative number of rows behind the end
                l = fresh_int("length")
                e.assume(z3.And(l.t < 0, o.t >= T))
                ln, limit, total = l, None, z3.IntVal(0)
                e.cover("nothing left")
            elif form:
                l = fresh_int("length")
                e.assume(l.t >= 1)
                ln, limit, total = l, l.t, l.t
                e.cover("limited")
            else:
                ln, limit, total = 0, None, z3.If(T > o.t, T - o.t, z3.IntVal(0))
                e.cover("open")
            w = ColWorld(o.t, iv(ln), n.t, None)
            w.form = ("open", "limited", "nothing left")[form]
            e.scenario = "@" + w.form
            want = lambda t: o.t + t
        e.list_factory = lambda: FoldList(RowFold(want, limit, T))
        r = call(e, "take_over", chunk.take_over, view, o, ln, mask)
        if type(r) is not FoldList:
            e.fail("take_over: gives the list of pieces", repr(r))
        if masked:
            e.cover("masked")
            # all selected rows
            lim = z3.If(z3.If(T > o.t, T - o.t, z3.IntVal(0)) < iv(mask.n), T - o.t, iv(mask.n))
        e.prove(r.fold.total == total, "take_over: exactly as many rows as asked for", lambda m: f"column of {m.eval(T)} rows, offset {m.eval(o.t)}: {m.eval(r.fold.total)} rows instead of {m.eval(total)}")
    return harness


vc("C07", "take_over (window)", functions=("rxls.chunk.chunk:chunk.take_over",), covers=("limited", "open", "nothing left"), assumes=TRUST)(take_over_vc(False))
vc("C07", "take_over (mask)", functions=("rxls.chunk.chunk:chunk.take_over",), covers=("masked",), assumes=TRUST)(take_over_vc(True))
