"""C05 / C07 / C08: the type and the values of a column made of any number of runs (rxls.chunk.chunk:chunk.concatenate).

One run (index q, arbitrary) and one of its cells (index j, arbitrary) are followed exactly through the real code; the other runs are
known by their kind only, and everything they may do to the shared state is explored.  Since q and j are arbitrary, what is proved
about them holds for every cell of the column."""
from __future__ import annotations
import z3
import numpy as np
import pyarrow as pa
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, is_sym, fresh_int
from vc.heap import FoldList
from vc import models_np as mn, models_pa as mp
from vc.models_np import NArr, RV, fresh_narr, track, fact_all, witness
from vc.models_pa import AArr, fresh_aarr, NUM_TEXT, TS_TEXT
from vc.loops import World
from .api import vc
from .numeric import call, size, same_rv, RKV, RKK, MSV, rk_stub, ms_stub, int_stub, narrow_ok
from .texttime import MFOK, MFMS
import rxls.chunk.casts as casts
import rxls.chunk.chunk as chunk_mod
from rxls.chunk.chunk import chunk
from rxls.constants import TYPE_NUMERIC, TYPE_STRING, TYPE_NULL, REPR_PREPARED, REPR_SHARED, REPR_RKNUMBER, REPR_TEMPORAL

I, R, S = z3.IntSort(), z3.RealSort(), z3.StringSort()
TRUST = ("pyarrow: chunked_array/combine_chunks join arrays in order; cast kernels number -> text, timestamp -> text, text -> number (uninterpreted, elementwise)",
         "numpy elementwise semantics")
NULL, NUM, TEXT, TS = range(4)
KINDN = ("gap", "numbers", "text", "timestamps")
K = z3.Function("kind_of_run", I, I)
HAS = [z3.Function(f"some_{x}_before", I, z3.BoolSort()) for x in ("gap", "number", "text", "timestamp")]
OK8, VAL8, CLS8 = mn.text_parse("f8_arrow")


def ms_of(rv):
    return MSV(z3.If(rv.k == 0, rv.r, z3.RealVal(-1)))


class Run:
    """the followed run: kind, the chunk object, and what its cell j is"""

    def __init__(self, e, j, n, forms):
        self.j, self.n = j, n
        self.form = forms[e.choose(len(forms), "run")]
        self.num = self.ms = self.text = None
        k = self.form
        if k == 0:
            self.kind, self.c = NULL, chunk.nulls(n)
        elif k in (1, 2):
            self.kind = NUM
            a = fresh_narr("number", "f8", n, "math")
            self.c = chunk(a, TYPE_NUMERIC | REPR_PREPARED | (REPR_RKNUMBER if k == 2 else 0), n)
            self.num = a.at(j)
        elif k == 3:
            self.kind = NUM
            a = fresh_narr("rk", "u4", n, "math")
            self.c = chunk(a, TYPE_NUMERIC | REPR_RKNUMBER, n)
            self.num = RV(RKV(a.at(j)), RKK(a.at(j)))
            e.assume(z3.And(self.num.k >= 0, self.num.k <= 3))
        elif k in (4, 5):
            self.kind = TS
            rk = k == 5
            a = fresh_narr("serial", "u4" if rk else "f8", n, "math")
            self.c = chunk(a, TYPE_NUMERIC | REPR_TEMPORAL | (REPR_RKNUMBER if rk else 0), n)
            self.num = RV(RKV(a.at(j)), RKK(a.at(j))) if rk else a.at(j)
            self.ms = ms_of(self.num)
        elif k == 6:
            self.kind = TS
            a = fresh_narr("moment", "i8", n, "math")
            self.c = chunk(a, TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED, n)
            self.ms = a.at(j)
        elif k == 7:
            self.kind = TEXT
            a = fresh_aarr("text", pa.large_string(), n, nulls=False)
            self.c = chunk(a, TYPE_STRING | REPR_PREPARED, n)
            self.text = a.val(j)
        else:
            self.kind = TEXT
            sst = fresh_aarr("sst", pa.large_string(), size("sst_n"))
            idx = fresh_aarr("index", pa.uint32(), n, nulls=False)
            fact_all(n, lambda i: z3.And(idx.val(i) < iv(sst.n), sst.valid(idx.val(i))))
            self.c = chunk(idx, TYPE_STRING | REPR_SHARED, n, sst)
            self.text = sst.val(idx.val(j))
        self.orig_flags, self.orig_data = self.c.type, self.c.data
        if self.kind == NUM:
            self.ms = ms_of(self.num)
        if self.kind == TEXT:
            self.num = RV(VAL8(self.text), CLS8(self.text))
            e.assume(z3.And(self.num.k >= 0, self.num.k <= 3))
            self.ms = MFMS(self.text)
        if self.num is not None:
            self.narrow, self.trunc = narrow_ok(self.num, e.precision)
        else:
            self.narrow, self.trunc = z3.BoolVal(True), None

    def cell(self, c, what):
        """obligations: chunk c still holds the run's cells (possibly converted); what: naming"""
        e = E()
        j = self.j
        f, d = c.type, c.data
        if f == TYPE_NULL:
            e.prove(self.kind == NULL and z3.And(iv(d) == iv(self.n)), f"{what}: a gap stays a gap of its length")
            return
        e.prove(self.kind != NULL, f"{what}: cells stay cells")
        if f & TYPE_STRING:
            if type(d) is not AArr:
                e.fail(f"{what}: text stays text", repr(d))
            t = d.val(j) if f & REPR_PREPARED else c.sref.val(d.val(j))
            e.prove(self.kind == TEXT and z3.And(iv(d.n) == iv(self.n), t == self.text), f"{what}: text cells keep their text")
            return
        if type(d) is not NArr:
            e.fail(f"{what}: numbers stay numbers", repr(d))
        e.prove(iv(d.n) == iv(self.n), f"{what}: no cell is added or lost")
        if f & REPR_TEMPORAL and f & REPR_PREPARED:
            e.prove(d.dt == "i8" and d.at(j) == self.ms, f"{what}: timestamps keep their moment")
            if self.kind == TEXT:
                e.prove(MFOK(self.text), f"{what}: only text that fits a format becomes a timestamp")
            return
        if f & REPR_RKNUMBER and not f & REPR_PREPARED:
            e.prove(d is self.orig_data or (d.dt == "u4" and d.at(j) == self.orig_data.at(j)), f"{what}: RK numbers keep their value")
            return
        e.prove(d.dt == "f8" and self.num is not None and same_rv(d.at(j), self.num.r, self.num.k), f"{what}: numbers keep their value")
        if self.kind == TEXT:
            e.prove(OK8(self.text), f"{what}: only text that is a number becomes one")

    def rebuild(self, f):
        """arbitrary data for a chunk of flags f, holding the run's cell at j"""
        e = E()
        j = self.j
        if f == TYPE_NULL or f == self.orig_flags:
            return self.orig_data
        if f & TYPE_STRING:
            a = fresh_aarr("text", pa.large_string(), self.n, nulls=False)
            e.assume(a.val(j) == self.text)
            return a
        if f & REPR_TEMPORAL and f & REPR_PREPARED:
            a = fresh_narr("moment", "i8", self.n, "math")
            e.assume(a.at(j) == self.ms)
            if self.kind == TEXT:
                e.assume(MFOK(self.text))
            return a
        if f & REPR_RKNUMBER and not f & REPR_PREPARED:
            return self.orig_data
        a = fresh_narr("number", "f8", self.n, "math")
        v = a.at(j)
        e.assume(z3.And(v.k == self.num.k, v.r == self.num.r))
        if self.kind == TEXT:
            e.assume(OK8(self.text))
        return a


class Other(Sym):
    """any other run: its kind is known, its cells are not"""

    def __init__(self, i, conv=False):
        self.i, self.conv = i, conv
        self._t = None

    def __hash__(self):
        return id(self)

    @property
    def kind(self):
        e = E()
        for k in range(4):
            if e.fork(K(self.i) == k):
                return k
        raise PathEnd()

    @property
    def type(self):
        if self._t is None:
            k = self.kind
            e = E()
            if k == NULL:
                self._t = TYPE_NULL
            elif k == NUM:
                self._t = TYPE_NUMERIC | (REPR_PREPARED, REPR_RKNUMBER)[e.choose(2)]
            elif k == TS:
                self._t = TYPE_NUMERIC | REPR_TEMPORAL
            elif self.conv:
                self._t = TYPE_NUMERIC | REPR_PREPARED
            else:
                self._t = TYPE_STRING | REPR_PREPARED
        return self._t

    @property
    def size(self):
        n = E().fresh("other_n", I)
        E().assume(n >= 1)
        return mkint(n)

    @property
    def data(self):
        n = E().fresh("other_n", I)
        E().assume(n >= 1)
        return fresh_narr("other", "f8", mkint(n), "math")

    @property
    def is_null(self):
        return self.kind == NULL

    @property
    def is_numeric(self):
        return bool(self.type & TYPE_NUMERIC)

    @property
    def is_temporal(self):
        return bool(self.type & REPR_TEMPORAL) and self.is_numeric

    @property
    def is_empty(self):
        return False

    def prepare(self):
        return self

    def arrow(self, dest_dtype=None):
        return fresh_aarr("other", dest_dtype or pa.large_string(), size("other_n"))

    def as_temporal(self, formats=None):
        if self.kind == TEXT and not self.conv and E().choose(2, "mf"):
            E().colworld.fail("mf")
            raise pa.ArrowInvalid()
        return Other(self.i, True)

    def as_numeric(self):
        if self.kind == TEXT and not self.conv and E().choose(2, "num"):
            E().colworld.fail("num")
            raise pa.ArrowInvalid()
        return Other(self.i, True)


class ColSeq(SView):
    """iteration over the runs"""
    __slots__ = ("get", "w")

    def __init__(self, w, get, conv):
        self.w = w
        def at(i):
            i = iv(i)
            w.unfold(i)
            if E().fork(i == w.q):
                return get()
            return Other(i, bool(conv and w.changed and E().choose(2, "converted")))
        super().__init__(mkint(w.n), at, ("col",))
        self.get = get

    def vc_comp(self, kind, cond, elt):
        if cond is not None or kind not in ("list", "gen"):
            return NotImplemented
        e = E()
        # what one run can do here any other can: the followed run is arbitrary
        for ex in sorted(e.__dict__.setdefault("others_raise", set()), key=repr):
            if e.choose(2, "another run raises"):
                raise ex("raised for another run")
        try:
            r = elt(self.get())
        except Abort:
            raise
        except Exception as ex:   # noqa: BLE001
            if type(ex) not in e.others_raise:
                e.others_raise.add(type(ex))
                e.dirty = True
            raise
        if type(r) is chunk:
            self.w.cur = r
            self.w.changed = True
            self.w.touch()
            return ColList(self.w)
        return Pieces(r)


class Pieces(Sym):
    """one array per run, in order; the one of the followed run is known"""

    def __init__(self, piece):
        self.piece = piece

    def __hash__(self):
        return id(self)

    def vc_iter(self):
        return self

    def vc_list(self):
        return self

    def vc_chunked(self, t):
        p = self.piece
        if type(p) is not AArr and not isinstance(p, pa.Array):
            E().fail("concatenate: every run becomes an array", repr(p))
        p = mp.as_aarr(p)
        if t is not None and p.type != t:
            E().fail("concatenate: every run has the type of the column", f"{p.type} in a column of {t}")
        return Column(p)


class Column(Sym):
    def __init__(self, piece):
        self.piece = piece

    def __hash__(self):
        return id(self)

    def combine_chunks(self):
        return self

    @property
    def type(self):
        return self.piece.type


class ColIn(Sym):
    """the list of runs handed to concatenate"""

    def __init__(self, w):
        self.w = w

    @property
    def __class__(self):
        return list

    def __hash__(self):
        return id(self)

    def vc_len(self):
        return mkint(self.w.n)

    def vc_iter(self):
        return ColSeq(self.w, lambda: self.w.run.c, False)

    def vc_list(self):
        if self.w.made:
            U("a second copy of the list of runs")
        self.w.made = True
        return ColList(self.w)

    copy = vc_list

    def vc_getitem(self, i):
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) == (None, None, None):
                return self.vc_list()
            U("slice of the runs")
        return self.vc_iter().vc_getitem(i)

    def __setitem__(self, i, v):
        E().prove(False, "concatenate: the column's own list of runs is not changed")


class ColList(ColIn):
    """the copy concatenate works on"""

    def __init__(self, w):
        super().__init__(w)
        w.live = self

    def vc_iter(self):
        if self.w.live is not self:
            U("two working lists of runs")
        return ColSeq(self.w, lambda: self.w.cur, True)

    def vc_list(self):
        U("a copy of the working list of runs")

    def __setitem__(self, i, v):
        w = self.w
        if w.live is not self:
            U("two working lists of runs")
        w.changed = True
        if E().fork(iv(i) == w.q):
            w.cur = v
        w.touch()


UNFOLD = {}      # terms only: the same constraint is asserted again on every path


class ColWorld(World):
    """ghost state: the working list's entry for the followed run, which kinds were met, which conversions failed"""
    name = "runs"

    def __init__(self, run, n, q):
        self.run, self.n, self.q = run, n, q
        self.cur = run.c
        self.unfolded = {}
        self.made = self.changed = False
        self.mf = self.num = z3.BoolVal(False)
        super().__init__()
        self.mark = self.loc()

    def loc(self):
        return f"{self.run.form}/{self.run.c.type}/{'-' if self.cur is self.run.c else self.cur.type}/{int(self.changed)}"

    def havoc(self, loc):
        form, a, b, ch = loc.split("/")
        e = E()
        if int(form) != self.run.form:
            raise PathEnd()
        self.changed = ch == "1"
        r = self.run
        r.c.data, r.c.type = r.rebuild(int(a)), int(a)
        if b == "-":
            self.cur = r.c
        else:
            self.cur = chunk(r.rebuild(int(b)), int(b), r.n)
        self.mf, self.num = e.fresh("mf_failed", z3.BoolSort()), e.fresh("num_failed", z3.BoolSort())
        self.mark = self.loc()

    def arrive(self, key, entry):
        if self.mark != self.loc():
            self.touch()
            self.mark = self.loc()
        if type(self.cur) is not chunk:
            E().fail("concatenate: runs stay runs", repr(self.cur))
        self.run.cell(self.run.c, "concatenate, at each step")
        self.run.cell(self.cur, "concatenate, converted run")

    def fail(self, what):
        self.touch()
        setattr(self, what, z3.BoolVal(True))

    def its(self):
        return [w for w in E().world if w.name.startswith("it:")]

    def unfold(self, i):
        e = E()
        if i.get_id() in self.unfolded:
            return
        self.unfolded[i.get_id()] = i
        c = UNFOLD.get((i.get_id(), self.run.kind))
        if c is None:
            cs = [K(i) >= 0, K(i) <= 3]
            for k in range(4):
                h = HAS[k]
                cs += [z3.Not(h(z3.IntVal(0))), h(i + 1) == z3.Or(h(i), K(i) == k)]
                if k == self.run.kind:
                    cs.append(z3.Implies(i > self.q, h(i)))     # the followed run is one of them
            c = UNFOLD[(i.get_id(), self.run.kind)] = (i, z3.simplify(z3.And(*cs)))
        e._add(c[1])

    def pos(self):
        last = next((w for w in reversed(self.its()) if w.view.tag == ("col",)), None)
        p = last.i if last is not None else z3.IntVal(0)
        self.unfold(p)
        return p

    def ghosts(self):
        p = self.pos()
        g = {f"has{k}": HAS[k](p) for k in range(1, 4)}
        g["mf_failed"], g["num_failed"], g["seen"] = self.mf, self.num, self.seen()
        return g

    def seen(self):
        its = self.its()
        seen = z3.BoolVal(False)
        if its:
            w = its[-1]
            t = w.view.tag
            if t == ("col",) or (t and t[0] == "range"):
                seen = w.i > self.q
            elif t and t[0] == "idx":
                seen = z3.And(t[1].fold.hasq, w.i > t[1].posq())
        return seen

    def facts(self):
        p = self.pos()
        return {"narrow": self.run.narrow, **{f"no{k}": z3.Not(HAS[k](p)) for k in (1, 2, 3)}, "ahead": z3.Not(self.seen()), "mf_fine": z3.Not(self.mf), "num_fine": z3.Not(self.num)}

    def guards(self):
        return ("seen",)


class IdxFold:
    """a list of run indices: is it empty, does it hold the followed run, which kinds of runs does it hold"""

    def __init__(self, w):
        self.w = w
        self.nonempty = self.hasq = z3.BoolVal(False)
        self.only = [z3.BoolVal(True)] * 4

    def terms(self):
        return {"nonempty": ("bool", self.nonempty), "hasq": ("bool", self.hasq), **{f"only{k}": ("bool", t) for k, t in enumerate(self.only)}}

    def havoc(self, name):
        e = E()
        b = lambda x: e.fresh(f"{name}_{x}", z3.BoolSort())
        self.nonempty, self.hasq, self.only = b("nonempty"), b("hasq"), [b(f"only{k}") for k in range(4)]
        e.assume(z3.Implies(self.hasq, self.nonempty))

    def step(self, i):
        i = iv(i)
        if i is None:
            U("another element in a list of run indices")
        self.nonempty = z3.BoolVal(True)
        self.hasq = z3.simplify(z3.Or(self.hasq, i == self.w.q))
        self.only = [z3.simplify(z3.And(t, K(i) == k)) for k, t in enumerate(self.only)]


class IdxList(FoldList):
    __slots__ = ("pq",)

    def __init__(self, w):
        self.pq = None
        super().__init__(IdxFold(w))

    def __bool__(self):
        return E().fork(self.fold.nonempty)

    def posq(self):
        if self.pq is None:
            self.pq = E().fresh("posq", I)
        return self.pq

    def vc_len(self):
        n = E().fresh("count", I)
        E().assume(z3.And(n >= 0, (n > 0) == self.fold.nonempty))
        return mkint(n)

    def vc_iter(self):
        e = E()
        n = iv(self.vc_len())
        f = self.fold
        p = self.posq()
        idx = z3.Function(f"{p}_at", I, I)
        e.assume(z3.Implies(f.hasq, z3.And(p >= 0, p < n)))
        w = f.w
        only, hasq = list(f.only), f.hasq

        def at(t):
            t = iv(t)
            i = idx(t)
            e.assume(z3.And(i >= 0, i < w.n, (i == w.q) == z3.And(hasq, t == p), *[z3.Implies(o, K(i) == k) for k, o in enumerate(only)]))
            return mkint(i)
        return SView(mkint(n), at, ("idx", self))


def mf_stub(fmts):
    def stub(arr, formats=None, *, strict=True):
        """contract of mf_strptime (C09)"""
        e = E()
        if type(arr) is not AArr or strict is not True:
            U("mf_strptime called another way")
        if formats is not fmts:
            e.prove(False, "concatenate: text is converted with the formats asked for", repr(formats))
        bad = lambda i: z3.And(arr.valid(i), z3.Not(MFOK(arr.val(i))))
        if e.choose(2, "mf"):
            witness(arr.n, bad)
            e.check_feasible()
            e.colworld.fail("mf")
            raise pa.ArrowInvalid()
        fact_all(arr.n, lambda i: z3.Not(bad(i)))
        e.check_feasible()
        return NArr("i8", arr.n, lambda i: MFMS(arr.val(i)), "math")
    return stub


FMTS = ("%d",)


def setup(e, forms):
    j = z3.Int("j!any")
    n = size("cells")
    e.assume(z3.And(j >= 0, j < iv(n)))
    track(j)
    p = fresh_int("precision")
    e.assume(z3.And(p.t >= 0, p.t <= 15))
    e.precision = p.t
    run = Run(e, j, n, forms)
    N, q = z3.Int("runs"), z3.Int("q!any")
    e.assume(z3.And(q >= 0, q < N, K(q) == run.kind))
    w = ColWorld(run, N, q)
    e.colworld = w
    e.on_parse_failure = lambda: w.fail("num")
    e.list_factory = lambda: IdxList(w)
    e.stubs = {casts.rk_to_f8: rk_stub, casts.f8_to_ms_win: ms_stub, casts.f8_is_i8: int_stub, casts.mf_strptime: mf_stub(FMTS)}
    return run, w, p


def concatenate(pid, forms, mode, conf_t, conf_n):
    def harness():
        e = E()
        run, w, p = setup(e, forms)
        inp = ColIn(w)
        try:
            out = chunk.concatenate(inp, conf_to_datetime=conf_t, conf_to_numerics=conf_n, datetime_formats=FMTS, float_round_prec=p)
        except Abort:
            raise
        except BaseException as ex:   # noqa: BLE001
            e.fail("concatenate: never raises", f"{type(ex).__name__}: {ex}")
        if type(out) is not Column:
            e.fail("concatenate: gives the runs joined in order", repr(out))
        o, j = out.piece, run.j
        ty = str(o.type)
        w.unfold(w.n)
        has = [HAS[k](w.n) for k in range(4)]
        t_, n_, s_ = has[TS], has[NUM], has[TEXT]
        info = lambda m: f"column type {ty}; runs: " + " ".join(KINDN[k] for k in range(4) if z3.is_true(m.eval(has[k], model_completion=True))) + f"; conflict flags {conf_t} {conf_n}"
        e.prove(iv(o.n) == iv(run.n), "concatenate: each run keeps its number of rows")
        e.prove(ty in ("large_string", "timestamp[ms]", "double", "int64"), "concatenate: a column is text, timestamps, doubles or 64-bit integers", ty)
        if mode == "type":
            if ty == "timestamp[ms]":
                e.prove(z3.And(t_, z3.Or(z3.Not(z3.Or(n_, s_)), z3.BoolVal(conf_t))), "concatenate: timestamps only where all runs are, or the strategy asks for it", info)
            elif ty in ("double", "int64"):
                e.prove(z3.And(z3.Not(t_), n_, z3.Or(z3.Not(s_), z3.BoolVal(conf_n))), "concatenate: numbers only where all runs are, or the strategy asks for it", info)
            else:
                failed = w.num if conf_n else w.mf
                e.prove(z3.Or(z3.And(z3.Not(t_), z3.Not(n_)), z3.And(t_, z3.Or(n_, s_), z3.Or(z3.BoolVal(not conf_t), failed)),
                              z3.And(z3.Not(t_), n_, s_, z3.Or(z3.BoolVal(not conf_n), w.num))),
                        "concatenate: text only where all runs are, the strategy does not ask for a conversion, or some text does not convert", info)
        e.cover(f"{KINDN[run.kind]} as {ty}")
        if run.kind == NULL:
            e.prove(z3.Not(o.valid(j)), "concatenate: gaps are null", info)
        else:
            e.prove(o.valid(j), "concatenate: no cell becomes null", info)
            v = o.val(j)
            if ty == "large_string":
                want = {TEXT: lambda: run.text, NUM: lambda: NUM_TEXT(run.num.k, z3.If(run.num.k == 0, run.num.r, z3.RealVal(0))), TS: lambda: TS_TEXT(run.ms)}[run.kind]()
                e.prove(v == want, "concatenate: in a text column every text is as stored and every other cell is the text of its own value", info)
            elif ty == "timestamp[ms]":
                if run.kind == TEXT:
                    alt = z3.And(OK8(run.text), v == ms_of(run.num)) if conf_n else z3.BoolVal(False)
                    e.prove(z3.Or(z3.And(MFOK(run.text), v == run.ms), alt), "concatenate: text becomes the timestamp it denotes", info)
                else:
                    e.prove(v == run.ms, "concatenate: numbers and timestamps become their own moment", info)
            else:
                e.prove(run.kind in (NUM, TEXT), "concatenate: only numbers and numeric text become numbers", info)
                if run.kind == TEXT:
                    e.prove(OK8(run.text), "concatenate: only text that is a number becomes one", info)
                if ty == "int64":
                    e.prove(run.narrow, "numeric column: integers only if every value rounds to its integer part and fits 64 bits", info)
                    e.prove(v == run.trunc, "numeric column: every returned integer is the integer part", info)
                else:
                    e.prove(same_rv(v, run.num.r, run.num.k), "numeric column: doubles are returned unchanged", info)
        # frame: the column can be read again
        run.cell(run.c, "concatenate leaves the column as it was")
    return harness


FUNCS = ("rxls.chunk.chunk:chunk.concatenate", "rxls.chunk.chunk:chunk.arrow", "rxls.chunk.chunk:chunk.prepare", "rxls.chunk.chunk:chunk.as_temporal", "rxls.chunk.chunk:chunk.as_numeric",
         "rxls.chunk.casts:_unsafe_array", "rxls.chunk.casts:_unsafe_arrow")
ALLC = {"gaps": "gap", "numbers": "numbers", "numbers from rk": "numbers", "serials": "timestamps", "rk serials": "timestamps", "rk numbers": "numbers", "timestamps": "timestamps", "text": "text", "shared text": "text"}
for _n, _f in (("gaps", (0,)), ("numbers", (1,)), ("numbers from rk", (2,)), ("rk numbers", (3,)), ("serials", (4,)), ("rk serials", (5,)), ("timestamps", (6,)), ("text", (7,)), ("shared text", (8,))):
    for _t in (False, True):
        for _m in (False, True):
            _k = ALLC[_n]
            _ty = {"gap": ["large_string", "double", "int64", "timestamp[ms]"],
                   "numbers": ["double", "int64"] + (["timestamp[ms]"] if _t else ["large_string"]),
                   "timestamps": ["timestamp[ms]", "large_string"],
                   "text": ["large_string"] + (["timestamp[ms]"] if _t else []) + (["double", "int64"] if _m else [])}[_k]
            _c = tuple(f"{_k} as {x}" for x in _ty)
            _nm = f"concatenate ({_n}; to timestamps: {'yes' if _t else 'no'}; to numbers: {'yes' if _m else 'no'})"
            vc("C08", _nm, functions=FUNCS, covers=_c, assumes=TRUST, budget=600)(concatenate("C08", _f, "type", _t, _m))
            if _k in ("numbers", "gap"):
                vc("C05", _nm, functions=FUNCS, covers=_c, assumes=TRUST, budget=600)(concatenate("C05", _f, "values", _t, _m))
