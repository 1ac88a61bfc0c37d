"""C11 / C14 / C15 / C23: the XLSX worksheet iterator (rxls.reader.xlsx:XlsxWorkbook.iter_worksheet).

The sheet is an arbitrary document (expat model): rows, cells with their reference, type and style attributes and at most one value each, text in
any number of pieces, foreign elements anywhere.  A ghost machine reads the same document and keeps what the properties talk about.
The worker thread and its queue are modelled (vc.models_thread); every cell put into the queue is checked where it is put, the consumer has to hand on every item,
end when the worker ended, and raise what the worker raised."""
from __future__ import annotations
import builtins, queue, threading
import z3
import pyexpat
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, bv_, is_sym, U, strip_f, eq_term
from vc.models_xml import Doc, TextList, Attrs, parser_create
from vc import models_thread as mt
from .api import vc
from .numeric import call
from .parts import Zip, XML_TRUST
from .xlsb_sheet import SPred, Part, SKIPC, options, InSet
import rxls.reader.xlsx as xlsx
from rxls.cell import cell
from rxls.constants import TYPE_NUMERIC, TYPE_STRING, REPR_PREPARED, REPR_SHARED, REPR_TEMPORAL

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
NULLP = z3.Function("null_value", S, B)
NULLSST = z3.Function("null_shared_string", S, B)
DATE = z3.Function("date_style", S, B)
NUM = z3.Function("number_style", S, B)
COL = z3.Function("column_of", S, I)
TXT, SHARED, NUMBER, DATED = TYPE_STRING | REPR_PREPARED, TYPE_STRING | REPR_SHARED, TYPE_NUMERIC, TYPE_NUMERIC | REPR_TEMPORAL
TRUST = (*XML_TRUST[:2], "one producer thread and SimpleQueue: items arrive in the order they were put, Thread.join waits for the end of the thread")


class Strs(InSet):
    """a non-empty set of texts known by its membership predicate"""
    __slots__ = ()

    def vc_in(self, x):
        if not isinstance(x, str):
            E().fail("xlsx sheet: shared strings are tested by the text of their number", repr(x))
        return mkbool(self.f(sv(x)))

    def vc_contains(self, x):
        return self.vc_in(x)

    def vc_set(self):
        return self

    copy = vc_list = vc_set


class Styles(Sym):
    """the style table by its contract (C15): date and number styles"""
    __slots__ = ()

    def get(self, k, d=None):
        e = E()
        if not isinstance(k, str):
            e.fail("xlsx sheet: styles are looked up by the style of the cell", repr(k))
        if e.fork(DATE(sv(k))):
            return DATED
        if e.fork(NUM(sv(k))):
            return NUMBER
        return d

    def vc_getitem(self, k):
        r = self.get(k)
        if r is None:
            raise KeyError(k)
        return r

    __getitem__ = vc_getitem

    def vc_contains(self, k):
        return mkbool(z3.Or(DATE(sv(k)), NUM(sv(k))))

    def __contains__(self, k):
        return bool(self.vc_contains(k))

    def __bool__(self):
        return E().choose(2, "styles") == 0

    def copy(self):
        return self

    vc_dict = copy


class Sheet(Doc):
    name = "sheet"
    key = "rxls.reader.xlsx:XlsxWorkbook.iter_worksheet"
    GRAMMAR = {"out": {"row": "row"}, "row": {"c": "c"}, "c": {"v": "v"}, "c2": {}, "v": {}}
    TEXT = ("v",)

    def __init__(self, o, malformed):
        self.o = o
        self.idx, self.kept = z3.IntVal(0), z3.IntVal(0)
        self.data, self.stop = z3.BoolVal(False), z3.BoolVal(False)
        self.txt = self.ref = z3.StringVal("")
        self.typ, self.other = z3.IntVal(0), z3.BoolVal(False)
        self.out, self.want = [], None
        super().__init__(malformed)
        self.parent["c2"], self.tag["c2"] = "row", "c"

    def texts(self):
        return ("v", "c", "")

    def ghosts(self):
        sk = self.o["skip"]
        g = {"rows": self.idx, "row": z3.If(self.inside(), self.kept + sk, self.idx), "kept": self.kept, "data": self.data, "inside": self.inside(), "stop": self.stop, "skip": sk}
        if self.place.rstrip("+") in ("c", "c2", "v"):
            g.update(ref=self.ref, typ=self.typ, shared=self.typ == SHARED)
        if self.place == "v":
            g["text"] = self.txt
        return g

    def guards(self):
        return {"inside"}

    def facts(self):
        return {**Doc.facts(self), "running": z3.Not(self.stop), "kept>=0": self.kept >= 0, "rows>=0": self.idx >= 0, "first": z3.Implies(self.idx <= self.o["skip"], self.kept == 0),
                "kept<=": z3.Implies(self.idx >= self.o["skip"], self.kept <= self.idx - self.o["skip"]), "before": z3.Implies(self.idx < self.o["skip"], z3.Not(self.data)),
                "unlimited": z3.Or(self.stop, self.o["take"] == 0, self.kept <= self.o["take"]), "typ": z3.Or(*[self.typ == t for t in (TXT, SHARED, NUMBER, DATED)])}

    def inside(self):
        return self.idx >= self.o["skip"]

    def havoc_spec(self):
        e = E()
        self.idx, self.kept, self.typ = e.fresh("rows", I), e.fresh("kept", I), e.fresh("typ", I)
        self.data, self.stop, self.other = e.fresh("data", B), e.fresh("stop", B), e.fresh("other", B)
        self.txt, self.ref = e.fresh("value", S), e.fresh("ref", S)
        self.out, self.want = [], None

    # -- the specification
    def attrs(self, place, tag):
        e = E()
        if tag == "row":
            return Attrs({k: (e.fresh("has_" + k, B), SStr(e.fresh(k, S))) for k in ("r", "spans", "hidden")})
        if tag != "c":
            return Attrs({})
        a = {"r": (True, SStr(e.fresh("r", S)))}
        for k in ("t", "s"):
            a[k] = (e.fresh("has_" + k, B), SStr(e.fresh(k, S)))
        return Attrs(a)

    def start(self, place, tag, a):
        e = E()
        self.want = None
        if place == "c":
            (_, r), (ht, t), (hs, s) = a.d["r"], a.d["t"], a.d["s"]
            self.ref = r.t
            e.assume(COL(r.t) >= 0)
            style = z3.If(hs, s.t, z3.StringVal("0"))
            e.assume(z3.Not(z3.And(DATE(style), NUM(style))))
            sh = z3.And(ht, t.t == z3.StringVal("s"))
            self.typ = z3.If(sh, SHARED, z3.If(DATE(style), DATED, z3.If(NUM(style), NUMBER, TXT)))
            self.other = z3.And(ht, z3.Not(sh), t.t != z3.StringVal("n"))
            self.txt = z3.StringVal("")
        elif place == "v":
            self.txt = z3.StringVal("")

    def text(self, place, t):
        self.txt = z3.Concat(self.txt, t)

    def end(self, place, tag):
        o = self.o
        if place == "v":
            t = strip_f(self.txt)
            emit = z3.And(self.inside(), z3.Not(self.stop), t != z3.StringVal(""), z3.Not(z3.And(o["skipping"], SKIPC(COL(self.ref)))))
            if o["nulls"]:
                emit = z3.And(emit, z3.If(self.typ == SHARED, z3.Not(NULLSST(t)), z3.Not(NULLP(t))))
            self.want = {"emit": emit, "text": t, "row": self.kept}
            self.data = z3.Or(self.data, emit)
        elif place == "row":
            E().cover("row")
            inside = self.inside()
            self.kept = z3.simplify(z3.If(z3.And(inside, z3.Or(self.data, o["keep"])), self.kept + 1, self.kept))
            self.idx = z3.simplify(self.idx + 1)
            self.data = z3.BoolVal(False)
            self.stop = z3.Or(self.stop, z3.And(o["take"] > 0, inside, self.kept > o["take"]))

    def event(self, p):
        n = self.place
        r = Doc.event(self, p)
        if n == "v" and self.place == "c":
            self.place = "c2"       # one value per cell
        return r

    # -- the obligations
    def info(self, m):
        ev = lambda t: m.eval(t, model_completion=True)
        w = self.want
        return (f"sheet row {ev(self.idx)}, kept row {ev(self.kept)}, cell {ev(self.ref)} of kind {ev(self.typ)}, value text {ev(w['text']) if w else '-'}, skip_rows {ev(self.o['skip'])}, "
                f"take_rows {ev(self.o['take'])}, keep empty rows {ev(self.o['keep'])}, stopped {ev(self.stop)}, produced {len(self.out)}")

    def check(self):
        e = E()
        what = "xlsx sheet"
        w, out = self.want, self.out
        if w is None:
            if out:
                e.fail(f"{what}: only cells with a value appear", self.info)
            return
        if len(out) > 1:
            e.fail(f"{what}: no cell appears twice", self.info)
        if not out:
            e.prove(z3.Not(w["emit"]), f"{what}: no cell is lost", self.info)
            return
        e.prove(w["emit"], f"{what}: only cells asked for appear", self.info)
        e.assume(w["emit"])
        e.check_feasible()
        c = out[0]
        e.cover("cell")
        o = self.o
        if o.get("places"):
            e.prove(iv(c.row) == w["row"], f"{what}: every cell at its own row", self.info)
            e.prove(iv(c.col) == COL(self.ref), f"{what}: every cell at its own column", self.info)
            if not isinstance(c.val, bytes):
                e.fail(f"{what}: cells carry the bytes of their text", repr(c.val))
            if type(c.val) is not SEnc or c.val.codec.replace("-", "").replace("_", "").lower() != "utf8":
                e.fail(f"{what}: cells carry their complete text", repr(c.val))
            e.prove(sv(c.val.s) == w["text"], f"{what}: cells carry their complete text", self.info)
        if o["values"] == "dates":
            e.prove(z3.Or(iv(c.xdt) == self.typ, z3.And(self.other, z3.Or(iv(c.xdt) == TXT, iv(c.xdt) == NUMBER))), f"{what}: numbers are dates, numbers or text as their own style says", self.info)
        elif o.get("places"):
            e.prove((iv(c.xdt) == SHARED) == (self.typ == SHARED), f"{what}: shared strings are shared strings", self.info)
            e.prove(z3.Or(*[iv(c.xdt) == t for t in (TXT, SHARED, NUMBER, DATED)]), f"{what}: cells are text or numbers", self.info)

    def arrived(self):
        self.check()
        self.want, self.out = None, []


class Book(xlsx.XlsxWorkbook):
    """the workbook with its lazily read parts replaced by their contracts (C13-C15, C21)"""
    __slots__ = ()

    @property
    def sheets(self):
        return self.__dict__["vc_sheets"]

    @property
    def shared(self):
        if self.__dict__["vc_nulls"]:
            self.null_shared = Strs(NULLSST)
        return object()

    @property
    def styles(self):
        return Styles()


class Failure(RuntimeError, LookupError, TypeError, ArithmeticError, AssertionError, EOFError):
    """an error caught by whoever expects one of these"""


class Fault:
    """something of the caller's that may raise"""

    def __init__(self):
        self.raised = None

    def __call__(self):
        e = E()
        k = e.choose(5, "fault")
        if k:
            self.raised = (None, ValueError, AttributeError, Failure, OSError)[k]("the caller's code fails")
            raise self.raised


class FaultPred(SPred):
    __slots__ = ("fault",)

    def __init__(self, f, fault):
        self.f, self.fault = f, fault

    def vc_call(self, s):
        self.fault()
        return mkbool(self.f(sv(s)))

    __call__ = vc_call


def sheet_vc(nulls, values, full, faults=False, places=False):
    def harness():
        e = E()
        e.list_factory = TextList
        how = e.choose(3, "form") if full else 2 if faults else 1
        o = options(e, nulls, values, how == 0)
        o["places"] = places
        w = call(e, "XlsxWorkbook", Book, "book.xlsx")
        w.zf = Zip({"xl/worksheets/one.xml": True})
        w.__dict__.update(vc_sheets={"first": "xl/worksheets/one.xml"}, vc_nulls=nulls)
        fault = Fault()
        in_pred = faults and e.choose(2, "where") == 1
        w.null_values = FaultPred(NULLP, fault) if in_pred else SPred(NULLP) if nulls else SPred(lambda s: z3.BoolVal(False))
        docs = []

        def document(io):
            if type(io) is not Part or io.path != "xl/worksheets/one.xml":
                e.fail("xlsx sheet: the sheet asked for is read", repr(getattr(io, "path", io)))
            if io.closed:
                e.fail("xlsx sheet: the part is open while it is parsed")
            docs.append(Sheet(o, faults))
            return docs[-1]
        e.document = document
        e.is_item = lambda x: type(x) is cell
        e.on_put = lambda x: docs[-1].out.append(x) if docs else e.fail("xlsx sheet: only cells with a value appear")
        e.stubs = {pyexpat.ParserCreate: parser_create, threading.Thread: mt.Thread, queue.SimpleQueue: mt.Queue, queue.Queue: mt.Queue, builtins.iter: mt.iter_model,
                   xlsx.col_idx: lambda b: mkint(COL(sv(b.s))) if type(b) is SEnc else U(f"column of {b!r}")}
        calls = []
        cb = (fault if not in_pred else None) if faults else lambda: calls.append(1)
        kw = {"skip_cols": InSet(SKIPC)} if how == 0 else {"skip_cols": None} if how == 1 else {"row_callback": cb}
        e.cover(("skip_cols", "plain", "callback")[how])
        raised = None
        try:
            for c in w.iter_worksheet(0, skip_rows=mkint(o["skip"]), take_rows=mkint(o["take"]), take_rows_non_empty=mkbool(o["keep"]), **kw):
                q = next((q for q in e.queues if q.pending is c), None)
                if q is None:
                    e.fail("xlsx sheet: only the cells of the sheet are given", repr(c))
                q.pending = None
        except Abort:
            raise
        except BaseException as ex:   # noqa: BLE001
            raised = ex
        broken = bool(docs and docs[0].broken)
        if fault.raised is not None or broken:
            what = "damaged input"
            if raised is None:
                e.fail(f"{what}: a malformed sheet raises" if broken else f"{what}: an error in the caller's {'predicate' if in_pred else 'callback'} reaches the caller", repr(fault.raised))
            e.prove(isinstance(raised, pyexpat.ExpatError) if broken else raised is fault.raised, f"{what}: the error itself reaches the caller", f"{raised!r} instead of {fault.raised!r}")
            e.cover("malformed" if broken else f"{'predicate' if in_pred else 'callback'} {type(fault.raised).__name__}")
            return
        if raised is not None:
            e.fail("xlsx sheet: reading a sheet never raises", f"{type(raised).__name__}: {raised}")
        if len(docs) != 1:
            e.fail("xlsx sheet: the sheet is read once", repr(len(docs)))
        d = docs[0]
        d.check()
        if d.ended:
            e.cover("end")
        else:
            e.prove(d.stop, "xlsx sheet: reading stops only at the end of the sheet or after the last row asked for", d.info)
            e.cover("stop")
    return harness


FN = ("rxls.reader.xlsx:XlsxWorkbook.iter_worksheet",)
COV = ("row", "cell", "end", "stop")
vc("C11", "iter_worksheet", functions=FN, covers=("skip_cols", "plain", "callback", *COV), assumes=TRUST, budget=400.0)(sheet_vc(False, False, True, places=True))
vc("C14", "iter_worksheet (xlsx)", functions=FN, covers=COV, assumes=TRUST)(sheet_vc(True, False, False))
vc("C15", "iter_worksheet (xlsx)", functions=FN, covers=COV, assumes=TRUST)(sheet_vc(False, "dates", False))
vc("C23", "iter_worksheet (xlsx)", functions=FN, covers=(*COV, "malformed", *[f"{a} {b}" for a in ("callback", "predicate") for b in ("ValueError", "AttributeError", "Failure", "OSError")]),
   assumes=TRUST, budget=400.0)(sheet_vc(True, False, False, True))
