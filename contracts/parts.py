"""C13 / C14 (and the shared strings of C24): the shared string tables and the null predicates of the two readers
(rxls.reader.xlsx / rxls.reader.xlsb).

A shared string part is an arbitrary document (expat model) or record stream; one arbitrary entry K of the table is observed: what the
table holds there, and whether the number K is in null_shared, when the part has been read."""
from __future__ import annotations
import z3
import pyarrow as pa
import pyarrow.lib
import pyexpat
from zipfile import ZipFile
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, bv_, is_sym, fresh_bytes, eq_term, U, length, strip_f
from vc.loops import World
from vc.models_xml import Doc, TextList, WatchSet, Attrs, parser_create
from vc import runtime as rt
from .api import vc
from .numeric import call
from .xlsb_sheet import SPred, Part, le
import rxls.biff as biff
import rxls.core as core
import rxls.reader.xlsb as xlsb
import rxls.reader.xlsx as xlsx
from rxls.biff import record

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
NULLP = z3.Function("null_value", S, B)
GIVEN = z3.Function("given_null_value", S, B)
ERRORS = ("#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA", "#ДЕЛ/0!", "#ЗНАЧ!", "#ССЫЛКА!", "#ИМЯ?", "#ЧИСЛО!", "#Н/Д")
XML_TRUST = ("expat delivers the elements and the text of the document in order, text in any number of pieces; documents follow the schema of their part, foreign elements have other names",
             "str.strip removes exactly the surrounding white space (uninterpreted)", "pyarrow's StringBuilder / array keep the appended items in order")
REC_TRUST = ("records come from scan_biff (C02); shared string items are as long as they say", "pyarrow.array keeps the items in order")


class Names(Sym):
    """the names of the parts of a workbook"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def vc_contains(self, x):
        if is_sym(x):
            U("symbolic part name")
        p = self.d.get(x, False)
        return p if isinstance(p, bool) else mkbool(p)

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def vc_set(self):
        return self

    vc_list = vc_set


class Zip(Sym):
    """the open zip file: parts by name"""
    __slots__ = ("names", "opened", "left", "entered")

    def __init__(self, names):
        self.names, self.opened, self.left, self.entered = names, [], False, False

    def open(self, path, mode="r", **k):
        if is_sym(path):
            U("symbolic part name")
        if path not in self.namelist():
            raise KeyError(path)
        p = Part(path)
        self.opened.append(p)
        return p

    def namelist(self):
        return Names(self.names)

    def __enter__(self):
        self.entered = True
        return self

    def __exit__(self, *_):
        self.left = True

    def close(self):
        self.left = True


# ------------------------------------------------------------------------------------------------ C14: the null predicates
class TextSeq(Sym):
    """an arbitrary sequence of texts"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def vc_contains(self, x):
        return mkbool(self.f(sv(x)))

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def vc_set(self):
        return self

    vc_list = vc_iter = vc_set

    def __iter__(self):
        U("native iteration over an arbitrary sequence")

    def plus(self, o):
        f = self.f
        if type(o) is TextSeq:
            g = o.f
            return TextSeq(lambda x: z3.Or(f(x), g(x)))
        items = list(o)
        return TextSeq(lambda x: z3.Or(f(x), *[x == sv(y) for y in items]))

    __add__ = __radd__ = __or__ = __ror__ = union = plus


rt.METHODS[(frozenset, "union")] = rt.METHODS[(set, "union")] = lambda s, *o: _union(s, o)


def _union(s, os):
    for o in os:
        s = o.plus(s) if type(o) is TextSeq else s.union(o)
    return s


def pred_vc(mod, name):
    def harness():
        e = E()
        cls = getattr(mod, name)
        how = e.choose(3, "given")
        x = z3.String("text")
        given = (None, TextSeq(GIVEN), SPred(GIVEN))[how]
        w = call(e, name, cls, "book", null_values=given)
        r = call(e, "null_values", lambda: rt.h_call(w.null_values, SStr(x)))
        want = z3.Or(*[x == sv(t) for t in ERRORS])
        if how:
            want = z3.Or(want, GIVEN(x))
        e.prove(bv_(bool(r) if not is_sym(r) and not isinstance(r, bool) else r) == want, f"{name}: the null values are the error texts and those the caller gives", lambda m: f"text {m.eval(x, model_completion=True)}, {('no null values', 'a list', 'a predicate')[how]} given")
        e.prove(not bool(w.null_shared), f"{name}: no shared string is null before the table is read")
        e.cover(("none", "list", "predicate")[how])
    return harness


for _m, _n in ((xlsb, "XlsbWorkbook"), (xlsx, "XlsxWorkbook")):
    vc("C14", f"{_n} null values", functions=(f"rxls.reader.{_n[:4].lower()}:{_n}.__init__",), covers=("none", "list", "predicate"))(pred_vc(_m, _n))


# ------------------------------------------------------------------------------------------------ the shared string tables
class Table(Sym):
    """a finished array of texts"""
    __slots__ = ("lst",)

    def __init__(self, lst):
        self.lst = lst

    def cast(self, *a, **k):
        return self

    def __getattr__(self, n):
        U(f"table.{n}")

    def vc_len(self):
        return self.lst.vc_len()

    def __len__(self):
        return self.lst.__len__()


class Builder(TextList):
    """pyarrow StringBuilder"""
    __slots__ = ()

    @property
    def __class__(self):
        return pyarrow.lib.StringBuilder

    def append(self, x):
        if x is not None and not isinstance(x, str):
            E().fail("shared strings: the entries are texts", repr(x))
        TextList.append(self, x)

    def append_values(self, it):
        for x in it:
            self.append(x)

    def finish(self):
        return Table(self)


def table_of(e, x, *a, **k):
    """pyarrow.array of texts"""
    if type(x) is rt.SGen:
        lst = TextList()
        x.drain(lambda v, _: lst.append(v))
        return Table(lst)
    if type(x) is TextList:
        return Table(x)
    lst = TextList()
    for v in x:
        lst.append(v)
    return Table(lst)


class Watch:
    """the observed entry K: ghosts shared by the two kinds of parts"""

    def __init__(self):
        self.n = z3.IntVal(0)
        self.K = z3.Int("K")
        self.wtext, self.wnull = z3.StringVal(""), z3.BoolVal(False)
        E().assume(self.K >= 0)
        E().watch_index = self.K

    def ghosts(self):
        return {"items": self.n, "seen": self.n > self.K, "wtext": self.wtext, "wnull": self.wnull, "marked": z3.And(self.n > self.K, self.wnull)}

    def havoc(self):
        e = E()
        self.n, self.wtext, self.wnull = e.fresh("items", I), e.fresh("wtext", S), e.fresh("wnull", B)
        e.assume(self.n >= 0)

    def put(self, text, null):
        at = self.n == self.K
        self.wtext = z3.simplify(z3.If(at, text, self.wtext))
        self.wnull = z3.simplify(z3.If(at, null, self.wnull))
        self.n = z3.simplify(self.n + 1)


class SstDoc(Doc):
    name = "sst"
    key = "rxls.reader.xlsx:XlsxWorkbook.shared"
    GRAMMAR = {"out": {"si": "si"}, "si": {"t": "t", "r": "r", "rPh": "ph"}, "r": {"t": "rt"}, "ph": {"t": "pt"}, "t": {}, "rt": {}, "pt": {}}
    TEXT = ("t", "rt", "pt")

    def __init__(self):
        self.w = Watch()
        self.txt = z3.StringVal("")
        self.bad = None
        super().__init__()

    def ghosts(self):
        return {"text": self.txt, **self.w.ghosts()}

    def guards(self):
        return {"seen"}

    def havoc_spec(self):
        self.w.havoc()
        self.txt = E().fresh("item", S)

    def start(self, place, tag, attrs):
        if place == "si":
            self.txt = z3.StringVal("")

    def text(self, place, t):
        if place != "pt":
            self.txt = z3.Concat(self.txt, t)

    def end(self, place, tag):
        if place == "si":
            t = strip_f(self.txt)
            null = z3.Or(t == z3.StringVal(""), NULLP(t))
            self.w.put(z3.If(null, z3.StringVal(""), t), null)


def final(e, what, w, table, marks, strict, values, nulls):
    lst = getattr(table, "lst", None)
    if lst is None:
        e.fail(f"{what}: gives a table of texts", repr(table))
    d = lst.vc_absterm()
    if "at" not in d:
        e.fail(f"{what}: every entry is text or null", repr(sorted(d)))
    info = lambda m: f"entry {m.eval(w.K, model_completion=True)} of {m.eval(w.n, model_completion=True)}: text {m.eval(w.wtext, model_completion=True)} null {m.eval(w.wnull, model_completion=True)}; table has {m.eval(d['n'][1], model_completion=True)} entries, there {m.eval(d['at'][1], model_completion=True)} null {m.eval(d['none'][1], model_completion=True)}"
    seen = w.n > w.K
    if values:
        e.prove(d["n"][1] == w.n, f"{what}: one entry per item", info)
        if strict:
            e.prove(z3.Implies(seen, d["none"][1] == w.wnull), f"{what}: an entry is null exactly when its item has no text or is a null value", info)
        else:
            e.prove(z3.Implies(z3.And(seen, d["none"][1]), w.wnull), f"{what}: only null values may become null", info)
        e.prove(z3.Implies(z3.And(seen, z3.Not(d["none"][1])), d["at"][1] == w.wtext), f"{what}: entry i is the text of item i", info)
    if nulls:
        if type(marks) is not WatchSet:
            e.fail(f"{what}: null_shared is a set of string numbers", repr(marks))
        e.prove(z3.Implies(seen, marks.has == w.wnull), f"{what}: null_shared has exactly the numbers of the null entries", info)


def xlsx_shared(values, nulls):
    def harness():
        e = E()
        e.list_factory = TextList
        key = rt.to_str(SInt(z3.Int("K")))
        e.watch_key = lambda x: eq_term(x, key)
        present = z3.Bool("has_shared_strings")
        docs = []
        e.set_factory = WatchSet
        book = call(e, "XlsxWorkbook", xlsx.XlsxWorkbook, "book")
        e.set_factory = None
        book.null_values = SPred(NULLP)
        book.zf = Zip({"xl/sharedStrings.xml": present})

        def document(io):
            if type(io) is not Part or io.path != "xl/sharedStrings.xml" or io.closed:
                e.fail("xlsx shared strings: the shared string part is read", repr(getattr(io, "path", io)))
            docs.append(SstDoc())
            return docs[-1]
        e.document = document
        e.stubs = {pyexpat.ParserCreate: parser_create, pyarrow.lib.StringBuilder: Builder, pa.array: lambda *a, **k: table_of(e, *a, **k)}
        raised = None
        try:
            t = book.shared
        except Abort:
            raise
        except BaseException as ex:   # noqa: BLE001
            raised = ex
        what = "xlsx shared strings"
        if docs and docs[0].broken:
            e.prove(isinstance(raised, pyexpat.ExpatError), f"{what}: a malformed part raises", repr(raised))
            e.cover("malformed")
            return
        if raised is not None:
            e.fail(f"{what}: reading never raises", f"{type(raised).__name__}: {raised}")
        if not docs:
            e.prove(z3.Not(present), f"{what}: the part is read when there is one")
            if values:
                e.prove(iv(rt.m_len(t)) == 0, f"{what}: without the part the table is empty")
            e.cover("missing")
            return
        if len(docs) != 1 or not docs[0].ended:
            e.fail(f"{what}: the part is read once to its end", repr(len(docs)))
        final(e, what, docs[0].w, t, book.null_shared, True, values, nulls)
        e.cover("read")
    return harness


SSTCOV = ("malformed", "missing", "read", "<si> in out", "<t> in si", "<r> in si", "<t> in r", "<rPh> in si", "<t> in ph")
vc("C13", "shared", functions=("rxls.reader.xlsx:XlsxWorkbook.shared",), covers=SSTCOV, assumes=XML_TRUST)(xlsx_shared(True, False))
vc("C14", "shared (xlsx)", functions=("rxls.reader.xlsx:XlsxWorkbook.shared",), covers=SSTCOV, assumes=XML_TRUST)(xlsx_shared(False, True))


class SstRecords(World):
    """the BrtSSTItem records of xl/sharedStrings.bin"""
    name = "sst"
    vc_stream = True

    def __init__(self):
        self.w = Watch()
        self.ended = False
        super().__init__()

    def ghosts(self):
        return self.w.ghosts()

    def guards(self):
        return {"seen"}

    def havoc(self, loc):
        self.w.havoc()

    def vc_iter(self):
        return self

    def vc_more(self):
        self.ended = E().choose(2, "more") == 1
        return not self.ended

    def vc_next(self):
        e = E()
        self.touch()
        d = fresh_bytes("item")
        e.assume(d.n >= 5)
        n = le(d, 1, 4)
        e.assume(d.n >= 5 + 2 * n)
        t = sv(SBytes(d.base, z3.simplify(d.off + 5), z3.simplify(2 * n)).decode("utf-16-le"))
        e.assume(self.w.n < 1 << 32)
        self.w.put(t, NULLP(t))
        return record(19, d)


def xlsb_shared(values, nulls):
    def harness():
        e = E()
        e.list_factory = TextList
        K = z3.Int("K")
        e.assume(z3.And(K >= 0, K < 1 << 32))
        packed = rt.h_call(core.u4_p, SInt(K))

        def watch(x):
            if not isinstance(x, bytes):
                e.fail("xlsb shared strings: null_shared has the four bytes of the string numbers", repr(x))
            if not e.valid(iv(length(x)) == 4):
                return z3.BoolVal(False)
            return eq_term(x, packed)
        e.watch_key = watch
        present = z3.Bool("has_shared_strings")
        recs = []
        e.set_factory = WatchSet
        book = call(e, "XlsbWorkbook", xlsb.XlsbWorkbook, "book")
        e.set_factory = None
        book.null_values = SPred(NULLP)
        book.zf = Zip({"xl/sharedStrings.bin": present})

        def scan(io, only=None):
            if type(io) is not Part or io.path != "xl/sharedStrings.bin" or io.closed:
                e.fail("xlsb shared strings: the shared string part is read", repr(getattr(io, "path", io)))
            if only is None or {x for x in only} != {19}:
                U("records of other kinds in the shared strings part")
            recs.append(SstRecords())
            return recs[-1]
        e.stubs = {biff.scan_biff: scan, pyarrow.lib.StringBuilder: Builder, pa.array: lambda *a, **k: table_of(e, *a, **k)}
        what = "xlsb shared strings"
        try:
            t = book.shared
        except Abort:
            raise
        except BaseException as ex:   # noqa: BLE001
            e.fail(f"{what}: reading never raises", f"{type(ex).__name__}: {ex}")
        if not recs:
            e.prove(z3.Not(present), f"{what}: the part is read when there is one")
            if values:
                e.prove(iv(rt.m_len(t)) == 0, f"{what}: without the part the table is empty")
            e.cover("missing")
            return
        if len(recs) != 1 or not recs[0].ended:
            e.fail(f"{what}: the part is read once to its end", repr(len(recs)))
        final(e, what, recs[0].w, t, book.null_shared, False, values, nulls)
        e.cover("read")
    return harness


vc("C24", "shared", functions=("rxls.reader.xlsb:XlsbWorkbook.shared",), covers=("missing", "read"), assumes=REC_TRUST)(xlsb_shared(True, False))
vc("C14", "shared (xlsb)", functions=("rxls.reader.xlsb:XlsbWorkbook.shared",), covers=("missing", "read"), assumes=REC_TRUST)(xlsb_shared(False, True))
