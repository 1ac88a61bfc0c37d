"""C21: where a sheet is found: relationships, the sheet lists of both readers, and the selection in iter_worksheet.

The workbook has any number of sheets (ID(i), NAME(i): ids and names of the i-th) and any number of relationships (RID(j), TARGET(j), in any
order); ids and names do not repeat and every sheet has a relationship.  Tables of unbounded length are known as "entry i is the i-th member of
a family" (vc.models_fam)."""
from __future__ import annotations
import z3
import pyexpat
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, is_sym, U, eq_term, SView, fresh_bytes, ArrII, SEnc, SCat
from vc.loops import World
from vc.models_xml import Doc, Attrs, parser_create
from vc.models_fam import Fam, FamDict, FamList
from vc import models_thread as mt
from .api import vc
from .numeric import call
from .parts import Zip, XML_TRUST
from .xlsb_sheet import Part
from .xstr import CODEC
from vc.runtime import SReader
import queue, threading
import rxls.biff as biff
import rxls.biff_recs as br
import rxls.reader.xlsb as xlsb
import rxls.reader.xlsx as xlsx
from rxls.biff import record
from rxls.rels import Relationship

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
ID, NAME, RID, TARGET, TYPE = (z3.Function(n, I, S) for n in ("sheet_id", "sheet_name", "rel_id", "rel_target", "rel_type"))
ID_OF, NAME_OF, RID_OF = (z3.Function(n, S, I) for n in ("place_of_id", "place_of_name", "place_of_rel"))
NS, NR = z3.Int("sheets"), z3.Int("relationships")
TRUST = ("sheet ids, sheet names and relationship ids do not repeat; every sheet of the list has a relationship; ids and names are not empty", XML_TRUST[0])


def path(j):
    t = TARGET(j)
    return z3.If(z3.PrefixOf(z3.StringVal("/"), t), z3.SubString(t, 1, z3.Length(t) - 1), z3.Concat(z3.StringVal("xl/"), t))


def sheet_path(i):
    return path(RID_OF(ID(i)))


def has_rel(i):
    j = RID_OF(ID(i))
    return [z3.Implies(z3.And(i >= 0, i < NS), z3.And(j >= 0, j < NR, RID(j) == ID(i), ID(i) != z3.StringVal("")))]


FAMILIES = (Fam("sheet id", ID, ID_OF, has_rel), Fam("sheet name", NAME, NAME_OF, lambda i: [z3.Implies(z3.And(i >= 0, i < NS), NAME(i) != z3.StringVal(""))]), Fam("relationship id", RID, RID_OF), Fam("relationship target", TARGET),
            Fam("part of a relationship", path), Fam("part of a sheet", sheet_path))
BYNAME = {f.name: f for f in FAMILIES}


def workbook(e):
    e.families = FAMILIES
    e.family_types = {Relationship: (("Id", "Target"), lambda j, i, t: Relationship(i, SStr(TYPE(j)), t))}     # the type: any text
    e.list_factory, e.dict_factory = FamList, FamDict
    e.assume(z3.And(NS >= 0, NR >= 0))


def table(cls, n, *fams):
    t = cls()
    t.rows, t.n, t.shape = None, n, (fams[0], *[(f,) for f in fams[1:]])
    return t


def relationships():
    return table(FamList, NR, ("rxls.rels:Relationship", 2), "relationship id", "relationship target")


def sheet_list():
    return table(FamDict, NS, ("tuple", 2), "sheet name", "part of a sheet")


class Searches:
    """facts for loops that look for one entry: it is not among those already seen"""

    def searches(self, wanted):
        out = {}
        for k, w in enumerate(w for w in E().world if w.name.startswith("it:")):
            for n, t in wanted.items():
                out[f"{n} not seen #{k}"] = t >= w.i
        return out


# ------------------------------------------------------------------------------------------------ the relationships part
class RelDoc(Doc):
    name = "rels"
    key = "rxls.rels:Relationship.scan_xml"
    GRAMMAR = {"out": {"Relationship": "rel"}, "rel": {}}

    def __init__(self):
        self.j = z3.IntVal(0)
        super().__init__(False)

    def ghosts(self):
        return {"read": self.j}

    def facts(self):
        return {**Doc.facts(self), "read<=": z3.And(self.j >= 0, self.j <= NR)}

    def guards(self):
        return ()

    def havoc_spec(self):
        self.j = E().fresh("read", I)

    def attrs(self, place, tag):
        e = E()
        j = self.j
        e.assume(j < NR)
        e.check_feasible()
        e.cover("relationship")
        return Attrs({"Id": (True, SStr(BYNAME["relationship id"].at(j))), "Type": (True, SStr(e.fresh("type", S))), "Target": (True, SStr(TARGET(j))), "TargetMode": (e.fresh("has_mode", B), SStr(e.fresh("mode", S)))})

    def start(self, place, tag, a):
        self.j = z3.simplify(self.j + 1)

    def eof(self):
        E().assume(self.j == NR)
        E().check_feasible()


@vc("C21", "Relationship.scan_xml", functions=("rxls.rels:Relationship.scan_xml",), covers=("relationship", "end"), assumes=TRUST)
def scan_xml():
    e = E()
    workbook(e)
    docs = []

    def document(io):
        docs.append(RelDoc())
        return docs[-1]
    e.document = document
    e.stubs = {pyexpat.ParserCreate: parser_create}
    r = call(e, "Relationship.scan_xml", Relationship.scan_xml, Part("xl/_rels/workbook.rels"))
    entries(e, "relationships", r, NR, lambda j, x: [(x.Id, RID(j), "its own id"), (x.Target, TARGET(j), "its own target")], lambda x: type(x) is Relationship)
    e.cover("end")


def entries(e, what, t, n, pairs, ok):
    """the finished table t has exactly n entries; entry K (arbitrary) has the given components"""
    if not isinstance(t, (FamList, FamDict)):
        e.fail(f"{what}: gives a table", repr(t))
    k = z3.Int("K")
    info = lambda m: f"entry {m.eval(k, model_completion=True)} of {m.eval(n, model_completion=True)}; the table has {m.eval(iv(t.vc_len()), model_completion=True)}"
    e.prove(iv(t.vc_len()) == n, f"{what}: every entry once, and nothing else", info)
    if not e.choose(2, "entries"):
        return
    e.assume(z3.And(k >= 0, k < n))
    e.check_feasible()
    if t.rows is not None or t.shape is None:
        return
    x = t.entry(k)
    if not ok(x):
        e.fail(f"{what}: the entries are of their kind", repr(x))
    for got, want, text in pairs(k, x):
        if not isinstance(got, str):
            e.fail(f"{what}: every entry has {text}", repr(got))
        e.prove(sv(got) == want, f"{what}: every entry has {text}", info)


def sheets_result(e, what, r):
    entries(e, what, r, NS, lambda i, x: [(x[0], NAME(i), "the name of the sheet at that place"), (x[1], sheet_path(i), "the part its relationship points to")], lambda x: type(x) is tuple)


# ------------------------------------------------------------------------------------------------ the sheet list of an XLSX workbook
class WbDoc(Doc, Searches):
    name = "wb"
    key = "rxls.reader.xlsx:XlsxWorkbook.sheets"
    GRAMMAR = {"out": {"sheets": "sheets"}, "sheets": {"sheet": "sheet"}, "sheet": {}}

    def __init__(self):
        self.i, self.cur = z3.IntVal(0), z3.IntVal(0)
        super().__init__(False)

    def ghosts(self):
        return {"read": self.i}

    def facts(self):
        return {**Doc.facts(self), "read<=": z3.And(self.i >= 0, self.i <= NS), **self.searches({"rel": RID_OF(ID(self.cur))})}

    def guards(self):
        return ()

    def havoc_spec(self):
        self.i = E().fresh("read", I)

    def attrs(self, place, tag):
        e = E()
        if tag != "sheet":
            return Attrs({})
        i = self.cur = self.i
        e.assume(i < NS)
        e.check_feasible()
        e.cover("sheet")
        return Attrs({"r:id": (True, SStr(BYNAME["sheet id"].at(i))), "name": (True, SStr(BYNAME["sheet name"].at(i))), "sheetId": (True, SStr(e.fresh("sheetId", S))), "state": (e.fresh("has_state", B), SStr(e.fresh("state", S)))})

    def start(self, place, tag, a):
        if tag == "sheet":
            self.i = z3.simplify(self.i + 1)

    def eof(self):
        E().assume(self.i == NS)
        E().check_feasible()


def opened(e, part, want, what):
    if type(part) is not Part or part.path not in want:
        e.fail(f"{what}: reads the parts that hold the sheet list", repr(getattr(part, "path", part)))
    if part.closed:
        e.fail(f"{what}: the part is open while it is read")


@vc("C21", "sheets (xlsx)", functions=("rxls.reader.xlsx:XlsxWorkbook.sheets",), covers=("sheet", "end"), assumes=(*TRUST, "Relationship.scan_xml by its contract"))
def xlsx_sheets():
    e = E()
    workbook(e)
    docs = []
    w = call(e, "XlsxWorkbook", xlsx.XlsxWorkbook, "book.xlsx")
    w.zf = Zip({"xl/workbook.xml": True, "xl/_rels/workbook.xml.rels": True})

    def document(io):
        opened(e, io, ("xl/workbook.xml",), "sheets")
        docs.append(WbDoc())
        return docs[-1]

    def scan(io):
        opened(e, io, ("xl/_rels/workbook.xml.rels",), "sheets")
        return relationships()
    e.document = document
    e.stubs = {pyexpat.ParserCreate: parser_create, Relationship.scan_xml: scan}
    r = call(e, "sheets", lambda: w.sheets)
    sheets_result(e, "sheets", r)
    e.cover("end")


# ------------------------------------------------------------------------------------------------ the sheet list of an XLSB workbook
class Bundles(World, Searches):
    """the records of xl/workbook.bin"""
    name = "wb"
    vc_stream = True

    def __init__(self, only):
        e = E()
        ids = None if only is None else {x for x in (only.items if is_sym(only) else only)}
        if ids is not None and 412 not in ids:
            e.fail("sheets: the sheet records are read", repr(only))
        self.ids = sorted(ids if ids is not None else {412, 131, 143, 144})
        self.i, self.cur, self.rec = z3.IntVal(0), z3.IntVal(0), None
        super().__init__()

    def ghosts(self):
        return {"read": self.i}

    def guards(self):
        return ()

    def facts(self):
        return {"read<=": z3.And(self.i >= 0, self.i <= NS), **self.searches({"rel": RID_OF(ID(self.cur))})}

    def havoc(self, loc):
        self.i = self.cur = E().fresh("read", I)
        self.rec = None

    def vc_iter(self):
        return self

    def vc_more(self):
        e = E()
        if e.choose(2, "more"):
            e.assume(self.i == NS)
            e.check_feasible()
            return False
        return True

    def vc_next(self):
        e = E()
        self.touch()
        rid = self.ids[e.choose(len(self.ids), "record")]
        self.rec = record(rid, fresh_bytes("record"))
        if rid == 412:
            e.assume(self.i < NS)
            e.check_feasible()
            e.cover("sheet")
            self.cur = self.i
            self.i = z3.simplify(self.i + 1)
        return self.rec


@vc("C21", "sheets (xlsb)", functions=("rxls.reader.xlsb:XlsbWorkbook.sheets",), covers=("sheet", "end"), assumes=(*TRUST, "Relationship.scan_xml and BrtBundleSh.loadr by their contracts", "records come from scan_biff (C02)"))
def xlsb_sheets():
    e = E()
    workbook(e)
    streams = []
    w = call(e, "XlsbWorkbook", xlsb.XlsbWorkbook, "book.xlsb")
    w.zf = Zip({"xl/workbook.bin": True, "xl/_rels/workbook.bin.rels": True})

    def scan(io):
        opened(e, io, ("xl/_rels/workbook.bin.rels",), "sheets")
        return relationships()

    def biffs(io, only=None):
        opened(e, io, ("xl/workbook.bin",), "sheets")
        streams.append(Bundles(only))
        return streams[-1]

    def loadr(rc):
        s = streams[-1]
        if rc is not s.rec or rc.rec_id != 412:
            U("another record than the current sheet record is taken apart")
        return br.BrtBundleSh(0, 1, br.xstr(SStr(BYNAME["sheet id"].at(s.cur))), br.xstr(SStr(BYNAME["sheet name"].at(s.cur))))
    e.stubs = {biff.scan_biff: biffs, Relationship.scan_xml: scan, br.BrtBundleSh.loadr: loadr}
    r = call(e, "sheets", lambda: w.sheets)
    sheets_result(e, "sheets", r)
    e.cover("end")


@vc("C21", "BrtBundleSh.loadr", functions=("rxls.biff_recs:BrtBundleSh.loadr",), covers=("end",), assumes=(*CODEC, "xstr.load by its contract (C22)"))
def loadr():
    e = E()
    texts, encs = [SStr(e.fresh(n, S)) for n in ("relationship id", "name")], []
    for s in texts:
        e.assume(s.t != z3.StringVal(""))
        encs.append(SEnc(s, "utf-16-le"))
    starts = [z3.IntVal(0), 4 + encs[0].n, 8 + encs[0].n + encs[1].n]
    size, base = z3.Int("size"), z3.Const("R", ArrII)
    e.assume(size >= 8 + starts[2])
    done = []

    def load(rd):
        k = len(done)
        if type(rd) is not SReader:
            U("a string read from something else")
        e.prove(k < 2, "BrtBundleSh.loadr: two strings are read")
        j, n = e.fresh("j", I), starts[k + 1] - starts[k]
        e.prove(z3.And(rd.size - rd.pos >= n, z3.Implies(z3.And(j >= 0, j < n), z3.Select(rd.base, rd.pos + j) == z3.Select(base, 8 + starts[k] + j))),
                "BrtBundleSh.loadr: the strings are read one after the other, behind the eight bytes of state and number")
        rd.pos = z3.simplify(rd.pos + n)
        done.append(k)
        return br.xstr(texts[k])
    e.stubs = {br.xstr.load: load}
    r = call(e, "BrtBundleSh.loadr", br.BrtBundleSh.loadr, record(412, SBytes(base, z3.IntVal(0), size)))
    for got, s, text in ((r.strRelID, texts[0], "its relationship id"), (r.strName, texts[1], "its name")):
        v = got.value
        if not isinstance(v, str):
            e.fail(f"BrtBundleSh.loadr: a sheet record gives {text}", repr(v))
        e.prove(sv(v) == s.t, f"BrtBundleSh.loadr: a sheet record gives {text}", lambda m: f"{m.eval(s.t, model_completion=True)}")
    e.cover("end")


# ------------------------------------------------------------------------------------------------ the selection
class Stop(Exception):
    pass


class Sel(World, Searches):
    name = "sel"

    def __init__(self, t):
        self.t = t
        super().__init__()

    def ghosts(self):
        return {"place": self.t}

    def facts(self):
        return self.searches({"sheet": self.t})

    def havoc(self, loc):
        pass


class OpenZip(Zip):
    __slots__ = ("hit",)

    def open(self, p, mode="r", **k):
        self.hit = p
        raise Stop


def selection(mod, name):
    ext = "bin" if name == "XlsbWorkbook" else "xml"

    class Book(getattr(mod, name)):
        __slots__ = ()
        sheets = property(lambda self: sheet_list())
        shared = property(lambda self: object())
        styles = property(lambda self: U("the styles are read before the sheet is opened"))

    def harness():
        e = E()
        workbook(e)
        w = call(e, name, Book, f"book.{ext}")
        w.zf = z = OpenZip({})
        z.hit = None
        e.stubs = {threading.Thread: mt.Thread, queue.SimpleQueue: mt.Queue, queue.Queue: mt.Queue}
        by = e.choose(2, "by")
        if by:
            x = z3.String("wanted")
            place = NAME_OF(x)
            f = BYNAME["sheet name"]
            found = z3.And(place >= 0, place < NS, f.at(place) == x)
            arg = SStr(x)
        else:
            x = place = z3.Int("wanted")
            found = z3.And(x >= 0, x < NS)
            arg = SInt(x)
        Sel(place)
        what = "selection"
        info = lambda m: f"sheet {m.eval(x, model_completion=True)} of {m.eval(NS, model_completion=True)}"
        raised = None
        try:
            for _ in w.iter_worksheet(arg):
                e.fail(f"{what}: the cells come from the part of the sheet", info)
        except Abort:
            raise
        except Stop:
            e.prove(found, f"{what}: a sheet outside the list raises", info)
            if not isinstance(z.hit, str):
                e.fail(f"{what}: reads the part of the sheet asked for", repr(z.hit))
            e.prove(z3.Implies(found, sv(z.hit) == sheet_path(place)), f"{what}: reads the part of the sheet asked for", info)
            e.cover("found")
            return
        except BaseException as ex:   # noqa: BLE001
            raised = ex
        e.prove(z3.Not(found), f"{what}: a sheet of the list is found", lambda m: f"{info(m)}: {raised!r}")
        e.prove(raised is not None, f"{what}: a sheet outside the list raises", info)
        e.cover("refused by " + ("name" if by else "position"))
    return harness


for _m, _n in ((xlsb, "XlsbWorkbook"), (xlsx, "XlsxWorkbook")):
    vc("C21", f"{_n} selection", functions=(f"rxls.reader.{_n[:4].lower()}:{_n}.iter_worksheet",), covers=("found", "refused by name", "refused by position"), assumes=TRUST)(selection(_m, _n))
