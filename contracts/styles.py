"""C15: the style tables of the two readers.

The style part has any number of cell styles (FI(i): the number of the format of the i-th) and any number of custom formats (FID(j), CODE(j); their
numbers do not repeat).  One arbitrary style K is observed: is it in the table, and as what.  Whether a format code is a date format is asked by
regular expressions: what they make of a code is compared with the format scanner of lib/spec on all short codes (a bounded argument, made by the
VC "format codes"); everything else is unbounded."""
from __future__ import annotations
import itertools
import os
import z3
import pyexpat
from vc.engine import E, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, is_sym, U, fresh_bytes, ArrII, SEnc, decode_bytes
from vc.loops import World
from vc.models_xml import Doc, Attrs, parser_create
from vc.models_fam import Fam, FamDict, WList, WSet, WDict
from vc.models_re import Opaque
from vc.runtime import METHODS
from .api import vc
from .numeric import call
from .parts import Zip, XML_TRUST, REC_TRUST
from .xlsb_sheet import Part
import rxls.biff as biff
import rxls.constants as rc
import rxls.reader.xlsb as xlsb
import rxls.reader.xlsx as xlsx
from rxls.biff import record
from lib import formats as spec

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
FI, FID = z3.Function("format_of_style", I, I), z3.Function("custom_number", I, I)
JF = z3.Function("place_of_custom", I, I)
CODE = z3.Function("code", I, S)
FIRST = z3.Function("first_section", S, S)
DATE = z3.Function("is_date_format", S, B)
NX, NF, K = z3.Int("styles"), z3.Int("customs"), z3.Int("K")
DATES = sorted({*range(14, 23), 45, 46, 47})
NUMBERS = [1, 2, 3, 4, 37, 38, 39, 40, 48]
TRUST = ("custom format numbers do not repeat; at most 65536 cell styles; quotes and brackets of format codes are closed",
         "bounded: on single format codes the regular expressions of the readers do what the format scanner does (VC 'format codes')")


# ------------------------------------------------------------------------------------------------ single format codes (bounded)
def words():
    global _words
    if _words is None:
        out = []
        for n in range(6):
            out += map("".join, itertools.product('"[];\\dh0', repeat=n))
        letters = [chr(c) for c in range(32, 127)] + ["é", "я", "年", "\n", "\u2028"]
        out += letters + [a + b for a in letters for b in letters]
        out += [x.replace("?", c) for c in letters for x in ('"?"', "[?]", "\\?", "0?", "?0", '"a"?', "[a]?", "\\d?", "?;d", "[??]", "[h?]", "[?h]")]
        for pad in (30, 66, 120, 200):
            for w in map("".join, itertools.product('";\\d[]', repeat=3)):
                out += [w[:i] + "0" * pad + w[i:] for i in range(4)]
        out += ["[h]:mm:ss", "[mm]:ss", "[ss]", "yyyy\\-mm\\-dd", "#,##0.00", '"d"0;"h"0', "[Red]0.00", "[$-409]d/m/yy h:mm AM/PM;@", "0.00E+00", "_-* #,##0.00_-", "General", '"a;b"d', '\\"d', '\\"d\\"']
        _words = [w for w in dict.fromkeys(out) if spec.valid_format(w)]
        assert all(spec.date_format(spec.first_section(w)) == spec.date_format(w) and spec.first_section(spec.first_section(w)) == spec.first_section(w) for w in _words)
    return _words


_words = None
DEEP = 7
SPECS = {"first section": (spec.first_section, FIRST), "date format": (spec.date_format, DATE)}
# shared by the paths of one run (patterns -> specification function)
REGEX = Opaque(SPECS, words)


def deep_words():
    """all short codes over the characters the format grammar knows, up to DEEP"""
    yield from words()
    for n in (6, DEEP):
        for t in itertools.product('"[];\\dh0', repeat=n):
            w = "".join(t)
            if w.count("]") and not w.count("["):
                continue
            if spec.valid_format(w):
                yield w


# ------------------------------------------------------------------------------------------------ what the styles are
def customs():
    """(format number of style K is that of a custom format, its place)"""
    j = JF(FI(K))
    return z3.And(j >= 0, j < NF, FID(j) == FI(K)), j


def one_of(t, xs):
    return z3.Or(*[t == x for x in xs])


def temporal():
    c, j = customs()
    return z3.Or(z3.And(c, DATE(CODE(j))), one_of(FI(K), DATES))


def numeric():
    c, j = customs()
    f = FIRST(CODE(j))
    return z3.And(z3.Not(temporal()), z3.Or(z3.And(c, z3.Or(f == z3.StringVal("0"), z3.Contains(f, z3.StringVal(".00")))), one_of(FI(K), NUMBERS)))


class Seen(World):
    """what is known of style K while the loops are under way"""
    name = "seen"
    plain = True

    def ghosts(self):
        c, j = customs()
        f = FIRST(CODE(j))
        d = DATE(CODE(j))
        num = z3.Or(f == z3.StringVal("0"), z3.Contains(f, z3.StringVal(".00")))
        out = {}
        for w in E().world:
            if w.name.startswith("it:"):
                n = w.name.rsplit("#", 1)[-1]
                k, fk = z3.And(K >= 0, K < w.i), FI(K)
                cj = z3.And(c, j < w.i)
                out.update({f"K:{n}": k, f"fmt:{n}": cj, f"date:{n}": z3.And(cj, d), f"num:{n}": z3.And(cj, z3.Not(d), num),
                            f"bd:{n}": z3.And(k, one_of(fk, DATES)), f"bn:{n}": z3.And(k, one_of(fk, NUMBERS)),
                            f"date+:{n}": z3.Or(z3.And(c, d), z3.And(k, one_of(fk, DATES))),
                            f"num+:{n}": z3.Or(z3.And(c, z3.Not(d), num), z3.And(k, one_of(fk, NUMBERS)))})
                out[f"both:{n}"], out[f"tmp:{n}"], out[f"nums:{n}"] = z3.And(k, z3.Or(temporal(), numeric())), z3.And(k, temporal()), z3.And(k, numeric())
                for v in E().world:
                    if v is not w and v.name.startswith("it:"):
                        # inside the loop over the formats: the styles of the current one, and of those before it
                        m = f"{v.name.rsplit('#', 1)[-1]}<{n}"
                        own, cur = z3.And(k, FID(v.i - 1) == fk), CODE(v.i - 1)
                        out[f"own:{m}"] = own
                        before = z3.And(c, j < v.i - 1)
                        out[f"dated:{m}"] = z3.Or(z3.And(before, d), z3.And(own, DATE(cur)))
                        out[f"numbered:{m}"] = z3.Or(z3.And(before, z3.Not(d), num), z3.And(own, z3.Not(DATE(cur)), z3.Or(FIRST(cur) == z3.StringVal("0"), z3.Contains(FIRST(cur), z3.StringVal(".00")))))
        return out

    def guards(self):
        return ()

    def havoc(self, loc):
        pass


def plain(j):
    """facts of the scanner: a code whose first section is 0 has no date letters there; only the first section counts"""
    c = CODE(j)
    return [z3.Implies(FIRST(c) == z3.StringVal("0"), z3.Not(DATE(c))), DATE(FIRST(c)) == DATE(c), FIRST(FIRST(c)) == FIRST(c)]


def setup(e, keys, ids, codes_kind):
    e.families = (keys, ids["style"], ids["custom"], Fam("code", CODE, on=plain), Fam("first section", lambda j: FIRST(CODE(j)), on=plain), Fam("is date", lambda j: DATE(CODE(j))))
    e.dict_factory, e.list_factory, e.set_factory = FamDict, WList, WSet
    e.regex = REGEX
    e.assume(z3.And(NX >= 0, NX <= 65536, NF >= 0, K >= 0, K < NX, FI(K) >= 0, FI(K) < 65536))
    Seen()


def bound(f):
    return lambda i: [f(i) >= 0, f(i) < 65536]


METHODS[(type, "fromkeys")] = (lambda old: lambda t, it, v=None: WDict.of(it, v) if isinstance(it, (WList, WSet)) else old(t, it, v))(METHODS[(type, "fromkeys")])


# ------------------------------------------------------------------------------------------------ XLSX
class StyleDoc(Doc):
    name = "styles"
    key = "rxls.reader.xlsx:XlsxWorkbook.styles"
    GRAMMAR = {"out": {"styleSheet": "root"}, "root": {"numFmts": "numFmts", "cellStyleXfs": "cellStyleXfs", "cellXfs": "cellXfs", "dxfs": "dxfs"},
               "numFmts": {"numFmt": "numFmt"}, "cellXfs": {"xf": "xf"}, "cellStyleXfs": {"xf": "parent"}, "dxfs": {"dxf": "dxf"}, "dxf": {"numFmt": "other numFmt"},
               "numFmt": {}, "xf": {}, "parent": {}, "other numFmt": {}}

    def __init__(self):
        self.i, self.j = z3.IntVal(0), z3.IntVal(0)
        super().__init__(False)

    def ghosts(self):
        return {"styles": self.i, "formats": self.j}

    def guards(self):
        return ()

    def facts(self):
        return {**Doc.facts(self), "styles<=": z3.And(self.i >= 0, self.i <= NX), "formats<=": z3.And(self.j >= 0, self.j <= NF)}

    def havoc_spec(self):
        self.i, self.j = E().fresh("styles", I), E().fresh("formats", I)

    def texts(self):
        return ("numFmts", "cellXfs", "cellStyleXfs", "dxfs")

    def attrs(self, place, tag):
        e = E()
        if place == "numFmt":
            j = self.j
            e.assume(j < NF)
            e.check_feasible()
            e.cover("format")
            return Attrs({"numFmtId": (True, BY["custom"].box(j)), "formatCode": (True, SStr(CODE(j)))})
        if place == "xf":
            i = self.i
            e.assume(i < NX)
            e.check_feasible()
            e.cover("style")
            return Attrs({"numFmtId": (True, BY["style"].box(i)), "xfId": (e.fresh("has_xfId", B), SStr(e.fresh("xfId", S))), **{a: (e.fresh("has_" + a, B), SStr(e.fresh(a, S))) for a in ("fontId", "applyNumberFormat")}})
        if place == "parent":
            return Attrs({"numFmtId": (True, SStr(z3.IntToStr(self.some()))), "fontId": (e.fresh("has_fontId", B), SStr(e.fresh("fontId", S)))})
        if place == "other numFmt":
            return Attrs({"numFmtId": (True, SStr(z3.IntToStr(self.some()))), "formatCode": (True, SStr(e.fresh("other_code", S)))})
        return Attrs({"count": (e.fresh("has_count", B), SStr(e.fresh("count", S)))})

    def some(self):
        e = E()
        n = e.fresh("some", I)
        e.assume(z3.And(n >= 0, z3.StrToInt(z3.IntToStr(n)) == n))
        return n

    def start(self, place, tag, a):
        if place == "numFmt":
            self.j = z3.simplify(self.j + 1)
        elif place == "xf":
            self.i = z3.simplify(self.i + 1)

    def eof(self):
        E().assume(z3.And(self.i == NX, self.j == NF))
        E().check_feasible()


def text(f):
    return lambda i: z3.IntToStr(f(i))


def text_on(f):
    return lambda i: [f(i) >= 0, f(i) < 65536, z3.StrToInt(z3.IntToStr(f(i))) == f(i)]


BY = {"style": Fam("format of style", text(FI), on=text_on(FI)), "custom": Fam("number of custom", text(FID), inv=lambda t: JF(z3.StrToInt(t)), on=text_on(FID))}
KEYX = Fam("style", lambda i: z3.IntToStr(i), inv=lambda t: z3.StrToInt(t), on=lambda i: [z3.Implies(i >= 0, z3.StrToInt(z3.IntToStr(i)) == i)])


def xlsx_run(e):
    setup(e, KEYX, BY, "str")
    BY["style"].at(K)
    e.assume(z3.StrToInt(z3.IntToStr(K)) == K)
    c, j = customs()
    e.assume(z3.Implies(FID(j) == FI(K), z3.IntToStr(FID(j)) == z3.IntToStr(FI(K))))
    e.watched = [("str", z3.IntToStr(K)), ("str", z3.IntToStr(FI(K))), ("int", FI(K))]
    docs = []
    w = call(e, "XlsxWorkbook", xlsx.XlsxWorkbook, "book.xlsx")
    w.zf = Zip({"xl/styles.xml": True})

    def document(io):
        if type(io) is not Part or io.path != "xl/styles.xml" or io.closed:
            e.fail("styles: the style part is read while it is open", repr(getattr(io, "path", io)))
        docs.append(StyleDoc())
        return docs[-1]
    e.document = document
    e.stubs = {pyexpat.ParserCreate: parser_create}
    return call(e, "styles", lambda: w.styles)


def info(m):
    c, j = customs()
    f = m.eval(FI(K), model_completion=True)
    return f"style {m.eval(K, model_completion=True)} of {m.eval(NX, model_completion=True)} with format {f}, custom: {m.eval(c, model_completion=True)} (date format: {m.eval(DATE(CODE(j)), model_completion=True)}, first section: {m.eval(FIRST(CODE(j)), model_completion=True)})"


@vc("C15", "styles (xlsx)", functions=("rxls.reader.xlsx:XlsxWorkbook.styles",), covers=("format", "style", "date", "number", "end"), assumes=(*TRUST, XML_TRUST[0], "format and style numbers are written without leading zeros"), budget=400)
def xlsx_styles():
    e = E()
    r = xlsx_run(e)
    key = SStr(z3.IntToStr(K))
    if not isinstance(r, dict):
        e.fail("styles: gives a table of the styles", repr(r))
    if not hasattr(r, "get"):
        U("this kind of style table")
    v = r.get(key)
    if v is None:
        e.prove(z3.Not(temporal()), "styles: every date style is one", info)
        e.prove(z3.Not(numeric()), "styles: every number style is one", info)
    else:
        e.prove(z3.Or(temporal(), numeric()), "styles: no other style is a date or number style", info)
        e.prove(z3.Implies(temporal(), iv(v) == rc.TYPE_NUMERIC | rc.REPR_TEMPORAL), "styles: a date style is a number shown as a date", info)
        e.prove(z3.Implies(numeric(), iv(v) == rc.TYPE_NUMERIC), "styles: a number style is a number", info)
        if not e.valid(z3.Not(temporal())):
            e.cover("date")
        if not e.valid(z3.Not(numeric())):
            e.cover("number")
    e.cover("end")


# ------------------------------------------------------------------------------------------------ XLSB
BYB = {"style": Fam("format of style", lambda i: FI(i), on=bound(FI), kind=("bytes", 2)), "custom": Fam("number of custom", lambda j: FID(j), inv=lambda t: JF(t), on=bound(FID), kind=("bytes", 2))}
KEYB = Fam("style", lambda i: i, inv=lambda t: t, kind=("bytes", 3))


class Records(World):
    """the records of xl/styles.bin that have the wanted ids: read again from where the stream stands"""
    vc_stream = True

    def __init__(self, name, only):
        e = E()
        ids = None if only is None else {x for x in (only.items if is_sym(only) else only)}
        self.name = name
        self.ids = sorted(ids & {44, 47} if ids is not None else {44, 47, 43})
        self.i, self.j = z3.IntVal(0), z3.IntVal(0)
        super().__init__()

    def ghosts(self):
        return {"styles": self.i, "formats": self.j}

    def guards(self):
        return ()

    def facts(self):
        return {"styles<=": z3.And(self.i >= 0, self.i <= NX), "formats<=": z3.And(self.j >= 0, self.j <= NF)}

    def havoc(self, loc):
        self.i, self.j = E().fresh("styles", I), E().fresh("formats", I)

    def vc_iter(self):
        return self

    def vc_more(self):
        e = E()
        if e.choose(2, "more"):
            if 47 in self.ids:
                e.assume(self.i == NX)
            if 44 in self.ids:
                e.assume(self.j == NF)
            e.check_feasible()
            return False
        return True

    def vc_next(self):
        e = E()
        self.touch()
        rid = self.ids[e.choose(len(self.ids), "record")]
        n, a = e.fresh("size", I), e.fresh("record", ArrII)
        byte = lambda k: z3.Select(a, k)
        e.assume(z3.And(*[z3.And(byte(k) >= 0, byte(k) <= 255) for k in range(8)]))
        le2 = lambda k: byte(k) + 256 * byte(k + 1)
        if rid == 47:
            e.assume(n >= 16)
            if e.choose(2, "kind of style"):
                e.assume(le2(0) == 0xFFFF)          # a style of styles
            else:
                i = self.i
                e.assume(z3.And(i < NX, le2(0) != 0xFFFF, le2(2) == FI(i), *bound(FI)(i)))
                self.i = z3.simplify(i + 1)
                e.cover("style")
        elif rid == 44:
            j = self.j
            s = SEnc(SStr(CODE(j)), "utf-16-le")
            e.assume(z3.And(j < NF, le2(0) == FID(j), *bound(FID)(j), n == 6 + s.n, byte(2) + 256 * byte(3) + 65536 * byte(4) + 2 ** 24 * byte(5) == s.n / 2))
            e.assume(sv(decode_bytes(SBytes(a, z3.IntVal(6), n - 6), "utf-16-le")) == CODE(j))
            self.j = z3.simplify(j + 1)
            e.cover("format")
        else:
            e.assume(n >= 0)
        e.check_feasible()
        return record(rid, SBytes(a, z3.IntVal(0), n))


class Bin(Part):
    """the open style part; scan_biff reads from the start only when the part is at the start"""
    pass


def xlsb_run(e):
    setup(e, KEYB, BYB, "bytes")
    e.watched = [(("bytes", 3), K), (("bytes", 2), FI(K)), ("int", FI(K))]
    w = call(e, "XlsbWorkbook", xlsb.XlsbWorkbook, "book.xlsb")
    w.zf = Zip({"xl/styles.bin": True})
    state = {"at_start": True, "n": 0}

    def seek(part, pos, whence=0):
        if not (type(pos) is int and pos == 0 and whence == 0):
            U("seek in the style part")
        state["at_start"] = True
        return 0

    def biffs(io, only=None):
        if type(io) is not Part or io.path != "xl/styles.bin" or io.closed:
            e.fail("styles: the style part is read while it is open", repr(getattr(io, "path", io)))
        if not state["at_start"]:
            e.fail("styles: the style part is read from its start")
        state["at_start"] = False
        state["n"] += 1
        return Records(f"recs{state['n']}", only)
    Part.seek = seek
    e.stubs = {biff.scan_biff: biffs}
    return call(e, "styles", lambda: w.styles)


@vc("C15", "styles (xlsb)", functions=("rxls.reader.xlsb:XlsbWorkbook.styles",), covers=("format", "style", "date", "end"), assumes=(*TRUST, REC_TRUST[0]), budget=400)
def xlsb_styles():
    e = E()
    r = xlsb_run(e)
    if not hasattr(type(r), "vc_contains"):
        e.fail("styles: gives a table of the styles", repr(r))
    v = r.vc_contains(SBytes(z3.Store(z3.Store(z3.Store(z3.K(I, z3.IntVal(0)), 0, K % 256), 1, K / 256 % 256), 2, z3.IntVal(0)), z3.IntVal(0), z3.IntVal(3)))
    v = z3.BoolVal(v) if isinstance(v, bool) and not is_sym(v) else v.t
    e.prove(z3.Implies(temporal(), v), "styles: every date style is one", info)
    e.prove(z3.Implies(v, temporal()), "styles: no other style is a date style", info)
    if not e.valid(z3.Not(temporal())):
        e.cover("date")
    e.cover("end")


# ------------------------------------------------------------------------------------------------ single format codes
def codes(run):
    def harness():
        e = E()
        deep = _DEEP.setdefault(run, Opaque(SPECS, deep_words))
        keep = globals()["REGEX"]
        globals()["REGEX"] = deep
        try:
            run(e)
        finally:
            globals()["REGEX"] = keep
        for chain, name in deep.known.items():
            if name is None and chain[-1][0] in ("search", "match", "fullmatch"):
                w = next((w for c, s, w in deep.tried if c == chain and s == "date format"), None)
                e.fail("format codes: a code is a date format exactly when its first section has a date letter outside quotes and brackets", f"code {w!r}")
        e.prove(z3.BoolVal(True), "format codes: a code is a date format exactly when its first section has a date letter outside quotes and brackets")
        e.cover("end")
    return harness


_DEEP = {}
for _n, _r in (("xlsx", xlsx_run), ("xlsb", xlsb_run)):
    vc("C15", f"format codes ({_n})", functions=(f"rxls.reader.{_n}:re_xt, re_dt, re_s1",), covers=("end",), bounded=f"format codes of at most {DEEP} characters out of eight, shorter and padded ones out of more", budget=400)(codes(_r))
