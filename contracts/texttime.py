"""C09: text -> timestamps (rxls.chunk.casts:_strptime, mf_strptime; rxls.chunk.chunk:chunk.as_temporal)."""
from __future__ import annotations
import re
import z3
import numpy as np
import pyarrow as pa
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, is_sym, fresh_int
from vc import models_np as mn, models_pa as mp, models_re as mre
from vc.models_np import NArr, track, fact_all, witness
from vc.models_pa import AArr, fresh_aarr, STRP_OK, STRP_MS
from vc.loops import World
from .api import vc
from .numeric import call, size, generic, is_arr
import rxls.chunk.casts as casts
from rxls.chunk.chunk import chunk
from rxls.constants import TYPE_NUMERIC, TYPE_STRING, REPR_PREPARED, REPR_SHARED, REPR_TEMPORAL

I, S = z3.IntSort(), z3.StringSort()
NP = -(1 << 63)
DAY = 86400000
YEAR1000 = -30610224000000      # 1000-01-01: a year has four digits, or is written with %y
TRUST = ("pyarrow's strptime kernel (uninterpreted: which texts a format parses, and to which moment)", "numpy 1.26 elementwise semantics of the modelled ufuncs and casts")
# a format all of whose directives are times of day
TIME_ONLY = mre.whole("([^%]|%[EO]?[HIMSTRXprkltnzZ%])*", 0, "fullmatch")


def time_only(f):
    f = z3.simplify(f)
    if z3.is_string_value(f):
        return z3.BoolVal(bool(re.fullmatch("([^%]|%[EO]?[HIMSTRXprkltnzZ%])*", unescape(f))))
    return z3.InRe(f, TIME_ONLY)


def unescape(t):
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t.as_string())


def parses(s, f):
    """does format f parse the text s, and to which moment"""
    t = time_only(f)
    return z3.And(STRP_OK(s, f), z3.Or(t, STRP_MS(s, f) >= YEAR1000)), z3.If(t, STRP_MS(s, f) % DAY, STRP_MS(s, f))


def texts(n):
    return fresh_aarr("text", pa.large_string(), n, nulls=False)


@vc("C09", "_strptime", functions=("rxls.chunk.casts:_strptime",), covers=("time", "date", "parsed", "refused"), assumes=TRUST)
def strptime_one():
    e = E()
    n = size()
    a = texts(n)
    j = generic(n)
    f = SStr(z3.String("format"))
    s = a.val(j)
    k = e.choose(2)
    e.assume(time_only(f.t) if k == 0 else z3.Not(time_only(f.t)))
    e.cover(("time", "date")[k])
    r = call(e, "_strptime", casts._strptime, a, f)
    is_arr(e, r, "i8", n, "_strptime")
    ok, ms = parses(s, f.t)
    if e.fork(ok):
        e.cover("parsed")
        e.prove(r.at(j) == ms, "_strptime: a text that fits the format gives the moment it denotes (time-only formats: on 1970-01-01)",
                lambda m: f"format {m.eval(f.t)} text {m.eval(s)}")
    else:
        e.cover("refused")
        e.prove(r.at(j) == NP, "_strptime: a text that does not fit is marked as not parsed", lambda m: f"format {m.eval(f.t)} text {m.eval(s)}")


def strptime_stub(a, f):
    """contract of _strptime (proved above)"""
    if type(a) is not AArr:
        U("_strptime of another value")

    def el(i):
        ok, ms = P(a.val(i), sv(f))
        E().assume(z3.And(ms > -(1 << 62), ms < (1 << 62)))
        return z3.If(ok, ms, z3.IntVal(NP))
    return NArr("i8", a.n, el, "math")


POK = z3.Function("fits", S, S, z3.BoolSort())
PMS = z3.Function("denotes", S, S, I)


def P(s, f):
    """contract-level view of `parses`: uninterpreted, as proved for _strptime"""
    return POK(s, f), PMS(s, f)


class FmtWorld(World):
    """ghost: p is the first format of the list that parses the text under consideration (p == n: none does)"""
    name = "fmt"

    def __init__(self, s, fmt, n, p):
        self.s, self.fmt, self.n, self.p = s, fmt, n, p
        super().__init__()

    def i(self):
        for w in E().world:
            if w.name.startswith("it:"):
                return w.i
        return z3.IntVal(0)

    def ghosts(self):
        found = self.i() > self.p
        return {"found": found, "best": z3.If(found, PMS(self.s, self.fmt(self.p)), z3.IntVal(NP))}


def formats_list(s):
    """an arbitrary list of formats, with the first one that parses s"""
    e = E()
    n = fresh_int("formats")
    f = z3.Function("format_at", I, S)
    p = z3.Int("first_fitting")
    e.assume(z3.And(p >= 0, p <= n.t, n.t >= 0))
    e.assume(z3.Implies(p < n.t, POK(s, f(p))))
    rng_ = lambda t: z3.And(PMS(s, t) > -(1 << 62), PMS(s, t) < (1 << 62))
    e.assume(rng_(f(p)))

    def at(i):
        i = iv(i)
        e.assume(z3.And(z3.Implies(z3.And(i >= 0, i < p), z3.Not(POK(s, f(i)))), rng_(f(i))))
        return SStr(f(i))
    return n, f, p, SView(n, at)


@vc("C09", "mf_strptime (given formats)", functions=("rxls.chunk.casts:mf_strptime",), covers=("value", "refused"), stubs=lambda: {casts._strptime: strptime_stub}, assumes=TRUST)
def mf_given():
    e = E()
    n = size()
    a = texts(n)
    j = generic(n)
    s = a.val(j)
    m, f, p, fmts = formats_list(s)
    e.assume(m.t >= 1)
    e.session_const["length"] = iv(n)
    FmtWorld(s, f, m.t, p)
    r = convert(e, lambda: casts.mf_strptime(a, fmts), j, z3.And(p < m.t), s)
    e.cover("value")
    is_arr(e, r, "i8", n, "mf_strptime")
    e.prove(p < m.t, "mf_strptime: converts only if every text fits a format", lambda mo: f"text {mo.eval(s)}")
    e.prove(r.at(j) == PMS(s, f(p)), "mf_strptime: each text gives the moment of the first format in the list that parses it", lambda mo: f"text {mo.eval(s)} first fitting format {mo.eval(p)}")


def convert(e, f, j, fits, s):
    try:
        return f()
    except Abort:
        raise
    except pa.ArrowInvalid:
        # the refusal is decided by some element: the arbitrary index j is chosen to be that element
        ws = [w for w in mn.indices() if not z3.eq(w, j)]
        if not ws:
            e.fail("mf_strptime: refuses only because of some text", "ArrowInvalid raised without looking at any text")
        e.assume(j == ws[-1])
        e.check_feasible()
        e.cover("refused")
        e.prove(z3.Not(fits), "mf_strptime: refuses only if some text fits no format", lambda mo: f"text {mo.eval(s)}")
        raise PathEnd()
    except BaseException as ex:   # noqa: BLE001
        e.fail("mf_strptime: raises nothing but ArrowInvalid", f"{type(ex).__name__}: {ex}")


DATE_F = ("%Y-%m-%d", "%d/%m/%Y", "%d/%m/%y", "%d.%m.%Y", "%d.%m.%y", "%d-%m-%Y", "%d-%m-%y")
TIME_F = ("%T", "%R")
DEFAULTS = tuple(x for d in DATE_F for x in (f"{d} %T", f"{d}T%T", f"{d} %R", f"{d}T%R", d)) + DATE_F + TIME_F


FIT, DEN = {}, {}


def by_index(f):
    """a fixed default format: what it makes of the text in row i"""
    if f not in FIT:
        FIT[f], DEN[f] = z3.Function(f"fits {f}", I, z3.BoolSort()), z3.Function(f"denotes {f}", I, I)
    return FIT[f], DEN[f]


def strptime_row_stub(a, f):
    """contract of _strptime for a constant format"""
    if type(a) is not AArr or not isinstance(f, str) or is_sym(f):
        U("_strptime of another value")
    fit, den = by_index(f)

    e = E()

    def el(i):
        d = den(i)
        e._add(d > NP)
        return z3.If(fit(i), d, z3.IntVal(NP))
    return NArr("i8", a.n, el, "math")


@vc("C09", "mf_strptime (default formats)", functions=("rxls.chunk.casts:mf_strptime",), covers=("value", "refused"), stubs=lambda: {casts._strptime: strptime_row_stub}, assumes=TRUST)
def mf_default():
    e = E()
    n = size()
    a = texts(n)
    j = generic(n)
    best, none = z3.IntVal(0), z3.BoolVal(True)
    for f in reversed(DEFAULTS):
        fit, den = by_index(f)
        best = z3.If(fit(j), den(j), best)
        none = z3.And(z3.Not(fit(j)), none)
    info = lambda mo: f"first default format for the row: {next((f for f in DEFAULTS if z3.is_true(mo.eval(by_index(f)[0](j)))), None)}"
    r = convert(e, lambda: casts.mf_strptime(a, None if e.choose(2) else ()), j, z3.Not(none), a.val(j))
    e.cover("value")
    is_arr(e, r, "i8", n, "mf_strptime")
    e.prove(z3.And(z3.Not(none), r.at(j) == best), "mf_strptime: converts only if every text fits a default format, and to the moment of the first one", info)


MFOK = z3.Function("fits_list", S, z3.BoolSort())
MFMS = z3.Function("denotes_by_list", S, I)


def mf_stub(fmts):
    def stub(arr, formats=None, *, strict=True):
        """contract of mf_strptime (proved above): every text converted by the list, or the whole refused"""
        e = E()
        if type(arr) is not AArr or strict is not True:
            U("mf_strptime called another way")
        if formats is not fmts:
            e.fail("as_temporal: the caller's formats are used", repr(formats))
        bad = lambda i: z3.And(arr.valid(i), z3.Not(MFOK(arr.val(i))))
        if e.choose(2, "mf"):
            witness(arr.n, bad)
            e.check_feasible()
            raise pa.ArrowInvalid()
        fact_all(arr.n, lambda i: z3.Not(bad(i)))
        e.check_feasible()
        return NArr("i8", arr.n, lambda i: MFMS(arr.val(i)), "math")
    return stub


@vc("C09", "as_temporal", functions=("rxls.chunk.chunk:chunk.as_temporal", "rxls.chunk.chunk:chunk.prepare", "rxls.chunk.chunk:chunk.arrow"), covers=("plain", "shared", "refused"),
    assumes=TRUST)
def as_temporal():
    e = E()
    n = size()
    j = generic(n)
    sh = e.choose(2)
    c, s = text_chunk(e, n, j, sh)
    fmts = ("%d",)
    e.stubs = {casts.mf_strptime: mf_stub(fmts)}
    try:
        r = c.as_temporal(fmts)
    except Abort:
        raise
    except pa.ArrowInvalid:
        e.cover("refused")
        ws = [w for w in mn.indices() if not z3.eq(w, j)]
        e.assume(j == ws[-1])
        e.check_feasible()
        e.prove(z3.Not(MFOK(s)), "as_temporal: refuses only if some text fits no format")
        return
    except BaseException as ex:   # noqa: BLE001
        e.fail("as_temporal: raises nothing but ArrowInvalid", f"{type(ex).__name__}: {ex}")
    e.cover(("plain", "shared")[sh])
    out = call(e, "arrow of converted text", r.arrow, dest_dtype=pa.timestamp("ms"))
    if type(out) is not AArr:
        e.fail("as_temporal: gives an arrow array", repr(out))
    e.prove(str(out.type) == "timestamp[ms]", "as_temporal: timestamps", str(out.type))
    e.prove(z3.And(iv(out.n) == iv(n), out.valid(j)), "as_temporal: one timestamp per text, none null")
    e.prove(z3.And(MFOK(s), out.val(j) == MFMS(s)), "as_temporal: each row is the moment its own text denotes")


def text_chunk(e, n, j, shared):
    """an arbitrary run of text cells and the text of the cell at j"""
    if not shared:
        a = texts(n)
        return chunk(a, TYPE_STRING | REPR_PREPARED, n), a.val(j)
    sst = fresh_aarr("sst", pa.large_string(), size("sst_n"), nulls=True)
    idx = fresh_aarr("index", pa.uint32(), n, nulls=False)
    # every cell refers to a text of the table (C14: null entries never become cells; C23: indices outside raise)
    fact_all(n, lambda i: z3.And(idx.val(i) < iv(sst.n), sst.valid(idx.val(i))))
    return chunk(idx, TYPE_STRING | REPR_SHARED, n, sst), sst.val(idx.val(j))
