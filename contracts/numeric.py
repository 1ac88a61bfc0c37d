"""C03 / C04 / C05: RK numbers, serial dates, integer narrowing (rxls.chunk.casts, rxls.chunk.chunk)."""
from __future__ import annotations
import z3
import numpy as np
import pyarrow as pa
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, ArrII, length, is_sym, fresh_int, fresh_bool
from vc import models_np as mn, models_pa as mp
from vc.models_np import NArr, RV, fresh_narr, track, F64, RNE
from vc.models_pa import AArr
from .api import vc
import rxls.chunk.casts as casts
import rxls.chunk.chunk as chunk_mod
from rxls.chunk.chunk import chunk
from rxls.constants import TYPE_NUMERIC, TYPE_STRING, TYPE_NULL, REPR_PREPARED, REPR_RKNUMBER, REPR_TEMPORAL

I, R = z3.IntSort(), z3.RealSort()
NUMPY = ("numpy 1.26 elementwise semantics of the modelled ufuncs and casts (IEEE-754 doubles, two's complement integers)",)
RKV = z3.Function("rk_value", I, R)
RKK = z3.Function("rk_class", I, I)


def call(e, what, f, *a, **k):
    try:
        return f(*a, **k)
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        e.fail(f"{what}: never raises", f"{type(ex).__name__}: {ex}")


def size(name="n"):
    n = fresh_int(name)
    E().assume(n.t >= 1)
    return n


def generic(n):
    """an arbitrary position of an array of length n (every obligation about it holds for every element)"""
    j = z3.Int("j!any")
    E().assume(z3.And(j >= 0, j < iv(n)))
    track(j)
    return j


def is_arr(e, x, dt, n, what):
    if type(x) is not NArr or x.dt != dt:
        e.fail(f"{what}: an array of {dt}", f"got {x!r}")
    e.prove(iv(x.n) == iv(n), f"{what}: one result per input, in order")


def over_one(t):
    """x / 1.0 is x"""
    one = z3.FPVal(1.0, F64)
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_FPA_DIV and z3.is_true(z3.simplify(t.arg(2) == one)):
        t = t.arg(1)
    return t


def congruent(a, b):
    """a == b, first tried argument by argument where both are the same operation (floating-point division is slow to decide)"""
    a, b = over_one(a), over_one(b)
    if z3.eq(a, b):
        return z3.BoolVal(True)
    if z3.is_fp(a) and z3.is_app(a) and a.num_args() and a.decl() == b.decl():
        sub = [congruent(x, y) for x, y in zip(a.children(), b.children())]
        if all(z3.is_true(z3.simplify(s)) or E().valid(s, False) for s in sub):
            return z3.BoolVal(True)
    return a == b


# ------------------------------------------------------------------------------------------------ C03
@vc("C03", "rk_to_f8", functions=("rxls.chunk.casts:rk_to_f8",), covers=("rk0", "rk1", "rk2", "rk3"), query_ms=60000, assumes=NUMPY)
def rk_to_f8():
    e = E()
    n = size()
    a = fresh_narr("rk", "u4", n, "bv")
    j = generic(n)
    x = a.at(j)
    k = e.choose(4)
    e.assume(z3.And(z3.Extract(0, 0, x) == (k & 1), z3.Extract(1, 1, x) == (k >> 1)))
    e.cover(f"rk{k}")
    r = call(e, "rk_to_f8", casts.rk_to_f8, a)
    is_arr(e, r, "f8", n, "rk_to_f8")
    hi = z3.Extract(31, 2, x)
    if k & 2:
        want = z3.fpToFP(RNE, z3.SignExt(2, hi), F64)                                             # signed 30-bit integer
    else:
        want = z3.fpBVToFP(z3.Concat(hi, z3.BitVecVal(0, 34)), F64)                # upper 30 bits of a double
    if k & 1:
        want = z3.fpDiv(RNE, want, z3.FPVal(100.0, F64))
    got = z3.simplify(z3.substitute(r.at(j), (z3.Extract(0, 0, x), z3.BitVecVal(k & 1, 1))))
    # the flag bits are fixed on this path: split the word so that the case selections simplify
    h = z3.BitVec("word", 30)
    full = z3.Concat(h, z3.BitVecVal(k, 2))
    e.assume(x == full)
    sub = lambda t: z3.simplify(z3.substitute(t, (x, full)))
    info = lambda m: f"RK word {m.eval(x, model_completion=True)}"
    e.prove(congruent(sub(r.at(j)), sub(want)), "rk_to_f8: every element is the number the RK format defines", info)


def rk_stub(a):
    """contract of rk_to_f8 (proved above): elementwise, length preserving"""
    if type(a) is not NArr or a.dt != "u4":
        U("rk_to_f8 of another value")

    def el(i):
        t = a.at(i)
        E().assume(z3.And(RKK(t) >= 0, RKK(t) <= 3))
        return RV(RKV(t), RKK(t))
    return NArr("f8", a.n, el, "math")


MSV = z3.Function("serial_ms", R, I)


def ms_stub(a):
    """contract of f8_to_ms_win (proved below): elementwise, length preserving"""
    if type(a) is not NArr or a.dt != "f8":
        U("f8_to_ms_win of another value")

    def el(i):
        v = a.at(i)
        t = MSV(z3.If(v.k == 0, v.r, z3.RealVal(-1)))
        return t
    return NArr("i8", a.n, el, "math")


def stubs():
    return {casts.rk_to_f8: rk_stub, casts.f8_to_ms_win: ms_stub}


def byte_items(n, k, name="items"):
    """a list of n byte strings of k bytes each"""
    f = z3.Function(name, I, ArrII)
    return SView(n, lambda i: SBytes(f(iv(i)), z3.IntVal(0), z3.IntVal(k)))


def le(item, k):
    t = z3.IntVal(0)
    for q in range(k):
        t = t + iv(item.at(z3.IntVal(q))) * (1 << (8 * q))
    return t


def same_rv(x, r, k):
    return z3.And(x.k == k, z3.Implies(k == 0, x.r == r))


def check_column(e, what, out, n, j, temporal, want_r, want_k):
    """the arrow array of a chunk: n rows, row j is the number (or the timestamp of it)"""
    if type(out) is not AArr:
        e.fail(f"{what}: gives an arrow array", repr(out))
    e.prove(str(out.type) == ("timestamp[ms]" if temporal else "double"), f"{what}: column type", str(out.type))
    e.prove(iv(out.n) == iv(n), f"{what}: one row per cell")
    e.prove(out.valid(j), f"{what}: no cell becomes null")
    v = out.val(j)
    if temporal:
        e.prove(v == MSV(z3.If(want_k == 0, want_r, z3.RealVal(-1))), f"{what}: each row holds the timestamp of its own cell")
    else:
        e.prove(same_rv(v, want_r, want_k), f"{what}: each row holds the number of its own cell")


def xlsb_numeric_vc(pid, temporal):
    def harness():
        e = E()
        n = size()
        rk = e.choose(2, "rk")
        items = byte_items(n, 4 if rk else 8)
        j = generic(n)
        c = call(e, "chunk.xlsb_numeric", chunk.xlsb_numeric, items, is_boolean=False, is_temporal=temporal, is_rknumber=bool(rk))
        e.prove(iv(c.size) == iv(n), "chunk.xlsb_numeric: size is the number of cells")
        e.prove(bool(c.type & TYPE_NUMERIC) and bool(c.type & REPR_TEMPORAL) == temporal, "chunk.xlsb_numeric: numeric chunk, temporal as asked")
        t = le(items.f(mkint(j)), 4 if rk else 8)
        if rk:
            wr, wk = RKV(t), RKK(t)
        else:
            wr, wk = mn.F8BITS(t), mn.F8KIND(t)
        how = e.choose(3, "use")
        e.cover(f"{'rk' if rk else 'f8'}{how}")
        if how == 0:
            out = call(e, "chunk.arrow", c.arrow)
        elif how == 1:
            c2 = call(e, "chunk.prepare", c.prepare)
            c2 = call(e, "chunk.prepare", c2.prepare)      # reading twice changes nothing
            out = call(e, "chunk.arrow", c2.arrow)
        else:
            call(e, "chunk.arrow", c.arrow)
            out = call(e, "chunk.arrow", c.arrow)
        check_column(e, "xlsb numbers", out, n, j, temporal, wr, wk)
    return harness


def xlsb_boolean():
    e = E()
    n = size()
    items = byte_items(n, 1)
    j = generic(n)
    b = iv(items.f(mkint(j)).at(z3.IntVal(0)))
    e.assume(b <= 1)
    c = call(e, "chunk.xlsb_numeric", chunk.xlsb_numeric, items, is_boolean=True, is_temporal=False, is_rknumber=False)
    e.prove(iv(c.size) == iv(n), "chunk.xlsb_numeric: size is the number of cells")
    e.prove(bool(c.type & TYPE_NUMERIC) and not c.type & REPR_TEMPORAL, "chunk.xlsb_numeric: booleans are numbers")
    if e.choose(2):
        c = call(e, "chunk.prepare", c.prepare)
    out = call(e, "chunk.arrow", c.arrow)
    check_column(e, "xlsb booleans", out, n, j, False, z3.ToReal(b), z3.IntVal(0))
    e.cover("boolean")


CELLS = ("rxls.chunk.chunk:chunk.xlsb_numeric", "rxls.chunk.chunk:chunk.prepare", "rxls.chunk.chunk:chunk.arrow", "rxls.chunk.casts:_unsafe_data_to_array", "rxls.chunk.casts:_unsafe_arrow")
for _t in (False, True):
    vc("C24", f"xlsb_numeric ({'dates' if _t else 'numbers'})", functions=CELLS, covers=("rk0", "rk1", "rk2", "f80", "f81", "f82"), stubs=stubs, assumes=NUMPY)(xlsb_numeric_vc("C24", _t))
vc("C24", "xlsb_numeric (booleans)", functions=CELLS, covers=("boolean",), stubs=stubs, assumes=NUMPY)(xlsb_boolean)
vc("C03", "xlsb_numeric", functions=("rxls.chunk.chunk:chunk.xlsb_numeric", "rxls.chunk.chunk:chunk.prepare", "rxls.chunk.chunk:chunk.arrow", "rxls.chunk.casts:_unsafe_data_to_array",
                                     "rxls.chunk.casts:_unsafe_arrow"), covers=("rk0", "rk1", "rk2", "f80", "f81", "f82"), stubs=stubs, assumes=NUMPY)(xlsb_numeric_vc("C03", False))
vc("C04", "xlsb_numeric", functions=("rxls.chunk.chunk:chunk.xlsb_numeric", "rxls.chunk.chunk:chunk.prepare", "rxls.chunk.chunk:chunk.arrow", "rxls.chunk.casts:_unsafe_data_to_array",
                                     "rxls.chunk.casts:_unsafe_arrow"), covers=("rk0", "rk1", "rk2", "f80", "f81", "f82"), stubs=stubs, assumes=NUMPY)(xlsb_numeric_vc("C04", True))


# ------------------------------------------------------------------------------------------------ C04
@vc("C04", "f8_to_ms_win", functions=("rxls.chunk.casts:f8_to_ms_win",), covers=("time", "early", "late"), assumes=NUMPY)
def f8_to_ms_win():
    e = E()
    n = size()
    a = fresh_narr("serial", "f8", n, "math")
    j = generic(n)
    s = a.at(j)
    e.assume(z3.And(s.k == 0, s.r >= 0, s.r < 2958466))
    k = e.choose(3)
    # serial 60 is the day that does not exist (1900-02-29): the properties say nothing about it
    lo, hi, off = [(0, 1, 0), (1, 60, 25568), (61, 2958466, 25569)][k]
    e.assume(z3.And(s.r >= lo, s.r < hi))
    e.cover(("time", "early", "late")[k])
    r = call(e, "f8_to_ms_win", casts.f8_to_ms_win, a)
    is_arr(e, r, "i8", n, "f8_to_ms_win")
    got = r.at(j)
    exact = (s.r - off) * 86400000
    d = z3.ToReal(got) - exact
    tol = z3.RealVal("6/10")     # half a millisecond plus the rounding of the double computation
    info = lambda m: f"serial {m.eval(s.r, model_completion=True)}"
    e.prove(z3.And(d <= tol, d >= -tol), "f8_to_ms_win: the millisecond nearest to the moment of the serial number", info)
    # whole seconds (and any exact millisecond count) come out exactly
    ms = z3.Int("ms")
    e.assume(z3.And(exact - z3.ToReal(ms) <= z3.RealVal("3/100"), z3.ToReal(ms) - exact <= z3.RealVal("3/100")))
    e.prove(got == ms, "f8_to_ms_win: a serial standing for a whole millisecond gives exactly that millisecond", info)


@vc("C04", "xlsx_numeric", functions=("rxls.chunk.chunk:chunk.xlsx_numeric", "rxls.chunk.chunk:chunk.xlsx_strings"), covers=("temporal", "text"), stubs=stubs, assumes=NUMPY)
def xlsx_numeric_t():
    xlsx_numeric(True)


def xlsx_numeric(temporal):
    e = E()
    n = size()
    f = z3.Function("texts", I, z3.StringSort())
    items = SView(n, lambda i: SEnc(SStr(f(iv(i))), "utf-8"))
    j = generic(n)
    c = call(e, "chunk.xlsx_numeric", chunk.xlsx_numeric, items, is_temporal=temporal)
    e.prove(iv(c.size) == iv(n), "chunk.xlsx_numeric: size is the number of cells")
    ok, val, cls = mn.text_parse("f8")
    out = call(e, "chunk.arrow", c.arrow)
    if c.type & TYPE_STRING:
        e.cover("text")
        # only when some cell is not a number: then every cell keeps its text
        e.prove(str(out.type) == "large_string", "chunk.xlsx_numeric: cells that are no numbers stay text", str(out.type))
        e.prove(z3.And(out.valid(j), out.val(j) == f(j)), "chunk.xlsx_numeric: every text is kept")
        # the generic cell may be assumed to parse, another one must not
        return
    e.cover("temporal" if temporal else "number")
    e.prove(ok(f(j)), "chunk.xlsx_numeric: a numeric chunk has only cells that are numbers")
    check_column(e, "xlsx numbers", out, n, j, temporal, val(f(j)), cls(f(j)))


# ------------------------------------------------------------------------------------------------ C05
def narrow_ok(v, p):
    """the value rounded to p decimals is its integer part, and fits 64 bits"""
    t = z3.If(v.r >= 0, z3.ToInt(v.r), -z3.ToInt(-v.r))
    return z3.And(v.k == 0, mn.NPROUNDK(v.r, p) == 0, mn.NPROUND(v.r, p) == z3.ToReal(t), t >= -(2 ** 63), t < 2 ** 63), t


@vc("C05", "f8_is_i8", functions=("rxls.chunk.casts:f8_is_i8",), covers=("yes", "no"), assumes=NUMPY)
def f8_is_i8():
    e = E()
    n = size()
    a = fresh_narr("x", "f8", n, "math")
    j = generic(n)
    p = fresh_int("precision")
    e.assume(z3.And(p.t >= 0, p.t <= 15))
    r = call(e, "f8_is_i8", casts.f8_is_i8, a, p)
    if isinstance(r, np.bool_):
        r = bool(r)
    if type(r) is not bool:
        e.fail("f8_is_i8: a truth value", repr(r))
    v = a.at(j)
    okj, _ = narrow_ok(v, p.t)
    if r:
        e.cover("yes")
        e.prove(okj, "f8_is_i8: true only if every value rounds to its integer part and fits 64 bits", lambda m: f"value {m.eval(v.r)} class {m.eval(v.k)}")
    else:
        e.cover("no")
        # false only if some value does not: the witness index of the reduction
        ws = [w for w in mn.indices() if not z3.eq(w, j)]
        e.prove(z3.Or(*[z3.And(w >= 0, w < iv(n), z3.Or(z3.Not(narrow_ok(a.at(w), p.t)[0]), a.at(w).r <= -(2 ** 63))) for w in ws]) if ws else False,
                "f8_is_i8: false only if some value does not")


def int_stub(a, p):
    """contract of f8_is_i8"""
    if type(a) is not NArr or a.dt != "f8":
        U("f8_is_i8 of another value")
    e = E()
    if e.choose(2, "is_i8") == 0:
        mn.fact_all(a.n, lambda i: narrow_ok(a.at(i), iv(p))[0])
        e.check_feasible()
        return np.bool_(True)
    mn.witness(a.n, lambda i: z3.Or(z3.Not(narrow_ok(a.at(i), iv(p))[0]), a.at(i).r <= -(2 ** 63)))
    e.check_feasible()
    return np.bool_(False)


def stubs5():
    return {**stubs(), casts.f8_is_i8: int_stub}


def chunk_shapes(e, count):
    """`count` chunks of arbitrary sizes, each a gap, plain doubles, RK numbers or booleans' doubles; returns (chunks, [(kind, n, value at i)])"""
    out = []
    for q in range(count):
        k = e.choose(3, f"kind{q}")
        n = fresh_int(f"size{q}")
        e.assume(n.t >= 1)
        if k == 0:
            out.append((chunk.nulls(n), None, n, None))
        elif k == 1:
            a = fresh_narr(f"num{q}", "f8", n, "math")
            out.append((chunk(a, TYPE_NUMERIC | REPR_PREPARED, n), "f8", n, a.at))
        else:
            a = fresh_narr(f"rk{q}", "u4", n, "math")
            out.append((chunk(a, TYPE_NUMERIC | REPR_RKNUMBER, n), "rk", n, lambda i, a=a: RV(RKV(a.at(i)), RKK(a.at(i)))))
    return out


def concat_numbers(count):
    def harness():
        e = E()
        cs = chunk_shapes(e, count)
        if all(k is None for _, k, _, _ in cs):
            raise PathEnd()
        p = fresh_int("precision")
        e.assume(z3.And(p.t >= 0, p.t <= 15))
        q = e.choose(count, "probe")
        j = z3.Int("j!any")
        e.assume(z3.And(j >= 0, j < iv(cs[q][2])))
        track(j)
        conf = [bool(e.choose(2, "conf_t")), bool(e.choose(2, "conf_n"))] if count == 1 else [True, False]
        out = call(e, "chunk.concatenate", chunk.concatenate, [c for c, *_ in cs], conf_to_datetime=conf[0], conf_to_numerics=conf[1], float_round_prec=p)
        tot = z3.IntVal(0)
        row = None
        for i, (_, _, n, _) in enumerate(cs):
            if i == q:
                row = z3.simplify(tot + j)
            tot = z3.simplify(tot + iv(n))
        if type(out) is not AArr:
            e.fail("chunk.concatenate: one arrow array", repr(out))
        e.prove(iv(out.n) == tot, "numeric column: as many rows as its runs and gaps together")
        ty = str(out.type)
        e.prove(ty in ("int64", "double"), "numeric column: 64-bit integers or doubles", ty)
        kind, at = cs[q][1], cs[q][3]
        if kind is None:
            e.prove(z3.Not(out.valid(row)), "numeric column: gaps are null")
            return
        e.prove(out.valid(row), "numeric column: no number becomes null")
        v = at(j)
        okj, t = narrow_ok(v, p.t)
        if ty == "int64":
            e.cover("int")
            e.prove(okj, "numeric column: integers only if every value rounds to its integer part and fits 64 bits")
            e.prove(out.val(row) == t, "numeric column: every returned integer is the integer part")
        else:
            e.cover("double")
            e.prove(same_rv(out.val(row), v.r, v.k), "numeric column: doubles are returned unchanged")
    return harness


for _c in (1, 2, 3):
    vc("C05", f"concatenate ({_c} runs)", functions=("rxls.chunk.chunk:chunk.concatenate", "rxls.chunk.chunk:chunk.arrow", "rxls.chunk.chunk:chunk.prepare", "rxls.chunk.chunk:chunk.nulls"),
       covers=("int", "double"), stubs=stubs5, bounded=f"columns of {_c} run(s) of cells or gaps, each of any length", assumes=NUMPY)(concat_numbers(_c))


@vc("C05", "xlsx_numeric", functions=("rxls.chunk.chunk:chunk.xlsx_numeric",), covers=("number", "text"), stubs=stubs, assumes=NUMPY)
def xlsx_numeric_n():
    xlsx_numeric(False)
