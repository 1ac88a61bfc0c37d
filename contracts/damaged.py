"""C23: a shared string number outside the table raises when the column's texts are built (rxls.chunk.chunk: xlsx_strings, xlsb_strings, prepare)."""
from __future__ import annotations
import z3
import pyarrow as pa
from vc.engine import E, Abort
from vc.values import *   # noqa: F403
from vc.values import iv
from vc import models_np as mn
from vc.models_np import track
from vc.models_pa import fresh_aarr
from .api import vc
from .numeric import size
from .column import OpenList
from rxls.chunk.chunk import chunk
from rxls.constants import TYPE_STRING, REPR_PREPARED

I, S = z3.IntSort(), z3.StringSort()
TRUST = ("numpy.fromiter and frombuffer, pyarrow's safe cast and its bounds-checked take do what their documentation says",)


def outside(binary):
    e = E()
    n, m = size("cells"), size("shared_strings")
    e.assume(m.t < 1 << 32)
    w = z3.Int("damaged_cell")
    e.assume(z3.And(w >= 0, w < n.t))
    track(w)
    if binary:
        fn = z3.Function("index_bytes", I, ArrII)
        data = OpenList(n.t, 4, fn)
        idx = z3.simplify(sum((iv(SBytes(fn(w), z3.IntVal(0), z3.IntVal(4)).at(z3.IntVal(q))) * (1 << (8 * q)) for q in range(4)), z3.IntVal(0)))
        good = idx < m.t
    else:
        fn = z3.Function("index_text", I, S)
        data = OpenList(n.t, "enc", fn)
        ok, val, _ = mn.text_parse("int")
        idx = val(fn(w))
        good = z3.And(ok(fn(w)), idx >= 0, idx < m.t)
    damaged = e.choose(2, "damaged")
    if damaged:
        e.assume(z3.Not(good))
    else:
        # every index is within the table
        if binary:
            mn.fact_all(n, lambda i: z3.simplify(sum((iv(SBytes(fn(i), z3.IntVal(0), z3.IntVal(4)).at(z3.IntVal(q))) * (1 << (8 * q)) for q in range(4)), z3.IntVal(0))) < m.t)
        else:
            mn.fact_all(n, lambda i: z3.And(ok(fn(i)), val(fn(i)) >= 0, val(fn(i)) < m.t))
    table = fresh_aarr("table", pa.large_string(), m)
    make = chunk.xlsb_strings if binary else chunk.xlsx_strings
    try:
        c = make(data, is_shared=True, shareds=table)
        r = c.prepare()
        if not (r.type & TYPE_STRING and r.type & REPR_PREPARED):
            e.fail("damaged: the texts of shared strings", repr(r.type))
        got = r.data
    except Abort:
        raise
    except Exception as ex:   # noqa: BLE001
        if not damaged:
            e.fail("damaged: texts within the table are given", f"{type(ex).__name__}: {ex}")
        e.cover("refused")
        return
    if damaged:
        e.fail("damaged: an index outside the shared table raises", lambda m_: f"index {m_.eval(idx)} in a table of {m_.eval(m.t)}")
    e.cover("within")
    e.prove(iv(got.n) == n.t, "damaged: every cell has its text")
    e.prove(got.val(w) == table.val(idx), "damaged: a cell has the text its index refers to")


def texts():
    """C24: a run of text records or of in-range shared string records"""
    e = E()
    n, m = size("cells"), size("shared_strings")
    e.assume(m.t < 1 << 32)
    j = z3.Int("row")
    e.assume(z3.And(j >= 0, j < n.t))
    track(j)
    shared = e.choose(2, "shared")
    table = fresh_aarr("table", pa.large_string(), m)
    if shared:
        fn = z3.Function("index_bytes", I, ArrII)
        data = OpenList(n.t, 4, fn)
        idx = lambda i: z3.simplify(sum((iv(SBytes(fn(i), z3.IntVal(0), z3.IntVal(4)).at(z3.IntVal(q))) * (1 << (8 * q)) for q in range(4)), z3.IntVal(0)))
        mn.fact_all(n, lambda i: idx(i) < m.t)
        valid, want = table.valid(idx(j)), table.val(idx(j))
    else:
        fn = z3.Function("cell_text", I, S)
        data = OpenList(n.t, "str", fn)
        valid, want = z3.BoolVal(True), fn(j)
    try:
        c = chunk.xlsb_strings(data, is_shared=bool(shared), shareds=table)
        out = c.arrow()
    except Abort:
        raise
    except Exception as ex:   # noqa: BLE001
        e.fail("xlsb texts: reading a run of texts never raises", f"{type(ex).__name__}: {ex}")
    e.cover("shared" if shared else "text")
    e.prove(iv(c.size) == n.t, "xlsb texts: size is the number of cells")
    e.prove(str(out.type) == "large_string", "xlsb texts: column type", str(out.type))
    e.prove(iv(out.n) == n.t, "xlsb texts: one row per cell")
    e.prove(out.valid(j) == valid, "xlsb texts: a cell is null only if its shared string is")
    e.prove(z3.Implies(valid, out.val(j) == want), "xlsb texts: each row holds the text of its own cell")


vc("C24", "xlsb_strings", covers=("shared", "text"), assumes=TRUST, functions=("rxls.chunk.chunk:chunk.xlsb_strings", "rxls.chunk.chunk:chunk.prepare", "rxls.chunk.chunk:chunk.arrow", "rxls.chunk.arrow:take"))(texts)

for _b in (False, True):
    vc("C23", f"shared strings outside the table ({'xlsb' if _b else 'xlsx'})", covers=("refused", "within"), assumes=TRUST,
       functions=(f"rxls.chunk.chunk:chunk.{'xlsb' if _b else 'xlsx'}_strings", "rxls.chunk.chunk:chunk.prepare", "rxls.chunk.arrow:take"))(lambda b=_b: outside(b))
