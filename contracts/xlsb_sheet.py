"""C10 / C14 / C24 / C21: the XLSB worksheet iterator (rxls.reader.xlsb:XlsbWorkbook.iter_worksheet).

The sheet is an arbitrary stream of BIFF records (contract of scan_biff, C02).  A ghost machine reads the same records and keeps what the
properties talk about: the number of the row in the sheet, its number among the rows kept, whether it has data, whether reading has to
stop.  The loop is cut; its invariant (the reader's row counter and flags against the ghosts) is inferred and re-proved on every run."""
from __future__ import annotations
import z3
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, bv_, is_sym, fresh_int, fresh_bytes, ArrII, eq_term, U, length
from vc.loops import World
from .api import vc
from .numeric import call
import rxls.biff as biff
import rxls.reader.xlsb as xlsb
from rxls.biff import record
from rxls.cell import cell
from rxls.constants import TYPE_NUMERIC, TYPE_STRING, REPR_PREPARED, REPR_SHARED, REPR_RKNUMBER, REPR_TEMPORAL, REPR_BOOLEAN

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
TRUST = ("records of the sheet come from scan_biff (C02), each long enough for its kind; the file object of ZipFile.open is handed to scan_biff",)
TEXTS, REALS, BOOLS = (6, 8), (5, 9), (4, 10)
CELLS = (2, 4, 5, 6, 7, 8, 9, 10)
MINLEN = {2: 12, 4: 9, 10: 9, 5: 16, 9: 16, 6: 12, 8: 12, 7: 12}
NULLP = z3.Function("null_value", S, B)
NULLSST = z3.Function("null_shared_string", I, B)
DATE = z3.Function("date_style", I, B)
SKIPC = z3.Function("skipped_column", I, B)


class SPred(Sym):
    """a caller's predicate on texts"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def vc_call(self, s):
        return mkbool(self.f(sv(s)))

    __call__ = vc_call


class InSet(Sym):
    """a non-empty collection known by its membership predicate on integers / little-endian bytes of a width"""
    __slots__ = ("f", "width")

    def __init__(self, f, width=None):
        self.f, self.width = f, width

    def __bool__(self):
        return True

    def vc_in(self, x):
        if self.width is None:
            t = iv(x)
        else:
            if not isinstance(x, bytes):
                U("membership of another value")
            E().prove(iv(length(x)) == self.width, "membership test on the bytes that identify an entry")
            t = le(x, 0, self.width)
        return mkbool(self.f(t))

    def __contains__(self, x):
        return bool(self.vc_in(x))


def le(b, off, k):
    t = z3.IntVal(0)
    for q in range(k):
        t = t + iv(b.at(z3.IntVal(off + q)) if is_sym(b) else b[off + q]) * (1 << (8 * q))
    return z3.simplify(t)


class Part(Sym):
    """an open part of the workbook"""
    __slots__ = ("path", "closed")

    def __init__(self, path):
        self.path, self.closed = path, False

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.closed = True


class Zip(Sym):
    __slots__ = ("opened", "names")

    def __init__(self, names=()):
        self.opened, self.names = [], names

    def open(self, path, mode="r"):
        self.opened.append(path)
        return Part(path)

    def namelist(self):
        return list(self.names)


class Records(World):
    """the record stream of a sheet and the ghost machine reading it"""
    name = "sheet"
    vc_stream = True

    def __init__(self, only, o):
        e = E()
        self.only, self.o = only, o
        self.phys, self.kept = z3.IntVal(0), z3.IntVal(0)
        self.data, self.stop, self.over = (z3.BoolVal(False),) * 3
        self.out, self.want, self.ended = [], None, False
        if only is not None:
            ids = {x for x in only} if not is_sym(only) else {x for x in only.items}
            for k in (0, 402) + CELLS:
                if k not in ids:
                    e.fail(f"records of kind {k} are read", repr(only))
            self.ids = sorted(ids)
        else:
            self.ids = sorted({0, 402, 1, 3, 11, *CELLS})
        super().__init__()

    def ghosts(self):
        sk = self.o["skip"]
        inside = self.phys - 1 >= sk
        return {"rows": self.phys, "row": z3.If(inside, self.kept + sk, self.phys - 1), "kept": self.kept, "data": self.data, "started": self.phys >= 1, "stop": self.stop, "over": self.over, "skip": sk}

    def guards(self):
        return {"started", "stop"}

    def facts(self):
        return {"running": z3.Not(self.stop), "kept>=0": self.kept >= 0, "rows>=0": self.phys >= 0, "first": z3.Implies(self.phys <= self.o["skip"], self.kept == 0),
                "kept<=": z3.Implies(self.phys - 1 >= self.o["skip"], self.kept <= self.phys - 1 - self.o["skip"]), "before": z3.Implies(self.phys - 1 < self.o["skip"], z3.Not(self.data)),
                "unlimited": z3.Or(self.stop, self.o["take"] == 0, self.kept <= self.o["take"])}

    def havoc(self, loc):
        e = E()
        self.phys, self.kept = e.fresh("rows", I), e.fresh("kept", I)
        self.data, self.stop, self.over = e.fresh("data", B), e.fresh("stop", B), e.fresh("over", B)
        self.out, self.want = [], None

    def vc_iter(self):
        return self

    def vc_more(self):
        self.ended = E().choose(2, "more") == 1
        return not self.ended

    def vc_next(self):
        e = E()
        self.touch()
        self.check()
        rid = self.ids[e.choose(len(self.ids), "record")]
        e.assume(z3.Not(self.over))
        e.check_feasible()
        d = fresh_bytes("record")
        e.assume(d.n >= MINLEN.get(rid, 0))
        self.want = self.step(rid, d)
        return record(rid, d)

    def step(self, rid, d):
        """the specification: what this record stands for"""
        e = E()
        o = self.o
        inside = z3.And(self.phys >= 1, self.phys - 1 >= o["skip"])
        if rid == 0:
            e.cover("row")
            more = z3.And(inside, z3.Or(self.data, o["keep"]))
            self.kept = z3.simplify(z3.If(more, self.kept + 1, self.kept))
            self.phys = z3.simplify(self.phys + 1)
            self.data = z3.BoolVal(False)
            self.stop = z3.Or(self.stop, z3.And(o["take"] > 0, self.phys - 1 >= o["skip"], self.kept > o["take"]))
            return None
        if rid == 402:
            self.over = z3.BoolVal(True)       # no rows and cells after the end of the sheet data
            return None
        if rid not in CELLS:
            return None
        e.cover(f"record {rid}")
        col = le(d, 0, 4)
        emit = z3.And(inside, z3.Not(self.stop), z3.Not(z3.And(o["skipping"], SKIPC(col))))
        x = {"id": rid, "col": col, "row": self.kept, "date": DATE(le(d, 4, 3)), "d": d}
        if rid in TEXTS:
            n = le(d, 8, 4)
            e.assume(d.n >= 12 + 2 * n)
            x["text"] = sv(SBytes(d.base, z3.simplify(d.off + 12), z3.simplify(2 * n)).decode("utf-16-le"))
            if o["nulls"]:
                emit = z3.And(emit, z3.Not(NULLP(x["text"])))
        elif rid == 7:
            x["index"] = le(d, 8, 4)
            if o["nulls"]:
                emit = z3.And(emit, z3.Not(NULLSST(x["index"])))
        x["emit"] = emit
        self.data = z3.Or(self.data, emit)
        return x

    def info(self, m):
        ev = lambda t: m.eval(t, model_completion=True)
        w = self.want or {}
        return (f"record kind {w.get('id')} col {ev(w['col']) if w else ''}, sheet row {ev(self.phys) - 1}, kept row {ev(self.kept)}, skip_rows {ev(self.o['skip'])}, take_rows {ev(self.o['take'])}, "
                f"keep empty rows {ev(self.o['keep'])}, stopped {ev(self.stop)}, produced {len(self.out)}")

    def check(self):
        e = E()
        what = "xlsb sheet"
        w, out = self.want, self.out
        if w is None:
            if out:
                e.fail(f"{what}: only cell records give cells", self.info)
            return
        if len(out) > 1:
            e.fail(f"{what}: no cell appears twice", self.info)
        if not out:
            e.prove(z3.Not(w["emit"]), f"{what}: no cell is lost", self.info)
            return
        e.prove(w["emit"], f"{what}: only cells asked for appear", self.info)
        e.assume(w["emit"])
        e.check_feasible()
        c = out[0]
        e.cover(f"cell {w['id']}")
        if type(c) is not cell:
            e.fail(f"{what}: gives cells", repr(c))
        e.prove(iv(c.row) == w["row"], f"{what}: every cell at its own row", self.info)
        e.prove(iv(c.col) == w["col"], f"{what}: every cell at its own column", self.info)
        if not self.o["values"]:
            return
        d, k = w["d"], w["id"]
        if is_sym(c.xdt):
            U("symbolic cell kind")
        if self.o["values"] == "dates":
            if k not in TEXTS and k != 7 and k not in BOOLS and c.xdt & TYPE_NUMERIC:
                date = bool(c.xdt & REPR_TEMPORAL)
                e.prove(w["date"] if date else z3.Not(w["date"]), f"{what}: numbers are dates exactly when their own style is a date style", self.info)
            return
        part = lambda off, n: SBytes(d.base, z3.simplify(d.off + off), z3.IntVal(n))
        if k in TEXTS:
            e.prove(c.xdt == TYPE_STRING | REPR_PREPARED, f"{what}: text records are text", hex(c.xdt))
            if not isinstance(c.val, str):
                e.fail(f"{what}: text records are text", repr(c.val))
            e.prove(sv(c.val) == w["text"], f"{what}: text records give the exact string", self.info)
            return
        if not isinstance(c.val, bytes) or not is_sym(c.val):
            e.fail(f"{what}: cells carry the bytes of their record", repr(c.val))
        if k == 7:
            e.prove(c.xdt == TYPE_STRING | REPR_SHARED, f"{what}: shared string records are shared strings", hex(c.xdt))
            e.prove(eq_term(c.val, part(8, 4)), f"{what}: shared string records give their own string number", self.info)
        elif k in BOOLS:
            e.prove(c.xdt == TYPE_NUMERIC | REPR_BOOLEAN, f"{what}: boolean records are booleans", hex(c.xdt))
            e.prove(eq_term(c.val, part(8, 1)), f"{what}: boolean records give their own value", self.info)
        else:
            rk = k == 2
            f = TYPE_NUMERIC | (REPR_RKNUMBER if rk else 0)
            date = bool(c.xdt & REPR_TEMPORAL)
            e.prove(c.xdt == (f | REPR_TEMPORAL if date else f if rk else f | REPR_PREPARED), f"{what}: number records are numbers of their own format", hex(c.xdt))
            e.prove(w["date"] if date else z3.Not(w["date"]), f"{what}: numbers are dates exactly when their own style is a date style", self.info)
            e.prove(eq_term(c.val, part(8, 4 if rk else 8)), f"{what}: number records give their own number", self.info)

    def arrive(self, key, entry):
        self.check()
        self.want, self.out = None, []


class Book(xlsb.XlsbWorkbook):
    """the workbook with its lazily read parts replaced by their contracts (C13-C15, C21)"""
    __slots__ = ()

    @property
    def sheets(self):
        return self.__dict__["vc_sheets"]

    @property
    def shared(self):
        if self.__dict__["vc_nulls"]:
            self.null_shared = InSet(NULLSST, 4)
        return object()

    @property
    def styles(self):
        return InSet(DATE, 3)


def book(e, nulls):
    w = call(e, "XlsbWorkbook", Book, "book.xlsb")
    w.zf = Zip()
    w.__dict__.update(vc_sheets={"first": "xl/worksheets/one.bin"}, vc_nulls=nulls)
    w.null_values = SPred(NULLP) if nulls else SPred(lambda s: z3.BoolVal(False))
    return w


def options(e, nulls, values, skipping):
    skip, take = z3.Int("skip_rows"), z3.Int("take_rows")
    keep = z3.Bool("keep_empty")
    e.assume(z3.And(skip >= 0, take >= 0))
    return {"skip": skip, "take": take, "keep": keep, "nulls": nulls, "values": values, "skipping": z3.BoolVal(skipping)}


def sheet_vc(nulls, values, full):
    def harness():
        e = E()
        how = e.choose(3, "form") if full else 1
        o = options(e, nulls, values, how == 0)
        w = book(e, nulls)
        st = []

        def scan(io, only=None):
            e.prove(type(io) is Part and io.path == "xl/worksheets/one.bin" and not io.closed, "xlsb sheet: the records of the sheet asked for are read")
            st.append(Records(only, o))
            return st[-1]
        e.stubs = {biff.scan_biff: scan}
        calls = []
        kw = {"skip_cols": InSet(SKIPC)} if how == 0 else {"skip_cols": None} if how == 1 else {"row_callback": lambda: calls.append(1)}
        e.cover(("skip_cols", "plain", "callback")[how])
        try:
            for c in w.iter_worksheet(0, skip_rows=mkint(o["skip"]), take_rows=mkint(o["take"]), take_rows_non_empty=mkbool(o["keep"]), **kw):
                st[-1].out.append(c)
        except Abort:
            raise
        except BaseException as ex:   # noqa: BLE001
            e.fail("xlsb sheet: reading a sheet never raises", f"{type(ex).__name__}: {ex}")
        if len(st) != 1:
            e.fail("xlsb sheet: the sheet is read once", repr(len(st)))
        st[0].check()
        if st[0].ended:
            e.cover("end")
        else:
            e.prove(z3.Or(st[0].stop, st[0].over), "xlsb sheet: reading stops only at the end of the sheet or after the last row asked for", st[0].info)
            e.cover("stop")
    return harness


FN = ("rxls.reader.xlsb:XlsbWorkbook.iter_worksheet",)
ALL = tuple(f"cell {k}" for k in CELLS)
vc("C10", "iter_worksheet", functions=FN, covers=("row", "skip_cols", "plain", "callback", "end", "stop", *ALL), assumes=TRUST)(sheet_vc(False, False, True))
vc("C14", "iter_worksheet (xlsb)", functions=FN, covers=("row", "end", "stop", *ALL), assumes=TRUST)(sheet_vc(True, False, False))
vc("C24", "iter_worksheet", functions=FN, covers=ALL, assumes=TRUST)(sheet_vc(False, True, False))
vc("C15", "iter_worksheet (xlsb)", functions=FN, covers=ALL, assumes=TRUST)(sheet_vc(False, "dates", False))
