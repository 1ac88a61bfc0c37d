"""Reference semantics of reading a workbook, written from the property statements (nothing from /repo is used).

A book is JSON data: {fmt: 'x'|'b', sst: [...], xfs: [numFmtId], fmts: [[id, code]], sheets: [{name, rows: [[cell...]...]}], lay: int, ...}
A cell is [column, kind, value, style].  Kinds of .xlsx: 'v' plain value, 'f' formula with a number, 'str' formula text, 's' shared index,
'b' boolean, 'e' error, '-' no value.  Kinds of .xlsb: record numbers 1..11.
"""
from __future__ import annotations
import io, math, random, re, struct
from fractions import Fraction
from xml.sax.saxutils import escape, quoteattr
import pyarrow as pa
import pyarrow.compute as pc
import books
from formats import first_section, valid_format, date_format

ERRORS = {"#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA", "#ДЕЛ/0!", "#ЗНАЧ!", "#ССЫЛКА!", "#ИМЯ?", "#ЧИСЛО!", "#Н/Д"}
BUILTIN_DATES = set(range(14, 23)) | {45, 46, 47}
BUILTIN_NUMBERS = {1, 2, 3, 4, 37, 38, 39, 40, 48}


class Refused(Exception):
    """the read must raise"""


class Skip(Exception):
    """outside the properties (no opinion)"""


# ---------------------------------------------------------------------------------------------------- styles
def style_kinds(book):
    """style index -> 'tmp' | 'num' | None"""
    fm = {}
    for i, c in book.get("fmts", ()):
        fm[i] = c
    out = []
    for f in book["xfs"]:
        k = None
        custom = fm.get(f)
        if custom is not None and date_format(custom):
            k = "tmp"
        if f in BUILTIN_DATES:
            k = "tmp"
        if book["fmt"] == "x":
            if k is None and custom is not None and (first_section(custom) == "0" or ".00" in first_section(custom)):
                k = "num"
            if f in BUILTIN_NUMBERS and k is None:
                k = "num"
        out.append(k)
    return out


# ---------------------------------------------------------------------------------------------------- values
def rk(v):
    if v & 2:
        n = v >> 2
        if n >= 1 << 29:
            n -= 1 << 30
        x = float(n)
    else:
        x = struct.unpack("<d", struct.pack("<Q", (v & 0xFFFFFFFC) << 32))[0]
    return x / 100.0 if v & 1 else x


def serial_ms(s):
    """the exact moment of serial s in milliseconds since 1970 (a Fraction), or None outside the documented range"""
    if not math.isfinite(s) or s < 0 or s >= 2958466:
        return None
    f = Fraction(s)
    if f < 1:
        d = f
    elif f < 60:
        d = f - 25568
    else:
        d = f - 25569
    return d * 86400000


def serial_ok(s, got):
    e = serial_ms(s)
    return e is None or abs(Fraction(got) - e) <= Fraction(1, 2) + Fraction(1, 10)


def null_pred(spec):
    if spec is None:
        return lambda t: t in ERRORS
    if isinstance(spec, dict):      # predicate: {"prefix": p}
        return lambda t: t in ERRORS or t.startswith(spec["prefix"])
    return lambda t: t in ERRORS or t in spec


def sst_texts(book):
    """shared entries as text (None: null because empty)"""
    out = []
    for it in book.get("sst") or ():
        if book["fmt"] == "x":
            t = "" if it is None else it if isinstance(it, str) else "".join(it)
            out.append(t.strip() or None)
        else:
            out.append(it or "")
    return out


# ---------------------------------------------------------------------------------------------------- sheet -> cells
def cells(book, sheet, o):
    """[(row, col, (run-type, kind, value))] in stream order; kind in num / tmp / str / raw (unparsed xlsx number text)"""
    pred = null_pred(o.get("null_values"))
    st = style_kinds(book)
    sst = sst_texts(book)
    skip, take, keep = o.get("skip_rows", 0), o.get("take_rows", 0), o.get("take_rows_non_empty", False)
    skip_cols = o.get("skip_cols") or ()
    out = []
    row = 0
    for i, cs in enumerate(sheet["rows"]):
        if i < skip:
            continue
        if take and row > take:
            break
        n = 0
        for c in cs or ():
            col, kind, v, s = c
            if col in skip_cols:
                continue
            sk = st[s] if s is not None and s < len(st) else (st[0] if s is None and book["fmt"] == "x" and st else None)
            if book["fmt"] == "x":
                r = cell_x(kind, v, sk, sst, pred)
            else:
                r = cell_b(kind, v, sk, sst, pred)
            if r is None:
                continue
            n += 1
            out.append((row, col, r))
        if n or keep:
            row += 1
    return out


def cell_x(kind, v, sk, sst, pred):
    if kind == "-" or v is None:
        return None
    if kind == "s":
        if not 0 <= v < len(sst):
            return ("s", "bad", v)
        t = sst[v]
        return None if t is None or pred(t) else ("s", "str", t)
    t = str(v).strip()
    if not t or pred(t):
        return None
    if sk is None:
        return ("p", "str", t)
    return (sk, "raw:" + sk, t)


def cell_b(kind, v, sk, sst, pred):
    if kind in (6, 8):
        return None if pred(v) else ("p", "str", v)
    if kind == 7:
        if not 0 <= v < len(sst):
            return ("s", "bad", v)
        return None if pred(sst[v]) else ("s", "str", sst[v])
    if kind in (5, 9):
        return ("d" + str(sk), "tmp" if sk == "tmp" else "num", v)
    if kind in (4, 10):
        return ("b", "num", 1.0 * v)
    if kind == 2:
        return ("r" + str(sk), "tmp" if sk == "tmp" else "num", rk(v))
    return None


# ---------------------------------------------------------------------------------------------------- columns
def columns(cs):
    """col -> {row: (kind, value)} in order of first appearance"""
    cols = {}
    for row, col, r in cs:
        d = cols.setdefault(col, {})
        if d and row <= max(d):
            continue
        d[row] = r
    res = {}
    for col, d in cols.items():
        out = {}
        run = []

        def flush():
            if not run:
                return
            typ, k = run[0][1][0], run[0][1][1]
            if k.startswith("raw:"):
                try:
                    vals = [float(x[1][2].encode()) for x in run]
                    for (r_, _), x in zip(run, vals):
                        out[r_] = (k[4:], x)
                except ValueError:
                    for r_, x in run:
                        out[r_] = ("str", x[2])
            else:
                for r_, x in run:
                    out[r_] = (x[1], x[2])
            run.clear()
        prev = None
        for r_ in sorted(d):
            if prev is not None and (r_ != prev + 1 or d[r_][0] != run[-1][1][0]):
                flush()
            run.append((r_, d[r_]))
            prev = r_
        flush()
        res[col] = out
    return res


# ---------------------------------------------------------------------------------------------------- typing of a window
DATE_F = ("%Y-%m-%d", "%d/%m/%Y", "%d/%m/%y", "%d.%m.%Y", "%d.%m.%y", "%d-%m-%Y", "%d-%m-%y")
TIME_F = ("%T", "%R")
ALL_F = tuple(x for d in DATE_F for x in (f"{d} %T", f"{d}T%T", f"{d} %R", f"{d}T%R", d)) + DATE_F + TIME_F


def text_ms(t, formats):
    """ms since 1970 by the first format that fits, or None"""
    for f in formats or ALL_F:
        try:
            x = pc.strptime(pa.array([t], pa.string()), f, "ms", error_is_null=True)[0]
        except Exception:   # noqa: BLE001
            return None
        if not x.is_valid:
            continue
        v = x.cast(pa.int64()).as_py()
        if re.fullmatch("([^%]|%[EO]?[HIMSTRXprkltnzZ%])*", f):
            return v % 86400000
        if v < -30610224000000:
            continue
        return v
    return None


def text_f8(t):
    try:
        return pa.scalar(t, pa.string()).cast(pa.float64()).as_py()
    except pa.ArrowInvalid:
        return None


def text_of(kind, v):
    if kind == "str":
        return v
    if kind == "num":
        return pa.scalar(v, pa.float64()).cast(pa.string()).as_py()
    return ("serial", v)     # text of a timestamp: compared through serial_ok


def narrow(vals, prec):
    import numpy as np
    for v in vals:
        if not math.isfinite(v) or abs(v) >= 2.0**63:
            return False
        r = float(np.round(np.float64(v), prec))
        if r != math.trunc(v):
            return False
    return True


def resolve(items, o):
    """items: [(kind, value) | None] -> list of acceptable (type, [value]); values of timestamps may be ('serial', s)"""
    mode = o.get("conflict_resolve", "no")
    cd, cn = mode in ("temporal", "all"), mode in ("numeric", "all")
    fm = o.get("datetime_formats")
    if isinstance(fm, str):
        fm = (fm,)
    kinds = {x[0] for x in items if x}
    if "bad" in kinds:
        raise Refused("shared index outside the table")
    asis = ("text", [None if x is None else text_of(*x) for x in items])
    if not kinds or kinds == {"str"}:
        return [asis]
    if kinds == {"tmp"}:
        return [("ms", [None if x is None else ("serial", x[1]) for x in items])]
    if "tmp" in kinds:
        if not cd:
            return [asis]
        out, amb = [], False
        via = set()
        for x in items:
            if x is None:
                out.append(None)
            elif x[0] in ("tmp", "num"):
                out.append(("serial", x[1]))
            else:
                m = text_ms(x[1], fm)
                if m is not None:
                    via.add("t")
                    out.append(m)
                    continue
                f = text_f8(x[1]) if cn else None
                if f is None:
                    return [asis]
                via.add("n")
                out.append(("serial", f))
        if len(via) == 2:     # texts of both forms: whether they convert depends on how they are grouped
            alt = []
            return [("ms*", out), asis] + alt
        return [("ms", out)]
    vals = []
    if "str" in kinds:
        if not cn:
            return [asis]
        for x in items:
            if x is None:
                vals.append(None)
            elif x[0] == "num":
                vals.append(x[1])
            else:
                f = text_f8(x[1])
                if f is None:
                    return [asis]
                vals.append(f)
    else:
        vals = [None if x is None else x[1] for x in items]
    if narrow([v for v in vals if v is not None], o.get("float_precision", 6)):
        return [("int", [None if v is None else math.trunc(v) for v in vals])]
    return [("f8", vals)]


def window(d, off, n, mask=None):
    """rows off..off+n-1 of a column (n == 0: to its end), or the masked rows after off"""
    last = max(d) + 1 if d else 0
    if mask is not None:
        return [d.get(off + i) for i, m in enumerate(mask) if m]
    if n <= 0:
        n = max(0, last - off)
    return [d.get(off + i) for i in range(n)]


TYPES = {"text": pa.large_string(), "ms": pa.timestamp("ms"), "ms*": pa.timestamp("ms"), "int": pa.int64(), "f8": pa.float64()}


def same_value(typ, want, got):
    """got: pyarrow scalar"""
    if want is None:
        return not got.is_valid
    if not got.is_valid:
        return False
    if typ == "text":
        g = got.as_py()
        if isinstance(want, tuple):
            try:
                x = pa.scalar(g).cast(pa.timestamp("ms")).cast(pa.int64()).as_py()
            except pa.ArrowInvalid:
                return serial_ms(want[1]) is None
            return serial_ok(want[1], x)
        return g == want
    if typ in ("ms", "ms*"):
        x = got.cast(pa.int64()).as_py()
        if isinstance(want, tuple):
            return serial_ok(want[1], x) or typ == "ms*"
        return x == want or typ == "ms*"
    g = got.as_py()
    if typ == "f8":
        return struct.pack("<d", g) == struct.pack("<d", want) or (g != g and want != want)
    return g == want


def same_array(alts, arr):
    """None or a description of the difference between a pyarrow array and all acceptable results"""
    why = []
    for typ, vals in alts:
        if arr.type != TYPES[typ]:
            why.append(f"type {arr.type}, expected {TYPES[typ]}")
            continue
        if len(arr) != len(vals):
            why.append(f"{len(arr)} rows, expected {len(vals)}")
            continue
        for i, w in enumerate(vals):
            if not same_value(typ, w, arr[i]):
                why.append(f"row {i}: {arr[i]!r}, expected {w!r}")
                break
        else:
            return None
    return "; or ".join(why)


def header_text(d, row, o):
    """text of a header cell: the column's window [row, row+1) as text"""
    x = d.get(row)
    if x is None:
        return None
    return to_text([x], o)[0]


def to_text(items, o):
    a = resolve(items, o)
    if len(a) > 1:
        raise Skip("grouping dependent")
    typ, vals = a[0]
    out = []
    for v in vals:
        if v is None or isinstance(v, str):
            out.append(v)
        elif isinstance(v, tuple) or typ == "ms":
            ms = v if not isinstance(v, tuple) else None
            if ms is None:
                e = serial_ms(v[1])
                if e is None or abs(e - round(e)) > Fraction(2, 5):
                    raise Skip("rounding of a timestamp shown as text")
                ms = round(e)
            out.append(pa.scalar(ms, pa.int64()).cast(pa.timestamp("ms")).cast(pa.string()).as_py())
        elif typ == "int":
            out.append(str(v))
        else:
            out.append(pa.scalar(v, pa.float64()).cast(pa.string()).as_py())
    return out


def dedupe(names):
    out = []
    for h in names:
        n, i = h, 1
        while n in out:
            n = f"{h}.{i}"
            i += 1
        out.append(n)
    return out


def header_names(grid):
    """grid: per column (left to right) the list of header cell texts top-down"""
    out = []
    left = None
    for parts in grid:
        parts = list(parts)
        top = next((i for i, x in enumerate(parts) if x is not None), None)
        if top is None:
            out.append("Unnamed")
            continue
        if left is not None and len(parts) > 1:
            for i in range(top):
                parts[i] = left[i]
        left = parts
        out.append(", ".join(x for x in parts if x) or "Unnamed")
    return dedupe(out)


def read(book, o):
    """-> (names, [alternatives per column]) or raises Refused / Skip"""
    sh = o.get("sheet", 0)
    if isinstance(sh, int):
        if not 0 <= sh < len(book["sheets"]):
            raise Refused("sheet position")
        sheet = book["sheets"][sh]
    else:
        m = [s for s in book["sheets"] if s["name"] == sh]
        if not m:
            raise Refused("sheet name")
        sheet = m[0]
    cols = columns(cells(book, sheet, o))
    if not cols:
        raise Refused("empty sheet")
    order = sorted(cols)
    rows = max(max(d) for d in cols.values()) + 1
    first = 0
    look = o.get("lookup_head")
    if look is not None:
        size = o.get("lookup_size", 30)
        first = None
        if isinstance(look, int):
            if look not in cols:
                raise Refused("lookup column")
            for i, t in enumerate(window(cols[look], 0, size)):
                if t is not None:
                    first = i
                    break
        else:
            for d in cols.values():
                tx = to_text(window(d, 0, size), o)
                hit = [i for i, t in enumerate(tx) if t is not None and re.search(look, t)]
                if hit:
                    first = hit[0]
                    break
        if first is None:
            raise Refused("lookup")
    h = o.get("header", 0)
    if isinstance(h, list):
        if len(h) != len(order):
            raise Refused("header count")
        names, hh = list(h), 0
    elif h:
        hh = int(h)
        grid = [to_text(window(cols[c], first, hh), o) for c in order]
        names = header_names(grid)
    else:
        names, hh = [f"Unnamed. {i}" for i in range(len(order))], 0
    skip_after = o.get("skip_rows_after_header", 0)
    off = first + hh + skip_after
    n = max(0, rows - off)
    mask = None
    rf = o.get("row_filters")
    if rf:
        if isinstance(rf, str):
            sel = [c for nm, c in zip(names, order) if re.match(rf, nm)]
        elif all(isinstance(x, int) for x in rf):
            sel = [c for i, c in enumerate(order) if i in rf]
        elif all(isinstance(x, str) for x in rf):
            sel = [c for nm, c in zip(names, order) if any(re.match(x, nm) for x in rf)]
        else:
            raise Refused("filter")
        if sel:
            bits = []
            for c in sel:
                w = window(cols[c], off, n) if n else []
                a = resolve(w, o)
                if len(a) > 1:
                    raise Skip("grouping dependent")
                bits.append([not (v is None or (isinstance(v, float) and v != v)) for v in a[0][1]])
            strat = o.get("row_filters_strategy", "or")
            if len(bits) == 1:
                mask = bits[0]
            else:
                if isinstance(strat, str):
                    if strat not in ("or", "and"):
                        raise Refused("strategy")
                    ops = [strat] * (len(bits) - 1)
                else:
                    ops = list(strat)
                    if len(ops) != len(bits) - 1 or any(x not in ("and", "or") for x in ops):
                        raise Refused("strategy")
                mask = bits[0]
                for op, b in zip(ops, bits[1:]):
                    mask = [(x and y) if op == "and" else (x or y) for x, y in zip(mask, b)]
            if not any(mask):
                raise Refused("filter selects nothing")
    out = []
    for c in order:
        w = window(cols[c], off, n, mask) if n else []
        out.append(resolve(w, o))
    return names, out


# ---------------------------------------------------------------------------------------------------- writing
def sheet_xml(sheet, lay):
    """the sheet part; lay seeds harmless variations of the XML"""
    r = random.Random(lay)
    ws = (lambda: r.choice(["", "", "\n", "  ", "\n\t"])) if lay else (lambda: "")
    cm = (lambda: r.choice(["", "", "", "<!-- note -->", "<!--" + "x" * r.choice([10, 900, 8000]) + "-->"])) if lay else (lambda: "")

    def esc(t):
        if lay and r.random() < 0.2 and "]]>" not in t:
            k = r.randrange(len(t) + 1)
            return escape(t[:k]) + "<![CDATA[" + t[k:] + "]]>"
        if lay and r.random() < 0.2 and t:
            k = r.randrange(len(t))
            return escape(t[:k]) + f"&#{ord(t[k])};" + escape(t[k + 1:])
        return escape(t)
    out = [f'<?xml version="1.0" encoding="UTF-8"?><worksheet {books.NS}>{ws()}{cm()}']
    if lay and r.random() < .5:
        out.append('<sheetViews><sheetView workbookViewId="0"/></sheetViews><cols><col min="1" max="3" width="9"/></cols>')
    out.append("<sheetData>")
    for i, cs in enumerate(sheet["rows"]):
        a = f' r="{i + 1}"' if not lay or r.random() < .7 else f' spans="1:3" ht="15" r="{i + 1}"'
        if cs is None and lay and r.random() < .5:
            out.append(f"<row{a}/>{ws()}")
            continue
        out.append(f"<row{a}>{ws()}")
        for c in cs or ():
            col, kind, v, s = c
            at = [f'r="{books.letters(col)}{i + 1}"']
            if s is not None:
                at.append(f's="{s}"')
            t = {"s": "s", "str": "str", "b": "b", "e": "e"}.get(kind)
            if t:
                at.append(f't="{t}"')
            elif kind == "v" and lay and r.random() < .2:
                at.append('t="n"')
            if lay:
                r.shuffle(at)
            body = ws()
            if kind in ("f", "str"):
                body += f"<f>{esc('A1+1')}</f>{ws()}{cm()}"
            if kind != "-" and v is not None:
                body += f"<v>{esc(str(v))}</v>{ws()}"
            if lay and r.random() < .1:
                body += "<extLst><ext uri=\"x\"/></extLst>"
            if body:
                out.append(f"<c {' '.join(at)}>{body}</c>{ws()}{cm()}")
            else:
                out.append(f"<c {' '.join(at)}/>{ws()}")
        out.append(f"</row>{ws()}{cm()}")
    out.append("</sheetData>")
    if lay and r.random() < .5:
        out.append('<pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/>')
    out.append("</worksheet>")
    return "".join(out).encode()


def sheet_bin(sheet, lay):
    r = random.Random(lay)
    out = books.rec(129)
    junk = lambda: books.rec(r.choice([485, 147, 148, 390, 60, 3000]), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 130, 300])))) if lay and r.random() < .3 else b""
    out += junk() + books.rec(145) + junk()
    for i, cs in enumerate(sheet["rows"]):
        out += books.xlsb_row(i) + junk()
        for col, kind, v, s in cs or ():
            out += books.xlsb_cell(kind, col, v, s or 0) + junk()
    out += books.rec(146) + junk()
    return out + books.rec(130)


def write(book):
    lay = book.get("lay", 0)
    kw = dict(names=[s["name"] for s in book["sheets"]], rels=book.get("rels"), extra=book.get("extra"))
    if book["fmt"] == "x":
        b = books.xlsx_book([sheet_xml(s, lay) for s in book["sheets"]], sst=book.get("sst", ()), styles=books.xlsx_styles(book["xfs"], book.get("fmts", ()), book.get("dxfs", ()), book.get("xfid", True)), **kw)
    else:
        b = books.xlsb_book([sheet_bin(s, lay) for s in book["sheets"]], sst=book.get("sst", ()), styles=books.xlsb_styles(book["xfs"], book.get("fmts", ())), **kw)
    return b


DT = {"i8": pa.int64(), "f8": pa.float64(), "str": pa.string(), "lstr": pa.large_string(), "ts": pa.timestamp("s"), "tms": pa.timestamp("ms"), "tus": pa.timestamp("us"),
      "d32": pa.date32(), "i4": pa.int32(), "bool": pa.bool_(), "i1": pa.int8(), "dec": pa.decimal128(20, 3), "t32": pa.time32("ms"), "tutc": pa.timestamp("ms", "UTC")}


def call(book, o):
    """run the real read; -> ('ok', table) or ('raise', exception)"""
    from rxls.reader import read as real
    f = write(book)
    kw = {k: v for k, v in o.items() if k not in ("sheet", "null_values", "dtypes", "datetime_formats", "cb")}
    nv = o.get("null_values")
    if isinstance(nv, dict):
        kw["null_values"] = lambda t, p=nv["prefix"]: t.startswith(p)
    elif nv is not None:
        kw["null_values"] = nv
    if o.get("datetime_formats") is not None:
        kw["datetime_formats"] = o["datetime_formats"] if isinstance(o["datetime_formats"], str) else tuple(o["datetime_formats"])
    d = o.get("dtypes")
    if isinstance(d, dict):
        kw["dtypes"] = {k: DT[v] for k, v in d.items()}
    elif isinstance(d, list):
        kw["dtypes"] = [DT[x] for x in d]
    elif d is not None:
        kw["dtypes"] = DT[d]
    if o.get("cb"):
        kw["row_callback"] = lambda: None
    try:
        return "ok", real(f, o.get("sheet", 0), **kw)
    except Exception as ex:   # noqa: BLE001
        return "raise", ex


def compare(book, o):
    """None, or how the real table differs from the reference"""
    try:
        want = read(book, o)
    except Refused as ex:
        st, got = call(book, o)
        if st == "ok":
            return f"read returned a table of {got.num_rows} rows {got.column_names} although it must raise ({ex})"
        return None
    except Skip:
        return None
    st, got = call(book, o)
    names, cols = want
    if o.get("dtypes") is not None:
        return compare_typed(names, cols, o, st, got)
    if st != "ok":
        return f"read raised {got!r}; expected columns {names}"
    if got.column_names != names:
        return f"column names {got.column_names}, expected {names}"
    for nm, alts, c in zip(names, cols, got.columns):
        a = c.combine_chunks() if c.num_chunks != 1 else c.chunk(0)
        why = same_array(alts, a)
        if why:
            return f"column {nm!r}: {why}"
    return None


def want_array(alts):
    if len(alts) > 1:
        raise Skip("grouping dependent")
    typ, vals = alts[0]
    out = []
    for v in vals:
        if isinstance(v, tuple):
            e = serial_ms(v[1])
            if e is None or abs(e - round(e)) > Fraction(2, 5):
                raise Skip("rounding")
            v = round(e)
            if typ == "text":
                v = pa.scalar(v, pa.int64()).cast(pa.timestamp("ms")).cast(pa.string()).as_py()
        out.append(v)
    if typ == "ms":
        return pa.array(out, pa.int64()).cast(pa.timestamp("ms"))
    return pa.array(out, TYPES[typ])


def compare_typed(names, cols, o, st, got):
    d = o["dtypes"]
    try:
        arrs = [want_array(a) for a in cols]
    except Skip:
        return None
    if isinstance(d, dict):
        ts = [d.get(n) for n in names]
    elif isinstance(d, list):
        if len(d) != len(names):
            return None if st == "raise" else "read returned a table although the number of types does not match"
        ts = d
    else:
        ts = [d] * len(names)
    exp = []
    for a, t in zip(arrs, ts):
        if t is None:
            exp.append(a)
            continue
        try:
            exp.append(a if a.type == DT[t] else a.cast(DT[t]))
        except Exception:   # noqa: BLE001
            return None if st == "raise" else f"read returned a table although a column of type {a.type} cannot be converted to {DT[t]}"
    if st != "ok":
        return f"read raised {got!r}; expected columns {names} of types {[str(x.type) for x in exp]}"
    if got.column_names != names:
        return f"column names {got.column_names}, expected {names}"
    for nm, e, c in zip(names, exp, got.columns):
        if c.type != e.type:
            return f"column {nm!r} has type {c.type}, expected {e.type}"
        if c.to_pylist() != e.to_pylist() and str(c.to_pylist()) != str(e.to_pylist()):
            return f"column {nm!r}: {c.to_pylist()[:8]} expected {e.to_pylist()[:8]}"
    return None
