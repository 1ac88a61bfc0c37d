CA = "rxls/chunk/casts.py"; CH = "rxls/chunk/chunk.py"; CO = "rxls/reader/common.py"; XB = "rxls/reader/xlsb.py"; XX = "rxls/reader/xlsx.py"; SE = "rxls/series.py"; BF = "rxls/biff.py"; RE = "rxls/biff_recs.py"

seed("c01-two-mib-size", "C01", BF, '''                else b3_st_p(sz & 0x7F | 0x80, (sz >> 7) & 0x7F | 0x80, sz >> 14)
                if sz < 0x200000
''', '''                else b3_st_p(sz & 0x7F | 0x80, (sz >> 7) & 0x7F | 0x80, sz >> 14)
                if sz <= 0x200000
''', "a payload of exactly 2 MiB", "record.as_binary writes a three-byte size whose last byte carries the continuation bit", '''
from rxls.biff import record, scan_biff
n = 0x200000
b = record(19, b"x" * n).as_binary() + record(7, b"tail").as_binary()
got = [(r.rec_id, len(r.data)) for r in scan_biff(io.BytesIO(b))]
assert got == [(19, n), (7, 4)], got
''')
seed("c02-truncated-payload", "C02", BF, "if len(data) != sz:", "if not data:", "a stream cut inside the payload of its last record", "a truncated record is yielded as if it were complete", '''
from rxls.biff import record, scan_biff
b = record(6, b"abcdef").as_binary() + record(7, b"0123456789").as_binary()[:-3]
got = [(r.rec_id, r.data) for r in scan_biff(io.BytesIO(b))]
assert got == [(6, b"abcdef")], got
''')
seed("c02-four-byte-size", "C02", BF, '''                            sz = sz ^ 0x200000 | (io.read(1)[0] << 21)''', '''                            sz = sz | (io.read(1)[0] << 21)''',
     "a record of 2 MiB or more whose size has an even number of 2 MiB units", "four-byte sizes keep the continuation bit as a size bit", '''
from rxls.biff import scan_biff
n = 0x400000 + 5
b = bytes([6, (n & 0x7f) | 0x80, (n >> 7 & 0x7f) | 0x80, (n >> 14 & 0x7f) | 0x80, n >> 21]) + b"z" * n + b"\\x07\\x01!"
got = [(r.rec_id, len(r.data)) for r in scan_biff(io.BytesIO(b))]
assert got == [(6, n), (7, 1)], got
''')
XB_RK = '''
import struct, bk
from rxls.reader import read
def table(cells, **kw):
    return read(bk.xlsb_book([bk.xlsb_sheet(cells)]) if 0 else io.BytesIO(b""), **kw)
'''
seed("c03-negative-rk-integer", "C03", CA, '''            (arr.astype(np.int32) >> np.int32(2)).astype(np.float64),
            ((arr.astype(np.uint64) << np.uint64(32)).view(np.float64)),
        )
        / c_flag
    )


def f8_to_ms_win''', '''            (arr >> np.uint32(2)).astype(np.float64),
            ((arr.astype(np.uint64) << np.uint64(32)).view(np.float64)),
        )
        / c_flag
    )


def f8_to_ms_win''', "an RK cell holding a negative integer", "negative RK integers decode as large positive numbers", '''
import numpy as np
from rxls.chunk.casts import rk_to_f8
a = np.array([(-5 << 2 | 2) & 0xFFFFFFFF, (7 << 2) | 2, (-1234 << 2 | 3) & 0xFFFFFFFF], np.uint32)
got = rk_to_f8(a).tolist()
assert got == [-5.0, 7.0, -12.34], got
''')
seed("c03-rk-reciprocal", "C03", CA, '''    c_flag = ((arr & np.uint32(0b01)) * np.uint32(99) + np.uint32(1)).astype(np.float64)

    arr = arr & np.uint32(0xFFFFFFFC)

    return (
        np.where(
            i_flag,
            (arr.astype(np.int32) >> np.int32(2)).astype(np.float64),
            ((arr.astype(np.uint64) << np.uint64(32)).view(np.float64)),
        )
        / c_flag
    )
''', '''    c_flag = 1.0 / ((arr & np.uint32(0b01)) * np.uint32(99) + np.uint32(1)).astype(np.float64)

    arr = arr & np.uint32(0xFFFFFFFC)

    return (
        np.where(
            i_flag,
            (arr.astype(np.int32) >> np.int32(2)).astype(np.float64),
            ((arr.astype(np.uint64) << np.uint64(32)).view(np.float64)),
        )
        * c_flag
    )
''', "a divided-by-100 RK value whose quotient is not the product with 0.01", "hundredths decode one unit in the last place off", '''
import numpy as np
from rxls.chunk.casts import rk_to_f8
a = np.array([(k << 2) | 3 for k in range(2000)], np.uint32)
got = rk_to_f8(a).tolist()
assert got == [k / 100 for k in range(2000)], [(k, g) for k, g in enumerate(got) if g != k / 100][:3]
''')
seed("c04-day-59-fraction", "C04", CA, '''                * (np.float64(25_569.0) - (arr < np.float64(60.0)))
            )
        )
        * np.float64(86_400_000.0),
    ).astype(np.int64)


def ms_to_f8_win''', '''                * (np.float64(25_569.0) - (arr <= np.float64(59.0)))
            )
        )
        * np.float64(86_400_000.0),
    ).astype(np.int64)


def ms_to_f8_win''', "a serial strictly between 59 and 60 (a moment during 1900-02-28)", "times of day on 1900-02-28 are shifted by one day", '''
import numpy as np, datetime as dt
from rxls.chunk.casts import f8_to_ms_win
ms = int(f8_to_ms_win(np.array([59.5]))[0])
got = dt.datetime(1970, 1, 1) + dt.timedelta(milliseconds=ms)
assert got == dt.datetime(1900, 2, 28, 12), got
''')
seed("c05-gap-stops-check", "C05", CH, '''                if not c.type:
                    continue
''', '''                if not c.type:
                    break
''', "a numeric column with a gap, whole numbers before it and a fraction after it", "numbers after a gap are truncated to integers", '''
import bk, pyarrow as pa
from rxls.chunk.chunk import chunk
import numpy as np
a = chunk.xlsx_numeric(["1", "2"]); b = chunk.xlsx_numeric(["2.75"])
got = chunk.concatenate([a, chunk.nulls(2), b])
assert got.to_pylist() == [1.0, 2.0, None, None, 2.75], got
''')
seed("c06-second-cell-same-row", "C06", SE, "if _row <= self.__e_row:", "if _row < self.__e_row:", "two cells delivered for the same row of a column", "the second cell is appended and every later cell of the run is one row too low", '''
import pyarrow as pa
from rxls.series import xl_series
from rxls.cell import cell
s = xl_series(pa.nulls(0, pa.large_string()))
for r, v in ((0, "a"), (1, "b"), (1, "b2"), (2, "c"), (4, "d")):
    s.add(cell(r, 0, 0x18, v))
got = s.to_arrow().to_pylist()
assert got == ["a", "b", "c", None, "d"], got
''')
seed("c07-short-mask", "C07", CH, "_it = _chunk.take(slice(len(c_idx))).take(c_idx)", "_it = _chunk.take(c_idx)", "a mask that ends inside a run of cells", "masking raises or selects wrongly when the mask ends inside a run", '''
import pyarrow as pa
from rxls.series import xl_series
from rxls.cell import cell
s = xl_series(pa.nulls(0, pa.large_string()))
for r in range(6):
    s.add(cell(r, 0, 0x28, str(r)))
got = s.to_arrow(1, 0, idx=pa.array([True, False, True])).to_pylist()
assert got == [1, 3], got
''')
seed("c08-numeric-without-asking", "C08", CH, '''                        except pa.ArrowInvalid:  # noqa: PERF203
                            if conf_to_numerics:
                                try:''', '''                        except pa.ArrowInvalid:  # noqa: PERF203
                            if conf_to_numerics or nums_idx:
                                try:''', "conflict_resolve='temporal' and a column mixing dates, numbers and numeric text", "numeric text is turned into timestamps although only temporal conversion was asked for", '''
import pyarrow as pa
from rxls.series import xl_series
from rxls.cell import cell
s = xl_series(pa.nulls(0, pa.large_string()), conflict_resolve="temporal")
s.add(cell(0, 0, 0x24, "45000")); s.add(cell(1, 0, 0x28, "3")); s.add(cell(2, 0, 0x18, "17"))
got = s.to_arrow()
assert got.type == pa.large_string() and got.to_pylist()[2] == "17", got
''')
seed("c09-longest-format-first", "C09", CA, "    for format in formats:\n", "    for format in sorted(formats, key=len, reverse=True):\n", "a text that two formats of different length parse differently, the shorter one listed first",
     "the longest format wins instead of the first one listed", '''
import pyarrow as pa
from rxls.chunk.casts import mf_strptime
a = pa.array(["10:11:12", "2020-01-02 03:04:05"], pa.large_string())
got = mf_strptime(a, ("%T", "%y:%m:%d", "%Y-%m-%d %H:%M:%S")).tolist()
assert got[0] == ((10 * 60 + 11) * 60 + 12) * 1000, got
''')
seed("c10-boolean-rows-empty", "C10", XB, '''                    yield cell(
                        row - skip_rows,
                        col,
                        TYPE_NUMERIC | REPR_BOOLEAN,
                        r.data[8:9],
                    )
''', '''                    yield cell(row - skip_rows, col, TYPE_NUMERIC | REPR_BOOLEAN, r.data[8:9])
                    continue
''', "a row whose only cells are booleans, with empty rows dropped", "rows with nothing but booleans are treated as empty, so the next row overwrites their number", '''
import bk
from rxls.reader.xlsb import XlsbWorkbook
import seedlib
rows = [[(0, 4, True)], [(0, 5, 2.5)], [(0, 4, False)], [(0, 5, 3.5)]]
with XlsbWorkbook(seedlib.xlsb(rows)) as w:
    got = [(c.row, c.col) for c in w.iter_worksheet(0, take_rows_non_empty=False)]
assert got == [(0, 0), (1, 0), (2, 0), (3, 0)], got
''')
seed("c11-last-row-lost", "C11", XX, "if 0 < take_rows < row:", "if 0 < take_rows <= row and not take_non_empty:", "take_rows with empty rows dropped", "the last of the rows asked for is not read", '''
import seedlib
from rxls.reader.xlsx import XlsxWorkbook
rows = [[(0, "a")], [(0, "b")], [(0, "c")], [(0, "d")]]
with XlsxWorkbook(seedlib.xlsx(rows)) as w:
    got = [c.row for c in w.iter_worksheet(0, take_rows=2, take_rows_non_empty=False)]
    assert got == [0, 1, 2], got
''')
seed("c12-four-letters", "C12", XX, "            i += 1\n    return a", "            i = min(i + 1, 2)\n    return a", "a reference with four or more letters", "letters beyond the third are weighted like the third", '''
from rxls.reader.xlsx import col_idx
def ref(s):
    a = 0
    for ch in s:
        a = a * 26 + ord(ch) - 64
    return a - 1
for s in ("A", "Z", "AA", "XFD", "ABCD", "BAAA"):
    assert col_idx((s + "12").encode()) == ref(s), (s, col_idx((s + "12").encode()), ref(s))
''')
seed("c13-duplicate-items", "C13", XX, '''        return ret.finish().cast("large_string")''', '''        return ret.finish().unique().cast("large_string")''', "a shared string table with two equal items", "items after a repeated text move to a smaller index", '''
import bk
from rxls.reader.xlsx import XlsxWorkbook
import seedlib
with XlsxWorkbook(seedlib.xlsx([[(0, "a")]], sst=["one", "two", "one", "three"])) as w:
    got = w.shared.to_pylist()
assert got == ["one", "two", "one", "three"], got
''')
seed("c14-localised-error", "C14", XX, '        "#Н/Д",  # noqa: RUF001', '        "#H/Д",  # noqa: RUF001', "a cell holding the Russian #N/A text", "a localised error string becomes data (a Cyrillic letter was replaced by its Latin twin)", '''
import seedlib
from rxls.reader import read
t = read(seedlib.xlsx([[(0, "ok"), (1, "x")], [(0, "#Н/Д"), (1, "y")], [(0, "ok2"), (1, "z")]]), 0, 0)
got = t.column(0).to_pylist()
assert got == ["ok", None, "ok2"], got
''')
seed("c15-id-prefix", "C15", XX, "xf_id = [x for x, y in xfs.items() if y == f_id]", "xf_id = [x for x, y in xfs.items() if y.startswith(f_id)]",
     "a custom date format whose number is the beginning of the number of another, non-date format of a style",
     "styles of the longer format number are taken for dates", '''
import seedlib
from rxls.reader.xlsx import XlsxWorkbook
with XlsxWorkbook(seedlib.xlsx([[(0, "a")]], xfs=(0, 164, 1640), fmts=((164, "yyyy"), (1640, "0.0")))) as w:
    got = w.styles
assert set(got) == {"1"}, got
''')
seed("c15-mmss-builtin", "C15", XX, '''    [0x0E, 0x0F, 0x10, 0x11, 0x12, 0x12, 0x13, 0x14, 0x15, 0x16, 0x2D, 0x2E, 0x2F],
)

NUMERIC_STYLES''', '''    [0x0E, 0x0F, 0x10, 0x11, 0x12, 0x12, 0x13, 0x14, 0x15, 0x16, 0x2D, 0x2E],
)

NUMERIC_STYLES''', "a cell styled with the built-in format 47 (mm:ss.0)", "built-in format 47 is no longer a time format", '''
import seedlib
from rxls.reader.xlsx import XlsxWorkbook
with XlsxWorkbook(seedlib.xlsx([[(0, "a")]], xfs=(0, 46, 47, 48))) as w:
    got = w.styles
assert got.get("2") == 0x24, got
''')
seed("c16-fill-from-first", "C16", CO, "                prev_hdr = parts\n", "                prev_hdr = prev_hdr or parts\n", "a header of height 2 with two groups, the second one spanning two columns", "the cells above are filled from the first headed column, not the nearest one", '''
import seedlib
from rxls.reader import read
rows = [[(0, "G1"), (2, "G2")], [(0, "a"), (1, "b"), (2, "c"), (3, "d")], [(0, "1"), (1, "2"), (2, "3"), (3, "4")]]
t = read(seedlib.xlsx(rows), 0, 2)
assert t.column_names == ["G1, a", "G1, b", "G2, c", "G2, d"], t.column_names
''')
seed("c17-column-order", "C17", CO, "    for col in columns.values():\n        chunk = pc.match(", "    for _, col in sorted(columns.items()):\n        chunk = pc.match(", "a pattern matching in two columns at different rows, the right one appearing first in the sheet",
     "the lookup prefers the leftmost matching column over the one that appears first", '''
import seedlib
from rxls.reader import read
rows = [[(1, "x")], [(1, "Name")], [(0, "u"), (1, "v")], [(0, "Name"), (1, "w")], [(0, "1"), (1, "2")]]
t = read(seedlib.xlsx(rows), 0, 1, lookup_head="^Name$")
assert t.num_rows == 3 and t.column_names[1] == "Name", t
''')
seed("c18-nan-kept", "C18", CO, "            pc.invert(x.to_arrow(g_offset, g_length).is_null(nan_is_null=True))", "            pc.invert(x.to_arrow(g_offset, g_length).is_null())", "a filter column with a NaN cell", "rows whose filter cell is NaN are kept", '''
import seedlib
from rxls.reader import read
rows = [[(0, 6, "k"), (1, 6, "v")], [(0, 5, 1.5), (1, 6, "a")], [(0, 5, float("nan")), (1, 6, "b")], [(0, 5, 2.5), (1, 6, "c")]]
t = read(seedlib.xlsb(rows), 0, 1, row_filters="k")
assert t.column(1).to_pylist() == ["a", "c"], t
''')
seed("c19-first-column-length", "C19", CO, "    max_len = max(len(x) for x in columns.values())", "    max_len = len(columns[min(columns)])", "a sheet whose leftmost column ends before another one", "rows below the end of the first column are cut off", '''
import seedlib
from rxls.reader import read
rows = [[(0, "a"), (1, "b")], [(0, "1"), (1, "2")], [(1, "3")], [(1, "4")]]
t = read(seedlib.xlsx(rows), 0, 1)
assert t.num_rows == 3, t
''')
seed("c20-unsafe-cast", "C20", CO, '''                            arrays[i] = arrays[i].cast(dtype)
                        except Exception:  # noqa: BLE001
                            msg = f"Column {col} cannot''', '''                            arrays[i] = arrays[i].cast(dtype, safe=False)
                        except Exception:  # noqa: BLE001
                            msg = f"Column {col} cannot''', "types requested by name for a column whose values do not fit", "values are truncated or wrapped instead of the request being refused", '''
import seedlib, pyarrow as pa
from rxls.reader import read
b = lambda: seedlib.xlsb([[(0, 6, "k")], [(0, 5, 1.5)], [(0, 5, 300.25)]])
try:
    t = read(b(), 0, 1, dtypes={"k": pa.int8()})
except ValueError:
    sys.exit(0)
sys.exit(f"not refused: {t}")
''')
seed("c21-relationship-prefix", "C21", XB, "x.Target for x in wb_rels if x.Id == _sheet.strRelID.value", "x.Target for x in wb_rels if x.Id.startswith(_sheet.strRelID.value)", "a relationship whose id extends the sheet's id (rId1 / rId10) and comes first",
     "the sheet is read from another part", '''
import bk, seedlib
from rxls.reader import read
t = read(seedlib.xlsb_rels(), "First", 0)
assert t.column(0).to_pylist() == ["one"], t
''')
seed("c22-empty-becomes-null", "C22", RE, "        if self.s is None:\n            io.write", "        if not self.s:\n            io.write", "an empty string", "the empty string is written as the null string", '''
from rxls.biff_recs import xstr
b = io.BytesIO()
for s in ("ab", "", None, "z"):
    xstr(s).dump(b)
b.seek(0)
got = [xstr.load(b).s for _ in range(4)]
assert got == ["ab", "", None, "z"], got
''')
seed("c23-lookup-error", "C23", XX, '''            except GeneratorExit:
                pass
            finally:
                o_q.put(sentinel)''', '''            except (GeneratorExit, LookupError):
                pass
            finally:
                o_q.put(sentinel)''', "a lookup error in the parsing thread: a cell without a reference, or the caller's predicate or callback", "the error is swallowed and a partial table is returned", '''
import seedlib
from rxls.reader import read
def pred(s):
    return {"a": False, "c": False}[s]
try:
    t = read(seedlib.xlsx([[(0, "a")], [(0, "bad")], [(0, "c")]]), 0, 0, null_values=pred)
except KeyError:
    sys.exit(0)
sys.exit(f"no error: {t}")
''')
seed("c24-formula-text-tail", "C24", XB, '''                    cell_data = r.data[12 : u4_u(r.data[8:12])[0] * 2 + 12].decode(''', '''                    cell_data = r.data[12 : len(r.data) & ~1].decode(''', "a text formula record, which carries its formula after the text", "the bytes of the formula are appended to the text", '''
import bk, struct, seedlib
from rxls.reader import read
t = read(seedlib.xlsb([[(0, 8, "total"), (1, 6, "plain")]]), 0, 0)
assert t.column(0).to_pylist() == ["total"] and t.column(1).to_pylist() == ["plain"], t
''')
seed("c24-formula-boolean", "C24", XB, "            for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):", "            for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 402}):", "a boolean formula cell", "boolean formula results are lost", '''
import seedlib
from rxls.reader import read
t = read(seedlib.xlsb([[(0, 4, True), (1, 5, 1.0)], [(0, 10, True), (1, 5, 2.0)]]), 0, 0)
assert t.column(0).to_pylist() == [1, 1], t
''')
seed("c21-relationship-order", "C21", XX, "for x in rId_to_name}", "for x in rId_to_file if x in rId_to_name}", "relationships listed in another order than the sheets", "sheet positions follow the relationships part", '''
import zipfile
from rxls.reader import read
b = io.BytesIO()
ns = 'xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"'
pre = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
with zipfile.ZipFile(b, "w") as z:
    z.writestr("xl/workbook.xml", f'<workbook {ns}><sheets><sheet name="A" sheetId="1" r:id="rId7"/><sheet name="B" sheetId="2" r:id="rId3"/></sheets></workbook>')
    z.writestr("xl/_rels/workbook.xml.rels", f'<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId3" Type="{pre}worksheet" Target="worksheets/b.xml"/>'
               f'<Relationship Id="rId7" Type="{pre}worksheet" Target="worksheets/a.xml"/></Relationships>')
    z.writestr("xl/styles.xml", f'<styleSheet {ns}><cellXfs><xf numFmtId="0"/></cellXfs></styleSheet>')
    for n in "ab":
        z.writestr(f"xl/worksheets/{n}.xml", f'<worksheet {ns}><sheetData><row r="1"><c r="A1" t="str"><v>text {n}</v></c></row></sheetData></worksheet>')
for i, n in ((0, "a"), (1, "b"), ("A", "a"), ("B", "b")):
    b.seek(0)
    assert read(b, i, 0).column(0).to_pylist() == [f"text {n}"], i
''')
seed("c18-operators-reversed", "C18", CO, "zip(row_filters_strategy, i_boolean_filters)", "zip(row_filters_strategy[::-1], i_boolean_filters)", "three or more filter columns joined by a mixed list of operators", "other rows are kept", '''
import seedlib
from rxls.reader import read
rows = [[(0, 6, "p"), (1, 6, "q"), (2, 6, "r"), (3, 6, "n")]]
combos = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
for k, t in enumerate(combos):
    rows.append([(i, 5, 1.0) for i in range(3) if t[i]] + [(3, 5, float(k))])
for ops, f in ((["or", "and"], lambda a, b, c: (a or b) and c), (["and", "or"], lambda a, b, c: (a and b) or c)):
    t = read(seedlib.xlsb(rows), 0, 1, row_filters=["p", "q", "r"], row_filters_strategy=ops)
    want = [k for k, x in enumerate(combos) if f(*x)]
    assert t.column(3).to_pylist() == want, (ops, t.column(3).to_pylist(), want)
''')
seed("c24-packed-date-hundredths", "C24", CH, "            | (is_temporal * REPR_TEMPORAL)\n            | (is_rknumber", "            | (bool(is_temporal and not (is_rknumber and (ret & 1).any())) * REPR_TEMPORAL)\n            | (is_rknumber", "a packed number stored in hundredths with a date style",
     "the dates of the run come out as numbers", '''
import struct
from rxls.chunk.chunk import chunk
import datetime as dt
data = [struct.pack("<I", (43831 << 2) | 2), struct.pack("<I", (4383150 << 2) | 3)]
for d in (data[:1], data[1:], data):
    c = chunk.xlsb_numeric(list(d), is_temporal=True, is_rknumber=True)
    got = chunk.concatenate([c]).to_pylist()
    want = [dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 1, 12)]
    want = want[:1] if d is not data and d[0] == data[0] else want[1:] if d is not data else want
    assert got == want, (d, got)
''')
