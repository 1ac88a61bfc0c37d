"""writes properties.jsonl (and checks it against the schema's required fields)"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


T6 = "The six existing tests write and re-read a few fixed records; "

p("C01", "BIFF12 records survive a write/scan round trip",
  "Any record with a valid id (one byte below 0x80, or two bytes whose first has its top bit set; given as a number or as a known symbolic name) and any payload shorter than 2^28 bytes is written as exactly: id bytes, minimal 7-bit-group size, payload. Scanning what was written yields the same id and the same payload bytes, in the order written, with nothing added or lost, and the write reports the stream position reached.",
  ["inputs"], "all record ids, all payload lengths and contents, all sequences of records, payloads given in one or several pieces",
  T6 + "the size field has four widths with boundaries at 128, 2^14 and 2^21, and the id two forms: the tests sample a handful of points, none at every boundary.",
  ["rxls/biff.py", "rxls/core.py"],
  [("record.as_binary / dump / from_data", "rxls/biff.py"), ("dump_sz", "rxls/biff.py"), ("scan_biff", "rxls/biff.py")], observe=["bytes written", "records yielded by scan_biff"])

p("C02", "Scanning any byte stream yields exactly its complete records",
  "For every byte string, scanning terminates, raises nothing, and yields in order exactly the records that are completely contained in it, with their ids and payloads, up to the first incomplete one. When a set of ids is given, exactly the records of that list whose id is in the set are yielded, unchanged.",
  ["inputs"], "all byte strings (including truncated and random ones) and all id filters",
  T6 + "no test feeds truncated or arbitrary bytes, and a filter interacts with the skipping of payloads of every size width.",
  ["rxls/biff.py"], [("scan_biff", "rxls/biff.py")], state=[("stream position", "start of the next record", "scan_biff loop head")], observe=["records yielded"])

p("C03", "Compressed (RK) numbers decode to their exact value",
  "Every 32-bit RK value in an XLSB sheet is read as the number the format defines: bit 1 selects a signed 30-bit integer or the upper 30 bits of a double, bit 0 divides by 100. This holds element by element for columns of any length, sign and magnitude.",
  ["inputs"], "all 2^32 encodings, columns of any length", "No test decodes an RK number; the encoding has four variants with sign and precision corner cases.",
  ["rxls/chunk/casts.py", "rxls/chunk/chunk.py"], [("rk_to_f8", "rxls/chunk/casts.py"), ("chunk.prepare", "rxls/chunk/chunk.py")], observe=["value of the cell in the table"])

p("C04", "Serial dates become the right timestamps",
  "A cell with a date style holding serial number s becomes the millisecond timestamp nearest to the moment Excel shows for s: days 1..59 count from 1900-01-01, days from 61 on skip the fictitious 1900-02-29, and 0 <= s < 1 is a time of day on 1970-01-01. It holds for every s in Excel's range with its fraction of a day, for plain doubles and RK numbers alike.",
  ["inputs"], "all finite serial numbers from 0 up to the last Excel date (9999-12-31)", "No test reads a date; the conversion is floating-point, so off-by-one-millisecond and off-by-one-day errors appear only at particular values.",
  ["rxls/chunk/casts.py", "rxls/chunk/chunk.py"], [("f8_to_ms_win", "rxls/chunk/casts.py"), ("chunk.prepare / arrow", "rxls/chunk/chunk.py")], observe=["timestamp[ms] column"])

p("C05", "A numeric column is narrowed to integers only without loss",
  "A purely numeric column is returned as 64-bit integers only when every value, rounded to the configured number of decimals, equals its integer part and lies in the 64-bit range; every returned integer is then that integer part. Otherwise the column is returned as doubles with every value unchanged.",
  ["inputs", "configurations"], "all columns of doubles (including NaN, infinities and huge values) and all precisions", "No test builds a numeric column; one value anywhere in a column changes the outcome for all of it.",
  ["rxls/chunk/casts.py", "rxls/chunk/chunk.py"], [("f8_is_i8", "rxls/chunk/casts.py"), ("chunk.concatenate", "rxls/chunk/chunk.py")], observe=["column type and values"])

p("C06", "A column holds every cell at its own row",
  "After cells of one column have been delivered in ascending row order, the column has the value of each delivered cell at exactly that cell's row, nulls at all other rows up to the last one, and its length is the last row plus one. A second cell for a row already filled is ignored, and kinds of neighbouring cells never influence each other's position or value.",
  ["histories", "inputs"], "all sequences of cells with arbitrary gaps and arbitrary changes of kind", "No test builds a column; gaps, kind changes and their interleaving form an unbounded set of histories.",
  ["rxls/series.py", "rxls/chunk/chunk.py"], [("xl_series.add / __pull_chunk / __len__ / to_arrow", "rxls/series.py"), ("chunk.xlsx_* / xlsb_*", "rxls/chunk/chunk.py")],
  state=[("pending chunk", "cells of the current run of equal kind", "xl_series"), ("chunk list", "finished runs and null gaps", "xl_series")], observe=["column contents"])

p("C07", "Windows and masks of a column select exactly those rows",
  "Taking offset o and length n from a column gives rows o..o+n-1, padded with nulls beyond the end (n = 0: everything from o on); taking a boolean mask over the rows after o gives exactly the masked rows in order. This does not depend on how the column was collected, and reading a part (for a header, a lookup or a filter) never changes what a later read of the column returns.",
  ["inputs", "histories"], "all columns, offsets, lengths and masks, and all sequences of such reads on one column", "No test slices a column; the result depends on how a window falls on the run boundaries.",
  ["rxls/chunk/chunk.py", "rxls/series.py"], [("chunk.take_over / take / null_slice", "rxls/chunk/chunk.py"), ("xl_series.to_arrow / to_utf8", "rxls/series.py")], observe=["array returned"])

p("C08", "Mixed columns are resolved as asked, and text is never altered",
  "A column with one kind of cell gets that kind's type; a column mixing kinds becomes timestamps or numbers only if the chosen conflict strategy asks for it and every cell converts, and otherwise text. When it becomes text, every text cell is returned exactly as stored and other cells as the text of their own value, regardless of which conversions were attempted; nulls stay null.",
  ["inputs", "configurations"], "all mixtures and orders of kinds, all texts, all four strategies, all datetime formats", "No test mixes kinds; partial conversions before a failing one depend on order.",
  ["rxls/chunk/chunk.py", "rxls/chunk/casts.py", "rxls/series.py"], [("chunk.concatenate / as_temporal / as_numeric / arrow", "rxls/chunk/chunk.py"), ("conflict flags", "rxls/series.py")], observe=["column type and values"])

p("C09", "Text converts to exactly the timestamp it denotes",
  "When text is converted to timestamps with a list of formats, each text gives the timestamp denoted by the first format in the list that parses it, including midnight, 1970-01-01 and dates before 1970; formats with only a time of day give that time on 1970-01-01. If some text fits no format the whole conversion is refused, with no cell replaced by a made-up value.",
  ["inputs", "configurations"], "all arrays of texts and all format lists (years 1000 to 9999 or two-digit)", "No test converts text; sentinel values make failures depend on particular dates.",
  ["rxls/chunk/casts.py"], [("mf_strptime / _strptime", "rxls/chunk/casts.py")], observe=["timestamp values", "pyarrow.ArrowInvalid"])

p("C10", "XLSB rows are numbered, skipped and limited as asked",
  "Reading an XLSB sheet keeps the first-row-is-0 numbering after dropping the first skip_rows rows, stops after row take_rows (0: no limit), drops the skipped columns, and either drops rows without data or keeps them as empty rows, as asked. Every remaining cell appears exactly once, in stream order, at its own column and row; the optional row callback never changes the data.",
  ["inputs", "configurations"], "all sheets (any rows, empty rows, any cells) and all combinations of the row and column arguments", "No test reads a sheet; the row counter depends on the whole preceding history of empty and skipped rows.",
  ["rxls/reader/xlsb.py"], [("XlsbWorkbook.iter_worksheet", "rxls/reader/xlsb.py")], state=[("row", "number of the current output row", "iter_worksheet"), ("is_empty_row", "no cell kept in the current row yet", "iter_worksheet")], observe=["cells produced", "table"])

p("C11", "XLSX rows are numbered, skipped and limited as asked",
  "Reading an XLSX sheet keeps the first-row-is-0 numbering after dropping the first skip_rows rows, stops after row take_rows (0: no limit), drops the skipped columns, and either drops rows without data or keeps them as empty rows, as asked. Every remaining cell with a value appears exactly once, in document order, at its own column and row with its complete text, however the XML parser delivers the text.",
  ["inputs", "configurations", "schedules"], "all sheets, all combinations of the row and column arguments, all splits of character data, all interleavings of the parsing thread and the consumer", "No test reads a sheet; the state machine depends on the whole event history and text splitting depends on buffer positions.",
  ["rxls/reader/xlsx.py"], [("XlsxWorkbook.iter_worksheet: worker, cell_sh, cell_th, cell_eh", "rxls/reader/xlsx.py"), ("hand-over queue", "rxls/reader/xlsx.py")],
  state=[("row", "number of the current output row", "worker"), ("l_tag", "innermost element inside a cell", "worker"), ("is_empty_row", "no cell kept in the current row yet", "worker")], observe=["cells produced", "table"])

p("C12", "Column letters map to the right column",
  "An XLSX cell reference such as AB12 denotes the column whose bijective base-26 numeral are its letters (A is 0), for every reference of up to any number of letters and digits. Distinct columns never collide.",
  ["inputs"], "all references", "No test decodes a reference.", ["rxls/reader/xlsx.py"], [("col_idx", "rxls/reader/xlsx.py")], observe=["column of the cell"])

p("C13", "XLSX shared strings keep their index and their whole text",
  "Entry number i of the shared string table read from an XLSX workbook is the text of the i-th string item: all its text runs in order, without phonetic hints, with surrounding white space removed, however the XML parser splits the text; an item without text (or whose text is a null value) is null and still occupies its index. A workbook without a shared string part has an empty table.",
  ["inputs", "schedules"], "all string items (plain, rich, empty, long) and all splits of character data", "No test reads shared strings; text is split at parser buffer boundaries that depend on the position in the file.",
  ["rxls/reader/xlsx.py"], [("XlsxWorkbook.shared", "rxls/reader/xlsx.py")], state=[("parts / must_be", "text collected for the current item", "shared")], observe=["shared string array", "null_shared"])

p("C14", "Error texts and null values never reach the table",
  "A text cell whose text is an Excel error string or one of the caller's null values (list or predicate) is left out, and every other text cell is kept; this holds for inline, formula and shared text, in both formats, from the first cell on, and it is the text that is tested, never a shared-string index. A row that has only such cells counts as empty.",
  ["inputs", "configurations"], "all workbooks and all null value lists and predicates", "No test reads text; shared strings are loaded lazily, so the order of events matters.",
  ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py"], [("null_values predicate", "XlsxWorkbook.__init__, XlsbWorkbook.__init__"), ("null_shared", "shared, iter_worksheet")], observe=["cells produced", "table"])

p("C15", "A number is a date exactly when its style is a date style",
  "A cell style is a date style exactly when its number format is a built-in date/time format or a custom format whose first section has an unescaped d, m, h, y or s outside quotes and brackets (elapsed-time brackets such as [h] count). Numeric cells are read as timestamps if and only if their style is a date style; in XLSX the built-in number formats and custom formats 0 or with two decimals are read as numbers, the remaining unstyled values as text.",
  ["inputs"], "all style tables: any formats, any ids, any order", "No test reads styles; ids of one and two bytes and formats of any length take part.",
  ["rxls/reader/xlsb.py", "rxls/reader/xlsx.py"], [("XlsbWorkbook.styles", "rxls/reader/xlsb.py"), ("XlsxWorkbook.styles", "rxls/reader/xlsx.py")], observe=["style table", "column type"])

p("C16", "Column names are the header texts and are unique",
  "With a header of height 1, each column is named by its header cell's text; with height N, by its non-empty header cells joined top-down with ', ', where the empty cells above the first non-empty one are filled from the nearest column to the left that has a header. Columns without any header text are called Unnamed, repeated names get suffixes .1, .2, ... so that all names are distinct, and there is exactly one name per column in column order.",
  ["inputs"], "all header contents, any number of columns and header rows", "No test reads a header; collisions between suffixed names and filling depend on several columns at once.",
  ["rxls/reader/common.py"], [("__make_header", "rxls/reader/common.py")], observe=["table column names"])

p("C17", "Header lookup finds the first matching row or fails loudly",
  "Looking up a header by a regular expression starts the table at the topmost row, within the first lookup_size rows, whose cell matches in the first column (in order of first appearance) that has a match; by a column index, at that column's first non-empty row within lookup_size. If there is none, reading raises an error instead of returning a table.",
  ["inputs", "configurations"], "all sheets, patterns, column indices and lookup sizes", "No test looks up a header.",
  ["rxls/reader/common.py"], [("__find_header", "rxls/reader/common.py"), ("read", "rxls/reader/common.py")], observe=["first row of the table"])

p("C18", "Row filters keep exactly the rows they describe",
  "With row filters, a data row is kept if and only if the chosen columns' cells in that row are non-null (NaN counts as null) combined left to right with the given 'and'/'or' operators; kept rows stay in order and keep all their cells. Filters that select no row, a wrong number of operators or an unknown operator raise an error.",
  ["inputs", "configurations"], "all tables, all filter selections by name or position, all operator lists", "No test filters rows.",
  ["rxls/reader/common.py"], [("read", "rxls/reader/common.py")], observe=["rows of the table", "errors"])

p("C19", "The table is rectangular and its rows stay aligned",
  "Every column of the returned table has the same number of rows, namely the last row with data plus one, less the rows before and in the header and those skipped after it (or the number of kept rows when filtering). Row i of every column comes from the same sheet row, missing cells are null, columns are in ascending sheet order, and a sheet with only a header gives empty columns.",
  ["inputs", "configurations"], "all sheets (ragged, sparse, header only) and all header, lookup, skip and filter arguments", "No test reads a table.",
  ["rxls/reader/common.py", "rxls/series.py"], [("read", "rxls/reader/common.py"), ("xl_series.__len__", "rxls/series.py")], observe=["table"])

p("C20", "Requested column types are delivered or refused",
  "When types are requested, one for all columns, one per column, or by column name, each requested column has exactly that type (including units and other parameters) with its values safely converted, and columns that were not named keep their type. If a conversion is impossible or the number of types does not match the number of columns, reading raises an error naming the column or the mismatch, and no table is returned.",
  ["inputs", "configurations"], "all tables and all requested types", "No test requests types.",
  ["rxls/reader/common.py"], [("read", "rxls/reader/common.py")], observe=["schema of the table", "errors"])

p("C21", "Sheets are found by position or name, wherever they are stored",
  "A sheet asked for by position is the one at that place in the workbook's sheet list, and asked for by name the one with that name; its data come from the part its relationship points to, whether the target is relative or absolute and whatever the order of relationships. A position outside the list or an unknown name raises an error.",
  ["inputs"], "all workbooks: any number, order and naming of sheets and relationships", "No test opens a workbook.",
  ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/rels.py", "rxls/biff_recs.py"], [("sheets", "XlsxWorkbook, XlsbWorkbook"), ("Relationship.scan_xml", "rxls/rels.py"), ("BrtBundleSh.loadr", "rxls/biff_recs.py")], observe=["sheet read", "errors"])

p("C22", "Wide strings survive a write/read round trip",
  "Every string (any characters, including ones outside the basic plane and byte-order marks), the empty string and the null string are read back unchanged from the wide-string form they are written in: a 32-bit count of UTF-16 code units followed by the little-endian units (count 0xFFFFFFFF for null). Reading consumes exactly the bytes that were written, so consecutive strings do not disturb each other.",
  ["inputs"], "all strings and sequences of strings", "No test encodes a wide string; the count and the byte order matter only for particular characters.",
  ["rxls/biff_recs.py"], [("xstr.load / dump / from_binary", "rxls/biff_recs.py"), ("BrtBundleSh.loadr", "rxls/biff_recs.py")], observe=["bytes written", "string read"])

p("C23", "Damaged input raises instead of giving a silently wrong table",
  "If the XML of the sheet being read is malformed, or processing it fails in the parsing thread (including an error in the caller's callback or predicate), the error reaches the caller of the read and no partial table is returned, and reading never hangs. A shared-string index outside the table raises as well, and a file that is neither kind of workbook is refused.",
  ["inputs", "fault_sequences", "schedules"], "all positions of the damage and all interleavings of the parsing thread and the consumer", "No test reads damaged input; the failing thread is not the consuming one.",
  ["rxls/reader/xlsx.py", "rxls/reader/common.py", "rxls/chunk/arrow.py"], [("worker thread and queue", "XlsxWorkbook.iter_worksheet"), ("take", "rxls/chunk/arrow.py"), ("read", "rxls/reader/common.py")], observe=["exception raised by read"])

p("C24", "XLSB cells carry exactly the value stored in their record",
  "Each XLSB cell record gives a cell with the column stored in it and a value that depends only on its own record: real, RK and boolean records (constant or formula) give that number, text records the exact string, shared-string records the string at that index. Real and RK cells are timestamps exactly when their own style is a date style, and records of other kinds produce no cell.",
  ["inputs"], "all cell records of all kinds, styles, columns and payloads", "No test reads a cell record.",
  ["rxls/reader/xlsb.py", "rxls/chunk/chunk.py"], [("XlsbWorkbook.iter_worksheet", "rxls/reader/xlsb.py"), ("chunk.xlsb_numeric / xlsb_strings", "rxls/chunk/chunk.py")], observe=["cells produced", "table"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
print(len(P))
