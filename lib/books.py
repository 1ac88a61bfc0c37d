"""Independent writers of minimal .xlsx / .xlsb workbooks (oracle side; nothing from /repo is used)."""
from __future__ import annotations
import io, struct, zipfile
from xml.sax.saxutils import escape, quoteattr

NS = 'xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"'
RT = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"


def rels_xml(rels):
    """rels: list of (Id, type-suffix, Target)"""
    return ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>'
            '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">'
            + "".join(f'<Relationship Id={quoteattr(i)} Type="{RT}/{t}" Target={quoteattr(g)}/>' for i, t, g in rels)
            + "</Relationships>").encode()


def letters(i):
    s = ""
    i += 1
    while i:
        i, r = divmod(i - 1, 26)
        s = chr(65 + r) + s
    return s


# ------------------------------------------------------------------ XLSX
def xlsx_styles(xfs, fmts=(), dxfs=(), xfid=True):
    """xfs: list of numFmtId; fmts: list of (id, code); dxfs: formats of the conditional styles; xfid: cell styles name their parent (optional)"""
    a = ' xfId="0"' if xfid else ""
    return (f'<?xml version="1.0"?><styleSheet {NS}><numFmts count="{len(fmts)}">'
            + "".join(f'<numFmt numFmtId="{i}" formatCode={quoteattr(c)}/>' for i, c in fmts)
            + '</numFmts><cellStyleXfs count="1"><xf numFmtId="0"/></cellStyleXfs><cellXfs>'
            + "".join(f'<xf numFmtId="{i}"{a}/>' for i in xfs) + "</cellXfs>"
            + (f'<dxfs count="{len(dxfs)}">' + "".join(f'<dxf><numFmt numFmtId="{i}" formatCode={quoteattr(c)}/></dxf>' for i, c in dxfs) + "</dxfs>" if dxfs else "") + "</styleSheet>").encode()


def xlsx_sst(items):
    """items: list of str (plain) | list[str] (rich runs) | None (empty si) | bytes (raw si content)"""
    out = []
    for it in items:
        if it is None:
            out.append("<si><t/></si>")
        elif isinstance(it, bytes):
            out.append("<si>" + it.decode() + "</si>")
        elif isinstance(it, str):
            out.append(f'<si><t xml:space="preserve">{escape(it)}</t></si>')
        else:
            out.append("<si>" + "".join(f'<r><rPr><b/></rPr><t xml:space="preserve">{escape(x)}</t></r>' for x in it) + "</si>")
    return (f'<?xml version="1.0"?><sst {NS} count="{len(items)}">' + "".join(out) + "</sst>").encode()


def xlsx_cell(r, c, v, t=None, s=None, f=None):
    a = f' r="{letters(c)}{r + 1}"'
    if s is not None:
        a += f' s="{s}"'
    if t is not None:
        a += f' t="{t}"'
    b = "" if f is None else f"<f>{escape(f)}</f>"
    if v is not None:
        b += f"<v>{escape(v)}</v>"
    return f"<c{a}>{b}</c>"


def xlsx_sheet(rows):
    """rows: list of list of cell xml strings (or None for a row element with no cells)"""
    return (f'<?xml version="1.0"?><worksheet {NS}><sheetData>'
            + "".join(f'<row r="{i + 1}">' + "".join(cs or ()) + "</row>" for i, cs in enumerate(rows))
            + "</sheetData></worksheet>").encode()


def xlsx_book(sheets, sst=(), styles=None, rels=None, names=None, order=None, extra=None):
    """sheets: list of sheet xml bytes."""
    b = io.BytesIO()
    names = names or [f"Sheet{i + 1}" for i in range(len(sheets))]
    rels = rels or [(f"rId{i + 1}", "worksheet", f"worksheets/sheet{i + 1}.xml") for i in range(len(sheets))]
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("xl/workbook.xml", f'<?xml version="1.0"?><workbook {NS}><sheets>' + "".join(
            f'<sheet name={quoteattr(names[i])} sheetId="{i + 1}" r:id={quoteattr(rels[i][0])}/>' for i in (order or range(len(sheets))))
            + "</sheets></workbook>")
        z.writestr("xl/_rels/workbook.xml.rels", rels_xml(rels))
        for i, s in enumerate(sheets):
            z.writestr(f"xl/worksheets/sheet{i + 1}.xml", s)
        if sst is not None:
            z.writestr("xl/sharedStrings.xml", xlsx_sst(sst))
        z.writestr("xl/styles.xml", styles or xlsx_styles([0]))
        for k, v in (extra or {}).items():
            z.writestr(k, v)
    b.seek(0)
    return b


# ------------------------------------------------------------------ XLSB
def enc_id(i):
    """logical record type -> bytes on disk"""
    return bytes([i]) if i < 128 else bytes([i & 0x7F | 0x80, i >> 7])


def enc_sz(n):
    out = b""
    while True:
        if n < 128:
            return out + bytes([n])
        out += bytes([n & 127 | 128])
        n >>= 7


def rec(i, data=b""):
    return enc_id(i) + enc_sz(len(data)) + data


def wstr(s):
    u = s.encode("utf-16-le")
    return struct.pack("<I", len(u) // 2) + u


def xlsb_styles(xfs, fmts=()):
    out = rec(278) + rec(615, struct.pack("<I", len(fmts)))
    for i, c in fmts:
        out += rec(44, struct.pack("<H", i) + wstr(c))
    out += rec(616) + rec(626, struct.pack("<I", 1)) + rec(47, struct.pack("<HH", 0xFFFF, 0) + b"\0" * 12) + rec(627)
    out += rec(617, struct.pack("<I", len(xfs)))
    for i in xfs:
        out += rec(47, struct.pack("<HH", 0, i) + b"\0" * 12)
    return out + rec(618) + rec(279)


def xlsb_sst(items):
    out = rec(159, struct.pack("<II", len(items), len(items)))
    for s in items:
        out += rec(19, b"\0" + wstr(s or ""))
    return out + rec(160)


def xlsb_cell(kind, c, v, s=0):
    """kind: record type. v: payload"""
    h = struct.pack("<I", c) + struct.pack("<I", s)
    if kind in (6, 8):
        return rec(kind, h + wstr(v) + (b"\0\0\0\0\0" if kind == 8 else b""))
    if kind in (5, 9):
        return rec(kind, h + struct.pack("<d", v) + (b"\0\0\0\0\0" if kind == 9 else b""))
    if kind in (4, 10):
        return rec(kind, h + bytes([v]) + (b"\0\0\0\0\0" if kind == 10 else b""))
    if kind in (7, 2):
        return rec(kind, h + struct.pack("<I", v))
    if kind in (3, 11):
        return rec(kind, h + bytes([v]) + (b"\0\0\0\0\0" if kind == 11 else b""))
    if kind == 1:
        return rec(kind, h)
    raise ValueError(kind)


def xlsb_row(i):
    return rec(0, struct.pack("<III", i, 0, 0x12C) + b"\0" * 5)


def xlsb_sheet(rows, rownums=None):
    out = rec(129) + rec(145)
    for i, cs in enumerate(rows):
        out += xlsb_row(rownums[i] if rownums else i) + b"".join(cs or ())
    return out + rec(146) + rec(130)


def xlsb_book(sheets, sst=(), styles=None, rels=None, names=None, order=None, extra=None):
    b = io.BytesIO()
    names = names or [f"Sheet{i + 1}" for i in range(len(sheets))]
    rels = rels or [(f"rId{i + 1}", "worksheet", f"worksheets/sheet{i + 1}.bin") for i in range(len(sheets))]
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("xl/workbook.bin", rec(131) + rec(143) + b"".join(
            rec(156, struct.pack("<II", 0, i + 1) + wstr(rels[i][0]) + wstr(names[i])) for i in (order or range(len(sheets))))
            + rec(144) + rec(132))
        z.writestr("xl/_rels/workbook.bin.rels", rels_xml(rels))
        for i, s in enumerate(sheets):
            z.writestr(f"xl/worksheets/sheet{i + 1}.bin", s)
        if sst is not None:
            z.writestr("xl/sharedStrings.bin", xlsb_sst(sst))
        z.writestr("xl/styles.bin", styles or xlsb_styles([0]))
        for k, v in (extra or {}).items():
            z.writestr(k, v)
    b.seek(0)
    return b
