"""sheet selection."""
from search.common import *
import books
RULE = "workbooks with 1..5 sheets, shuffled relationships with arbitrary ids, relative and absolute targets, other kinds of relationships and chart sheets in between, names with special characters, and selections by position or name inside and outside the list; non-trivial: at least one sheet"
NM = ["Sheet1", "Лист 1", "a&b", "0", "1", "x<y>", "𝒳", "long " * 6, "Data", "data"]


def cases(r, tier):
    while True:
        n = r.choice([1, 2, 3, 5])
        names = r.sample(NM, n)
        ids = r.sample([f"rId{i}" for i in range(1, 12)] + ["R1a", "x"], n + 2)
        sel = r.choice([r.randrange(n), r.randrange(n), r.choice(names), r.choice(names), n, -1, "missing"])
        yield dict(fmt=r.choice("xb"), names=names, ids=ids, sel=sel, perm=r.sample(range(n), n), abs=[r.random() < .4 for _ in range(n)], files=r.sample(range(1, 9), n), shuf=r.randrange(10**6), extra=r.randrange(2),
                   chart=r.choice([None, None, r.randrange(n + 1)]))


def run(c):
    import io, zipfile, random
    n = len(c["names"])
    f = c["fmt"]
    ext = "xml" if f == "x" else "bin"
    part = [f"xl/worksheets/s{c['files'][i]}.{ext}" for i in range(n)]
    rels = [(c["ids"][i], "worksheet", ("/" + part[i]) if c["abs"][i] else part[i][3:]) for i in range(n)]
    chart = c["chart"] if f == "x" or True else None
    if chart is not None:
        rels.append((c["ids"][n + 1], "chartsheet", "chartsheets/sheet1." + ext))
    if c["extra"]:
        rels.append((c["ids"][n], "theme", "theme/theme1.xml"))
    random.Random(c["shuf"]).shuffle(rels)
    lst = [(c["names"][i], c["ids"][i], i) for i in c["perm"]]
    if chart is not None:
        lst.insert(chart, ("Chart!", c["ids"][n + 1], None))
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        if f == "x":
            z.writestr("xl/workbook.xml", f"<?xml version='1.0'?><workbook {books.NS}><sheets>" + "".join(f"<sheet name={books.quoteattr(a)} sheetId='{k + 1}' r:id={books.quoteattr(i)}/>" for k, (a, i, _) in enumerate(lst)) + "</sheets></workbook>")
        else:
            import struct
            z.writestr("xl/workbook.bin", books.rec(131) + books.rec(143) + b"".join(books.rec(156, struct.pack("<II", 0, k + 1) + books.wstr(i) + books.wstr(a)) for k, (a, i, _) in enumerate(lst)) + books.rec(144) + books.rec(132))
        z.writestr(f"xl/_rels/workbook.{ext}.rels", books.rels_xml(rels))
        z.writestr(f"xl/styles.{ext}", books.xlsx_styles([0]) if f == "x" else books.xlsb_styles([0]))
        for i in range(n):
            s = dict(name="", rows=[[txt(f, 0, f"sheet {i}")]])
            z.writestr(part[i], spec.sheet_xml(s, 0) if f == "x" else spec.sheet_bin(s, 0))
        if chart is not None:
            z.writestr("xl/chartsheets/sheet1." + ext, b"<chartsheet/>" if f == "x" else books.rec(129) + books.rec(130))
    b.seek(0)
    sel = c["sel"]
    if isinstance(sel, int):
        want = lst[sel][2] if 0 <= sel < len(lst) else "raise"
        if want is None:
            return
    else:
        m = [x for x in lst if x[0] == sel]
        want = m[0][2] if m else "raise"
    from rxls.reader import read
    try:
        t = read(b, sel)
    except Exception as ex:   # noqa: BLE001
        return None if want == "raise" else f"selecting {sel!r} of {[x[0] for x in lst]} raised {ex!r}"
    got = t.column(0).to_pylist()
    if want == "raise":
        return f"selecting {sel!r} of {[x[0] for x in lst]} returned {got} instead of raising"
    if got != [f"sheet {want}"]:
        return f"selecting {sel!r} of {[x[0] for x in lst]} (parts {rels}) returned {got}, expected sheet {want}"
