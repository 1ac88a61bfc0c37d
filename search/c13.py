"""XLSX shared strings."""
from search.common import *
from xml.sax.saxutils import escape
RULE = "shared string parts with plain, rich, phonetic, empty, padded, long and entity- or CDATA-split items at arbitrary distances from parser buffer boundaries, every index referenced from a sheet; also parts that are missing; non-trivial: at least one item"
W = ["a", "b c", "é", "𝒳", "x" * 4000, "y" * 8192, "z" * 8193, "&<>", "  p ", "0", "1", "#N/A", "tail\n"]


def item(r):
    """(xml, text)"""
    def t(s, cd):
        if cd == 1 and s and "]]>" not in s:
            k = r.randrange(len(s))
            return escape(s[:k]) + f"<![CDATA[{s[k:]}]]>"
        if cd == 2 and s:
            k = r.randrange(len(s))
            return escape(s[:k]) + f"&#{ord(s[k])};" + escape(s[k + 1:])
        if cd == 3 and s:
            k = r.randrange(len(s))
            return escape(s[:k]) + "<!-- c -->" + escape(s[k:])
        return escape(s)
    k = r.random()
    if k < .1:
        return r.choice(["<t/>", "", "<t> </t>", "<r><t/></r>"]), ""
    if k < .55:
        s = r.choice(W + [str(r.randrange(1000)) * r.choice([1, 2000])])
        return f'<t xml:space="preserve">{t(s, r.randrange(5))}</t>', s
    runs = [r.choice(W) for _ in range(r.choice([1, 2, 3]))]
    x = "".join(f'<r>{r.choice(["", "<rPr><b/></rPr>", chr(10)])}<t xml:space="preserve">{t(s, r.randrange(5))}</t>{r.choice(["", chr(10)])}</r>' for s in runs)
    if r.random() < .3:
        x += '<rPh sb="0" eb="1"><t>PHON</t></rPh><phoneticPr fontId="1"/>'
    if r.random() < .2:
        x = "\n  " + x + "\n"
    return x, "".join(runs)


def cases(r, tier):
    yield dict(xml=None, texts=[], nv=None)
    while True:
        n = r.choice([1, 2, 3, 6, 20])
        its = [item(r) for _ in range(n)]
        if r.random() < .3:
            its.insert(0, ("<t>" + "p" * r.randrange(60000, 70000) + "</t>", None))
            its[0] = (its[0][0], its[0][0][3:-4])
        yield dict(xml=[i[0] for i in its], texts=[i[1] for i in its], nv=r.choice([None, None, ["a", "0"], dict(prefix="x"), ["1", "2"]]))


def run(c):
    n = len(c["texts"])
    xml = c["xml"]
    rows = [[txt("x", 0, f"row{i}"), [1, "s", i, 0]] for i in range(n)] or [[txt("x", 0, "only")]]
    b = book("x", rows, sst=[x.encode() for x in xml] if xml is not None else ())
    if xml is None:
        b["sst"] = None
    ref = dict(b, sst=list(c["texts"]) if xml is not None else None)
    o = dict(null_values=c["nv"])
    try:
        want = spec.read(ref, o)
    except spec.Refused:
        return
    st, got = spec.call(b, o)
    if st != "ok":
        return f"read raised {got!r}"
    if got.column_names != want[0]:
        return f"columns {got.column_names}, expected {want[0]}"
    for nm, alts, col in zip(want[0], want[1], got.columns):
        w = spec.same_array(alts, col.combine_chunks() if col.num_chunks != 1 else col.chunk(0))
        if w:
            return f"column {nm}: {w[:600]}"
    from rxls.reader.xlsx import XlsxWorkbook
    nv = c["nv"]
    with XlsxWorkbook(spec.write(b), null_values=(lambda t: t.startswith(nv["prefix"])) if isinstance(nv, dict) else nv) as w:
        g = w.shared.to_pylist()
    pred = spec.null_pred(nv)
    e = [t.strip() if t.strip() and not pred(t.strip()) else None for t in c["texts"]]
    if g != e:
        return f"shared table {str(g)[:300]} expected {str(e)[:300]}"
