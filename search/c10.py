"""XLSB row handling."""
from search.common import *
FMT = "b"
RULE = "sheets with any mixture of data rows, empty rows, rows of only blank or null cells, repeated cells, read with combinations of skip_rows, take_rows, take_rows_non_empty, skip_cols and a row callback; whole tables compared; plus the cell sequence of the worksheet iterator; non-trivial: at least one row"
ONLY = True


def small(r, fmt, n):
    """rows whose cells tell their place"""
    out = []
    for i in range(n):
        k = r.random()
        if k < .2:
            out.append(r.choice([None, []]))
        elif k < .3:
            out.append([[0, "-" if fmt == "x" else 1, None, 0]])
        elif k < .38:
            out.append([txt(fmt, r.randrange(3), "#N/A")])
        else:
            cs = []
            for c in sorted(r.sample(range(5), r.choice([1, 1, 2, 3]))):
                cs.append(txt(fmt, c, f"r{i}c{c}") if r.random() < .7 else num(fmt, c, float(i * 10 + c), 1))
            out.append(cs)
    return out


def cases(r, tier):
    fmt = FMT
    for n in (1, 2, 4):
        rows = [[txt(fmt, 0, f"r{i}")] for i in range(n)]
        for sk in range(n + 1):
            for tk in range(n + 1):
                for ne in (False, True):
                    yield case(book(fmt, rows, xfs=(0, 2)), dict(skip_rows=sk, take_rows=tk, take_rows_non_empty=ne))
    k = 0
    while True:
        k += 1
        n = r.choice([1, 2, 3, 4, 6, 10])
        if k % 3:
            b = book(fmt, small(r, fmt, n), xfs=(0, 2), lay=r.choice([0, r.randrange(10**6)]))
        else:
            b = gen.book(r, fmt, nrows=n)
        o = gen.row_opts(r, {}, n)
        yield case(b, o)


def run(c):
    w = spec.compare(c["book"], c["o"])
    if w:
        return w
    return iterated(c["book"], c["o"])


def iterated(b, o):
    """the worksheet iterator itself (its own default keeps empty rows)"""
    import importlib
    m = importlib.import_module("rxls.reader.xlsx" if b["fmt"] == "x" else "rxls.reader.xlsb")
    W = getattr(m, "XlsxWorkbook" if b["fmt"] == "x" else "XlsbWorkbook", None)
    if W is None:
        return
    o2 = dict(o)
    o2.setdefault("take_rows_non_empty", True)
    want = [(r, c) for r, c, _ in spec.cells(b, b["sheets"][0], o2)]
    n = [0]
    kw = {k: v for k, v in o2.items() if k != "cb"}
    if o.get("cb"):
        kw["row_callback"] = lambda: n.__setitem__(0, n[0] + 1)
    with W(spec.write(b)) as w:
        got = [(x.row, x.col) for x in w.iter_worksheet(0, **kw)]
    if got != want:
        i = next((i for i, (a, e) in enumerate(zip(got, want)) if a != e), min(len(got), len(want)))
        return f"cells (row, column) from place {i}: {got[i:i + 5]}, expected {want[i:i + 5]} ({len(got)} cells, expected {len(want)})"
    if o.get("cb") and b["sheets"][0]["rows"] and want and n[0] < 1:
        return "the row callback was never called"
