"""null values."""
from search.common import *
RULE = "sheets whose texts are error strings, listed null values, texts hit by a predicate, look-alikes, shared indices that look like null values, in every position including the first cell, with and without keeping empty rows; non-trivial: at least one text"


def cases(r, tier):
    for fmt in "xb":
        for e in gen.ERR:
            yield case(book(fmt, [[txt(fmt, 0, e), txt(fmt, 1, "keep")], [txt(fmt, 0, e + " "), txt(fmt, 1, e)]]), {})
            yield case(book(fmt, [[[0, "s" if fmt == "x" else 7, 0, 0], [1, "s" if fmt == "x" else 7, 1, 0]]], sst=[e, "k"]), {})
    while True:
        fmt = r.choice("xb")
        nv = r.choice([None, ["n/a", "0"], ["a"], ["0", "1", "2"], dict(prefix="n"), dict(prefix="#"), dict(prefix="1"), [""], []])
        pool = ["n/a", "a", "0", "1", "2", "#N/A", "#N/B", "no", "x", "#ДЕЛ/0!", "1a", "N/A", "#REF!", "ok"]
        sst = [r.choice(pool) for _ in range(r.choice([1, 3, 6]))]
        rows = []
        for _ in range(r.choice([1, 2, 4, 8])):
            cs = []
            for c in range(r.choice([1, 2, 3])):
                k = r.random()
                if k < .45:
                    cs.append([c, "s" if fmt == "x" else 7, r.randrange(len(sst)), 0])
                elif k < .8:
                    cs.append(r.choice([txt(fmt, c, r.choice(pool)), [c, "str" if fmt == "x" else 8, r.choice(pool), 0]]))
                elif k < .9:
                    cs.append([c, "e", r.choice(gen.ERR), 0] if fmt == "x" else [c, r.choice([3, 11]), 42, 0])
                else:
                    cs.append(num(fmt, c, float(r.randrange(7, 9)), 1))
            rows.append(cs)
        yield case(book(fmt, rows, sst=sst, xfs=(0, 2), lay=r.choice([0, r.randrange(10**6)])),
                   dict(null_values=nv, take_rows_non_empty=r.random() < .3, header=r.choice([0, 0, 1])))
