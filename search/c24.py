"""XLSB cell records."""
from search.common import *
RULE = "XLSB sheets with all kinds of cell records (constants, formulas, errors, blanks, other records in between), values, styles and columns; tables compared, and the cells of the iterator inspected; non-trivial: at least one cell record"


def cases(r, tier):
    for k in range(1, 12):
        for s in (0, 1):
            c = {2: 402, 3: 42, 4: 1, 5: 2.5, 6: "t", 7: 1, 8: "f", 9: 3.25, 10: 0, 11: 42}.get(k)
            yield case(book("b", [[[0, 6, "h", 0], [3, k, c, s], [70000, 5, 1.5, 0]]], sst=["u", "v"], xfs=(0, 14)), {})
    while True:
        xfs, fm = gen.styles(r, r.choice([1, 3, 300]))
        texts = ["a", "𝒳y", "", "x" * 300, "\ufeffq", "é"]
        sst = [r.choice(texts) for _ in range(3)]
        rows = gen.rows(r, "b", r.choice([1, 2, 4]), r.choice([1, 2, 5]), len(xfs), 3, texts, density=1, mix=r.choice([.5, 1]))
        if r.random() < .3:
            for cs in rows:
                for x in cs or ():
                    x[0] += r.choice([0, 0, 255, 16000])
        rows = [cs and [x for i, x in enumerate(cs)] for cs in rows]
        yield case(dict(fmt="b", sst=sst, xfs=xfs, fmts=fm, lay=r.randrange(10**6), sheets=[dict(name="S", rows=rows)]), dict(take_rows_non_empty=r.random() < .5))
