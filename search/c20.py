"""requested types."""
from search.common import *
RULE = "tables of texts, integers, doubles, dates and mixtures with types requested for all, per position or per name (right and wrong counts, convertible and not, differing only in unit or precision); types and values compared with library casts of the independently computed column; non-trivial: a type is requested"


def cases(r, tier):
    tn = list(spec.DT)
    while True:
        fmt = r.choice("xb")
        n = r.choice([1, 2, 3])
        kinds = [r.choice(["i", "f", "t", "ti", "d", "ds"]) for _ in range(n)]
        rows = [[f"c{j}" for j in range(n)]]
        for i in range(r.choice([1, 2, 3])):
            rows.append([None if r.random() < .1 else {"i": float(r.choice([1, 2, 300])), "f": r.choice([1.5, 2.0]), "t": "abc", "ti": r.choice(["1", "2"]), "d": ("d", 44000.0), "ds": ("d", 44000.5)}[k] for k in kinds])
        k = r.random()
        pick = lambda: r.choice(tn + ["lstr", "f8", "i8", "ts", "tus", "tms"])
        if k < .3:
            d = pick()
        elif k < .65:
            d = [pick() for _ in range(n if r.random() < .85 else n + r.choice([-1, 1]))]
        else:
            d = {f"c{j}": pick() for j in range(n + 1) if r.random() < .6}
        yield case(grid(fmt, rows), dict(header=True, dtypes=d))
