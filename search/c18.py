"""row filters."""
from search.common import *
RULE = "tables with gaps in every column (numbers, texts, dates), filtered by names (one or several patterns) or positions, with all strategies and operator lists including wrong ones, with header, lookup and skipped rows; whole tables compared; non-trivial: a filter is given"


def cases(r, tier):
    while True:
        fmt = r.choice("xb")
        n = r.choice([1, 2, 3, 4, 5])
        m = r.choice([1, 2, 3, 6, 12])
        kinds = [r.choice(["t", "n", "d", "tn"]) for _ in range(n)]
        hole = r.choice([.1, .4, .7])
        rows = [[f"c{j}" for j in range(n)]]
        for i in range(m):
            row = []
            for j in range(n):
                k = r.choice(kinds[j])
                row.append(None if r.random() < hole else f"r{i}" if k == "t" else (float("nan") if fmt == "b" and r.random() < .2 else float(i)) if k == "n" else ("d", 44000.0 + i))
            rows.append(row)
        pos = lambda: sorted(r.sample(range(n), r.choice([1, min(2, n), min(3, n), n])))
        f = r.choice([0, 1, 2])
        if f == 0:
            p = pos()
            flt, q = p, len(p)
        elif f == 1:
            p = pos()
            flt, q = [f"^c{j}$" for j in p], len(p)
        else:
            flt, q = r.choice([(".*", n), ("c[01]", min(2, n)), ("c0", 1), ("zz", 0)])
        o = dict(header=True, row_filters=flt, take_rows_non_empty=r.random() < .6, conflict_resolve=r.choice(["no", "all"]))
        k = r.random()
        if k < .6 and q > 1:
            o["row_filters_strategy"] = r.choice(["and", "or", [r.choice(["and", "or"]) for _ in range(q - 1)], [r.choice(["and", "or"]) for _ in range(q - 1)]])
        elif k < .75:
            o["row_filters_strategy"] = r.choice([["and"] * q, ["xor"] * max(1, q - 1), ["and", "nor"], "xor", "and", [1]])
        if r.random() < .2:
            o["skip_rows_after_header"] = 1
        if r.random() < .1:
            o["row_filters"] = r.choice([[0, "c0"], [99], ["zz"]])
        yield case(grid(fmt, rows, lay=r.choice([0, r.randrange(10**6)])), o)
