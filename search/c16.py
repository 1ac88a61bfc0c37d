"""header names."""
from search.common import *
RULE = "header areas of height 1..4 with empty, repeated, suffixed-looking, numeric and date cells over 1..8 columns; names compared; non-trivial: at least one column"


def cases(r, tier):
    while True:
        fmt = r.choice("xb")
        h = r.choice([1, 1, 2, 2, 3, 4])
        n = r.choice([1, 2, 3, 5, 8])
        pool = r.choice([["a", "b"], ["a", "a.1", "a.2"], ["a", None], ["Unnamed", None, "Unnamed.1"], ["x", "y", None, 5.0, 2.5], ["t", None, None], ["a, b", "a", "b", None]])
        rows = [[r.choice(pool) for _ in range(n)] for _ in range(h)]
        rows += [[r.choice([1.0, "v", 2.0]) for _ in range(n)] for _ in range(r.choice([1, 2]))]
        rows[h] = [1.0] * n
        o = dict(header=True if h == 1 and r.random() < .5 else h, take_rows_non_empty=True)
        if r.random() < .2:
            rows.insert(0, ["title"] + [None] * (n - 1))
            o["skip_rows"] = 1
        if r.random() < .1:
            o = dict(header=[f"n{r.randrange(3)}" for _ in range(r.choice([n, n, n + 1]))])
        yield case(grid(fmt, rows, lay=r.choice([0, r.randrange(10**6)])), o)
