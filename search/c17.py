"""header lookup."""
from search.common import *
RULE = "sheets with leading rows before the header, looked up by regular expression or column index with various lookup sizes, including no match, matches in several columns and matches just inside and outside the limit; non-trivial: at least one row"


def cases(r, tier):
    while True:
        fmt = r.choice("xb")
        n = r.choice([1, 2, 3, 4])
        pre = r.choice([0, 1, 2, 3, 5, 29, 30, 31]) if r.random() < .3 else r.choice([0, 1, 2, 3])
        pool = ["timestamp", "row_id", "x", "sub timestamp", None, None, 1.0, "Total", "TIMESTAMP", "id1"]
        rows = [[r.choice(["t", None, "note", 3.0, None]) for _ in range(n)] for _ in range(pre)]
        rows += [[r.choice(pool) for _ in range(n)]]
        rows += [[r.choice(pool + [2.0, 3.0, "v"]) for _ in range(n)] for _ in range(r.choice([0, 1, 3, 6]))]
        o = dict(take_rows_non_empty=r.random() < .7, header=r.choice([0, True, 1, 2, True]), lookup_head=r.choice(["^timestamp$", "timestamp", "id", "Total", "[0-9]", "zzz", "^x", 0, 1, n - 1, n]))
        if r.random() < .6:
            o["lookup_size"] = r.choice([1, 2, 3, 4, pre, pre + 1, pre + 2, 100]) or 1
        if r.random() < .2:
            o["skip_rows"] = 1
        yield case(grid(fmt, rows, lay=r.choice([0, r.randrange(10**6)])), o)
