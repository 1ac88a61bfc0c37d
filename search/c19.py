"""shape and alignment of tables."""
from search.common import *
RULE = "ragged, sparse, header-only and ordinary sheets of both formats with arbitrary columns and all kinds of arguments; whole tables (names, types, every value) compared; non-trivial: the sheet has a cell"


def cases(r, tier):
    for fmt in "xb":
        for h in (1, 2):
            yield case(grid(fmt, [["a", "b"]] * h), dict(header=h))
            yield case(grid(fmt, [["a", None], [None, None], ["c", 2.0]]), dict(header=h, take_rows_non_empty=True))
        for s in range(4):
            yield case(grid(fmt, [["a", "b"], [1.0, None], [None, "x"], [3.0, "y"]]), dict(header=1, skip_rows_after_header=s))
    k = 0
    while True:
        k += 1
        if k % 2:
            fmt = r.choice("xb")
            n = r.choice([1, 2, 3, 4])
            rows = []
            for i in range(r.choice([1, 2, 3, 6, 15])):
                rows.append([None if r.random() < .4 else r.choice([f"r{i}c{j}", float(i), ("d", 44000.0 + i)]) if r.random() < .3 else f"r{i}c{j}" for j in range(n)])
            b = grid(fmt, rows, lay=r.choice([0, r.randrange(10**6)]))
        else:
            b = gen.book(r)
        yield case(b, gen.any_opts(r, b))
