"""column letters."""
from search.common import *
import books
RULE = "references with one to six letters and any row number, decoded directly and through sheets; compared with the bijective base-26 value; non-trivial: at least one letter"


def cases(r, tier):
    yield dict(kind="all", n=20000)
    k = 0
    while True:
        k += 1
        if k % 4 == 0:
            cols = sorted({r.choice([r.randrange(16384), r.randrange(30), r.randrange(700, 705), 16383, 25, 26, 51, 52, 701, 702]) for _ in range(r.choice([1, 2, 5]))})
            yield dict(kind="book", cols=cols, row=r.choice([0, 0, 1, 12]))
        else:
            yield dict(kind="ref", c=r.choice([r.randrange(26**r.choice([1, 2, 3, 4, 5])), 26, 702, 18278]), row=r.choice([1, 9, 10, 99, 1048576, r.randrange(1, 10**6)]))


def run(c):
    if c["kind"] == "book":
        b = book("x", [[] for _ in range(c["row"])] + [[txt("x", j, f"v{j}") for j in c["cols"]]])
        return spec.compare(b, {})
    from rxls.reader.xlsx import col_idx
    for i in (range(c["n"]) if c["kind"] == "all" else [c["c"]]):
        ref = books.letters(i) + str(c.get("row", i + 1))
        g = col_idx(ref.encode())
        if g != i:
            return f"reference {ref}: column {g}, expected {i}"
