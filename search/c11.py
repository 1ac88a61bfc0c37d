"""XLSX row handling."""
from search.common import *
from search import c10
RULE = c10.RULE.replace("combinations", "long and split texts, comments, CDATA and white space between elements, and combinations")


def cases(r, tier):
    c10.FMT = "x"
    k = 0
    for c in c10.cases(r, tier):
        k += 1
        yield c
        if k > 60 and k % 4 == 0:
            n = r.choice([1, 2, 3])
            t = ["T" * r.choice([10, 4000, 8190, 8192, 8193, 20000]) + f"<{i}>&" for i in range(n)]
            rows = [[txt("x", j, r.choice(t)) for j in range(r.choice([1, 2]))] for _ in range(n)]
            yield case(book("x", rows, lay=r.randrange(1, 10**6)), {})


def run(c):
    return c10.run(c)
