"""integer narrowing."""
from search.common import *
import numpy as np, struct, math
RULE = "columns of doubles (integers, near-integers at the precision boundary, huge values, infinities, NaN, negative values) with several precisions, in one or several runs and with gaps; column type and every value compared; non-trivial: at least one number"
V = [0.0, 1.0, -1.0, 2.0, 5.0, 1e6, 1e15, 2.0**53, 2.0**62, 2.0**63, -2.0**63, 1e19, 1e300, 1.5, 0.1, 0.9999999, 0.99999, 1.0000001, 1.000001, 2.00001, -3.0000001, -2.9999999, 1e-7, -1e-7, 1e-5, 123456.0000004, 99.5, -0.0, 1e-300]
ODD = [math.inf, -math.inf, math.nan]


def cases(r, tier):
    for p in (0, 1, 3, 6, 9):
        for v in V:
            yield dict(fmt="b", v=[v], p=p, odd=0)
    for v in ODD:
        yield dict(fmt="b", v=[1.0, repr(v), 2.0], p=6, odd=1)
    while True:
        n = r.choice([1, 2, 3, 8])
        pool = r.choice([[x for x in V if x == int(x) and abs(x) < 1e15], V, [1.0, 2.0, 3.0, 1.0000001], [1.0, 2.0, 2.0**63], [float(r.randrange(-1000, 1000)) for _ in range(9)] + [r.choice(V)]])
        v = [r.choice(pool) for _ in range(n)]
        if r.random() < .1:
            v[r.randrange(n)] = repr(r.choice(ODD))
        v = [None if r.random() < .15 else x for x in v]
        if all(x is None for x in v):
            continue
        yield dict(fmt=r.choice("xbb"), v=v, p=r.choice([0, 1, 2, 3, 6, 6, 9]), odd=0)


def run(c):
    f = c["fmt"]
    rows = []
    for i, v in enumerate(c["v"]):
        if v is None:
            rows.append([txt(f, 1, "x")])
        elif isinstance(v, str):
            rows.append([num(f, 0, float(v), 1), txt(f, 1, "x")])
        else:
            u = int(v) if v == int(v) and abs(v) < 2**28 and math.copysign(1, v) > 0 and i % 2 and f == "b" else None
            rows.append([[0, 2, u << 2 | 2, 1] if u is not None else num(f, 0, v, 1), txt(f, 1, "x")])
    b = book(f, rows, xfs=(0, 2))
    w = spec.compare(b, dict(float_precision=c["p"]))
    return w
