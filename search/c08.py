"""conflict resolution."""
from search.common import *
from search import c06
RULE = "columns mixing texts (numeric-looking, date-looking, plain, padded), numbers, dates, gaps, in random order and grouping, under all four strategies and several format lists, read once or twice, directly and through workbooks; non-trivial: at least one cell"
TX = ["12", "007", "1e3", "-3.5", "abc", "2020-01-01", "31.12.1999 10:20", "13:45", "44000", "1970-01-01", "00:00", " x ", "1.50", "2020-01-01 10:00:00", "5", "01.02.20", "yes"]


def cases(r, tier):
    while True:
        fmt = r.choice("xb")
        pool = r.choice([TX, ["12", "007", "1e3", "5"], ["2020-01-01", "1970-01-01", "13:45"], ["44000", "12"], ["2020-01-01", "abc"], ["12", "abc"]])
        sst = [r.choice(pool) for _ in range(3)]
        ks = r.choice([["p", "n"], ["p", "d"], ["s", "n"], ["s", "d"], ["n", "d"], ["p", "s", "n", "d"], ["p"], ["n"], ["d"], ["p", "s"], ["k", "p"], ["kd", "s", "p"], ["b", "d"], ["k", "n", "s"]])
        if fmt == "x":
            ks = [x for x in ks if x not in ("k", "kd", "b")] or ["n"]
        row, h = 0, []
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            k = r.choice(ks)
            for _ in range(r.choice([1, 1, 2])):
                if k == "s":
                    x = [k, r.randrange(3)]
                elif k == "p":
                    x = [k, r.choice(pool)]
                elif k in ("k", "kd"):
                    x = [k, r.randrange(1, 50000) << 2 | 2]
                elif k == "b":
                    x = [k, r.randrange(2)]
                else:
                    x = [k, r.choice([1.0, 2.0, 2.5, 44000.0, 44000.25, 0.5, 100.0])]
                h.append([row, x])
                row += r.choice([1, 1, 1, 2])
        yield dict(fmt=fmt, h=h, sst=sst, mode=r.choice(["no", "temporal", "numeric", "all"]), formats=r.choice([None, None, None, ["%Y-%m-%d"], ["%d.%m.%Y %H:%M", "%Y-%m-%d"]]), off=r.choice([0, 0, 1]), twice=r.randrange(2), reverse=0)


def run(c):
    c = dict(c)
    if c["formats"]:
        c["formats"] = tuple(c["formats"])
    s, d, err = c06.build(c)
    if err:
        return err
    o = dict(conflict_resolve=c["mode"], datetime_formats=c["formats"])
    for k in range(1 + c["twice"]):
        n = max(d) + 1 - c["off"]
        if n <= 0:
            return
        w = spec.window(d, c["off"], n if k == 0 else 0)
        why = spec.same_array(spec.resolve(w, o), s.to_arrow(c["off"], n if k == 0 else 0))
        if why:
            return f"read {k + 1}: {why}"
