"""assembling a column from cells."""
from search.common import *
import struct
RULE = "cell histories (ascending rows with gaps, repeated rows, kind changes, both formats, shared strings) added one by one to a column and read back, and the same through workbooks; non-trivial: at least one cell"
T = ["a", "bb", "ccc", "1", "x"]


def mk(r, fmt, sst):
    k = r.choice(["s", "p", "n", "d", "k", "b", "kd"] if fmt == "b" else ["s", "p", "n", "d", "bad"])
    if k == "s":
        return [k, r.randrange(len(sst))]
    if k == "p":
        return [k, r.choice(T)]
    if k in ("k", "kd"):
        return [k, (r.randrange(1, 60000) << 2) | 2]
    if k == "b":
        return [k, r.randrange(2)]
    if k == "bad":
        return [k, r.choice(["abc", "12", "3.5"])]
    return [k, r.choice([1.0, 2.5, 44000.0, 3.0, 61.25])]


def cases(r, tier):
    sst = ["s0", "s1", "s2"]
    while True:
        fmt = r.choice("xb")
        row, h = r.choice([0, 0, 0, 1, 3, 7]), []
        n = r.choice([1, 2, 3, 5, 8, 20])
        proto = mk(r, fmt, sst)
        stick = r.choice([0, .5, .9])
        for _ in range(n):
            x = mk(r, fmt, sst)
            if r.random() < stick:
                for _ in range(40):
                    if x[0] == proto[0]:
                        break
                    x = mk(r, fmt, sst)
            proto = x
            h.append([row, x])
            row += r.choice([1, 1, 1, 1, 2, 3, 0, 9])
        yield dict(fmt=fmt, h=h, sst=sst, mode=r.choice(["no", "all", "temporal", "numeric"]), reread=r.randrange(2))


def typed(fmt, x, sst):
    """(run type, kind, value) for the reference, (xdt, val) for the code"""
    from rxls import constants as C
    k, v = x
    if k == "s":
        return ("s", "str", sst[v]), (C.TYPE_STRING | C.REPR_SHARED, struct.pack("<I", v) if fmt == "b" else str(v).encode())
    if k == "p":
        return ("p", "str", v), (C.TYPE_STRING | C.REPR_PREPARED, v if fmt == "b" else v.encode())
    if k == "k":
        return ("k", "num", spec.rk(v)), (C.TYPE_NUMERIC | C.REPR_RKNUMBER, struct.pack("<I", v))
    if k == "kd":
        return ("kd", "tmp", spec.rk(v)), (C.TYPE_NUMERIC | C.REPR_RKNUMBER | C.REPR_TEMPORAL, struct.pack("<I", v))
    if k == "b":
        return ("b", "num", float(v)), (C.TYPE_NUMERIC | C.REPR_BOOLEAN, bytes([v]))
    if k == "bad":
        return ("num", "raw:num", v), (C.TYPE_NUMERIC, v.encode())
    t = "tmp" if k == "d" else "num"
    if fmt == "x":
        return (t, "raw:" + t, repr(v)), (C.TYPE_NUMERIC | (C.REPR_TEMPORAL if k == "d" else 0), repr(v).encode())
    return (t, t, v), (C.TYPE_NUMERIC | (C.REPR_TEMPORAL if k == "d" else C.REPR_PREPARED), struct.pack("<d", v))


def build(c, reads=()):
    from rxls.series import xl_series
    from rxls.cell import cell
    import pyarrow as pa
    s = xl_series(pa.array(c["sst"], pa.large_string()), c["fmt"] == "b", conflict_resolve=c["mode"], datetime_formats=c.get("formats"), float_precision=c.get("prec", 6))
    ref = []
    last = -1
    for row, x in c["h"]:
        t, (xdt, val) = typed(c["fmt"], x, c["sst"])
        s.add(cell(row, 0, xdt, val))
        if row > last:
            ref.append((row, 0, t))
            last = row
        if len(s) != last + 1:
            return s, None, f"after a cell at row {row} the length is {len(s)}, expected {last + 1}"
    return s, spec.columns(ref)[0], None


def run(c):
    s, d, err = build(c)
    if err:
        return err
    o = dict(conflict_resolve=c["mode"])
    alts = spec.resolve(spec.window(d, 0, 0), o)
    for k in range(1 + c["reread"]):
        w = spec.same_array(alts, s.to_arrow())
        if w:
            return f"read {k + 1}: {w}"
