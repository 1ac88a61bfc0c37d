"""serial dates."""
from search.common import *
import numpy as np, struct, datetime
from fractions import Fraction
RULE = "serial numbers made from exact moments (ms) and random doubles in [0, 2958466), boundaries 0, 1, 59..61; converted directly, as RK numbers and through date-styled cells of both formats, compared with exact rational arithmetic; non-trivial: at least one value"


def exact(ms):
    """a double for the moment ms (ms since 1970)"""
    d = Fraction(ms, 86400000)
    if 0 <= d < 1:
        return float(d)
    s = d + 25568
    return float(s) if s < 60 else float(d + 25569)


def cases(r, tier):
    edge = [0.0, 0.5, 0.999999, 1.0, 1.5, 2.0, 31.0, 32.0, 58.0, 59.0, 59.99999, 60.0, 60.5, 61.0, 62.0, 366.0, 367.0, 25569.0, 25568.0, 25570.0, 44000.0, 2958465.0, 2958465.999, 0.25, 1 / 86400, 43831.5 + 1 / 86400]
    yield dict(kind="arr", v=edge)
    yield dict(kind="x", v=edge, lay=0)
    yield dict(kind="b", v=edge, lay=0)
    k = 0
    while True:
        k += 1
        ms = [r.randrange(-2208988800000 + 61 * 86400000, 253402300800000) for _ in range(30)] + [r.randrange(86400000) for _ in range(10)] + [r.randrange(-2208988800000, -2208988800000 + 59 * 86400000) for _ in range(5)]
        ms = [m for m in ms if not -2208988800000 > m]
        if k % 3:
            yield dict(kind="ms", v=ms + [1000 * (x // 1000) for x in ms])
        v = [r.choice([float(r.randrange(2958466)), r.uniform(0, 2958465), r.uniform(0, 70), r.random()]) for _ in range(r.choice([1, 4, 9]))]
        yield dict(kind=r.choice(["arr", "x", "b", "rk"]), v=v, lay=r.randrange(2))


def run(c):
    from rxls.chunk.casts import f8_to_ms_win
    if c["kind"] == "ms":
        v = [exact(m) for m in c["v"]]
        a = np.array(v)
        g = np.asarray(f8_to_ms_win(a)).astype(np.int64)
        for m, s, x in zip(c["v"], v, g.tolist()):
            if x != m:
                return f"serial {s!r} stands for {m} ms, converted to {x}"
        if a.tolist() != v:
            return "the serial numbers were modified"
        return
    if c["kind"] == "arr":
        from rxls.chunk.chunk import chunk
        a = np.array(c["v"])
        g = np.asarray(f8_to_ms_win(a)).astype(np.int64).tolist()
        g2 = chunk.xlsb_numeric([struct.pack("<d", x) for x in c["v"]], is_temporal=True).arrow()
        if str(g2.type) != "timestamp[ms]":
            return f"temporal column has type {g2.type}"
        import pyarrow as pa
        for what, gg in (("f8_to_ms_win", g), ("column", g2.cast(pa.int64()).to_pylist())):
            if len(gg) != len(c["v"]):
                return f"{what}: {len(gg)} values for {len(c['v'])}"
            for s, x in zip(c["v"], gg):
                if not spec.serial_ok(s, x):
                    return f"{what}: serial {s!r} -> {x} ms, exact moment {float(spec.serial_ms(s))!r}"
        return
    if c["kind"] == "rk":
        b = book("b", [[[0, 2, (int(s) << 2 | 2), 1]] for s in c["v"] if s < 5e8] + [[[0, 2, (int(s * 100) << 2 | 3), 1]] for s in c["v"] if s < 5e6], xfs=(0, 14), lay=c["lay"])
        return spec.compare(b, {})
    f = c["kind"]
    return spec.compare(book(f, [[num(f, 0, s, 1)] for s in c["v"]], xfs=(0, 22), lay=c["lay"]), {})
