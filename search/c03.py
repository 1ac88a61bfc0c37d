"""RK numbers."""
from search.common import *
import numpy as np, struct
RULE = "arrays of RK encodings (all four variants; boundary, random and systematically stepped values) decoded directly, through the column machinery and through a workbook, compared bit for bit with the definition of the format; non-trivial: at least one value"


def cases(r, tier):
    edge = [0, 1, 2, 3, 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x80000002, 0x80000003, 0x3FF00000, 0x3FF00001, 0xBFF00000, 0x7FEFFFFC, 0x00100000, 0x7FFFFFFE]
    yield dict(kind="arr", v=edge)
    yield dict(kind="book", v=[x for x in edge if x & 2 or (x >> 20 & 0x7FF) != 0x7FF], s=0)
    yield dict(kind="range", a=0, n=1 << 20, step=4093)
    k = 0
    while True:
        k += 1
        if k % 3 == 0:
            yield dict(kind="book", v=[gen.rkv(r) for _ in range(r.choice([1, 2, 5]))], s=r.choice([0, 0, 1]))
        elif k % 3 == 1:
            yield dict(kind="range", a=r.randrange(1 << 32), n=200000, step=r.choice([1, 2, 3, 5, 1021, 65537]))
        else:
            yield dict(kind="arr", v=[r.randrange(1 << 32) for _ in range(r.choice([1, 3, 100]))])


def ref(u):
    u = u.astype(np.uint64)
    n = (u >> np.uint64(2)).astype(np.int64)
    n = np.where(n >= 1 << 29, n - (1 << 30), n).astype(np.float64)
    d = ((u & np.uint64(0xFFFFFFFC)) << np.uint64(32)).view(np.float64)
    x = np.where(u & np.uint64(2), n, d)
    return np.where(u & np.uint64(1), x / 100.0, x)


def run(c):
    if c["kind"] == "book":
        b = book("b", [[[0, 2, v, c["s"]]] for v in c["v"]], xfs=(0, 14))
        return spec.compare(b, {})
    from rxls.chunk.casts import rk_to_f8
    from rxls.chunk.chunk import chunk
    if c["kind"] == "range":
        u = ((c["a"] + np.arange(c["n"], dtype=np.uint64) * np.uint64(c["step"])) & np.uint64(0xFFFFFFFF)).astype(np.uint32)
    else:
        u = np.array(c["v"], np.uint32)
    keep = u.copy()
    with np.errstate(all="ignore"):
        w = ref(u)
        g = np.asarray(rk_to_f8(u))
    g2 = np.asarray(chunk.xlsb_numeric([struct.pack("<I", x) for x in u[:50].tolist()], is_rknumber=True).arrow())
    for what, a, e in (("rk_to_f8", g, w), ("column", g2, w[:50])):
        if a.dtype != np.float64 or len(a) != len(e):
            return f"{what}: result of type {a.dtype} and length {len(a)}, expected {len(e)} doubles"
        bad = ~((a == e) & (np.signbit(a) == np.signbit(e)) | (np.isnan(a) & np.isnan(e)))
        if bad.any():
            i = int(np.argmax(bad))
            return f"{what}: RK 0x{int(u[i]):08x} decoded as {a[i]!r}, defined value {e[i]!r}"
    if (u != keep).any():
        return "the encoded input was modified"
