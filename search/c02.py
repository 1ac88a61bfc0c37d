"""Scanning arbitrary bytes on the real code against an independent parser."""
import io, base64
RULE = "arbitrary byte strings (record streams truncated at every point, oversized/overlong size fields, random bytes) scanned with no filter and with id filters; non-trivial: non-empty input"


def parse(b):
    """maximal prefix of complete records; None when a size field uses bit 31 (unspecified)"""
    out = []
    p = 0
    n = len(b)
    while True:
        q = p
        if q >= n:
            return out
        i = b[q]
        q += 1
        if i >= 128:
            if q >= n:
                return out
            i += b[q] << 8
            q += 1
        sz = 0
        for k in range(4):
            if q >= n:
                return out
            x = b[q]
            q += 1
            if k == 3 and x >= 128:
                return None
            sz += (x & 127) << (7 * k)
            if x < 128:
                break
        if q + sz > n:
            return out
        out.append((i, b[q:q + sz]))
        p = q + sz


def one(r):
    i = r.choice([r.randrange(128), (r.randrange(256) << 8) | 0x80 | r.randrange(128), 7, 0, 402])
    n = r.choice([0, 1, 5, 127, 128, 200, 16384, r.randrange(400)])
    s = b""
    m = n
    while m >= 128:
        s += bytes([m & 127 | 128])
        m >>= 7
    s += bytes([m])
    if r.random() < .2 and len(s) < 4:   # overlong but legal size field
        s = s[:-1] + bytes([s[-1] | 128, 0])
    d = bytes(r.randrange(256) for _ in range(n)) if n < 500 else bytes([r.randrange(256)]) * n
    return (bytes([i]) if i < 128 else bytes([i & 255, i >> 8])) + s + d


def cases(rng, tier):
    e = lambda b, f=None: dict(b=base64.b64encode(b).decode(), only=f)
    for b in (b"", b"\x00", b"\x80", b"\x80\x01", b"\x07\x04ab", b"\x07\x00", b"\x07\x80", b"\x07\x80\x80", b"\x07\x80\x80\x80", b"\x07\xff\xff\xff\x7f", b"\x07\x80\x80\x80\x01" + b"z" * 100,
              b"\x07\x80\x80\x01" + b"z" * 16384, b"\x07\x80\x01" + b"q" * 128 + b"\x07\x01a", b"\x07\x80\x80\x80\x01" + b"w" * 2097152 + b"\x07\x01a"):
        yield e(b)
        yield e(b, [7])
        yield e(b, [1])
    while True:
        if rng.random() < .3:
            b = bytes(rng.choice([0, 1, 2, 7, 127, 128, 129, 255, rng.randrange(256)]) for _ in range(rng.randrange(40)))
        else:
            b = b"".join(one(rng) for _ in range(rng.randrange(6)))
            if rng.random() < .7 and b:
                b = b[:rng.randrange(len(b) + 1)]
        f = None
        if rng.random() < .5:
            rec = parse(b)
            f = sorted({x[0] for x in (rec or [])[:rng.randrange(1, 4)]} | {rng.randrange(128)})
        yield e(b, f)


def run(c):
    from rxls.biff import scan_biff
    b = base64.b64decode(c["b"])
    only = set(c["only"]) if c["only"] else None
    got = []
    try:
        for r in scan_biff(io.BytesIO(b), only):
            got.append((r.rec_id, r.data))
            if len(got) > len(b) + 2:
                return "scan does not terminate"
    except Exception as ex:
        return f"scan raised {ex!r}"
    want = parse(b)
    if want is None:
        return None
    if only:
        want = [x for x in want if x[0] in only]
    if got != want:
        return f"produced {[(i, d[:12].hex(), len(d)) for i, d in got][:8]} expected {[(i, d[:12].hex(), len(d)) for i, d in want][:8]}"
