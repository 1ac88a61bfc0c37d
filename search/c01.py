"""BIFF12 write/scan round trip on the real code."""
import io, struct
RULE = "one or more records (valid ids incl. symbolic names, payload sizes around every size-field width) written with record.dump/as_binary and scanned back; expected bytes from an independent encoder; non-trivial: at least one record"
SIZES = [0, 1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, 65537, 2097151, 2097152, 2097153]


def payload(n, k):
    return bytes((i * 7 + k) & 255 for i in range(min(n, 4096))) * (n // 4096 + 1) if n > 4096 else bytes((i * 7 + k) & 255 for i in range(n))


def valid_id(r):
    return r.choice([0, 1, 7, 19, 127, r.randrange(128), 0x80, 0xff, 0x19c, 0x8080, 0xffff, (r.randrange(256) << 8) | 0x80 | r.randrange(128)])


def cases(rng, tier):
    for s in SIZES:
        for i in (7, 0x19c):
            yield dict(recs=[[i, s, 1]], split=0)
    yield dict(recs=[[128 | (i << 8), i, i] for i in range(0, 256, 5)], split=0)
    yield dict(recs=[[i, i, i] for i in range(128)], split=0)
    while True:
        recs = []
        for _ in range(rng.choice([1, 2, 3, 8])):
            n = rng.choice(SIZES[:14] + [rng.randrange(300), rng.randrange(70000), rng.randrange(40)])
            recs.append([valid_id(rng), n, rng.randrange(256)])
        yield dict(recs=recs, split=rng.choice([0, 0, 1, 2, 3]))


def enc(i, d):
    out = bytes([i]) if i < 128 else struct.pack("<H", i)
    n = len(d)
    while n >= 128:
        out += bytes([n & 127 | 128])
        n >>= 7
    return out + bytes([n]) + d


def run(c):
    from rxls.biff import record, scan_biff, dump_sz
    want = []
    buf = io.BytesIO()
    buf.write(b"xyz")
    pos = 3
    for i, n, k in c["recs"]:
        d = payload(n, k)[:n]
        if c["split"]:
            m = len(d) // (c["split"] + 1) + 1
            parts = [d[j:j + m] for j in range(0, len(d), m)]
            r = record.from_data(i, *parts)
        else:
            r = record(i, d)
        try:
            b = r.as_binary()
            t = r.dump(buf)
        except Exception as ex:
            return f"writing record id={i} size={n} raised {ex!r}"
        e = enc(i, d)
        pos += len(e)
        if b != e:
            return f"as_binary of id={i} size={n}: header {b[:8].hex()} expected {e[:8].hex()}"
        if t != pos:
            return f"dump returned {t}, stream is at {pos}"
        if dump_sz(n) != e[len(e) - n - len(dump_sz(n)):len(e) - n] or dump_sz(n) != enc(0, d)[1:len(enc(0, d)) - n]:
            return f"dump_sz({n}) = {dump_sz(n).hex()}"
        want.append((i, d))
    buf.seek(3)
    got = [(r.rec_id, r.data) for r in scan_biff(buf)]
    if got != want:
        return f"scanned {[(i, len(d)) for i, d in got]} expected {[(i, len(d)) for i, d in want]} (ids, sizes); payloads equal: {[a == b for a, b in zip(got, want)]}"
    buf.seek(3)
    ids = {want[0][0]}
    got = [(r.rec_id, r.data) for r in scan_biff(buf, ids)]
    w = [x for x in want if x[0] in ids]
    if got != w:
        return f"scan with id filter {ids}: {[(i, len(d)) for i, d in got]} expected {[(i, len(d)) for i, d in w]}"
