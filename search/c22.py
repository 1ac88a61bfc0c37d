"""wide strings."""
from search.common import *
import io, struct, books
RULE = "sequences of strings (empty, null, outside the basic plane, byte-order marks, nul, long) written and read back from one stream and as record payloads; bytes compared with an independent encoder; non-trivial: at least one string"
A = ["", None, "a", "Sheet1", "é", "𝒳", "\ufeff", "\ufffe", "\ufeffabc", "\0", "a\0b", "x" * 300, "🎉" * 5, "\uffff", "Лист", "\u0100\u0200"]


def cases(r, tier):
    for s in A:
        yield dict(s=[s], pad=0)
    while True:
        yield dict(s=[r.choice(A + ["".join(chr(r.choice([r.randrange(32, 127), r.randrange(0x400, 0x500), r.randrange(0x10000, 0x10FFFF), r.randrange(0xE000, 0x10000)])) for _ in range(r.choice([1, 2, 5, 40])))]) for _ in range(r.choice([1, 2, 4]))], pad=r.randrange(4))


def enc(s):
    return b"\xff\xff\xff\xff" if s is None else books.wstr(s)


def run(c):
    from rxls.biff_recs import xstr, BrtBundleSh
    from rxls.biff import record
    b = io.BytesIO()
    b.write(b"p" * c["pad"])
    e = b"p" * c["pad"]
    for s in c["s"]:
        p = xstr(s).dump(b)
        e += enc(s)
        if b.getvalue() != e:
            return f"{s!r} written as {b.getvalue()[-len(enc(s)):][:40].hex()}, expected {enc(s)[:40].hex()}"
        if p != len(e):
            return f"dump returned {p} at stream position {len(e)}"
    b.seek(c["pad"])
    got = [xstr.load(b).s for _ in c["s"]]
    if got != c["s"]:
        return f"{c['s']!r} read back as {got!r}"
    if b.read():
        return "bytes left after reading everything back"
    for s in c["s"]:
        if xstr.from_binary(enc(s) + b"zz").s != s:
            return f"from_binary: {s!r} read back as {xstr.from_binary(enc(s)).s!r}"
    if len(c["s"]) > 1:
        r = BrtBundleSh.loadr(record(412, struct.pack("<II", 1, 7) + enc(c["s"][0]) + enc(c["s"][1])))
        if (r.hsState, r.iTabID, r.strRelID.s, r.strName.s) != (1, 7, c["s"][0], c["s"][1]):
            return f"sheet record of {c['s'][:2]!r} read as {r.hsState, r.iTabID, r.strRelID.s, r.strName.s}"
