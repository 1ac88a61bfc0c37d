"""C01 / C02: BIFF12 record encoding and scanning."""
from __future__ import annotations
import z3
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, bv_, eq_term, ArrII, is_sym
from vc.runtime import SReader, SWriter, active
from vc.loops import World
from .api import vc, prop
import rxls.biff as biff


class IdSet(Sym):
    """an arbitrary non-empty set of record ids"""

    def __init__(self, name="only"):
        self.f = z3.Function(name, z3.IntSort(), z3.BoolSort())

    @property
    def __class__(self):
        return set

    def __bool__(self):
        return True

    def vc_contains(self, x):
        return mkbool(self.f(iv(x)))

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def vc_set(self):
        return self


def header(base, p):
    """the BIFF12 record header at p: (id, size, header length) as mathematical integers"""
    b = lambda k: z3.Select(base, p + k)
    two = b(0) >= 128
    idv = z3.If(two, b(0) + 256 * b(1), b(0))
    q = z3.If(two, z3.IntVal(2), z3.IntVal(1))
    s = lambda k: z3.Select(base, p + q + k)
    n = z3.If(s(0) < 128, z3.IntVal(1), z3.If(s(1) < 128, z3.IntVal(2), z3.If(s(2) < 128, z3.IntVal(3), z3.IntVal(4))))
    sz = z3.If(s(0) < 128, s(0),
               z3.If(s(1) < 128, s(0) - 128 + 128 * s(1),
                     z3.If(s(2) < 128, s(0) - 128 + 128 * (s(1) - 128) + 16384 * s(2),
                           s(0) - 128 + 128 * (s(1) - 128) + 16384 * (s(2) - 128) + 2097152 * s(3))))
    return idv, sz, q + n


def bytes_range(base, p, k):
    return z3.And(*[z3.And(z3.Select(base, p + j) >= 0, z3.Select(base, p + j) <= 255) for j in range(k)])


class ScanWorld(World):
    name = "scan"

    def __init__(self, base, size, pred):
        self.base, self.size, self.pred = base, size, pred
        self.reader = None
        super().__init__()
        self.g = z3.IntVal(0)
        self.out = []
        self.spec_head()

    def spec_head(self):
        e = E()
        e.assume(bytes_range(self.base, self.g, 6))
        self.id, self.sz, self.h = header(self.base, self.g)
        # header completeness: every header byte inside the buffer
        self.complete = z3.And(self.g + self.h + self.sz <= self.size)
        # size fields are at most 28 bits (the fourth size byte carries 7 bits)
        q = z3.If(z3.Select(self.base, self.g) >= 128, z3.IntVal(2), z3.IntVal(1))
        e.assume(z3.Implies(z3.And(self.h == q + 4, self.g + self.h <= self.size), z3.Select(self.base, self.g + q + 3) < 128))

    def ghosts(self):
        return {"pos": self.reader.pos, "size": self.size}

    def measures(self):
        p = self.reader.pos
        return {"left": z3.If(self.size > p, self.size - p, z3.IntVal(0))}

    def havoc(self, loc):
        e = E()
        p = e.fresh("pos", z3.IntSort())
        e.assume(p >= 0)
        self.reader.pos = p
        self.g = p
        self.out = []
        self.spec_head()

    def check(self, done):
        e = E()
        sel = self.pred(self.id)
        want = z3.And(self.complete, sel)
        if len(self.out) > 1:
            e.fail("scan_biff: at most one record is produced per record of the stream")
        if len(self.out) == 1:
            e.prove(want, "scan_biff: only complete, selected records are produced", self.info)
            r = self.out[0]
            e.assume(want)
            e.check_feasible()
            e.cover("yield")
            e.prove(iv(r.rec_id) == self.id, "scan_biff: record id equals the encoded id", self.info)
            d = r.data
            if not isinstance(d, bytes):
                e.fail("scan_biff: record payload is bytes")
            e.prove(iv(len_(d)) == self.sz, "scan_biff: payload has the encoded length", self.info)
            e.assume(iv(len_(d)) == self.sz)
            if is_sym(d):
                ref = SBytes(self.base, self.g + self.h, self.sz)
                e.prove(eq_term(d, ref), "scan_biff: payload is exactly the bytes after the header", self.info)
        else:
            e.prove(z3.Not(want), "scan_biff: every complete selected record is produced", self.info)
            e.assume(z3.Not(want))
        if not done:
            p = self.reader.pos
            e.prove(z3.If(self.complete, p == self.g + self.h + self.sz, p >= self.size),
                    "scan_biff: the stream advances to the next record boundary", self.info)

    def info(self, m):
        ev = lambda t: m.eval(t, model_completion=True)
        p = ev(self.g).as_long()
        n = ev(self.size).as_long()
        bs = [ev(z3.Select(self.base, p + i)).as_long() for i in range(min(8, max(0, n - p)))]
        return f"bytes at record start: {bs}; bytes left: {n - p}; id={ev(self.id)} size={ev(self.sz)} produced={len(self.out)}"

    def arrive(self, key, entry):
        if not entry:
            self.check(False)
        else:
            E().prove(self.reader.pos == 0, "scan_biff: scanning starts at the stream position")


def len_(x):
    from vc.values import length
    return length(x)


@vc("C02", "scan_biff", functions=("rxls.biff:scan_biff",), covers=("yield", "end"), terminates=True, while_limit=2,
    assumes=("IO[bytes].read(n) returns min(n, remaining) bytes and seek moves the position (CPython io semantics)",))
def scan_total():
    e = E()
    base = z3.Const("B", ArrII)
    size = z3.Int("size")
    e.assume(size >= 0)
    k = e.choose(3, "only")
    if k == 0:
        only, pred = None, (lambda i: z3.BoolVal(True))
    elif k == 1:
        s = IdSet()
        only, pred = s, (lambda i: s.f(i))
    else:
        only, pred = {0, 7, 402}, (lambda i: z3.Or(i == 0, i == 7, i == 402))
    w = ScanWorld(base, size, pred)
    r = SReader(base, 0, size, w)
    w.reader = r
    try:
        for rec in biff.scan_biff(r, only):
            w.out.append(rec)
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        e.fail("scan_biff: never raises", [f"{type(ex).__name__}: {ex}", w.info])
    w.check(True)
    e.prove(z3.Not(w.complete), "scan_biff: stops only when no complete record remains", w.info)
    e.cover("end")


def valid_id(e):
    i = fresh_int("id")
    e.assume(z3.Or(z3.And(i.t >= 0, i.t < 128), z3.And(i.t >= 128, i.t < 65536, i.t % 256 >= 128)))
    return i


def digits(e, n):
    """base-128 digits of n: every 0 <= n < 2**28 has exactly this decomposition (introduces names, no restriction)"""
    d = [z3.Int(f"digit{k}") for k in range(4)]
    e.assume(z3.And(n == d[0] + 128 * d[1] + 16384 * d[2] + 2097152 * d[3], *[z3.And(x >= 0, x < 128) for x in d]))


def spec_encoding(i, n):
    """conditions fixing the expected header bytes: list of (guard, [byte terms])"""
    low7 = lambda k: (n / z3.IntVal(128 ** k)) % 128
    ids = [(i < 128, [i]), (i >= 128, [i % 256, i / z3.IntVal(256)])]
    szs = [(n < 128, [n]), (z3.And(n >= 128, n < 16384), [low7(0) + 128, n / z3.IntVal(128)]),
           (z3.And(n >= 16384, n < 2097152), [low7(0) + 128, low7(1) + 128, n / z3.IntVal(16384)]),
           (n >= 2097152, [low7(0) + 128, low7(1) + 128, low7(2) + 128, n / z3.IntVal(2097152)])]
    return [(z3.And(g1, g2), a + b) for g1, a in ids for g2, b in szs]


@vc("C01", "as_binary", functions=("rxls.biff:record.as_binary", "rxls.biff:scan_biff"), covers=tuple(f"hdr{k}" for k in range(8)) + ("roundtrip", "dump"))
def as_binary():
    e = E()
    i = valid_id(e)
    data = fresh_bytes("data")
    e.assume(data.n < (1 << 28))
    digits(e, data.n)
    rec = biff.record(i, data)
    how = e.choose(3)
    try:
        if how == 0:
            out = rec.as_binary()
        else:
            w = SWriter(b"", start=0)
            pre = fresh_bytes("pre")
            if how == 2:
                w.write(pre)
            t = rec.dump(w)
            out = w.getvalue()
            if how == 2:
                parts = w.parts[1:]
                out = SCat(parts)
                e.prove(iv(t) == pre.n + iv(len_(out)), "record.dump: returns the stream position after the record")
            else:
                e.prove(iv(t) == iv(len_(out)), "record.dump: returns the stream position after the record")
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        e.fail("record.as_binary: never raises for a valid id and a payload below 2**28 bytes", f"{type(ex).__name__}: {ex}")
    opts = spec_encoding(i.t, data.n)
    if how == 0:
        k = e.choose(len(opts))
        e.assume(opts[k][0])
        e.check_feasible()
        e.cover(f"hdr{k}")
        exp = SCat([[mkint(x) for x in opts[k][1]], data])
        out = out if type(out) is SCat else SCat([out])
        e.prove(eq_term(out, exp), "record.as_binary: header bytes and payload follow the BIFF12 encoding")
    if how:
        e.cover("dump")
        exp = rec.as_binary()
        e.prove(eq_term(out if type(out) is SCat else SCat([out]), exp if type(exp) is SCat else SCat([exp])), "record.dump: writes exactly the record's binary form")
        return
    # scanning the written bytes, at any position of a stream and whatever follows, gives the record back
    base = z3.Const("S", ArrII)
    p0 = z3.Int("p0")
    size = z3.Int("ssize")
    out = out if type(out) is SCat else SCat([out])
    j = z3.Int("j!payload")      # an arbitrary payload index (Skolem constant)
    conds, end = out.constrain(base, p0, inst=[j])
    e.assume(z3.And(p0 >= 0, size >= end, *conds))
    rd = SReader(base, p0, size)
    only = None
    if e.choose(2):
        only = IdSet("only")
        e.assume(only.f(i.t))
    try:
        got = None
        for r in biff.scan_biff(rd, only):
            got = r
            break
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        e.fail("round trip: scanning a written record never raises", f"{type(ex).__name__}: {ex}")
    info = lambda m: f"id={m.eval(i.t, model_completion=True)} size={m.eval(data.n, model_completion=True)}"
    if got is None:
        e.fail("round trip: the written record is found again", info)
    e.cover("roundtrip")
    e.prove(iv(got.rec_id) == i.t, "round trip: record id", info)
    e.prove(iv(len_(got.data)) == data.n, "round trip: payload length", info)
    e.assume(iv(len_(got.data)) == data.n)
    if is_sym(got.data):
        e.assume(z3.And(j >= 0, j < data.n))
        e.prove(iv(got.data.at(j)) == iv(data.at(j)), "round trip: payload bytes", info)
    e.prove(rd.pos == end, "round trip: the reader stands right after the record", info)


@vc("C01", "dump_sz", functions=("rxls.biff:dump_sz",), covers=("w1", "w2", "w3", "w4"))
def dump_sz():
    e = E()
    n = fresh_int("size")
    e.assume(z3.And(n.t >= 0, n.t < (1 << 28)))
    try:
        out = biff.dump_sz(n)
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        e.fail("dump_sz: never raises below 2**28", f"{type(ex).__name__}: {ex}")
    opts = [(g, b[1:]) for g, b in spec_encoding(z3.IntVal(0), n.t)[:4]]
    k = e.choose(4)
    e.assume(opts[k][0])
    e.check_feasible()
    e.cover(f"w{k + 1}")
    e.prove(eq_term(out if is_sym(out) else SCat([out]), SCat([[mkint(x) for x in opts[k][1]]])), "dump_sz: 7 bits per byte, low first, continuation bit on all but the last")


@vc("C01", "from_data", functions=("rxls.biff:record.from_data",), covers=("concat",))
def from_data():
    e = E()
    i = valid_id(e)
    k = e.choose(4)
    parts = [fresh_bytes(f"part{j}") for j in range(k)]
    try:
        r = biff.record.from_data(i, *parts)
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        e.fail("record.from_data: never raises", f"{type(ex).__name__}: {ex}")
    e.cover("concat")
    e.prove(iv(r.rec_id) == i.t, "record.from_data: keeps the id")
    if k == 0:
        e.prove(iv(len_(r.data)) == 0, "record.from_data: no parts, empty payload")
    else:
        d = r.data if type(r.data) is SCat else SCat([r.data])
        e.prove(eq_term(d, SCat(parts)), "record.from_data: payload is the concatenation of the parts")
