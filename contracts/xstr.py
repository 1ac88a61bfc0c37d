"""C22: BIFF12 wide strings (rxls.biff_recs:xstr)."""
from __future__ import annotations
import z3
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, eq_term, ArrII, is_sym, length, fresh_str, fresh_bytes
from vc.runtime import SReader, SWriter
from .api import vc
import rxls.biff_recs as br

CODEC = ("str.encode('utf-16-le') gives an even number of bytes, none exactly for the empty text, and decoding exactly those bytes gives the text back (CPython codec; text without lone surrogates)",
         "texts have fewer than 2**32 - 1 UTF-16 units (the format cannot express longer ones)")


def le4(t):
    return [mkint(t % 256)] + [mkint((t / z3.IntVal(256 ** k)) % 256) for k in (1, 2, 3)]


def a_string(e):
    """(value, expected byte parts): null, empty, or any other text"""
    k = e.choose(3, "text")
    if k == 0:
        e.cover("null")
        return None, SCat([b"\xff" * 4])
    if k == 1:
        e.cover("empty")
        return "", SCat([b"\0" * 4])
    s = fresh_str("text")
    e.assume(s.t != z3.StringVal(""))
    enc = SEnc(s, "utf-16-le")
    e.assume(enc.n / 2 < 0xFFFFFFFF)
    # the four bytes of the unit count, as digits
    d = [z3.Int(f"u{j}") for j in range(4)]
    e.assume(z3.And(enc.n == 2 * (d[0] + 256 * d[1] + 65536 * d[2] + 16777216 * d[3]), *[z3.And(x >= 0, x < 256) for x in d]))
    e.cover("text")
    return s, SCat([le4(enc.n / z3.IntVal(2)), enc])


def info(x):
    return lambda m: f"text {x!r}" if not is_sym(x) else f"text {m.eval(x.t, model_completion=True)}"


def call(e, what, f, *a):
    try:
        return f(*a)
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        e.fail(f"{what}: never raises", f"{type(ex).__name__}: {ex}")


def cat(x):
    return x if type(x) is SCat else SCat([x])


@vc("C22", "dump", functions=("rxls.biff_recs:xstr.dump",), covers=("null", "empty", "text"), assumes=CODEC)
def dump():
    e = E()
    s, want = a_string(e)
    w = SWriter()
    if e.choose(2):
        pre = fresh_bytes("pre")
        w.write(pre)
    skip = len(w.parts)
    before = iv(w.tell())
    pos = call(e, "xstr.dump", br.xstr(s).dump, w)
    got = SCat(w.parts[skip:])
    e.prove(iv(length(got)) == iv(length(want)), "xstr.dump: writes count and units, nothing else", info(s))
    e.prove(eq_term(got, want), "xstr.dump: 32-bit unit count, then the little-endian units", info(s))
    e.prove(iv(pos) == before + iv(length(want)), "xstr.dump: returns the position after the string", info(s))


def at_stream(e, want):
    base, p0, size = z3.Const("S", ArrII), z3.Int("p0"), z3.Int("size")
    conds, end = want.constrain(base, p0)
    e.assume(z3.And(p0 >= 0, size >= end, *conds))
    e.check_feasible()
    return base, p0, size, end


def same_text(e, x, s, what):
    if s is None:
        e.prove(x.s is None, f"{what}: the null string is read back as null", info(s))
    else:
        if not isinstance(x.s, str):
            e.fail(f"{what}: the text is read back unchanged", info(s))
        e.prove(sv(x.s) == sv(s), f"{what}: the text is read back unchanged", info(s))
    v = call(e, "xstr.value", lambda: x.value)
    e.prove(sv(v) == sv(s or "" if not is_sym(s) else s), "xstr.value: the text, or empty for null")


@vc("C22", "load", functions=("rxls.biff_recs:xstr.load", "rxls.biff_recs:xstr.value"), covers=("null", "empty", "text"), assumes=CODEC)
def load():
    """wherever the string stands in a stream and whatever precedes and follows it"""
    e = E()
    s, want = a_string(e)
    base, p0, size, end = at_stream(e, want)
    rd = SReader(base, p0, size)
    x = call(e, "xstr.load", br.xstr.load, rd)
    same_text(e, x, s, "xstr.load")
    e.prove(rd.pos == end, "xstr.load: consumes exactly the bytes of the string", info(s))


@vc("C22", "from_binary", functions=("rxls.biff_recs:xstr.from_binary",), covers=("null", "empty", "text"), assumes=CODEC)
def from_binary():
    e = E()
    s, want = a_string(e)
    base, p0, size, end = at_stream(e, want)
    x = call(e, "xstr.from_binary", br.xstr.from_binary, SBytes(base, p0, size - p0))
    same_text(e, x, s, "xstr.from_binary")


@vc("C22", "round trip", functions=("rxls.biff_recs:xstr.load", "rxls.biff_recs:xstr.dump", "rxls.biff_recs:xstr.from_string"), covers=("null", "empty", "text"), assumes=CODEC)
def round_trip():
    """what the real dump wrote, read by the real load.  Since load is proved for every position, whatever precedes and follows, and to
    stop exactly behind its string, sequences of strings follow by composition."""
    e = E()
    a, wa = a_string(e)
    w = SWriter()
    x = call(e, "xstr.from_string", br.xstr.from_string, a)
    call(e, "xstr.dump", x.dump, w)
    base, p0, size, end = at_stream(e, cat(w.getvalue()))
    rd = SReader(base, p0, size)
    x = call(e, "xstr.load", br.xstr.load, rd)
    same_text(e, x, a, "round trip")
    e.prove(rd.pos == end, "round trip: the reader stands right behind the string")
