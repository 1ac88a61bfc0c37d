"""Are the stand-ins of the verifier faithful?  Small programs are run twice on concrete data: by plain CPython/numpy/pyarrow, and by the
verifier on symbolic values that are constrained to the same data.  What really happens (value or exception) must be among the outcomes the
verifier considers on some path; a program where it is not is reported, as is one the verifier does not support.

    python selftest.py [PATTERN]        exit 1 when a model excludes what really happens
"""
from __future__ import annotations
import io, json, math, multiprocessing as mp, os, re, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
from vc import transform, runtime
from vc.engine import Eng, E, Abort
import z3
from vc.values import SInt, SBool, SStr, SBytes, SView, is_sym, iv, sv, bv_, mkint, mkbool, fresh_int, fresh_bool, fresh_str, getitem, length, bytes_eq
from vc import models_re, models_pa, models_np   # noqa: F401
from vc.models_np import NArr, NScalar, RV, WID, rv_const, code, F64, lift
from vc.models_pa import AArr, AScalar, AChunked, kind_of_type, default_val, lift_pa

CASES = []


def case(src, *inputs, **kw):
    """src: an expression or statements ending in `return`; inputs: argument tuples"""
    body = src if "return " in src or "\n" in src else "return " + src
    for a in inputs:
        CASES.append((body, a if isinstance(a, tuple) else (a,), kw))


def compiled(body, n, instrumented):
    params = "abcdefgh"[:n]
    src = "import io, re, struct\nimport numpy as np\nimport pyarrow as pa\nimport pyarrow.compute as pc\n\n\ndef f(" + ", ".join(params) + "):\n" + "".join("    " + l + "\n" for l in body.splitlines())
    g = {"__name__": "selftest_case"}
    if instrumented:
        g.update(runtime.HOOKS)
        tree = transform.instrument(src, "selftest_case.py", "selftest_case")
        exec(compile(tree, "selftest_case.py", "exec"), g)
    else:
        exec(compile(src, "selftest_case.py", "exec"), g)
    return g["f"]


def chain(xs, mk, dflt):
    ts = [mk(x) for x in xs]

    def at(i):
        i = z3.simplify(iv(i))
        if z3.is_int_value(i):
            k = i.as_long()
            return ts[k] if 0 <= k < len(ts) else dflt
        r = dflt
        for k in range(len(ts) - 1, -1, -1):
            t = ts[k]
            r = RV(z3.If(i == k, t.r, r.r), z3.If(i == k, t.k, r.k)) if isinstance(t, RV) else z3.If(i == k, t, r)
        return r
    return at


def sym(x, mode):
    """a symbolic value that can only be x"""
    e = E()
    if isinstance(x, bool):
        v = fresh_bool()
        e.assume(v.t == x)
        return v
    if isinstance(x, int):
        v = fresh_int()
        e.assume(v.t == x)
        return v
    if isinstance(x, str):
        v = fresh_str()
        e.assume(v.t == sv(x))
        return v
    if isinstance(x, bytes):
        a = z3.K(z3.IntSort(), z3.IntVal(0))
        for k, b in enumerate(x):
            a = z3.Store(a, k, b)
        n = fresh_int()
        e.assume(n.t == len(x))
        return SBytes(a, z3.IntVal(0), n.t)
    if isinstance(x, np.ndarray):
        d = code(x.dtype)
        n = fresh_int()
        e.assume(n.t == len(x))
        return NArr(d, n, chain(x.tolist(), lambda v: lift(np.dtype(d).type(v), d, mode), lift(np.dtype(d).type(0), d, mode)), mode)
    if isinstance(x, pa.Array):
        t = x.type
        n = fresh_int()
        e.assume(n.t == len(x))
        ms = (lambda v: int(v.value)) if pa.types.is_timestamp(t) else (lambda v: v.as_py())
        return AArr(t, n, chain([v.is_valid for v in x], lambda v: z3.BoolVal(v), z3.BoolVal(False)),
                    chain([ms(v) if v.is_valid else None for v in x], lambda v: default_val(t)(0) if v is None else lift_pa(v, t), default_val(t)(0)))
    if isinstance(x, (tuple, list)):
        return type(x)(sym(y, mode) for y in x)
    return x


def same(got, want):
    """z3 condition: the verifier's value is the real one"""
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    if isinstance(want, pa.ChunkedArray):
        want = want.combine_chunks() if want.num_chunks != 1 else want.chunk(0)
    if type(got) is AChunked:
        got = got.combine_chunks()
    if type(got) in (NArr, AArr):
        if not isinstance(want, (np.ndarray, pa.Array)):
            return F
        cs = [iv(got.n) == len(want)]
        if type(got) is NArr:
            if np.dtype(got.dt) != want.dtype:
                return F
            for k, w in enumerate(want.tolist()):
                cs.append(eqn(got.at(z3.IntVal(k)), lift(np.dtype(got.dt).type(w), got.dt, got.mode)))
        else:
            if got.type != want.type:
                return F
            for k, w in enumerate(want):
                cs.append(got.valid(z3.IntVal(k)) == w.is_valid)
                if w.is_valid:
                    cs.append(eqn(got.val(z3.IntVal(k)), lift_pa(int(w.value) if pa.types.is_timestamp(want.type) else w.as_py(), want.type)))
        return z3.And(*cs)
    if type(got) is NScalar:
        return eqn(got.v, lift(np.dtype(got.dt).type(want), got.dt, got.mode))
    if type(got) is AScalar:
        return z3.And(got.valid == want.is_valid, *([eqn(got.v, lift_pa(int(want.value) if pa.types.is_timestamp(want.type) else want, want.type))] if want.is_valid else []))
    if want is None or got is None:
        return z3.BoolVal(want is None and got is None)
    if isinstance(want, (bool, np.bool_)):
        return bv_(got) == bool(want) if isinstance(got, (bool, np.bool_)) or type(got) is SBool else F
    if isinstance(want, int):
        return iv(got) == want if isinstance(got, int) and not isinstance(got, bool) else F
    if isinstance(want, str):
        return sv(got) == sv(want) if isinstance(got, str) else F
    if isinstance(want, bytes):
        if not isinstance(got, bytes):
            return F
        return bv_(bytes_eq(got, want)) if is_sym(got) else z3.BoolVal(got == want)
    if isinstance(want, (tuple, list)):
        n = length(got)
        if not is_sym(got) and not isinstance(got, (tuple, list)):
            return F
        return z3.And(iv(n) == len(want), *[same(getitem(got, k), w) for k, w in enumerate(want)]) if type(n) is not int or n == len(want) else F
    if isinstance(want, float):
        return z3.BoolVal(isinstance(got, float) and (got == want or got != got and want != want))
    if isinstance(want, dict):
        return same(tuple(got.items()), tuple(want.items()))
    if isinstance(want, (set, frozenset)):
        return z3.BoolVal(got == want)
    return z3.BoolVal(bool(got == want))


def eqn(a, b):
    if isinstance(a, RV):
        return z3.And(a.k == b.k, z3.Implies(b.k == 0, a.r == b.r))
    if z3.is_fp(a):
        return z3.fpToIEEEBV(a) == z3.fpToIEEEBV(b) if not z3.is_true(z3.simplify(z3.fpIsNaN(b))) else z3.fpIsNaN(a)
    return a == b


def outcome(f, a):
    try:
        return None, f(*a)
    except Exception as x:   # noqa: BLE001
        return x, None


def one(k):
    body, args, kw = CASES[k]
    rx, want = outcome(compiled(body, len(args), False), args)
    out = []
    for mode in kw.get("modes", ("math",)):
        e = Eng(budget=60, query_ms=10000)
        Eng.cur = e
        e.while_limit = 9
        seen = []

        def harness():
            xs = [sym(x, mode) for x in args]
            f = compiled(body, len(args), True)
            x, got = outcome(f, xs)
            seen.append(repr(x) if x is not None else repr(got)[:80])
            if x is not None or rx is not None:
                ok = x is not None and rx is not None and (type(x) is type(rx) or isinstance(x, type(rx)) or isinstance(rx, type(x)))
                if not ok:
                    return
                E().prove(False, "excluded")
                return
            s = same(got, want)
            E().prove(z3.Not(s), "excluded")
            E().prove(s, "exact")
        err = None
        try:
            e.run(harness)
        except Abort as x:
            err = f"{type(x).__name__}: {x}"
        except BaseException as x:   # noqa: BLE001
            err = f"harness error: {x!r}"
        e.alive = False
        Eng.cur = None
        o, x = e.obls.get("excluded"), e.obls.get("exact")
        if err or e.unsupported:
            r = "unsupported " + str(err or e.unsupported[0][0])[:160]
        elif o is None or not (o.fail or o.unknown):
            r = "EXCLUDED: really " + (repr(rx) if rx is not None else repr(want))[:160] + "; verifier: " + "; ".join(dict.fromkeys(seen))[:300]
        elif not o.fail:
            r = "undecided"
        elif rx is not None:
            r = "exact" if e.paths <= 1 else "allowed"
        else:
            r = "exact" if not (x.fail or x.unknown) else "allowed"
        out.append((mode, r))
    return k, out


# ------------------------------------------------------------------------------------------------ integers
INTS = [(7, 3), (-7, 3), (7, -3), (-7, -3), (0, 5), (5, 0), (2 ** 40, 255), (-1, 1), (1, 63), (12, 12)]
for op in ("a + b", "a - b", "a * b", "a // b", "a % b", "divmod(a, b)", "a & b", "a | b", "a ^ b", "a < b", "a <= b", "a == b", "a != b", "a > b", "a >= b", "max(a, b)", "min(a, b)",
           "a and b", "a or b", "a if b else -a", "(a, b)", "[a, b][a > b]"):
    case(op, *[p for p in INTS if not (op in ("a & b", "a | b", "a ^ b") and min(p) < 0)])
for op in ("-a", "+a", "~a", "abs(a)", "bool(a)", "not a", "int(a)", "str(a)", "f'{a}'", "f'x{a}y'", "a << 3", "a >> 2", "a & 255", "a & 0x7F", "a | 128", "a ^ 1", "a >> 30", "a + 1.0 if False else a", "a / 1 if False else a", "hash(1) + a",
           "int(str(a))", "isinstance(a, int)", "isinstance(a, str)", "type(a) is int", "(lambda z: z + 1)(a)", "chr(65 + a % 26)" if False else "a * 2 + 1", "divmod(a, 26)", "a % 26", "a // 26", "a - a // 2"):
    case(op, 0, 1, 26, 27, 255, 702, 18278, 70000, *(() if "&" in op or "|" in op or "^" in op or ">>" in op or "<<" in op else (-1, -26, -300)))
case("a.to_bytes(4, 'little')", 0, 1, 255, 256, 2 ** 31, 2 ** 32 - 1, 2 ** 32, -1)
case("a.to_bytes(2, 'big')", 0, 513, 65535, 65536)
case("a.to_bytes(4, 'little', signed=True)", 0, -1, 2 ** 31 - 1, -2 ** 31, 2 ** 31)
case("int.from_bytes(a, 'little')", b"", b"\x01", b"\x01\x02", b"\xff\xff\xff\xff", b"\x00\x00\x00\x80")
case("int.from_bytes(a, 'little', signed=True)", b"\x01", b"\xff\xff\xff\xff", b"\x00\x00\x00\x80", b"\xfe\xff")
case("int.from_bytes(a, 'big')", b"\x01\x02", b"\xff\x00\x00\x01")
case("int(a)", "0", "12", "-5", "007", "x", "", " 3 ", "+4", "1_000")
case("sum([a, b, 1])", *INTS[:4])
case("any([a > 1, b > 1])", *INTS[:5])
case("all([a > 1, b > 1])", *INTS[:5])
case("list(range(a, b))", (0, 3), (2, 2), (3, 1))
case("len(range(a, b))", (0, 3), (2, 2), (3, 1), (-2, 5))
case("t = 0\nfor i in range(a):\n    t += i\nreturn t", 0, 1, 4)
case("t = []\nfor i in range(a):\n    if i % 2:\n        continue\n    t.append(i)\nreturn len(t) if False else a", 0, 3)
case("while a > 3:\n    a -= 2\nreturn a", 9, 8, 2)
case("t = 0\nfor i in range(a):\n    if i == b:\n        t = 7\n        break\nelse:\n    t = 9\nreturn t", (4, 2), (4, 9), (0, 0))
case("try:\n    t = a // b\nexcept ZeroDivisionError:\n    t = -1\nfinally:\n    a += 1\nreturn t, a", (4, 2), (4, 0))
case("d = {1: 'x', a: 'y'}\nreturn d[b]", (1, 1), (2, 1), (2, 3), (2, 2))
case("d = {a: 1}\nd[b] = 2\nreturn len(d), list(d)", (1, 1), (1, 2))
case("d = {}\nd[a] = 'p'\nd.setdefault(b, 'q')\nreturn d.get(a), d.get(b), d.get(99)", (1, 1), (1, 2))
case("return a in (1, 2, b)", (1, 5), (5, 5), (6, 5))
case("return a in {1, 2, b}", (1, 5), (5, 5), (6, 5))
case("l = [a, b]\nl.append(a + b)\nl[0] = 5\nreturn l, len(l), l[-1]", (1, 2))
case("l = [a, b]\nreturn l[a]", (0, 5), (1, 5), (2, 5), (-1, 7), (-3, 7))
case("return sorted([a, b, 3])", (1, 5), (5, 1))
case("return tuple(enumerate([a, b], 1)), list(zip([a, b], 'xy')), list(map(lambda q: q + 1, [a, b])), list(filter(None, [a, b]))", (0, 5), (3, 0))
case("x, *y = [a, b, 3]\nreturn x, y", (1, 2))
case("def g(n, m=b, *r, k=3):\n    return n + m + k + len(r)\nreturn g(a), g(a, 1), g(a, 1, 2, k=4)", (1, 2))
case("match a:\n    case 1:\n        return 'one'\n    case 2 | 3:\n        return 'few'\n    case _:\n        return 'many'", 1, 3, 9)

# ------------------------------------------------------------------------------------------------ text
TEXTS = ["", "A", "A1", "AB12", "  pad ", "rId1", "_x0041_", "/xl/worksheets/sheet1.xml", "a,b,c", "äöü€", "0.00", "true", "\U0001f600x"]
for op in ("a", "len(a)", "bool(a)", "a + 'x'", "'x' + a", "a[0]", "a[-1]", "a[1:]", "a[:-1]", "a[1:3]", "a[-2:]", "a[:0]", "a == 'A1'", "a != 'A1'", "a < 'B'", "a.startswith('A')", "a.startswith(('/', 'r'))", "a.endswith('1')",
           "a.removeprefix('/')", "a.removesuffix('xml')", "'1' in a", "a in 'A1B'", "a in ('A', 'A1')", "a.partition(',')", "a.lstrip('/')", "f'<{a}>'", "f'{a!r}'" if False else "f'{a}{a}'", "'-'.join([a, 'q', a])", "a.split(',')",
           "a.rsplit('.', 1)", "a.encode('utf-16-le').decode('utf-16-le')", "len(a.encode('utf-16-le'))", "a.strip()", "a.lower()", "a.upper()", "a.replace(',', ';')", "a.isdigit()", "a.find(',')", "a.split(',', 1)[0]", "str(a)", "a or 'none'", "isinstance(a, str)", "{a: 1}.get('A1')", "a * 2"):
    case(op, *TEXTS)
case("a + b", ("x", ""), ("", ""), ("ab", "cd"))
case("a == b", ("x", "x"), ("x", "y"))
case("a.startswith(b)", ("abc", "ab"), ("abc", ""), ("a", "abc"))
case("b in a", ("abc", "bc"), ("abc", ""), ("a", "abc"))
case("a.encode('utf-8') == b", ("abc", b"abc"), ("é", b"\xc3\xa9"), ("x", b"y"))
case("a.decode('utf-16-le')", b"a\x00", b"", b"a\x00b\x00")      # text that is not well-formed is excluded by assumption (DESIGN, 3)

# ------------------------------------------------------------------------------------------------ bytes, struct, streams
BYT = [b"", b"\x00", b"\x01\x02", b"\x01\x02\x03\x04\x05\x06\x07\x08", b"\xff\xfe\xfd\xfc"]
for op in ("a", "len(a)", "bool(a)", "a[0]", "a[-1]", "a[1:]", "a[:2]", "a[2:4]", "a[1:100]", "a + b'x'", "b'x' + a", "a == b'\\x01\\x02'", "a[:4] + a[4:]", "list(a[:2])", "struct.unpack('<I', a[:4])", "struct.unpack('<HH', a[:4])",
           "struct.unpack('<i', a[:4])", "struct.unpack_from('<H', a, 1)", "int.from_bytes(a[:2], 'little')", "io.BytesIO(a).read()", "io.BytesIO(a).read(2)", "b''.join([a, b'q', a])", "a[0] & 0x80", "bytes(a)", "struct.unpack('<Q', a)", "struct.unpack('<B', a[:1])[0]"):
    case(op, *BYT)
case("s = io.BytesIO(a)\nx = s.read(2)\ny = s.tell()\ns.seek(1)\nz = s.read(1)\ns.seek(2, 1)\nreturn x, y, z, s.tell(), s.read()", *BYT)
case("s = io.BytesIO(a)\ns.seek(-1, 2)\nreturn s.read()", *BYT[1:])
case("s = io.BytesIO()\nx = s.write(a)\ns.write(b'xy')\nreturn x, s.tell(), s.getvalue()", *BYT)
case("struct.pack('<I', a)", 0, 1, 2 ** 32 - 1, 2 ** 32, -1)
case("struct.pack('<HBi', a, 1, -2)", 0, 65535)
case("int.to_bytes(a, 4, 'little')", 0, 77, 2 ** 32)

# ------------------------------------------------------------------------------------------------ re
for pat in (r"([A-Z]+)(\d+)", r"^[A-Z]{1,3}", r"_x([0-9A-Fa-f]{4})_", r"\d+$", r"(?i)true|false", r"[^,]*", r"(a|b)?,"):
    case(f"m = re.match({pat!r}, a)\nreturn m is not None", *TEXTS)
    case(f"m = re.fullmatch({pat!r}, a)\nreturn m is not None", *TEXTS)
    case(f"m = re.search({pat!r}, a)\nreturn m is not None", *TEXTS)
case("m = re.match(r'([A-Z]+)(\\d+)', a)\nreturn m.group(1), m.group(2)", "A1", "AB12", "XFD1048576", "7")

# ------------------------------------------------------------------------------------------------ numpy
I8 = np.array([0, 1, -1, 5, 2 ** 40, -2 ** 40, 2 ** 31], "i8")
U4 = np.array([0, 1, 2, 3, 100, 2 ** 31, 2 ** 32 - 1, 0x40000002], "u4")
U4B = np.array([3, 0, 7, 2 ** 32 - 1, 5, 2, 2 ** 31, 1], "u4")
F8 = np.array([0.0, 1.5, -2.25, 1e10, math.nan, math.inf, -math.inf, 0.5, 43831.75], "f8")
F8F = np.array([0.0, 1.5, -2.25, 1e10, 0.5, 43831.75, 60.0, -0.0], "f8")
B1 = np.array([True, False, True, True, False, False, True, False])
BOTH = ("math", "bv")
for op in ("a & 1", "a >> np.uint32(2)", "a | np.uint32(1)", "a ^ np.uint32(255)", "a + np.uint32(7)", "a * np.uint32(3)", "a == 3", "a != 3", "a < 3", "a > np.uint32(5)", "(a & 2) != 0", "a.astype('i4')", "a.astype('i8')", "a.astype('f8')", "a.view('i4')", "a[1:3]", "a[::-1]", "a.astype(bool)", "~a", "a.copy()", "a.astype('u1')", "a.astype('u2')", "a.view('i4') >> 2", "len(a)", "a.dtype"):
    case(op, U4, modes=BOTH if not re.search("f8", op) else ("math", "bv"))
for op in ("a + b", "a - b", "a & b", "a | b", "a ^ b", "a == b", "a < b", "a >= b", "np.where(a > b, a, b)", "np.where(a > b, a, 0)", "np.maximum(a, b)", "np.logical_and(a, b)", "np.equal(a, b)"):
    case(op, (U4, U4B), modes=BOTH)
for op in ("a + 1", "a - 5", "a * 2", "a // 2", "a % 2", "a // 7", "-a", "abs(a)", "a == 5", "a < 0", "a.astype('i4')", "a.astype('u4')", "a.astype('f8')", "a / 100", "a >> 1", "a << 1", "a * 86400000", "np.where(a < 0, -a, a)", "a.astype('i8') % 3", "(a > 0) & (a < 10)", "(a > 0) | (a < -10)", "~(a > 0)"):
    case(op, I8)
for op in ("a + 1", "a - 0.5", "a * 100", "a / 100", "a == 0.5", "a != a", "a > 1", "a <= 1.5", "np.isnan(a)", "np.isfinite(a)", "np.isinf(a)", "np.floor(a)", "np.trunc(a)", "np.ceil(a)", "np.rint(a)", "a % 1", "-a", "abs(a)", "np.where(np.isnan(a), 0.0, a)", "np.where(a > 1, a - 1, a)", "np.where(a > 60, 1, 0)", "a.astype('f8')", "a // 1", "np.round(a)", "np.round(a, 2)"):
    case(op, F8, F8F)
for op in ("a.astype('i8')", "(a * 86400000).astype('i8')", "a.view('i8')", "a.view('u8')"):
    case(op, F8F, modes=("math",) if "view" not in op else ("bv",))
for op in ("a & b", "a | b", "a ^ b", "~a", "a == b", "np.logical_and(a, b)", "np.logical_or(a, ~b)", "a.astype('u1')", "a.astype('i8')", "np.where(a, b, ~b)", "bool(a.any())", "bool(a.all())", "bool(np.any(a & b))", "bool(np.all(a | ~a))", "a[1:]"):
    case(op, (B1, B1[::-1].copy()))
case("a[b]", (U4, B1), (I8[:5], B1[:5]))
case("np.frombuffer(a, '<u4')", b"", b"\x01\x00\x00\x00", b"\x01\x00\x00\x00\xff\xff\xff\xff", b"\x01")
case("np.frombuffer(a, '<f8')", b"\x00\x00\x00\x00\x00\x00\xf8?", struct.pack("<2d", 1.5, -2.0))
case("np.repeat(5, a)", 0, 3)
case("np.full(a, 7, 'i8')", 0, 3)

# ------------------------------------------------------------------------------------------------ pyarrow
S = pa.array(["1", "2.5", None, "-3", "1e3"], pa.large_string())
S2 = pa.array(["x", "", None, "true", "äö"], pa.large_string())
D = pa.array([0.0, 1.5, None, -2.0, 1e300, math.nan], pa.float64())
DI = pa.array([0.0, 1.0, None, -2.0, 1e9], pa.float64())
L = pa.array([0, 5, None, -7, 2 ** 40], pa.int64())
LU = pa.array([0, 5, None, 7], pa.int64())
U = pa.array([0, 2, 1, None], pa.uint32())
BO = pa.array([True, False, None, True, False])
BP = pa.array([True, True, None, None, False])
TS = pa.array([0, 86400000, None, -1], pa.timestamp("ms"))
N = pa.nulls(3)
for op in ("len(a)", "a.null_count", "a.is_null()", "a.is_valid()", "a[0]", "a[-1]", "a[9]", "a.slice(1)", "a.slice(1, 2)", "a.slice(10)", "a[1:3]", "pc.is_null(a)", "pc.invert(a.is_null())", "a.type", "pa.concat_arrays([a, a])", "pa.chunked_array([a, a])", "a.cast(a.type)",
           "a.filter(a.is_valid())", "a.take(pa.array([0, 1]))", "a.drop_null()", "a.to_pylist()", "pc.indices_nonzero(a.is_valid())", "a.fill_null('x')" if False else "a[0].is_valid", "a.is_null(nan_is_null=True)"):
    case(op, S, S2, D, L, BO, TS, N)
case("a.cast(pa.float64())", S, S2, L, DI, N)
case("a.cast(pa.int64())", D, DI, L, N, TS)
case("a.cast(pa.int64(), safe=False)", DI, L)
case("a.cast(pa.uint32())", L, LU)
case("a.cast(pa.large_string())", D, L, TS, S, N)
case("a.cast(pa.timestamp('ms'))", L, TS)
case("pc.invert(a)", BO)
case("pc.and_(a, b)", (BO, BP), (BO, BO.slice(1)))
case("pc.or_(a, b)", (BO, BP))
case("a.sum()", BO) if False else None
case("pc.strptime(a, format='%Y-%m-%d', unit='ms', error_is_null=True)", pa.array(["2020-01-01", "x", None], pa.large_string()))
case("pc.strptime(a, format='%Y-%m-%d', unit='ms')", pa.array(["2020-01-01", None], pa.large_string()), pa.array(["x"], pa.large_string()))
case("pc.match_substring_regex(a, pattern='^t', ignore_case=True)", S2)
case("a.take(b)", (S, U), (S, pa.array([9], pa.uint32())), (S.slice(0, 2), pa.array([1, None], pa.uint32())))
case("pa.nulls(a)", 0, 3)
case("pa.nulls(a, pa.float64())", 0, 3)


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    ks = [k for k, c in enumerate(CASES) if pat in c[0]]
    t = time.time()
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(one, ks, chunksize=4)
    tally, bad, unsup = {}, [], {}
    for k, out in res:
        for mode, r in out:
            tally[r.split(":")[0].split(" ")[0]] = tally.get(r.split(":")[0].split(" ")[0], 0) + 1
            if r.startswith("EXCLUDED") or r == "undecided":
                bad.append(f"{CASES[k][0]!r} on {[str(x)[:60] for x in CASES[k][1]]!r} [{mode}]: {r}")
            elif r.startswith("unsupported"):
                unsup.setdefault((CASES[k][0], r), []).append(k)
    for (s, r), v in unsup.items():
        print(f"{s!r} ({len(v)} cases): {r}")
    for b in bad:
        print(b)
    print(f"{len(ks)} programs in {time.time() - t:.0f} s: " + ", ".join(f"{n} {w}" for w, n in sorted(tally.items())))
    return 1 if any("EXCLUDED" in b for b in bad) else 0


if __name__ == "__main__":
    sys.exit(main())
