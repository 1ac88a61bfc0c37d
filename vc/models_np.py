"""Elementwise symbolic numpy arrays.

NArr(dt, n, f, mode): a one-dimensional array of symbolic length n whose element at index i is f(i).
mode "bv":   integers are bit vectors, doubles are IEEE-754 terms (exact numpy semantics)
mode "math": integers are mathematical (every operation is proved to stay in range, or the value is left arbitrary), doubles are a class
             (finite / nan / +inf / -inf) with a real value; inexact operations carry an arbitrary relative error of at most 2**-53.
Reductions over all elements are decided by witnesses (some element) or recorded as facts about every element, instantiated at the
registered (Skolem) indices.
"""
from __future__ import annotations
import fractions
import numpy as np
import z3
from .engine import E, PathEnd
from .values import *   # noqa: F403
from .values import U, is_sym, iv, bv_, length, I
from .runtime import MODELS, model, SJoin, active, m_len

F64 = z3.Float64()
RNE = z3.RNE()
R = z3.RealSort()
WID = {"u1": 8, "i1": 8, "u2": 16, "i2": 16, "u4": 32, "i4": 32, "u8": 64, "i8": 64}
SIGNED = {"i1", "i2", "i4", "i8"}


def code(dt):
    d = np.dtype(dt)
    c = d.str[1:]
    if c not in WID and c not in ("f8", "b1"):
        U(f"numpy dtype {d}")
    return c


class RV:
    """a double in math mode: k 0 finite, 1 nan, 2 +inf, 3 -inf; isint: exactly an integer of magnitude below 2**53"""
    __slots__ = ("k", "r", "isint")

    def __init__(self, r, k=None, isint=False):
        self.r = r
        self.k = z3.IntVal(0) if k is None else k
        self.isint = isint

    @property
    def fin(self):
        return self.k == 0


def rv_const(x):
    x = float(x)
    if x != x:
        return RV(z3.RealVal(0), z3.IntVal(1))
    if x in (float("inf"), float("-inf")):
        return RV(z3.RealVal(0), z3.IntVal(2 if x > 0 else 3))
    return RV(z3.RealVal(str(fractions.Fraction(x))), None, x == int(x) and abs(x) < 2 ** 53)


def ite(c, a, b):
    if isinstance(a, RV):
        return RV(z3.If(c, a.r, b.r), z3.simplify(z3.If(c, a.k, b.k)), a.isint and b.isint)
    return z3.If(c, a, b)


ULP = z3.RealVal("1/9007199254740992")


def rounded(r, exact):
    """r rounded to a double (|r| in the normal range)"""
    if exact:
        return r
    e = E()
    d = e.fresh("rnd", R)
    x = e.fresh("fl", R)
    # x = r + d with |d| <= 2^-53 |r|
    e.assume(z3.And(x == r + d, d <= ULP * r, d >= -ULP * r) if False else
             z3.And(x == r + d, z3.If(r >= 0, z3.And(d <= ULP * r, d >= -ULP * r), z3.And(d <= -ULP * r, d >= ULP * r))))
    return x


def lo_hi(dt):
    w = WID[dt]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if dt in SIGNED else (0, (1 << w) - 1)


def cvt(v, a, b, mode):
    """element conversion, numpy astype semantics"""
    if a == b:
        return v
    if mode == "bv":
        if a == "b1":
            if b == "f8":
                return z3.If(v, z3.FPVal(1.0, F64), z3.FPVal(0.0, F64))
            return z3.If(v, z3.BitVecVal(1, WID[b]), z3.BitVecVal(0, WID[b]))
        if b == "b1":
            return v != (z3.FPVal(0.0, F64) if a == "f8" else z3.BitVecVal(0, WID[a])) if a != "f8" else z3.Not(z3.fpIsZero(v))
        if a == "f8":
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(WID[b])) if b in SIGNED else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(WID[b]))
        if b == "f8":
            return z3.fpToFP(RNE, v, F64) if a in SIGNED else z3.fpToFPUnsigned(RNE, v, F64)
        wa, wb = WID[a], WID[b]
        if wb <= wa:
            return z3.Extract(wb - 1, 0, v) if wb < wa else v
        return z3.SignExt(wb - wa, v) if a in SIGNED else z3.ZeroExt(wb - wa, v)
    # math
    if a == "b1":
        if b == "f8":
            return RV(z3.If(v, z3.RealVal(1), z3.RealVal(0)), None, True)
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if b == "b1":
        return (z3.Or(v.k != 0, v.r != 0)) if a == "f8" else v != 0
    if b == "f8":
        if WID[a] <= 32:
            return RV(z3.ToReal(v), None, True)
        e = E()
        if e.valid(z3.And(v <= 2 ** 53, v >= -2 ** 53)):
            return RV(z3.ToReal(v), None, True)
        return RV(rounded(z3.ToReal(v), False))
    lo, hi = lo_hi(b)
    if a == "f8":
        t = z3.If(v.r >= 0, z3.ToInt(v.r), -z3.ToInt(-v.r))
        e = E()
        if v.isint and e.valid(z3.And(v.fin, t >= lo, t <= hi)):
            return t
        w = e.fresh("badcast", I)
        e.assume(z3.And(w >= lo, w <= hi))
        return z3.If(z3.And(v.fin, t >= lo, t <= hi), t, w)
    la, ha = lo_hi(a)
    if lo <= la and ha <= hi:
        return v
    m = 1 << WID[b]
    x = v % m
    return z3.If(x > hi, x - m, x) if b in SIGNED else x


def lift(c, dt, mode):
    """a constant as an element"""
    if dt == "b1":
        return z3.BoolVal(bool(c))
    if dt == "f8":
        return z3.FPVal(float(c), F64) if mode == "bv" else rv_const(c)
    return z3.BitVecVal(int(c), WID[dt]) if mode == "bv" else z3.IntVal(int(c))


def cmp_math(op, a, b):
    if isinstance(a, RV):
        ra, rb = a.r, b.r
        nan = z3.Or(a.k == 1, b.k == 1)
        both = z3.And(a.k == 0, b.k == 0)
        lt = z3.Or(z3.And(both, ra < rb), z3.And(a.k == 3, z3.Or(b.k == 0, b.k == 2)), z3.And(b.k == 2, z3.Or(a.k == 0, a.k == 3)))
        eq = z3.And(z3.Not(nan), a.k == b.k, z3.Or(a.k != 0, ra == rb))
        gt = z3.And(z3.Not(nan), z3.Not(lt), z3.Not(eq))
        return {"less": lt, "less_equal": z3.Or(lt, eq), "greater": gt, "greater_equal": z3.Or(gt, eq), "equal": eq, "not_equal": z3.Not(eq)}[op]
    return {"less": lambda: a < b, "less_equal": lambda: a <= b, "greater": lambda: a > b, "greater_equal": lambda: a >= b, "equal": lambda: a == b,
            "not_equal": lambda: a != b}[op]()


def cmp_bv(op, a, b, dt):
    if dt == "f8":
        return {"less": z3.fpLT, "less_equal": z3.fpLEQ, "greater": z3.fpGT, "greater_equal": z3.fpGEQ, "equal": z3.fpEQ, "not_equal": lambda x, y: z3.Not(z3.fpEQ(x, y))}[op](a, b)
    if dt == "b1":
        return a == b if op == "equal" else a != b if op == "not_equal" else U("ordering of booleans")
    if op == "equal":
        return a == b
    if op == "not_equal":
        return a != b
    s = dt in SIGNED
    return {"less": (lambda: a < b) if s else (lambda: z3.ULT(a, b)), "less_equal": (lambda: a <= b) if s else (lambda: z3.ULE(a, b)),
            "greater": (lambda: a > b) if s else (lambda: z3.UGT(a, b)), "greater_equal": (lambda: a >= b) if s else (lambda: z3.UGE(a, b))}[op]()


def arith_bv(op, a, b, dt):
    if dt == "b1":
        return {"bitwise_and": z3.And, "bitwise_or": z3.Or, "bitwise_xor": z3.Xor, "logical_and": z3.And, "logical_or": z3.Or}.get(op, lambda *x: U(f"{op} of booleans"))(a, b)
    if dt == "f8":
        if op == "true_divide" or op == "divide":
            b = z3.simplify(b)
            if z3.is_fp_value(b) and b.as_string() == "1":
                return a
            if z3.is_app_of(b, z3.Z3_OP_ITE):       # division by a selected constant
                c, x, y = b.children()
                return z3.If(c, arith_bv(op, a, x, dt), arith_bv(op, a, y, dt))
            return z3.fpDiv(RNE, a, b)
        return {"add": lambda: z3.fpAdd(RNE, a, b), "subtract": lambda: z3.fpSub(RNE, a, b), "multiply": lambda: z3.fpMul(RNE, a, b)}.get(op, lambda: U(f"{op} of doubles"))()
    s = dt in SIGNED
    w = WID[dt]
    if op in ("left_shift", "right_shift"):
        big = z3.UGE(b, z3.BitVecVal(w, w))
        if op == "left_shift":
            return z3.If(big, z3.BitVecVal(0, w), a << b)
        return (a >> b) if s else z3.If(big, z3.BitVecVal(0, w), z3.LShR(a, b))
    f = {"bitwise_and": lambda: a & b, "bitwise_or": lambda: a | b, "bitwise_xor": lambda: a ^ b, "add": lambda: a + b, "subtract": lambda: a - b, "multiply": lambda: a * b}.get(op)
    return f() if f else U(f"{op} of integers")


def arith_math(op, a, b, dt):
    if dt == "b1":
        return arith_bv(op, a, b, dt)
    e = E()
    if dt == "f8":
        fin = z3.And(a.fin, b.fin)
        special = e.fresh("kind", I)
        e.assume(z3.And(special >= 0, special <= 3))
        k = z3.IntVal(0) if e.valid(fin) else z3.If(fin, z3.IntVal(0), special)
        if op in ("add", "subtract"):
            r = a.r + b.r if op == "add" else a.r - b.r
            ex = a.isint and b.isint
            if ex:
                ex = e.valid(z3.And(r < 2 ** 53, r > -2 ** 53))
            elif e.valid(z3.Or(a.r == 0, b.r == 0)):
                ex = True
            return RV(rounded(r, ex), k, a.isint and b.isint and ex)
        if op == "multiply":
            ca, cb = (z3.simplify(x.r) for x in (a, b))
            if not (z3.is_rational_value(ca) or z3.is_rational_value(cb)):
                # selections between constants: multiply branchwise
                for x, y in ((a, b), (b, a)):
                    t = z3.simplify(x.r)
                    if z3.is_app_of(t, z3.Z3_OP_ITE) and all(z3.is_rational_value(q) for q in t.children()[1:]):
                        c, u, w = t.children()
                        p = z3.If(c, u * y.r, w * y.r)
                        ex = y.isint or all(q.as_fraction() in (0, 1, -1) for q in (u, w))
                        return RV(rounded(p, ex), k, y.isint and ex and e.valid(z3.And(p < 2 ** 53, p > -2 ** 53)))
                U("product of two symbolic doubles")
            r = a.r * b.r
            c = ca if z3.is_rational_value(ca) else cb
            o = b if z3.is_rational_value(ca) else a
            p2 = abs(c.as_fraction()) in [fractions.Fraction(2) ** q for q in range(-60, 61)] or c.as_fraction() == 0
            ii = a.isint and b.isint and e.valid(z3.And(r < 2 ** 53, r > -2 ** 53))
            return RV(rounded(r, p2 or ii), k, ii)
        if op in ("true_divide", "divide"):
            cb = z3.simplify(b.r)
            if z3.is_rational_value(cb) and cb.as_fraction() != 0:
                f = abs(cb.as_fraction())
                return RV(rounded(a.r / cb, f in [fractions.Fraction(2) ** q for q in range(-60, 61)]), k, f == 1 and a.isint)
            U("division by a symbolic double")
        U(f"{op} of doubles")
    lo, hi = lo_hi(dt)

    def ranged(t):
        if e.valid(z3.And(t >= lo, t <= hi)):
            return t
        m = hi - lo + 1
        x = t % m
        return z3.If(x > hi, x - m, x)
    if op == "add":
        return ranged(a + b)
    if op == "subtract":
        return ranged(a - b)
    if op == "multiply":
        if not (z3.is_int_value(z3.simplify(a)) or z3.is_int_value(z3.simplify(b))):
            for x, y in ((a, b), (b, a)):
                t = z3.simplify(x)
                if z3.is_app_of(t, z3.Z3_OP_ITE) and all(z3.is_int_value(q) for q in t.children()[1:]):
                    c, u, w = t.children()
                    return ranged(z3.If(c, u * y, w * y))
            U("product of two symbolic integers")
        return ranged(a * b)
    if op in ("remainder", "floor_divide"):
        cb = z3.simplify(b)
        if z3.is_int_value(cb) and cb.as_long() > 0:
            return a % cb if op == "remainder" else a / cb
        U(f"{op} by a symbolic integer")
    if op in ("bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift"):
        x, y = mkint(a), mkint(b)
        r = {"bitwise_and": lambda: x & y, "bitwise_or": lambda: x | y, "left_shift": lambda: x << y, "right_shift": lambda: x >> y, "bitwise_xor": lambda: x ^ y}[op]()
        return ranged(iv(r)) if op == "left_shift" else iv(r)
    U(f"{op} of integers")


CMPS = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal"}
NPROUND = z3.Function("np_round", R, I, R)
NPROUNDK = z3.Function("np_round_kind", R, I, I)


def unary(op, a, dt, mode):
    if op in ("logical_not", "invert") and dt == "b1":
        return z3.Not(a), "b1"
    if op == "logical_not":
        return z3.Not(cvt(a, dt, "b1", mode)), "b1"
    if dt == "f8":
        if mode == "bv":
            f = {"absolute": z3.fpAbs, "negative": z3.fpNeg, "trunc": lambda x: z3.fpRoundToIntegral(z3.RTZ(), x), "rint": lambda x: z3.fpRoundToIntegral(RNE, x),
                 "floor": lambda x: z3.fpRoundToIntegral(z3.RTN(), x), "ceil": lambda x: z3.fpRoundToIntegral(z3.RTP(), x), "positive": lambda x: x}.get(op)
            if f:
                return f(a), "f8"
            g = {"isnan": z3.fpIsNaN, "isinf": z3.fpIsInf, "isfinite": lambda x: z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))}.get(op)
            return (g(a), "b1") if g else U(f"{op} of doubles")
        e = E()
        if op == "absolute":
            return RV(z3.If(a.r >= 0, a.r, -a.r), z3.If(a.k == 3, z3.IntVal(2), a.k), a.isint), "f8"
        if op == "negative":
            return RV(-a.r, z3.If(a.k == 3, z3.IntVal(2), z3.If(a.k == 2, z3.IntVal(3), a.k)), a.isint), "f8"
        if op == "trunc":
            return RV(z3.ToReal(z3.If(a.r >= 0, z3.ToInt(a.r), -z3.ToInt(-a.r))), a.k, True), "f8"
        if op in ("floor", "ceil"):
            return RV(z3.ToReal(z3.ToInt(a.r) if op == "floor" else -z3.ToInt(-a.r)), a.k, True), "f8"
        if op == "rint":
            n = e.fresh("rint", I)
            h = z3.RealVal("1/2")
            e.assume(z3.And(z3.ToReal(n) - a.r <= h, a.r - z3.ToReal(n) <= h, z3.Implies(z3.Or(z3.ToReal(n) - a.r == h, a.r - z3.ToReal(n) == h), n % 2 == 0)))
            return RV(z3.ToReal(n), a.k, True), "f8"
        g = {"isnan": a.k == 1, "isinf": a.k >= 2, "isfinite": a.k == 0}.get(op)
        return (g, "b1") if g is not None else U(f"{op} of doubles")
    if op == "invert":
        return (~a if mode == "bv" else -1 - a if dt in SIGNED else lo_hi(dt)[1] - a), dt
    if op == "negative":
        return (-a if mode == "bv" else arith_math("subtract", z3.IntVal(0), a, dt)), dt
    if op == "absolute":
        return (z3.If(a < 0, -a, a) if dt in SIGNED else a), dt
    if op in ("trunc", "rint", "floor", "positive"):
        return unary(op, cvt(a, dt, "f8", mode), "f8", mode) if op != "positive" else (a, dt)
    U(f"{op} of integers")


def dummy(x):
    return np.empty(0, x.dt) if type(x) is NArr else x


class NArr(Sym):
    __slots__ = ("dt", "n", "f", "mode", "cache", "tag")
    ndim = 1

    def __init__(self, dt, n, f, mode, tag=None):
        self.dt, self.n, self.f, self.mode = dt, n, f, mode
        self.cache = {}
        self.tag = tag

    def at(self, i):
        i = z3.simplify(iv(i))
        k = i.get_id()
        if k not in self.cache:
            self.cache[k] = (i, self.f(i))
        return self.cache[k][1]

    # -- numpy protocol
    @property
    def dtype(self):
        return np.dtype(self.dt)

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    @property
    def data(self):
        return self

    def vc_len(self):
        return self.n

    def vc_isinstance(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(x is np.ndarray or x is object for x in ts)

    def __len__(self):
        if type(self.n) is int:
            return self.n
        U("len() of a symbolic array in native code")

    def __bool__(self):
        U("truth value of a symbolic array")

    def __setitem__(self, k, v):
        U("assignment to elements of a symbolic array")

    def __hash__(self):
        return id(self)

    def vc_kind(self):
        return ("obj", NArrKind(self.dt, self.mode))

    def vc_terms(self):
        """for loop invariants: the element at the first registered index"""
        out = {}
        for q, j in enumerate(indices()[:1]):
            v = self.at(j)
            if isinstance(v, RV):
                continue
            out[f"el{q}"] = ("int" if z3.is_int(v) else "bool" if z3.is_bool(v) else "bv", v)
        if type(self.n) is not int:
            out["n"] = ("int", iv(self.n))
        return out

    def conv(self, dt):
        return self if dt == self.dt else NArr(dt, self.n, lambda i: cvt(self.at(i), self.dt, dt, self.mode), self.mode)

    def astype(self, dt, *a, **k):
        return self.conv(code(dt))

    def copy(self, *a):
        return self

    def view(self, dt):
        d = code(dt)
        if d == self.dt:
            return self
        w = lambda x: 64 if x == "f8" else 8 if x == "b1" else WID[x]
        if w(d) != w(self.dt):
            U("view with another item size")
        if self.mode == "math":
            if d in WID and self.dt in WID:
                return self.conv(d)
            if d == "b1":
                return NArr("b1", self.n, lambda i: self.at(i) != 0, "math")
            if d == "u1" and self.dt == "b1":
                return self.conv("u1")
            U("reinterpretation of doubles")
        if d == "f8":
            return NArr("f8", self.n, lambda i: z3.fpBVToFP(self.at(i), F64), "bv")
        if self.dt == "f8":
            return NArr(d, self.n, lambda i: z3.fpToIEEEBV(self.at(i)), "bv")
        return NArr(d, self.n, self.at, "bv")

    def vc_getitem(self, k):
        if isinstance(k, slice):
            n = iv(self.n)
            if k.step == -1 and k.start is None and k.stop is None:
                return NArr(self.dt, self.n, lambda i: self.at(n - 1 - i), self.mode)
            from .values import slice_bounds
            lo, hi, st = slice_bounds(k, n)
            if st != 1:
                U("extended slice of a symbolic array")
            return NArr(self.dt, mkint(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))), lambda i: self.at(lo + i), self.mode, ("slice", self, lo))
        if type(k) is NArr and k.dt == "b1":
            from .models_pa import Sel
            s = k.tag[1].sel() if k.tag and k.tag[0] == "arrow" else Sel(k.n, k.at)
            return NArr(self.dt, mkint(s.count()), lambda i: self.at(s.pos(i)), self.mode, ("mask", self, s))
        if isinstance(k, int):
            i = iv(k)
            n = iv(self.n)
            if E().fork(z3.And(i >= -n, i < n)):
                v = self.at(z3.If(i >= 0, i, n + i))
                return NScalar(self.dt, v, self.mode)
            raise IndexError("index out of bounds")
        U("subscript of a symbolic array")

    __getitem__ = vc_getitem

    def _bin(self, name, o, rev=False):
        uf = getattr(np, name)
        return ufunc_call(uf, o, self) if rev else ufunc_call(uf, self, o)

    def __array_ufunc__(self, uf, method, *ins, **kw):
        if method != "__call__" or kw:
            U(f"numpy {uf.__name__}.{method} with {sorted(kw)}")
        return ufunc_call(uf, *ins)

    def __array_function__(self, func, types, args, kwargs):
        m = AFUN.get(func)
        if m is None:
            U(f"numpy function {func.__name__}")
        return m(*args, **kwargs)

    def any(self, *a):
        return np_any(self)

    def all(self, *a):
        return np_all(self)

    def round(self, decimals=0):
        return np_round(self, decimals)

    def tolist(self):
        return SView(self.n, lambda i: NScalar(self.dt, self.at(iv(i)), self.mode))


for _n, _d in {"and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor", "lshift": "left_shift", "rshift": "right_shift", "add": "add", "sub": "subtract",
               "mul": "multiply", "truediv": "true_divide", "floordiv": "floor_divide", "mod": "remainder"}.items():
    def _mk(d):
        return (lambda s, o: s._bin(d, o)), (lambda s, o: s._bin(d, o, True))
    _f, _g = _mk(_d)
    setattr(NArr, f"__{_n}__", _f)
    setattr(NArr, f"__r{_n}__", _g)
for _n, _d in {"lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal", "ne": "not_equal"}.items():
    def _mk(d):
        return lambda s, o: s._bin(d, o)
    setattr(NArr, f"__{_n}__", _mk(_d))
NArr.__invert__ = lambda s: ufunc_call(np.invert, s)
NArr.__neg__ = lambda s: ufunc_call(np.negative, s)
NArr.__abs__ = lambda s: ufunc_call(np.absolute, s)


class NScalar(Sym):
    """one element of a symbolic array"""
    __slots__ = ("dt", "v", "mode")

    def __init__(self, dt, v, mode):
        self.dt, self.v, self.mode = dt, v, mode

    def __bool__(self):
        return E().fork(cvt(self.v, self.dt, "b1", self.mode))

    def __hash__(self):
        return id(self)


class NArrKind:
    def __init__(self, dt, mode):
        self.k = (dt, mode)

    def __eq__(self, o):
        return type(o) is NArrKind and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"narr{self.k}"

    def vc_havoc(self, name, orig, kind):
        e = E()
        dt, mode = self.k
        n = e.fresh(name + "_n", I)
        e.assume(n >= 0)
        return fresh_narr(name, dt, mkint(n), mode)


def fresh_narr(name, dt, n, mode):
    e = E()
    e.fresh_n += 1
    t = f"{name}!{e.fresh_n}"
    if mode == "bv":
        s = z3.BoolSort() if dt == "b1" else F64 if dt == "f8" else z3.BitVecSort(WID[dt])
        f = z3.Function(t, I, s)
        return NArr(dt, n, lambda i: f(i), mode)
    if dt == "f8":
        fr, fk = z3.Function(t, I, R), z3.Function(t + "_kind", I, I)

        def at(i):
            e.assume(z3.And(fk(i) >= 0, fk(i) <= 3))
            return RV(fr(i), fk(i))
        return NArr(dt, n, at, mode)
    if dt == "b1":
        f = z3.Function(t, I, z3.BoolSort())
        return NArr(dt, n, lambda i: f(i), mode)
    f = z3.Function(t, I, I)
    lo, hi = lo_hi(dt)

    def at(i):
        E().assume(z3.And(f(i) >= lo, f(i) <= hi))
        return f(i)
    return NArr(dt, n, at, mode)


def ufunc_call(uf, *ins):
    name = {"divide": "true_divide", "abs": "absolute", "mod": "remainder"}.get(uf.__name__, uf.__name__)
    for x in ins:
        if is_sym(x) and type(x) is not NArr:
            if type(x) in (SInt, SBool):
                U(f"numpy {name} with a symbolic scalar")
            return NotImplemented
        if isinstance(x, np.ndarray) and x.ndim:
            U(f"numpy {name} of a symbolic and a concrete array")
    arrs = [x for x in ins if type(x) is NArr]
    a0 = arrs[0]
    mode, n = a0.mode, a0.n
    for a in arrs[1:]:
        if a.mode != mode:
            U("mixed array modes")
        if a.n is not n and not E().valid(iv(a.n) == iv(n)):
            if E().fork(iv(a.n) == iv(n)):
                continue
            if E().fork(z3.Or(iv(a.n) == 1, iv(n) == 1)):
                U("broadcasting of symbolic arrays")
            raise ValueError("operands could not be broadcast together")
    with np.errstate(all="ignore"):
        rt = uf(*[dummy(x) for x in ins])
    if isinstance(rt, tuple):
        U(f"numpy {name}")
    rdt = code(rt.dtype)
    if len(ins) == 1:
        if rdt == "f8" and a0.dt != "f8":
            return NArr("f8", n, lambda i: unary(name, cvt(a0.at(i), a0.dt, "f8", mode), "f8", mode)[0], mode)
        return NArr(rdt, n, lambda i: unary(name, a0.at(i), a0.dt, mode)[0], mode)
    if len(ins) != 2:
        U(f"numpy {name}")

    def opnd(dt):
        return [(lambda i, x=x: cvt(x.at(i), x.dt, dt, mode)) if type(x) is NArr else (lambda i, c=lift(x, dt, mode): c) for x in ins]
    if name in CMPS or name in ("logical_and", "logical_or"):
        with np.errstate(all="ignore"):
            cdt = "b1" if name.startswith("logical") else cmp_dtype(uf, ins)
        x, y = opnd(cdt)
        if name.startswith("logical"):
            return NArr("b1", n, lambda i: (z3.And if name == "logical_and" else z3.Or)(x(i), y(i)), mode)
        if mode == "bv":
            return NArr("b1", n, lambda i: cmp_bv(name, x(i), y(i), cdt), mode)
        if cdt == "b1":
            return NArr("b1", n, lambda i: cmp_bv(name, x(i), y(i), "b1"), mode)
        return NArr("b1", n, lambda i: cmp_math(name, x(i), y(i)), mode)
    x, y = opnd(rdt)
    return NArr(rdt, n, lambda i: (arith_bv if mode == "bv" else arith_math)(name, x(i), y(i), rdt), mode)


def cmp_dtype(uf, ins):
    """the common type a comparison is made in (numpy 1.26 promotion, value-based for scalars)"""
    d = np.result_type(*[dummy(x) for x in ins])
    return code(d)


def indices():
    return getattr(E(), "np_idx", [])


def track(i):
    """register an index at which facts about all elements are instantiated"""
    e = E()
    if getattr(e, "np_path", None) is not e.trace:
        e.np_path, e.np_idx, e.np_univ = e.trace, [], []
    e.np_idx.append(i)
    for n, f in e.np_univ:
        e.assume(z3.Implies(z3.And(i >= 0, i < iv(n)), f(i)))


def fact_all(n, f):
    e = E()
    if getattr(e, "np_path", None) is not e.trace:
        e.np_path, e.np_idx, e.np_univ = e.trace, [], []
    e.np_univ.append((n, f))
    for i in e.np_idx:
        e.assume(z3.Implies(z3.And(i >= 0, i < iv(n)), f(i)))


def witness(n, f, name="w"):
    e = E()
    w = e.fresh(name, I)
    track(w)
    e.assume(z3.And(w >= 0, w < iv(n), f(w)))
    return w


def np_any(a, *r, **k):
    if r or k:
        U("np.any with an axis")
    if type(a) is not NArr:
        return np.any(a)
    t = lambda i: cvt(a.at(i), a.dt, "b1", a.mode)
    e = E()
    if e.choose(2, "any") == 0:
        witness(a.n, t)
        e.check_feasible()
        return np.bool_(True)
    fact_all(a.n, lambda i: z3.Not(t(i)))
    e.check_feasible()
    return np.bool_(False)


def np_all(a, *r, **k):
    if r or k:
        U("np.all with an axis")
    if type(a) is not NArr:
        return np.all(a)
    t = lambda i: cvt(a.at(i), a.dt, "b1", a.mode)
    e = E()
    if e.choose(2, "all") == 0:
        fact_all(a.n, t)
        e.check_feasible()
        return np.bool_(True)
    witness(a.n, lambda i: z3.Not(t(i)))
    e.check_feasible()
    return np.bool_(False)


def np_where(c, *xy):
    if len(xy) != 2:
        U("np.where with one argument")
    a, b = xy
    arrs = [x for x in (c, a, b) if type(x) is NArr]
    if not arrs:
        return np.where(c, a, b)
    if type(c) is not NArr:
        if is_sym(c) or isinstance(c, np.ndarray):
            U("np.where with this condition")
        return a if c else b
    n, mode = arrs[0].n, arrs[0].mode
    for x in arrs[1:]:
        if x.n is not n and not E().valid(iv(x.n) == iv(n)):
            if not E().fork(iv(x.n) == iv(n)):
                if E().fork(z3.Or(iv(x.n) == 1, iv(n) == 1)):
                    U("broadcasting of symbolic arrays")
                raise ValueError("operands could not be broadcast together")
    rdt = code(np.where(np.empty(0, bool), dummy(a), dummy(b)).dtype)

    def el(x):
        if type(x) is NArr:
            return lambda i: cvt(x.at(i), x.dt, rdt, mode)
        k = lift(x, rdt, mode)
        return lambda i: k
    x, y = el(a), el(b)
    return NArr(rdt, n, lambda i: ite(cvt(c.at(i), c.dt, "b1", mode), x(i), y(i)), mode)


def np_round(a, decimals=0, out=None):
    if type(a) is not NArr:
        return np.round(a, decimals)
    if a.dt != "f8" or a.mode != "math":
        U("np.round of this array")
    d = iv(decimals)

    def el(i):
        v = a.at(i)
        k = NPROUNDK(v.r, d)
        E().assume(z3.And(k >= 0, k <= 3))
        return RV(NPROUND(v.r, d), z3.If(v.k == 0, k, v.k))
    return NArr("f8", a.n, el, "math")


def np_repeat(x, n, axis=None):
    if not is_sym(n) and not is_sym(x):
        return np.repeat(x, n)
    if is_sym(x):
        U("np.repeat of a symbolic value")
    d = code(np.asarray(x).dtype)
    v = lift(x, d, "math")
    return NArr(d, n, lambda i: v, "math")


def np_full(n, x, dtype=None, *a, **k):
    if not is_sym(n):
        return np.full(n, x, dtype)
    d = code(dtype or np.asarray(x).dtype)
    v = lift(x, d, "math")
    return NArr(d, n, lambda i: v, "math")


def np_sum(a, *r, **k):
    U("np.sum")


AFUN = {np.where: np_where, np.any: np_any, np.all: np_all, np.round: np_round, np.around: np_round, np.repeat: np_repeat}
for _f in (np.where, np.any, np.all, np.repeat):
    MODELS[_f] = AFUN[_f]
MODELS[np.full] = np_full
MODELS[np.round] = np_round
MODELS[np.around] = np_round


# ---------------------------------------------------------------------------------------------------- construction from bytes / text
def item_bytes(x, k):
    return [iv(x.at(z3.IntVal(j))) if type(x) is SBytes else iv(x[j]) for j in range(k)]


F8BITS = z3.Function("double_of_bytes", I, R)
F8KIND = z3.Function("double_kind_of_bytes", I, I)


def f8_of_bits(t):
    E().assume(z3.And(F8KIND(t) >= 0, F8KIND(t) <= 3))
    return RV(F8BITS(t), F8KIND(t))


def np_frombuffer(b, dtype=np.float64, *a, **k):
    if type(b) is ABuf:
        return b.as_array(code(dtype))
    if type(b) is not SJoin:
        if is_sym(b):
            U("np.frombuffer of symbolic bytes")
        return np.frombuffer(b, dtype, *a, **k)
    d = code(dtype)
    size = 8 if d == "f8" else 1 if d == "b1" else WID[d] // 8
    v = b.view
    e = E()
    # every item must have exactly the item size: proved at an arbitrary index
    j = e.fresh("item", I)
    it = v.f(mkint(j))
    if not e.valid(z3.Implies(z3.And(j >= 0, j < iv(v.n)), iv(length(it)) == size)):
        U(f"joined items are not provably {size} bytes each")
    mode = getattr(e, "np_mode", "math")

    def el(i):
        bs = item_bytes(v.f(mkint(i)), size)
        t = z3.IntVal(0)
        for q, x in enumerate(bs):
            t = t + x * (1 << (8 * q))
        if d == "f8":
            return f8_of_bits(t)
        if d in SIGNED:
            hi = 1 << (8 * size - 1)
            return z3.If(t >= hi, t - 2 * hi, t)
        return t
    if mode != "math":
        U("np.frombuffer in bit-vector mode")
    return NArr(d, v.n, el, "math")


MODELS[np.frombuffer] = np_frombuffer
PARSEF = {}


def text_parse(kind):
    """uninterpreted conversions of a text cell: can it be parsed, and to what"""
    if kind not in PARSEF:
        S_ = z3.StringSort()
        PARSEF[kind] = (z3.Function(f"parses_{kind}", S_, z3.BoolSort()), z3.Function(f"value_{kind}", S_, R if kind.startswith("f8") else I), z3.Function(f"class_{kind}", S_, I))
    return PARSEF[kind]


def text_of_item(x):
    if isinstance(x, str):
        return sv(x)
    if type(x) is SEnc:
        return sv(x.s)
    if type(x) is SBytes:
        U("parsing symbolic bytes")
    if isinstance(x, bytes):
        return z3.StringVal(x.decode())
    U("parsing this item")


def np_fromiter(it, dtype, count=-1, **k):
    from .runtime import symiter, _Conc
    r = symiter(it)
    if r is None or isinstance(r, _Conc):
        return np.fromiter(it if r is None else r, dtype, count)
    if type(r) is not SView:
        U("np.fromiter of this iterable")
    d = code(dtype)
    ok, val, cls = text_parse("f8" if d == "f8" else "int")
    e = E()
    if is_sym(count) or count != -1:
        if not e.valid(iv(count) == iv(r.n)):
            if e.fork(iv(count) > iv(r.n)):
                raise ValueError("iterator too short")
            U("np.fromiter with a count")
    t = lambda i: text_of_item(r.f(mkint(i)))
    if e.choose(2, "fromiter") == 1:
        witness(r.n, lambda i: z3.Not(ok(t(i))))
        e.check_feasible()
        raise ValueError("could not convert string to number")
    fact_all(r.n, lambda i: ok(t(i)))
    e.check_feasible()
    if d != "f8":
        # a Python int that does not fit the C integer it goes through
        lo, hi = -(1 << 63), (1 << (63 if d[0] == "i" else 64)) - 1
        wide = lambda i: z3.Or(val(t(i)) < lo, val(t(i)) > hi)
        if e.choose(2, "too large") == 1:
            witness(r.n, wide)
            e.check_feasible()
            raise OverflowError("Python int too large to convert to C long")
        fact_all(r.n, lambda i: z3.Not(wide(i)))
        e.check_feasible()

    def el(i):
        if d == "f8":
            e.assume(z3.And(cls(t(i)) >= 0, cls(t(i)) <= 3))
            return RV(val(t(i)), cls(t(i)))
        return wrap_int(val(t(i)), d)
    return NArr(d, r.n, el, "math")


def wrap_int(t, d):
    """the integer t in a machine integer of kind d"""
    lo, hi = lo_hi(d)
    if lo == -(1 << 63):
        return t
    w = (t - lo) % (hi - lo + 1) + lo
    return z3.If(z3.And(t >= lo, t <= hi), t, w)


MODELS[np.fromiter] = np_fromiter


class ABuf(Sym):
    """a pyarrow buffer holding the bytes of a symbolic array or of joined items"""
    __slots__ = ("src",)

    def __init__(self, src):
        self.src = src

    def as_array(self, d):
        if type(self.src) is NArr:
            return self.src.view(d)
        return np_frombuffer(self.src, d)
