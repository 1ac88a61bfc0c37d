"""Symbolic proxies for Python values.  Exact mathematical semantics of Python ints/bools/str/bytes; anything a proxy
cannot represent raises Unsupported (never a silent approximation)."""
from __future__ import annotations
import builtins
import z3
from .engine import E, Unsupported, PathEnd

I = z3.IntSort()
S = z3.StringSort()


def U(msg):
    raise Unsupported(msg)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()
    __vc__ = True

    def __getattr__(self, name):
        # a method of the represented type that the proxy does not model is outside the verifier's reach, not an error of the code
        if not name.startswith("vc_") and hasattr(self.__class__, name) and not hasattr(type(self), name):
            U(f"{self.__class__.__name__}.{name} on a symbolic value")
        if self.__class__ is type(self) and not name.startswith(("vc_", "_")):
            U(f"{type(self).__name__}.{name}")
        raise AttributeError(f"{self.__class__.__name__!r} object has no attribute {name!r}")


def _unmodelled(name, real):
    def op(self, *a):
        # an operation that the represented type has and the proxy does not model
        if hasattr(self.__class__, real):
            U(f"{self.__class__.__name__}.{name} on a symbolic value")
        return NotImplemented
    return op


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "divmod", "pow", "lshift", "rshift", "and", "or", "xor", "matmul"):
    setattr(Sym, f"__{_n}__", _unmodelled(f"__{_n}__", f"__{_n}__"))
    setattr(Sym, f"__r{_n}__", _unmodelled(f"__r{_n}__", f"__{_n}__"))


def iv(x):
    """z3 Int term of an int-like"""
    if type(x) is SInt:
        return x.t
    if type(x) is SBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if type(x) in (int, bool):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ArithRef):
        return x
    try:
        import operator
        return z3.IntVal(operator.index(x))
    except TypeError:
        return None


def bv_(x):
    """z3 Bool of a truth value"""
    if type(x) is SBool:
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if type(x) is SInt:
        return x.t != 0
    return None


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def bits(x, c):
    """x & c for constant c >= 0 (exact for every integer x)"""
    out = z3.IntVal(0)
    lo = 0
    while (c >> lo):
        if (c >> lo) & 1:
            hi = lo
            while (c >> hi) & 1:
                hi += 1
            part = x if lo == 0 else x / z3.IntVal(1 << lo)
            out = out + (part % z3.IntVal(1 << (hi - lo))) * (1 << lo)
            lo = hi
        else:
            lo += 1
    return out


def land(a, b):
    ia, ib = const(a), const(b)
    if ib is not None and ib >= 0:
        return bits(a, ib)
    if ia is not None and ia >= 0:
        return bits(b, ia)
    if ib is not None:      # negative constant mask: x & ~m = x - (x & m)
        return a - bits(a, ~ib)
    if ia is not None:
        return b - bits(b, ~ia)
    return None


def const(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def sym_and(a, b):
    r = land(a, b)
    if r is not None:
        return r
    for k in (1, 7, 8, 14, 16, 21, 24, 32):
        if E().valid(z3.And(a >= 0, a < (1 << k), b % (1 << k) == 0)) or E().valid(z3.And(b >= 0, b < (1 << k), a % (1 << k) == 0)):
            return z3.IntVal(0)
    w = 64
    if E().valid(z3.And(a >= 0, b >= 0, a < (1 << w), b < (1 << w))):
        return z3.BV2Int(z3.Int2BV(a, w) & z3.Int2BV(b, w))
    U("bitwise operation on two symbolic integers")


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __repr__(self):
        return f"<int {self.t}>"

    def __bool__(self):
        return E().fork(self.t != 0)

    def __index__(self):
        c = const(self.t)
        if c is not None:
            return c
        U(f"symbolic integer used where CPython needs a machine integer: {self.t}")

    __int__ = __index__

    def __hash__(self):
        U("hash of a symbolic integer")

    def __str__(self):
        U("str() of a symbolic integer")

    def __format__(self, spec):
        U("format of a symbolic integer")

    def __float__(self):
        U("float() of a symbolic integer")

    def to_bytes(self, n=1, byteorder="big", *, signed=False):
        from .runtime import m_to_bytes
        return m_to_bytes(self, n, byteorder, signed=signed)

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(-self.t - 1)

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))


def _bin(name, f, rname=None):
    def op(self, o):
        b = iv(o)
        if b is None:
            return NotImplemented
        return mkint(f(iv(self), b))

    def rop(self, o):
        b = iv(o)
        if b is None:
            return NotImplemented
        return mkint(f(b, iv(self)))
    for cls in (SInt, SBool):
        if cls is SBool and name in ("and", "or", "xor"):
            continue
        setattr(cls, f"__{name}__", op)
        setattr(cls, f"__r{name}__", rop)


def _div(a, b):
    c = const(b)
    if c is None:
        if not E().valid(b > 0):
            if E().fork(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if E().fork(b < 0):
                return (-a) / (-b)
        return a / b
    if c == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if c > 0:
        return a / b
    return (-a) / z3.IntVal(-c)


def _mod(a, b):
    return a - b * _div(a, b)


def _mod_(a, b):
    c = const(b)
    if c is not None and c > 0:
        return a % b
    return _mod(a, b)


def _shl(a, b):
    c = const(b)
    if c is None:
        U("shift by a symbolic amount")
    if c < 0:
        raise ValueError("negative shift count")
    return a * (1 << c)


def _shr(a, b):
    c = const(b)
    if c is None:
        U("shift by a symbolic amount")
    if c < 0:
        raise ValueError("negative shift count")
    return a / z3.IntVal(1 << c)


def _pow(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None and cb >= 0:
        return z3.IntVal(ca ** cb)
    if ca is not None and ca >= 2:
        if not E().fork(b >= 0):
            U("negative symbolic exponent")
        return pow_uf(ca, b)
    U("symbolic power")


_pows = {}


def pow_uf(base, e):
    """base**e for a constant base >= 2 and symbolic e >= 0, as an uninterpreted function with its recurrence"""
    f = _pows.setdefault(base, z3.Function(f"pow{base}", I, I))
    E().assume(z3.And(f(z3.IntVal(0)) == 1, f(z3.IntVal(1)) == base, f(e + 1) == base * f(e), f(e) >= 1,
                      z3.Implies(e >= 1, f(e) == base * f(e - 1))))
    return f(e)


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __repr__(self):
        return f"<bool {self.t}>"

    def __bool__(self):
        return E().fork(self.t)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __str__(self):
        return str(bool(self))

    def __neg__(self):
        return mkint(-iv(self))

    def __invert__(self):
        return mkint(-iv(self) - 1)

    def __eq__(self, o):
        if type(o) in (SBool, bool):
            return mkbool(self.t == bv_(o))
        b = iv(o) if isinstance(o, int) else None
        if b is None:
            return False
        return mkbool(iv(self) == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)


def not_(x):
    if isinstance(x, bool) and type(x) is bool:
        return not x
    return mkbool(z3.Not(bv_(x)))


def _blog(name, f, fi):
    def op(self, o):
        if type(o) in (SBool, bool):
            return mkbool(f(self.t, bv_(o)))
        b = iv(o)
        if b is None:
            return NotImplemented
        return mkint(fi(iv(self), b))
    setattr(SBool, f"__{name}__", op)
    setattr(SBool, f"__r{name}__", op)


_blog("and", lambda a, b: z3.And(a, b), sym_and)
_blog("or", lambda a, b: z3.Or(a, b), lambda a, b: a + b - sym_and(a, b))
_blog("xor", lambda a, b: z3.Xor(a, b), lambda a, b: a + b - 2 * sym_and(a, b))
_bin("add", lambda a, b: a + b)
_bin("sub", lambda a, b: a - b)
_bin("mul", lambda a, b: a * b)
_bin("floordiv", _div)
_bin("mod", _mod_)
_bin("lshift", _shl)
_bin("rshift", _shr)
_bin("pow", _pow)
_bin("and", sym_and)
_bin("or", lambda a, b: a + b - sym_and(a, b))
_bin("xor", lambda a, b: a + b - 2 * sym_and(a, b))


def _cmp(name, f):
    def op(self, o):
        b = iv(o) if isinstance(o, int) else None
        if b is None:
            return NotImplemented
        return mkbool(f(iv(self), b))
    setattr(SInt, f"__{name}__", op)
    if name not in ("eq", "ne"):
        setattr(SBool, f"__{name}__", op)


for _n, _f in (("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b), ("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b),
               ("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b)):
    _cmp(_n, _f)


def divmod_(a, b):
    return a // b, a % b


SInt.__divmod__ = lambda s, o: divmod_(s, o)


# ------------------------------------------------------------------------------------------------ bytes
ArrII = z3.ArraySort(I, I)


class SBytes(Sym):
    """a window [off, off+n) of a symbolic byte array"""
    __slots__ = ("base", "off", "n")

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, z3.simplify(iv(off)), z3.simplify(iv(n))

    @property
    def __class__(self):
        return bytes

    def __repr__(self):
        return f"<bytes {self.base}[{self.off}:+{self.n}]>"

    def vc_len(self):
        return mkint(self.n)

    def __len__(self):
        c = const(self.n)
        if c is None:
            U("len() of symbolic bytes in native code")
        return c

    def __bool__(self):
        return E().fork(self.n > 0)

    def at(self, i):
        v = z3.simplify(z3.Select(self.base, iv(i) + self.off))
        E().assume(z3.And(v >= 0, v <= 255))
        return mkint(v)

    def values(self, n):
        """the n byte values, when the length is provably n"""
        if not E().valid(self.n == n):
            return None
        return [self.at(i) for i in range(n)]

    def vc_getitem(self, k):
        if isinstance(k, slice):
            lo, hi, st = slice_bounds(k, self.n)
            if st != 1:
                if st == -1 and k.start is None and k.stop is None:
                    return SView(mkint(self.n), lambda i: self.at(self.n - 1 - iv(i)))
                U("extended slice of symbolic bytes")
            return SBytes(self.base, self.off + lo, z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        i = iv(k)
        if i is None:
            raise TypeError("byte indices must be integers or slices")
        if E().fork(z3.And(i >= -self.n, i < self.n)):
            c = const(i)
            if c is not None:
                i = i if c >= 0 else self.n + i
            else:
                i = z3.If(i >= 0, i, self.n + i)
            return self.at(i)
        raise IndexError("index out of range")

    __getitem__ = vc_getitem

    def __iter__(self):
        c = const(self.n)
        if c is None:
            U("iteration over symbolic bytes in native code")
        return iter([self.at(i) for i in range(c)])

    def vc_iter(self):
        return SView(mkint(self.n), self.at)

    def __eq__(self, o):
        return bytes_eq(self, o)

    def __ne__(self, o):
        return not_(bytes_eq(self, o))

    def __hash__(self):
        U("hash of symbolic bytes")

    def decode(self, enc="utf-8", errors="strict"):
        return decode_bytes(self, enc, errors)

    def __add__(self, o):
        return SCat([self, o])

    def __radd__(self, o):
        return SCat([o, self])

    def hex(self, *a):
        return mkstr(z3.Function("hexof", ArrII, I, I, S)(self.base, self.off, self.n))


class SCat(Sym):
    """concatenation of bytes parts (concrete, literal lists of byte values, windows)"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if type(p) is SCat:
                out += p.parts
            elif isinstance(p, (bytes, bytearray)) and not is_sym(p):
                if len(p):
                    out.append([int(x) for x in p])
            elif type(p) is list:
                if p:
                    out.append(p)
            elif type(p) in (SBytes, SEnc):
                out.append(p)
            else:
                raise TypeError("bytes-like object required")
        m = []
        for p in out:
            if m and type(p) is list and type(m[-1]) is list:
                m[-1] = m[-1] + p
            else:
                m.append(p)
        self.parts = m

    @property
    def __class__(self):
        return bytes

    def vc_len(self):
        t = z3.IntVal(0)
        for p in self.parts:
            t = t + (len(p) if type(p) is list else p.n)
        return mkint(t)

    def __len__(self):
        r = self.vc_len()
        return r if type(r) is int else U("len() of symbolic bytes in native code")

    def __bool__(self):
        return E().fork(iv(self.vc_len()) > 0)

    def __hash__(self):
        U("hash of symbolic bytes")

    def __add__(self, o):
        return SCat([self, o])

    def __radd__(self, o):
        return SCat([o, self])

    def __eq__(self, o):
        return bytes_eq(self, o)

    def __ne__(self, o):
        return not_(bytes_eq(self, o))

    def flat(self):
        """list of byte values when every part has a concrete length"""
        out = []
        for p in self.parts:
            if type(p) is list:
                out += p
            else:
                c = const(p.n)
                if c is None or type(p) is SEnc:
                    return None
                out += [p.at(i) for i in range(c)]
        return out

    def vc_getitem(self, k):
        f = self.flat()
        if f is not None:
            if isinstance(k, slice):
                return SCat([f[k]])
            r = f[k]
            return r
        if not isinstance(k, slice) and type(k) is int and k >= 0 and type(self.parts[0]) is list and k < len(self.parts[0]):
            return self.parts[0][k]
        if isinstance(k, slice) and (k.step in (None, 1)) and type(k.start) in (int, type(None)) and k.stop is None and type(self.parts[0]) is list:
            a = k.start or 0
            if 0 <= a <= len(self.parts[0]):
                return SCat([self.parts[0][a:]] + self.parts[1:])
        if isinstance(k, slice) and (k.step in (None, 1)) and type(k.stop) is int and type(self.parts[0]) is list:
            a, b = k.start or 0, k.stop
            if 0 <= a <= b <= len(self.parts[0]):
                return SCat([self.parts[0][a:b]])
        U("subscript of concatenated symbolic bytes")

    __getitem__ = vc_getitem

    def constrain(self, base, off, inst=None):
        """conditions saying that array `base` holds these bytes from `off` on; returns (conds, end).  inst: only the
        instances of the (universally quantified) payload equations at these indices are produced"""
        conds = []
        q = iv(off)
        for p in self.parts:
            if type(p) is list:
                for x in p:
                    conds.append(z3.Select(base, q) == iv(x))
                    q = z3.simplify(q + 1)
            elif type(p) is SEnc:
                # the window holds the encoding of the text: decoding exactly this window gives the text back
                f = z3.Function(f"decode_{p.codec}_strict", ArrII, I, I, S)
                conds.append(f(base, q, p.n) == sv(p.s))
                q = z3.simplify(q + p.n)
            else:
                if inst is not None:
                    for i in inst:
                        conds.append(z3.Implies(z3.And(i >= 0, i < p.n), z3.Select(base, q + i) == z3.Select(p.base, p.off + i)))
                    q = z3.simplify(q + p.n)
                    continue
                i = z3.Int("i!q")
                conds.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p.n), z3.Select(base, q + i) == z3.Select(p.base, p.off + i))))
                q = z3.simplify(q + p.n)
        return conds, q


class SEnc(Sym):
    """text.encode(codec): an opaque byte string identified by (text, codec)"""
    __slots__ = ("s", "codec", "n")

    def __init__(self, s, codec):
        self.s, self.codec = s, norm_codec(codec)
        self.n = z3.Function(f"enclen_{self.codec}", S, I)(sv(s))
        E().assume(self.n >= 0)
        if self.codec in ("utf-16-le",):
            E().assume(self.n % 2 == 0)
        E().assume((self.n == 0) == (sv(s) == z3.StringVal("")))

    @property
    def __class__(self):
        return bytes

    def vc_len(self):
        return mkint(self.n)

    def __len__(self):
        U("len of symbolic encoded text in native code")

    def __bool__(self):
        return E().fork(self.n > 0)

    def __hash__(self):
        U("hash of symbolic encoded text")

    def __eq__(self, o):
        if type(o) is SEnc and o.codec == self.codec:
            return mkbool(sv(self.s) == sv(o.s))
        if isinstance(o, bytes) and not is_sym(o):
            try:
                return mkbool(sv(self.s) == sv(o.decode(self.codec)))
            except UnicodeDecodeError:
                return False
        if is_sym(o) and isinstance(o, bytes):
            U("comparison of encoded text with bytes")
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def decode(self, enc="utf-8", errors="strict"):
        if norm_codec(enc) == self.codec:
            return self.s
        U("decode with another codec")

    def vc_iter(self):
        f = z3.Function(f"encat_{self.codec}", S, I, I)

        def at(i):
            v = f(sv(self.s), iv(i))
            E().assume(z3.And(v >= 0, v <= 255))
            return mkint(v)
        return SView(mkint(self.n), at)

    def vc_getitem(self, k):
        v = self.vc_iter()
        return v.vc_getitem(k)


def norm_codec(c):
    c = str(c).lower().replace("_", "-")
    return {"utf8": "utf-8", "utf16": "utf-16", "utf-16le": "utf-16-le", "utf16le": "utf-16-le"}.get(c, c)


def bytes_eq(a, b):
    if not isinstance(b, bytes):
        return False
    if a is b:
        return True
    if type(a) is SEnc:
        return a == b
    if type(b) is SEnc:
        return b == a
    if type(a) is SBytes and type(b) is SBytes and z3.eq(a.base, b.base) and z3.eq(a.off, b.off) and z3.eq(a.n, b.n):
        return True
    la, lb = length(a), length(b)
    for x in (a, b):
        pass
    ca = la if type(la) is int else None
    cb = lb if type(lb) is int else None
    n = ca if ca is not None else cb
    if n is None:
        if type(a) is SBytes and type(b) is SBytes:
            if z3.eq(a.base, b.base):
                i = z3.Int("i!q")
                return mkbool(z3.And(a.n == b.n, z3.Or(a.off == b.off, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), z3.Select(a.base, a.off + i) == z3.Select(b.base, b.off + i))))))
            i = z3.Int("i!q")
            return mkbool(z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), z3.Select(a.base, a.off + i) == z3.Select(b.base, b.off + i)))))
        if type(a) is SCat or type(b) is SCat:
            c, o = (a, b) if type(a) is SCat else (b, a)
            if type(o) is SBytes:
                conds, end = c.constrain(o.base, o.off)
                return mkbool(z3.And(end - o.off == o.n, *conds))
            if type(o) is SCat and len(o.parts) == len(c.parts):
                cs = []
                for p, q in zip(c.parts, o.parts):
                    if type(p) is list and type(q) is list and len(p) == len(q):
                        cs += [iv(x) == iv(y) for x, y in zip(p, q)]
                    elif type(p) is not list and type(q) is not list:
                        cs.append(bv_(p == q))
                    else:
                        U("comparison of symbolic byte concatenations")
                return mkbool(z3.And(*cs))
        U("comparison of symbolic bytes of unknown length")
    if (ca is None and not E().fork(iv(la) == n)) or (cb is None and not E().fork(iv(lb) == n)):
        return False
    if ca is not None and cb is not None and ca != cb:
        return False
    cs = []
    for i in range(n):
        cs.append(iv(getitem(a, i)) == iv(getitem(b, i)))
    return mkbool(z3.And(*cs) if cs else True)


def slice_bounds(k, n):
    """Python slice clamping with symbolic bounds: (lo, hi, step)"""
    st = 1 if k.step is None else k.step
    if type(st) is not int:
        U("symbolic slice step")
    if st != 1:
        return None, None, st

    def clamp(x, d):
        if x is None:
            return d
        t = iv(x)
        c = const(t)
        if c is not None and c < 0:
            t = n + t
            return z3.If(t < 0, z3.IntVal(0), t)
        if c is not None:
            return z3.If(t > n, n, t)
        t = z3.If(t < 0, z3.If(n + t < 0, z3.IntVal(0), n + t), z3.If(t > n, n, t))
        return t
    return simp(clamp(k.start, z3.IntVal(0))), simp(clamp(k.stop, n)), 1


def simp(t):
    return z3.simplify(t)


# ------------------------------------------------------------------------------------------------ text
def sv(x):
    if type(x) is SStr:
        return x.t
    if isinstance(x, str):
        return z3.StringVal(x)
    if isinstance(x, z3.SeqRef):
        return x
    return None


def mkstr(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return z3str(t)
    norm = getattr(E(), "str_norm", None)
    return SStr(t if norm is None else norm(t))


def z3str(t):
    import re
    s = t.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


strip_f = z3.Function("py_strip", S, S)


class SStr(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return str

    def __repr__(self):
        return f"<str {self.t}>"

    def __bool__(self):
        return E().fork(z3.Length(self.t) > 0)

    def vc_len(self):
        return mkint(z3.Length(self.t))

    def __len__(self):
        U("len() of symbolic text in native code")

    def __hash__(self):
        U("hash of symbolic text")

    def __str__(self):
        U("str() of symbolic text in native code")

    def __format__(self, spec):
        U("format of symbolic text in native code")

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(self.t == sv(o))
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _b(self, o, f):
        b = sv(o) if isinstance(o, str) else None
        if b is None:
            return NotImplemented
        return f(self.t, b)

    def __lt__(self, o):
        return self._b(o, lambda a, b: mkbool(a < b))

    def __add__(self, o):
        return self._b(o, lambda a, b: mkstr(z3.Concat(a, b)))

    def __radd__(self, o):
        return self._b(o, lambda a, b: mkstr(z3.Concat(b, a)))

    def strip(self, chars=None):
        if chars is not None:
            U("strip with characters")
        r = strip_f(self.t)
        # facts about str.strip(): idempotent, never longer, "" only from blank text
        E().assume(z3.And(z3.Length(r) <= z3.Length(self.t), strip_f(r) == r, z3.Contains(self.t, r), strip_f(z3.StringVal("")) == z3.StringVal("")))
        return mkstr(r)

    def vc_getitem(self, k):
        n = z3.Length(self.t)
        if isinstance(k, slice):
            lo, hi, st = slice_bounds(k, n)
            if st != 1:
                U("extended slice of symbolic text")
            return mkstr(z3.SubString(self.t, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
        i = iv(k)
        if i is None:
            raise TypeError("string indices must be integers")
        if not E().fork(z3.And(i >= -n, i < n)):
            raise IndexError("string index out of range")
        return mkstr(z3.SubString(self.t, z3.If(i < 0, n + i, i), 1))

    __getitem__ = vc_getitem

    def removeprefix(self, p):
        return mkstr(z3.If(z3.PrefixOf(sv(p), self.t), z3.SubString(self.t, z3.Length(sv(p)), z3.Length(self.t) - z3.Length(sv(p))), self.t))

    def removesuffix(self, p):
        return mkstr(z3.If(z3.SuffixOf(sv(p), self.t), z3.SubString(self.t, 0, z3.Length(self.t) - z3.Length(sv(p))), self.t))

    def startswith(self, p):
        if isinstance(p, tuple):
            return mkbool(z3.Or(*[z3.PrefixOf(sv(x), self.t) for x in p]))
        return mkbool(z3.PrefixOf(sv(p), self.t))

    def endswith(self, p):
        return mkbool(z3.SuffixOf(sv(p), self.t))

    def encode(self, enc="utf-8", errors="strict"):
        return SEnc(self, enc)

    def vc_contains(self, o):
        return mkbool(z3.Contains(self.t, sv(o)))

    def lstrip(self, chars=None):
        if chars is None:
            f = z3.Function("py_lstrip", S, S)
            return mkstr(f(self.t))
        if type(chars) is str and len(chars) == 1:
            f = z3.Function("py_lstrip_" + chars.encode().hex(), S, S)
            r = f(self.t)
            E().assume(z3.And(z3.SuffixOf(r, self.t), z3.Not(z3.PrefixOf(z3.StringVal(chars), r)),
                              z3.Implies(z3.Not(z3.PrefixOf(z3.StringVal(chars), self.t)), r == self.t),
                              z3.Implies(z3.And(z3.PrefixOf(z3.StringVal(chars), self.t), z3.Not(z3.PrefixOf(z3.StringVal(chars + chars), self.t))),
                                         r == z3.SubString(self.t, 1, z3.Length(self.t)))))
            return mkstr(r)
        U("lstrip")

    def rsplit(self, sep=None, maxsplit=-1):
        if type(sep) is str and maxsplit == 1:
            if E().fork(z3.Contains(self.t, z3.StringVal(sep))):
                a = z3.Function("rsplit_head_" + sep.encode().hex(), S, S)(self.t)
                b = z3.Function("rsplit_tail_" + sep.encode().hex(), S, S)(self.t)
                E().assume(z3.And(self.t == z3.Concat(a, z3.StringVal(sep), b), z3.Not(z3.Contains(b, z3.StringVal(sep)))))
                return [mkstr(a), mkstr(b)]
            return [self]
        U("rsplit")

    def split(self, sep=None, maxsplit=-1):
        if type(sep) is str and maxsplit == 1:
            if E().fork(z3.Contains(self.t, z3.StringVal(sep))):
                i = z3.IndexOf(self.t, z3.StringVal(sep), 0)
                return [mkstr(z3.SubString(self.t, 0, i)), mkstr(z3.SubString(self.t, i + len(sep), z3.Length(self.t)))]
            return [self]
        if type(sep) is str and maxsplit == -1:
            if E().fork(z3.Contains(self.t, z3.StringVal(sep))):
                return SPieces(self, sep)
            return [self]
        U("split")

    def rpartition(self, sep):
        if type(sep) is str and E().fork(z3.Contains(self.t, z3.StringVal(sep))):
            a, b = self.rsplit(sep, 1)
            return (a, sep, b)
        return ("", "", self)

    def partition(self, sep):
        if E().fork(z3.Contains(self.t, z3.StringVal(sep))):
            i = z3.IndexOf(self.t, z3.StringVal(sep), 0)
            return (mkstr(z3.SubString(self.t, 0, i)), sep, mkstr(z3.SubString(self.t, i + len(sep), z3.Length(self.t))))
        return (self, "", "")

    def join(self, it):
        U("symbolic separator join")


class SPieces(Sym):
    """the two or more pieces of a text cut at every separator: only the first and the last can be asked for"""
    __slots__ = ("s", "sep")

    def __init__(self, s, sep):
        self.s, self.sep = s, sep

    def __getitem__(self, i):
        if type(i) is int and i == 0:
            return self.s.split(self.sep, 1)[0]
        if type(i) is int and i == -1:
            return self.s.rsplit(self.sep, 1)[-1]
        U("pieces of a text")

    def pop(self, i=-1):
        return self[i]

    def __iter__(self):
        U("iteration over the pieces of a text")

    def __bool__(self):
        return True

    vc_iter = __len__ = __iter__

    __hash__ = None


dec_funcs = {}


def decode_bytes(b, enc, errors="strict"):
    """bytes.decode: uninterpreted function of the window and the codec (one function per codec)"""
    enc = norm_codec(enc)
    if type(b) is SEnc:
        return b.decode(enc)
    if type(b) is SBytes:
        f = z3.Function(f"decode_{enc}_{errors}", ArrII, I, I, S)
        r = f(b.base, b.off, b.n)
        E().assume((z3.Length(r) == 0) == (b.n == 0) if enc == "utf-16-le" else z3.Implies(b.n == 0, z3.Length(r) == 0))
        return mkstr(r)
    if type(b) is SCat:
        if len(b.parts) == 0:
            return ""
        if len(b.parts) == 1:
            p = b.parts[0]
            if type(p) is not list:
                return decode_bytes(p, enc, errors)
            if all(type(x) is int for x in p):
                return bytes(p).decode(enc, errors)
    U("decode of concatenated symbolic bytes")


# ------------------------------------------------------------------------------------------------ sequences
class SView(Sym):
    """an immutable indexed sequence of symbolic length"""
    __slots__ = ("n", "f", "tag")

    def __init__(self, n, f, tag=None):
        self.n, self.f, self.tag = n, f, tag

    def vc_len(self):
        return self.n

    def __len__(self):
        if type(self.n) is int:
            return self.n
        U("len() of a symbolic sequence in native code")

    def __bool__(self):
        return E().fork(iv(self.n) > 0)

    def vc_iter(self):
        return self

    def __iter__(self):
        if type(self.n) is int:
            return iter([self.f(i) for i in range(self.n)])
        U("iteration over a symbolic sequence in native code")

    def vc_getitem(self, k):
        if isinstance(k, slice):
            n = iv(self.n)
            if k.step == -1 and k.start is None and k.stop is None:
                return SView(self.n, lambda i: self.f(mkint(n - 1 - iv(i))), self.tag)
            lo, hi, st = slice_bounds(k, n)
            if st != 1:
                U("extended slice of a symbolic sequence")
            return SView(mkint(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda i: self.f(mkint(lo + iv(i))), self.tag)
        i = iv(k)
        if i is None:
            raise TypeError("indices must be integers")
        n = iv(self.n)
        if E().fork(z3.And(i >= -n, i < n)):
            return self.f(mkint(z3.If(i >= 0, i, n + i)))
        raise IndexError("list index out of range")

    __getitem__ = vc_getitem


class Poison(Sym):
    """a loop-local name with no value at the loop head"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def _p(self, *a, **k):
        U(f"use of loop-local name {object.__getattribute__(self, 'name')!r} before assignment in an arbitrary iteration")

    __bool__ = __len__ = __iter__ = __call__ = __add__ = __radd__ = __eq__ = __ne__ = __hash__ = __getitem__ = __index__ = _p

    def __getattr__(self, k):
        self._p()


def length(x):
    m = getattr(type(x), "vc_len", None)
    if m is not None:
        return m(x)
    return builtins.len(x)


def getitem(x, k):
    m = getattr(type(x), "vc_getitem", None)
    if m is not None:
        return m(x, k)
    return x[k]


def fresh_int(name="n"):
    return SInt(E().fresh(name, I))


def fresh_bool(name="b"):
    return SBool(E().fresh(name, z3.BoolSort()))


def fresh_str(name="s"):
    return SStr(E().fresh(name, S))


def fresh_bytes(name="data"):
    e = E()
    n = e.fresh(name + "_len", I)
    e.assume(n >= 0)
    return SBytes(e.fresh(name, ArrII), z3.IntVal(0), n)


def eq_term(a, b):
    """z3 Bool for Python equality of two values (no forking where avoidable)"""
    if is_sym(a) or is_sym(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return bv_(a) == bv_(b)
        if isinstance(a, int) and isinstance(b, int):
            return iv(a) == iv(b)
        if isinstance(a, str) and isinstance(b, str):
            return sv(a) == sv(b)
        if isinstance(a, bytes) and isinstance(b, bytes):
            return bv_(bytes_eq(a, b) if is_sym(a) else bytes_eq(b, a))
        if hasattr(type(a), "vc_eq"):
            return bv_(a.vc_eq(b))
        if hasattr(type(b), "vc_eq"):
            return bv_(b.vc_eq(a))
        return z3.BoolVal(False)
    if type(a) in (tuple, list) and type(b) in (tuple, list) and type(a) is type(b):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[eq_term(x, y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
    return z3.BoolVal(bool(a == b))
