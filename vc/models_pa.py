"""Symbolic pyarrow arrays and the kernels rxls uses.

AArr(type, n, valid, val): element i is null unless valid(i); its value is val(i): a string term, a mathematical integer (integers,
timestamps in ms) or an RV (doubles), a Bool (booleans)."""
from __future__ import annotations
import re
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
import z3
from .engine import E, PathEnd
from .values import *   # noqa: F403
from .values import U, is_sym, iv, bv_, sv, length, slice_bounds, I, S
from .runtime import MODELS, METHODS, model, method, SJoin, symiter, _Conc, h_list, anysym
from .models_np import NArr, RV, ABuf, R, track, fact_all, witness, text_of_item, text_parse, lo_hi, wrap_int, indices, cmp_math, rv_const, code, ite, NScalar

TRUE = z3.BoolVal(True)
NUM_TEXT = z3.Function("text_of_double", I, R, S)
TS_TEXT = z3.Function("text_of_timestamp", I, S)
INT_TEXT = z3.Function("text_of_integer", I, S)


class Sel:
    """a boolean selection over [0, n): count of selected positions below i, and the position of the k-th selected one"""
    _n = 0

    def __init__(self, n, at):
        self.n, self.at = n, at
        e = E()
        e.fresh_n += 1
        self.cnt = z3.Function(f"selected_below!{e.fresh_n}", I, I)
        self.posf = z3.Function(f"selected_pos!{e.fresh_n}", I, I)
        e.assume(z3.And(self.cnt(z3.IntVal(0)) == 0, self.cnt(iv(n)) >= 0, self.cnt(iv(n)) <= iv(n)))

    def count(self):
        return self.cnt(iv(self.n))

    def unfold(self, i):
        E().assume(z3.Implies(z3.And(i >= 0, i < iv(self.n)), z3.And(self.cnt(i + 1) == self.cnt(i) + z3.If(self.at(i), z3.IntVal(1), z3.IntVal(0)), self.cnt(i) >= 0, self.cnt(i) <= i)))

    def pos(self, k):
        p = self.posf(k)
        E().assume(z3.Implies(z3.And(k >= 0, k < self.count()), z3.And(p >= 0, p < iv(self.n), self.at(p), self.cnt(p) == k)))
        return p


class SubSel:
    """the selection of a window [lo, lo+n) of another one (counting facts of the parent)"""

    def __init__(self, parent, lo, n):
        self.p, self.lo, self.n = parent, z3.simplify(lo), n
        e = E()
        hi = z3.simplify(self.lo + iv(n))
        self.hi = hi
        self.mono(self.lo, hi)
        e.assume(z3.And(parent.cnt(self.lo) >= 0, parent.cnt(hi) <= parent.count(), parent.cnt(hi) - parent.cnt(self.lo) <= iv(n)))

    def mono(self, a, b):
        """counting is monotone (induction over the distance)"""
        E().assume(z3.And(z3.Implies(a <= b, self.p.cnt(a) <= self.p.cnt(b)), z3.Implies(b <= a, self.p.cnt(b) <= self.p.cnt(a))))

    def count(self):
        return z3.simplify(self.p.cnt(self.hi) - self.p.cnt(self.lo))

    def pos(self, k):
        p = self.p.pos(z3.simplify(self.p.cnt(self.lo) + k))
        self.p.unfold(p)
        for b in (self.lo, self.hi):
            self.mono(z3.simplify(p + 1), b)
            self.mono(p, b)
        return z3.simplify(p - self.lo)


def kind_of_type(t):
    if pa.types.is_large_string(t) or pa.types.is_string(t):
        return "str"
    if pa.types.is_timestamp(t) or pa.types.is_integer(t):
        return "int"
    if pa.types.is_floating(t):
        return "f8"
    if pa.types.is_boolean(t):
        return "bool"
    if pa.types.is_null(t):
        return "null"
    U(f"arrow type {t}")


def default_val(t):
    k = kind_of_type(t)
    return {"str": lambda i: z3.StringVal(""), "int": lambda i: z3.IntVal(0), "f8": lambda i: rv_const(0.0), "bool": lambda i: z3.BoolVal(False), "null": lambda i: z3.IntVal(0)}[k]


class AArr(Sym):
    __slots__ = ("type", "n", "valid", "vf", "cache", "pieces", "src")

    def __init__(self, type, n, valid, val, pieces=None, src=None):
        self.type, self.n, self.valid, self.vf = type, n, valid, val
        self.cache = {}
        self.pieces = pieces
        self.src = src

    def val(self, i):
        i = z3.simplify(iv(i))
        k = i.get_id()
        if k not in self.cache:
            self.cache[k] = (i, self.vf(i))
        return self.cache[k][1]

    def vc_len(self):
        return self.n

    def __len__(self):
        if type(self.n) is int:
            return self.n
        U("len() of a symbolic arrow array in native code")

    def __hash__(self):
        return id(self)

    def vc_isinstance(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(x in (pa.Array, pa.lib._PandasConvertible, object) or (isinstance(x, type) and issubclass(x, pa.Array) and x is CLS.get(str(self.type))) for x in ts)

    @property
    def null_count(self):
        e = E()
        t = e.fresh("nullcount", I)
        e.assume(z3.And(t >= 0, t <= iv(self.n)))
        if e.valid(z3.BoolVal(False)):
            raise PathEnd()
        j = e.fresh("ni", I)
        if z3.is_true(z3.simplify(self.valid(j))):
            return 0
        # zero exactly when every element is valid
        if e.choose(2, "nulls"):
            fact_all(self.n, lambda i: self.valid(i))
            e.assume(t == 0)
        else:
            witness(self.n, lambda i: z3.Not(self.valid(i)))
            e.assume(t > 0)
        e.check_feasible()
        return mkint(t)

    @property
    def true_count(self):
        return mkint(self.sel().count())

    def sel(self):
        if self.src is not None and self.src[0] == "slice" and type(self.src[1]) is AArr:
            return E_cache(self, "sel", lambda: SubSel(self.src[1].sel(), self.src[2], self.n))
        return E_cache(self, "sel", lambda: Sel(self.n, lambda i: z3.And(self.valid(i), self.val(i))))

    def buffers(self):
        return [None, ABuf(NArr({"int": "i8", "f8": "f8"}.get(kind_of_type(self.type), "i8") if not pa.types.is_uint32(self.type) else "u4", self.n, lambda i: self.val(i), "math"))] \
            if kind_of_type(self.type) in ("int", "f8") else U("buffers of this array")

    def is_valid(self):
        return AArr(pa.bool_(), self.n, lambda i: TRUE, lambda i: self.valid(i))

    def is_null(self, nan_is_null=False, **k):
        if kind_of_type(self.type) == "f8" and nan_is_null:
            return AArr(pa.bool_(), self.n, lambda i: TRUE, lambda i: z3.Or(z3.Not(self.valid(i)), self.val(i).k == 1))
        return AArr(pa.bool_(), self.n, lambda i: TRUE, lambda i: z3.Not(self.valid(i)))

    def to_numpy(self, zero_copy_only=True, **k):
        kd = kind_of_type(self.type)
        if kd == "bool" and not zero_copy_only:
            e = E()
            j = e.fresh("bi", I)
            if not e.valid(z3.Implies(z3.And(j >= 0, j < iv(self.n)), self.valid(j))):
                U("to_numpy of booleans with nulls")
            return NArr("b1", self.n, self.val, "math", ("arrow", self))
        if kd in ("int", "f8"):
            return NArr({"uint32": "u4", "double": "f8"}.get(str(self.type), "i8"), self.n, self.val, "math")
        U("to_numpy of this array")

    def cast(self, target_type=None, safe=None, **k):
        return cast(self, pa.lib.ensure_type(target_type) if not isinstance(target_type, pa.DataType) else target_type, safe is not False)

    def view(self, t):
        U("view of an arrow array")

    def slice(self, offset=0, length=None):
        o = iv(offset)
        if E().fork(o < 0):
            raise IndexError("Offset must be non-negative")
        n = iv(self.n)
        m = z3.If(n > o, n - o, z3.IntVal(0))
        if length is not None:
            t = iv(length)
            if E().fork(t < 0):
                raise pa.ArrowInvalid("negative slice length")
            m = z3.If(t < m, t, m)
        return self.window(o, m)

    def window(self, lo, m):
        return AArr(self.type, mkint(z3.simplify(m)), lambda i: self.valid(lo + i), lambda i: self.val(z3.simplify(lo + i)), None, ("slice", self, lo))

    def vc_getitem(self, k):
        if isinstance(k, slice):
            lo, hi, st = slice_bounds(k, iv(self.n))
            if st != 1:
                U("extended slice of an arrow array")
            return self.window(lo, z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        i, n = iv(k), iv(self.n)
        if E().fork(z3.And(i >= -n, i < n)):
            i = z3.If(i >= 0, i, n + i)
            return AScalar(self.type, self.valid(i), self.val(i))
        raise IndexError("index out of bounds")

    __getitem__ = vc_getitem

    def filter(self, mask, null_selection_behavior="drop"):
        if type(mask) is not AArr:
            U("filter with this mask")
        if not E().fork(iv(mask.n) == iv(self.n)):
            raise pa.ArrowInvalid("Filter inputs must all be the same length")
        s = mask.sel()
        return AArr(self.type, mkint(s.count()), lambda i: self.valid(s.pos(i)), lambda i: self.val(s.pos(i)), None, ("mask", self, s))

    def take(self, idx):
        return kernel_take(self, idx, True)

    def drop_null(self):
        return self.filter(self.is_valid())

    def combine_chunks(self):
        return self

    def vc_iter(self):
        return SView(self.n, lambda i: AScalar(self.type, self.valid(iv(i)), self.val(iv(i))))

    def __eq__(self, o):
        return self is o

    def fill_null(self, v):
        if is_sym(v):
            U("fill_null with a symbolic value")
        c = lift_pa(v, self.type)
        return AArr(self.type, self.n, lambda i: TRUE, lambda i: ite(self.valid(i), self.val(i), c))


def lift_pa(v, t):
    k = kind_of_type(t)
    if isinstance(v, pa.Scalar):
        v = v.as_py()
    return {"str": lambda: z3.StringVal(v), "int": lambda: z3.IntVal(int(v)), "f8": lambda: rv_const(v), "bool": lambda: z3.BoolVal(bool(v))}[k]()


_ec = {}


def E_cache(o, name, mk):
    e = E()
    if getattr(e, "pa_path", None) is not e.trace:
        e.pa_path, e.pa_cache = e.trace, {}
    k = (id(o), name)
    if k not in e.pa_cache:
        e.pa_cache[k] = (o, mk())
    return e.pa_cache[k][1]


CLS = {"large_string": pa.LargeStringArray, "string": pa.StringArray, "double": pa.DoubleArray, "int64": pa.Int64Array, "timestamp[ms]": pa.TimestampArray,
       "uint32": pa.UInt32Array, "bool": pa.BooleanArray, "null": pa.NullArray}


class AScalar(Sym):
    __slots__ = ("type", "valid", "v")

    def __init__(self, type, valid, v):
        self.type, self.valid, self.v = type, valid, v

    @property
    def is_valid(self):
        return mkbool(self.valid)

    def as_py(self):
        k = kind_of_type(self.type)
        if not E().fork(self.valid):
            return None
        if k == "str":
            return mkstr(self.v)
        if k == "int" and pa.types.is_integer(self.type):
            return mkint(self.v)
        if k == "bool":
            return mkbool(self.v)
        U(f"as_py of {self.type}")

    def __hash__(self):
        return id(self)


def fresh_aarr(name, t, n, nulls=True):
    e = E()
    e.fresh_n += 1
    nm = f"{name}!{e.fresh_n}"
    k = kind_of_type(t)
    vf = z3.Function(nm + "_valid", I, z3.BoolSort())
    valid = (lambda i: vf(iv(i))) if nulls else (lambda i: TRUE)
    if k == "null":
        return AArr(t, n, lambda i: z3.BoolVal(False), default_val(t))
    if k == "f8":
        fr, fk = z3.Function(nm, I, R), z3.Function(nm + "_kind", I, I)

        def val(i):
            E().assume(z3.And(fk(i) >= 0, fk(i) <= 3))
            return RV(fr(i), fk(i))
    else:
        f = z3.Function(nm, I, {"str": S, "int": I, "bool": z3.BoolSort()}[k])
        if pa.types.is_uint32(t):
            def val(i):
                E().assume(z3.And(f(i) >= 0, f(i) < 2 ** 32))
                return f(i)
        else:
            val = lambda i: f(i)
    return AArr(t, n, valid, val)


# ---------------------------------------------------------------------------------------------------- casts
def cast(a, t, safe=True):
    if a.type == t:
        return a
    x, y = kind_of_type(a.type), kind_of_type(t)
    e = E()
    if x == "null":
        return AArr(t, a.n, lambda i: z3.BoolVal(False), default_val(t))
    if x == y == "str":
        return AArr(t, a.n, a.valid, a.vf)
    if y == "str" and x != "bool":
        def txt(i):
            v = a.val(i)
            return NUM_TEXT(v.k, z3.If(v.k == 0, v.r, z3.RealVal(0))) if x == "f8" else (TS_TEXT if pa.types.is_timestamp(a.type) else INT_TEXT)(v)
        return AArr(t, a.n, a.valid, txt)
    if x == "str" and y == "f8":
        ok, val, cls = text_parse("f8_arrow")

        def bad(i):
            return z3.And(a.valid(i), z3.Not(ok(a.val(i))))
        if e.choose(2, "cast") == 1:
            witness(a.n, bad)
            e.check_feasible()
            if getattr(e, "on_parse_failure", None):
                e.on_parse_failure()
            raise pa.ArrowInvalid("Failed to parse string")
        fact_all(a.n, lambda i: z3.Not(bad(i)))
        e.check_feasible()

        def num(i):
            s = a.val(i)
            e.assume(z3.And(cls(s) >= 0, cls(s) <= 3))
            return RV(val(s), cls(s))
        return AArr(t, a.n, a.valid, num)
    if x == "f8" and pa.types.is_int64(t):
        lo, hi = lo_hi("i8")

        def toint(i):
            v = a.val(i)
            q = z3.If(v.r >= 0, z3.ToInt(v.r), -z3.ToInt(-v.r))
            w = z3.Function("undefined_cast", R, I, I)(v.r, v.k)
            return z3.If(z3.And(v.k == 0, q >= lo, q <= hi), q, w)
        if safe:
            def bad(i):
                v = a.val(i)
                return z3.And(a.valid(i), z3.Not(z3.And(v.k == 0, v.r == z3.ToReal(z3.ToInt(v.r)), z3.ToInt(v.r) >= lo, z3.ToInt(v.r) <= hi)))
            if e.choose(2, "cast") == 1:
                witness(a.n, bad)
                e.check_feasible()
                raise pa.ArrowInvalid("Float value was truncated")
            fact_all(a.n, lambda i: z3.Not(bad(i)))
            e.check_feasible()
        return AArr(t, a.n, a.valid, toint)
    if pa.types.is_int64(a.type) and pa.types.is_uint32(t):
        if safe:
            lo, hi = lo_hi("u4")
            out = lambda i: z3.And(a.valid(i), z3.Or(a.val(i) < lo, a.val(i) > hi))
            if e.choose(2, "cast") == 1:
                witness(a.n, out)
                e.check_feasible()
                raise pa.ArrowInvalid("Integer value not in range: 0 to 4294967295")
            fact_all(a.n, lambda i: z3.Not(out(i)))
            e.check_feasible()
        return AArr(t, a.n, a.valid, lambda i: wrap_int(a.val(i), "u4"))
    if x == "int" and y == "int" and pa.types.is_timestamp(a.type) != pa.types.is_timestamp(t) and "64" in str(a.type) + str(t) and "ms" in str(a.type) + str(t):
        return AArr(t, a.n, a.valid, a.vf)
    U(f"cast from {a.type} to {t}")


# ---------------------------------------------------------------------------------------------------- kernels
class Opt:
    def __init__(self, name, a, k):
        self.name, self.a, self.k = name, a, k


def _opt(cls, name):
    def mk(*a, **k):
        return Opt(name, a, k)
    MODELS[cls] = mk


_opt(pc.StrptimeOptions, "strptime")
_opt(pc.MatchSubstringOptions, "match")
MODELS[pc.CastOptions.unsafe] = lambda t=None: Opt("cast", (t, False), {})
MODELS[pc.CastOptions.safe] = lambda t=None: Opt("cast", (t, True), {})
REAL = {"strptime": pc.StrptimeOptions, "match": pc.MatchSubstringOptions}

STRP_OK = z3.Function("strptime_parses", S, S, z3.BoolSort())
STRP_MS = z3.Function("strptime_ms", S, S, I)
RE_MATCH = z3.Function("regex_matches", S, S, z3.BoolSort(), z3.BoolSort())


def kernel_take(a, idx, check):
    if type(idx) is not AArr or type(a) is not AArr:
        U("take of these values")
    e = E()
    bad = lambda i: z3.And(idx.valid(i), z3.Or(idx.val(i) < 0, idx.val(i) >= iv(a.n)))
    if e.choose(2, "take") == 1:
        witness(idx.n, bad)
        e.check_feasible()
        if check:
            raise pa.ArrowIndexError("Index out of bounds")
        e.fail("take without bounds check reads outside the array")
    fact_all(idx.n, lambda i: z3.Not(bad(i)))
    e.check_feasible()
    return AArr(a.type, idx.n, lambda i: z3.And(idx.valid(i), a.valid(idx.val(i))), lambda i: a.val(idx.val(i)))


def kernel(fn, args, options=None, memory_pool=None, length=None):
    name = fn.name
    args = list(args)
    if not any(is_sym(x) for x in args):
        if type(options) is Opt:
            if anysym(options.a):
                U(f"kernel {name} with symbolic options")
            if options.name == "cast":
                options = (pc.CastOptions.safe if options.a[1] else pc.CastOptions.unsafe)(options.a[0])
            else:
                options = REAL[options.name](*options.a, **options.k)
        return fn.call(args, options)
    e = E()
    a = args[0]
    if name == "cast":
        t, safe = (options.a if type(options) is Opt else U("cast options"))
        return cast(a, t, safe)
    if name == "array_take":
        m = re.search(r"boundscheck=(\w+)", repr(options))
        return kernel_take(a, args[1], not m or m.group(1) == "true")
    if name == "strptime":
        o = dict(zip(("format", "unit", "error_is_null"), options.a), **options.k)
        fmt = sv(o["format"])
        if o["unit"] != "ms":
            U("strptime unit")
        ok = lambda i: STRP_OK(a.val(i), fmt)
        if not o.get("error_is_null"):
            if e.choose(2, "strptime") == 1:
                witness(a.n, lambda i: z3.And(a.valid(i), z3.Not(ok(i))))
                e.check_feasible()
                raise pa.ArrowInvalid("Failed to parse")
            fact_all(a.n, lambda i: z3.Or(z3.Not(a.valid(i)), ok(i)))
        lo, hi = -(1 << 62), 1 << 62

        def val(i):
            v = STRP_MS(a.val(i), fmt)
            e.assume(z3.And(v >= lo, v <= hi))
            # the value slot of a null element is unspecified
            w = z3.Function("null_slot", S, S, I)(a.val(i), fmt)
            e.assume(z3.And(w >= -(1 << 63), w < (1 << 63)))
            return z3.If(z3.And(a.valid(i), ok(i)), v, w)
        return AArr(pa.timestamp("ms"), a.n, lambda i: z3.And(a.valid(i), ok(i)), val)
    if name == "is_null" and options is None or name == "is_valid":
        return a.is_null() if name == "is_null" else a.is_valid()
    if name == "invert":
        return AArr(pa.bool_(), a.n, a.valid, lambda i: z3.Not(a.val(i)))
    if name in ("and", "or"):
        b = args[1]
        if type(b) is not AArr:
            U("boolean kernel with a scalar")
        if not e.fork(iv(a.n) == iv(b.n)):
            raise pa.ArrowInvalid("Array arguments must all be the same length")
        f = z3.And if name == "and" else z3.Or
        return AArr(pa.bool_(), a.n, lambda i: z3.And(a.valid(i), b.valid(i)), lambda i: f(a.val(i), b.val(i)))
    if name == "match_substring_regex":
        o = dict(zip(("pattern", "ignore_case"), options.a), **options.k)
        return AArr(pa.bool_(), a.n, a.valid, lambda i: RE_MATCH(a.val(i), sv(o["pattern"]), bv_(o.get("ignore_case", False))))
    if name == "indices_nonzero":
        s = a.sel()
        return AArr(pa.uint64(), mkint(s.count()), lambda i: TRUE, lambda i: s.pos(i))
    U(f"arrow kernel {name}")


for _c in {type(pc.get_function(x)) for x in ("cast", "array_take", "strptime", "indices_nonzero")} | {type(pc.get_function("count_distinct"))}:
    METHODS[(_c, "call")] = kernel


def kernel_function(f):
    """pc.xxx(arrays, options...): the named kernel"""
    info = f.__arrow_compute_function__
    fn, arity = pc.get_function(info["name"]), info["arity"]

    def call(*a, memory_pool=None, options=None, **k):
        if not anysym(a, k):
            return f(*a, memory_pool=memory_pool, options=options, **k)
        if arity is Ellipsis:
            U(f"pc.{info['name']} of symbolic values")
        if len(a) > arity or k:
            name = {"StrptimeOptions": "strptime", "MatchSubstringOptions": "match"}.get(info["options_class"])
            if name is None or options is not None:
                U(f"pc.{info['name']} with options")
            options = Opt(name, a[arity:], k)
        return kernel(fn, a[:arity], options)
    return call


for _f in vars(pc).values():
    if hasattr(_f, "__arrow_compute_function__") and type(_f).__name__ == "function" and _f not in MODELS:
        MODELS[_f] = kernel_function(_f)


# ---------------------------------------------------------------------------------------------------- construction
def pa_py_buffer(b):
    if type(b) in (SJoin, NArr):
        return ABuf(b)
    if is_sym(b):
        U("py_buffer of this value")
    return pa.py_buffer(b)


MODELS[pa.py_buffer] = pa_py_buffer


def from_buffers(t, n, bufs, null_count=-1, offset=0, children=None):
    if not any(is_sym(x) for x in bufs) and not is_sym(n):
        return pa.Array.from_buffers(t, n, bufs, null_count, offset, children)
    if len(bufs) != 2 or bufs[0] is not None or (is_sym(offset) or offset != 0):
        U("from_buffers with validity or offset")
    k = kind_of_type(t)
    d = "u4" if pa.types.is_uint32(t) else {"int": "i8", "f8": "f8"}.get(k) or U("from_buffers of this type")
    if type(bufs[1]) is not ABuf:
        U("from_buffers over this buffer")
    arr = bufs[1].as_array(d)
    if not E().valid(iv(n) == iv(arr.n)):
        U("from_buffers with another length")
    return AArr(t, arr.n, lambda i: TRUE, arr.at)


MODELS[pa.Array.from_buffers] = from_buffers


def pa_array(data, type=None, *a, **k):
    if isinstance(data, AArr):
        return data if type is None or type == data.type else cast(data, type)
    if isinstance(data, NArr):
        if data.dt == "b1" and type in (None, pa.bool_()):
            return AArr(pa.bool_(), data.n, lambda i: TRUE, data.at)
        if data.dt in ("u4", "i8") and type in (None, pa.uint32(), pa.int64()):
            out = AArr(pa.uint32() if data.dt == "u4" else pa.int64(), data.n, lambda i: TRUE, data.at)
            return out if type in (None, out.type) else cast(out, type)
        U("pa.array of a numpy array")
    r = symiter(data)
    if r is None or isinstance(r, _Conc):
        xs = list(data if r is None else r)
        if not anysym(xs):
            return pa.array(xs, type, *a, **k)
        if all(isinstance(x, (str, bytes)) for x in xs) and type is not None and kind_of_type(type) == "str":
            vs = [text_of_item(x) for x in xs]

            def val(i):
                t = vs[-1]
                for q in range(len(vs) - 2, -1, -1):
                    t = z3.If(i == q, vs[q], t)
                return t
            return AArr(type, len(xs), lambda i: TRUE, val)
        U("pa.array of symbolic items")
    if builtins_type(r) is not SView or type is None or kind_of_type(type) != "str":
        U("pa.array of a symbolic sequence")
    return AArr(type, r.n, lambda i: TRUE, lambda i: text_of_item(r.f(mkint(i))))


import builtins as _b
builtins_type = _b.type
MODELS[pa.array] = pa_array


def pa_nulls(n, type=None, *a):
    if not is_sym(n):
        return pa.nulls(n, type)
    t = type or pa.null()
    if not E().fork(iv(n) >= 0):
        U("pa.nulls of a negative length")
    return AArr(t, n, lambda i: z3.BoolVal(False), default_val(t))


MODELS[pa.nulls] = pa_nulls


def as_aarr(x):
    """a concrete pyarrow array as an AArr"""
    if type(x) is AArr:
        return x
    vs = x.to_pylist()
    if pa.types.is_timestamp(x.type):
        vs = x.cast(pa.int64()).to_pylist()
    d = default_val(x.type)

    def val(i):
        t = d(i)
        for q, v in enumerate(vs):
            if v is not None:
                t = ite(i == q, lift_pa(v, x.type), t)
        return t
    return AArr(x.type, len(vs), lambda i: z3.Or(*[i == q for q, v in enumerate(vs) if v is not None]) if any(v is not None for v in vs) else z3.BoolVal(False), val)


class AChunked(Sym):
    __slots__ = ("pieces", "type")

    def __init__(self, pieces, type):
        self.pieces, self.type = pieces, type

    def __hash__(self):
        return id(self)

    def combine_chunks(self):
        ps = self.pieces
        if len(ps) == 1:
            return ps[0]
        offs, t = [], z3.IntVal(0)
        for p in ps:
            offs.append(t)
            t = z3.simplify(t + iv(p.n))

        def sel(g):
            def f(i):
                if not ps:
                    return z3.BoolVal(False)
                r = g(len(ps) - 1, i)
                for q in range(len(ps) - 2, -1, -1):
                    r = ite(i < offs[q + 1], g(q, i), r)
                return r
            return f
        if not ps:
            return AArr(self.type, 0, lambda i: z3.BoolVal(False), default_val(self.type))
        return AArr(self.type, mkint(t), sel(lambda q, i: ps[q].valid(i - offs[q])), sel(lambda q, i: ps[q].val(z3.simplify(i - offs[q]))), [(o, p) for o, p in zip(offs, ps)])


def pa_chunked_array(arrays, type=None):
    r = symiter(arrays)
    if r is not None and not isinstance(r, _Conc):
        m = getattr(builtins_type(r), "vc_chunked", None)
        if m is not None:
            return m(r, type)
        U("chunked_array of a symbolic sequence")
    xs = list(arrays if r is None else r)
    if not any(is_sym(x) for x in xs):
        return pa.chunked_array(xs, type=type)
    t = type or xs[0].type
    for x in xs:
        if x.type != t:
            if type is None:
                raise pa.ArrowInvalid("chunks have different types")
            raise pa.lib.ArrowTypeError("Array chunks must all be same type")
    return AChunked([as_aarr(x) for x in xs], t)


MODELS[pa.chunked_array] = pa_chunked_array


def pa_concat_arrays(arrays, memory_pool=None):
    r = symiter(arrays)
    if r is not None and not isinstance(r, _Conc):
        m = getattr(builtins_type(r), "vc_chunked", None)
        if m is not None:
            return m(r, None).combine_chunks()
        U("concat_arrays of a symbolic sequence")
    xs = list(arrays if r is None else r)
    if not any(is_sym(x) for x in xs):
        return pa.concat_arrays(xs)
    if len({x.type for x in xs}) != 1:
        raise pa.ArrowInvalid("arrays to be concatenated must be identically typed")
    return AChunked([as_aarr(x) for x in xs], xs[0].type).combine_chunks()


MODELS[pa.concat_arrays] = pa_concat_arrays
