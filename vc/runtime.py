"""Hooks called by the instrumented source, and models of the Python builtins / struct / io used by rxls."""
from __future__ import annotations
import builtins, functools, io, os, struct, types, operator
import z3
from .engine import E, Eng, Unsupported, PathEnd, Abort, Restart
from .values import *   # noqa: F403
from .values import U, is_sym, iv, bv_, sv, eq_term, const, decode_bytes, not_, getitem, length
from .heap import SList, SSet, SDict, HeapObj, box, unbox
from .loops import Cut, World, UNBOUND

MODELS = {}
METHODS = {}


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m
    return deco


def method(t, *names):
    def deco(m):
        for n in names:
            METHODS[(t, n)] = m
        return m
    return deco


def anysym(a, k=None):
    for x in a:
        if is_sym(x) or (type(x) in (tuple, list) and anysym(x)):
            return True
    if k:
        for x in k.values():
            if is_sym(x):
                return True
    return False


# ------------------------------------------------------------------------------------------------ hooks
def active():
    return Eng.cur is not None and Eng.cur.alive


def h_call(f, *a, **k):
    if not active():
        return f(*a, **k)
    e = Eng.cur
    if is_sym(f):
        c = getattr(type(f), "vc_call", None)
        if c is None:
            if type(f).__name__ == "Poison":
                f()
            raise TypeError(f"{f!r} is not callable")
        return f.vc_call(*a, **k)
    st = getattr(e, "stubs", None)
    if st:
        g = st.get(getattr(f, "__func__", f)) if isinstance(f, types.MethodType) else (st.get(f) if _hashable(f) else None)
        if g is not None:
            if isinstance(f, types.MethodType):
                return g(f.__self__, *a, **k)
            return g(*a, **k)
    if _hashable(f):
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
    s = getattr(f, "__self__", None)
    if s is not None:
        n = getattr(f, "__name__", None)
        m = METHODS.get((type(s), n))
        if m is not None:
            return m(s, *a, **k)
    try:
        return f(*a, **k)
    except (TypeError, AttributeError, ValueError, NotImplementedError) as x:
        if native(f, x) and anysym(a, k):
            U(f"{getattr(f, '__qualname__', f)} of a symbolic value: {type(x).__name__}: {x}")
        raise


def native(f, x):
    """was the exception raised by library code that knows nothing of symbolic values"""
    tb = x.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    g = tb.tb_frame.f_globals
    if g is globals():
        return tb.tb_frame.f_code is h_call.__code__ and not isinstance(f, types.FunctionType)
    name = tb.tb_frame.f_code.co_filename
    return name.endswith(".pyx") or ("site-packages" in name or "/lib/python3" in name) and "pyvenv" not in name


def _hashable(f):
    return isinstance(f, (types.FunctionType, types.BuiltinFunctionType, type, types.BuiltinMethodType, functools.partial)) or \
        type(f).__name__ in ("ufunc", "cython_function_or_method", "method_descriptor", "_ArrayFunctionDispatcher")


def h_in(a, b):
    if not active():
        return a in b
    m = getattr(type(b), "vc_contains", None)
    if m is not None:
        return m(b, a)
    if is_sym(a) or (type(a) is tuple and anysym(a)):
        if isinstance(b, str):
            return mkbool(z3.Contains(sv(b), sv(a)))
        if isinstance(b, (set, frozenset, dict, list, tuple)):
            return mkbool(z3.Or(*[eq_term(a, x) for x in b]) if len(b) else False)
        if isinstance(b, range):
            t = iv(a)
            return mkbool(z3.And(t >= b.start, t < b.stop, (t - b.start) % b.step == 0)) if b.step > 0 else U("negative range")
        if isinstance(b, bytes):
            return mkbool(z3.Or(*[iv(a) == x for x in b]) if b else False)
    if isinstance(b, (list, tuple)) and not is_sym(b) and anysym(b):
        return mkbool(z3.Or(*[eq_term(a, x) for x in b]))
    return a in b


def h_getitem(a, b):
    if not active():
        return a[b]
    m = getattr(type(a), "vc_getitem", None)
    if m is not None:
        return m(a, b)
    if is_sym(b) or (isinstance(b, slice) and anysym((b.start, b.stop, b.step))):
        if isinstance(a, (list, tuple)) and not isinstance(b, slice):
            for i in range(-len(a), len(a)):
                if E().fork(iv(b) == i):
                    return a[i]
            raise IndexError("index out of range")
        if isinstance(a, dict):
            for k in a:
                t = eq_term(b, k)
                if E().fork(t):
                    return a[k]
            raise KeyError("symbolic key")
        if isinstance(a, bytes):
            if isinstance(b, slice):
                U("symbolic slice of concrete bytes")
            for i in range(len(a)):
                if E().fork(iv(b) == i):
                    return a[i]
            raise IndexError("index out of range")
        U(f"symbolic subscript of {type(a).__name__}")
    return a[b]


def h_list(t):
    if active():
        mk = getattr(Eng.cur, "list_factory", None)
        if mk is not None and not t:
            r = mk()
            if r is not None:
                return r
        return SList(t)
    return list(t)


def h_set(t):
    return SSet(t) if active() else set(t)


def h_dict(d):
    if not active():
        return d
    return new_dict(d.items())


def new_dict(pairs=()):
    mk = getattr(E(), "dict_factory", None)
    return SDict(pairs) if mk is None else mk(pairs)


def h_star(kind, *pieces):
    """displays with unpacking: [*a, x], {*a, x}, {**a, k: v}"""
    if kind == "dict":
        if not active():
            r = {}
            for s, v in pieces:
                r.update(v) if s else r.__setitem__(*v)
            return r
        r = None
        for s, v in pieces:
            if s and r is None:
                r = m_dict(v)
                continue
            if r is None:
                r = new_dict(())
            if s:
                r.update(v)
            else:
                r[v[0]] = v[1]
        return new_dict(()) if r is None else r
    conc = [not s or symiter(v) is None or isinstance(symiter(v), _Conc) for s, v in pieces] if active() else [True] * len(pieces)
    if all(conc):
        flat = []
        for s, v in pieces:
            flat.extend(v) if s else flat.append(v)
        return h_list(flat) if kind == "list" else h_set(flat)
    mk = m_list if kind == "list" else m_set
    r = None
    for s, v in pieces:
        v = mk(v if s else (v,))
        r = v if r is None else (r + v if kind == "list" else r | v)
    return r


def h_slice(a, b, c):
    return slice(a, b, c)


class SGen(Sym):
    """a generator expression over a symbolic iterable: consumed by a cut loop"""
    __slots__ = ("src", "step", "key")

    def __init__(self, src, step, key):
        self.src, self.step, self.key = src, step, key

    def __iter__(self):
        U("native iteration over a symbolic generator expression")

    def vc_iter(self):
        return self

    def drain(self, body, names=(), env=None):
        """run body(value, vars) for every value; body may return something other than None to stop"""
        L = CutFor(self.key, names, env or {}, self.src)
        var = dict(env or {})
        for n in names:
            if L.h(n):
                var[n] = L.v(n)
        while L.again(var):
            keep, v = self.step(L.next())
            if keep:
                r = body(v, var)
                if r is not None:
                    return r, var
        return None, var

    def vc_list(self):
        out = h_list([])
        self.drain(lambda v, _: out.append(v))
        return out

    def vc_set(self):
        out = m_set()
        self.drain(lambda v, _: out.add(v))
        return out

    def vc_dict(self):
        out = new_dict()
        self.drain(lambda v, _: out.__setitem__(v[0], v[1]))
        return out

    def vc_any(self):
        return self.drain(lambda v, _: True if v else None)[0] is True

    def vc_all(self):
        return self.drain(lambda v, _: True if not v else None)[0] is None

    def vc_sum(self, start):
        def add(v, var):
            var["acc"] = var["acc"] + v
        return self.drain(add, ("acc",), {"acc": start})[1]["acc"]

    def vc_nextmodel(self, *d):
        r = self.drain(lambda v, _: (v,))[0]
        if r is None:
            if d:
                return d[0]
            raise StopIteration
        return r[0]


def symiter(it):
    """SView / stream for symbolic iterables, None for native ones"""
    m = getattr(type(it), "vc_iter", None)
    if m is None:
        return None
    r = m(it)
    if type(r) is SView and type(r.n) is int:
        return None if False else iter([r.f(i) for i in range(r.n)]) and None or _Conc([r.f(i) for i in range(r.n)])
    if is_sym(r) or hasattr(type(r), "vc_stream"):
        return r
    return _Conc(list(r))


class _Conc(list):
    pass


def h_comp(kind, key, it, cond, elt):
    if active():
        r = symiter(it)
        if isinstance(r, _Conc):
            it = r
        elif r is not None:
            return sym_comp(kind, key, r, cond, elt)

    def g():
        for x in it:
            if cond is None or cond(x):
                yield elt(x)
    return comp_result(kind, g())


def h_comp2(kind, key, it, lam):
    if active():
        r = symiter(it)
        if isinstance(r, _Conc):
            it = r
        elif r is not None:
            return drained(kind, SGen(r, lam, key))

    def g():
        for x in it:
            f, v = lam(x)
            if f:
                yield v
    return comp_result(kind, g())


def drained(kind, g):
    return g if kind == "gen" else g.vc_list() if kind == "list" else g.vc_set() if kind == "set" else g.vc_dict()


def comp_result(kind, g):
    if kind == "gen":
        return g
    if kind == "list":
        return SList(g) if active() else list(g)
    if kind == "set":
        return SSet(g) if active() else set(g)
    return new_dict(g) if active() else dict(g)


def sym_comp(kind, key, r, cond, elt):
    if hasattr(type(r), "vc_comp"):
        x = r.vc_comp(kind, cond, elt)
        if x is not NotImplemented:
            return x
    if type(r) is SView and cond is None and kind in ("gen", "list"):
        # any element may raise: explore an arbitrary one
        e = E()
        if e.choose(2, "comp") == 0:
            i = e.fresh("ci", z3.IntSort())
            e.assume(z3.And(i >= 0, i < iv(r.n)))
            e.check_feasible()
            elt(r.f(mkint(i)))
            raise PathEnd()
        v = SView(r.n, lambda i: elt(r.f(i)))
        mk = getattr(e, "comp_list", None)
        return mk(v) if mk is not None and kind == "list" else v
    if isinstance(r, SView) or hasattr(type(r), "vc_stream"):
        return drained(kind, SGen(r, lambda x: (True, elt(x)) if cond is None or cond(x) else (False, None), key))
    if isinstance(r, SGen):
        def step(x):
            keep, v = r.step(x)
            if not keep or (cond is not None and not cond(v)):
                return False, None
            return True, elt(v)
        return drained(kind, SGen(r.src, step, key))
    U("comprehension over this symbolic iterable")


def h_nativeiter(it):
    if active():
        r = symiter(it)
        if isinstance(r, _Conc):
            return r
        if r is not None:
            U("nested comprehension over a symbolic iterable")
    return it


def h_fstr(*parts):
    if not active() or not any(p[0] == "v" and (is_sym(p[1]) or is_sym(p[3])) for p in parts):
        return "".join(p[1] if p[0] == "c" else format(conv(p[1], p[2]), p[3]) for p in parts)
    out = []
    for p in parts:
        if p[0] == "c":
            out.append(p[1])
        else:
            v, c, spec = p[1], p[2], p[3]
            if not is_sym(v):
                out.append(format(conv(v, c), spec))
            elif spec == "" and c in (-1, 115):
                out.append(to_str(v))
            elif c == 114:
                out.append(mkstr(z3.Function("py_repr", S, S)(sv(v))) if isinstance(v, str) else to_str(v))
            else:
                U("format spec on a symbolic value")
    r = ""
    for x in out:
        r = r + x
    return r


def conv(v, c):
    return {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[c](v)


def to_str(v):
    if type(v) is SStr:
        return v
    if type(v) is SInt:
        if E().valid(v.t >= 0):
            return mkstr(z3.IntToStr(v.t))
        return mkstr(z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.t))))
    if type(v) is SBool:
        return str(bool(v))
    if isinstance(v, (SBytes, SCat, SEnc)):
        U("str of symbolic bytes")
    return str(v)


def h_setattr(o, n, v):
    if active():
        m = getattr(type(o), "vc_setattr", None)
        if m is not None:
            return m(o, n, v)
        E().attr_log.append((o, n))
    setattr(o, n, v)


OPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "BitOr": operator.ior,
       "BitAnd": operator.iand, "BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift, "Pow": operator.ipow, "Div": operator.itruediv}


def h_augattr(o, n, op, v):
    h_setattr(o, n, OPS[op](getattr(o, n), v))


def h_alive():
    return Eng.cur is None or Eng.cur.alive or not getattr(Eng.cur, "in_explore", True)


class NativeFor:
    __slots__ = ("it", "x", "n")

    def __init__(self, it):
        self.it = iter(it)

    def h(self, n):
        return False

    v = h

    def again(self, loc):
        try:
            self.x = next(self.it)
        except StopIteration:
            return False
        return True

    def next(self):
        return self.x


class CutFor:
    def __init__(self, key, names, env, it):
        self.src = it
        self.step = None
        if type(it) is SGen:
            self.step, it = it.step, it.src
        self.it = it if hasattr(type(it), "vc_stream") else ViewIter(it, key)
        self.cut = Cut(key, names, env)
        self.first = True

    def h(self, n):
        return n in self.cut.vals

    def v(self, n):
        return self.cut.vals[n]

    def again(self, loc):
        if not self.first:
            self.cut.done(loc)
        self.first = False
        self.loc = dict(loc)
        return self.it.vc_more()

    def next(self):
        x = self.it.vc_next()
        if self.step is None:
            return x
        keep, v = self.step(x)
        if not keep:
            self.cut.done(self.loc)
        return v


class ViewIter(World):
    """iteration state over an indexed symbolic sequence"""
    vc_stream = True

    def __init__(self, view, key):
        if not isinstance(view, SView):
            U(f"iteration over {view!r}")
        self.view = view
        self.i = z3.IntVal(0)
        self.name = "it:" + key
        super().__init__()

    def ghosts(self):
        return {"i": self.i, "n": iv(self.view.n)}

    def measures(self):
        return {"left": iv(self.view.n) - self.i}

    def havoc(self, loc):
        self.i = E().fresh("idx", z3.IntSort())
        E().assume(z3.And(self.i >= 0, self.i <= iv(self.view.n)))

    def vc_more(self):
        return E().fork(self.i < iv(self.view.n))

    def vc_next(self):
        self.touch()
        x = self.view.f(mkint(self.i))
        self.i = z3.simplify(self.i + 1)
        return x


class NativeWhile:
    def __init__(self, key, names, env):
        self.key, self.n = key, 0

    def h(self, n):
        return False

    v = h

    def again(self, loc):
        if active():
            self.n += 1
            if self.n > Eng.cur.while_limit:
                Eng.cur.cutset.add(self.key)
                Eng.cur.dirty = True
                raise Restart()
        return True


class CutWhile:
    def __init__(self, key, names, env):
        self.cut = Cut(key, names, env)
        self.first = True

    def h(self, n):
        return n in self.cut.vals

    def v(self, n):
        return self.cut.vals[n]

    def again(self, loc):
        if not self.first:
            self.cut.done(loc)
        self.first = False
        return True


Eng.while_limit = 9


def h_for(key, names, env, it):
    if not active():
        return NativeFor(it)
    Eng.cur.functions.add(key.split("#")[0])
    r = symiter(it)
    if r is None:
        return NativeFor(it)
    if isinstance(r, _Conc):
        return NativeFor(r)
    return CutFor(key, names, env, r)


def h_while(key, names, env):
    if not active():
        return NativeWhile(key, names, env)
    Eng.cur.functions.add(key.split("#")[0])
    if key in Eng.cur.cutset:
        return CutWhile(key, names, env)
    return NativeWhile(key, names, env)


HOOKS = {"vc__call": h_call, "vc__in": h_in, "vc__getitem": h_getitem, "vc__list": h_list, "vc__set": h_set, "vc__dict": h_dict, "vc__star": h_star,
         "vc__slice": h_slice, "vc__comp": h_comp, "vc__comp2": h_comp2, "vc__nativeiter": h_nativeiter, "vc__fstr": h_fstr, "vc__setattr": h_setattr,
         "vc__augattr": h_augattr, "vc__for": h_for, "vc__while": h_while, "vc__Abort": Abort, "vc__alive": h_alive}


# ------------------------------------------------------------------------------------------------ builtins
@model(len)
def m_len(x):
    return length(x)


@model(bool)
def m_bool(x=False):
    if type(x) is SBool:
        return x
    if type(x) is SInt:
        return mkbool(x.t != 0)
    return bool(x)


@model(int)
def m_int(x=0, *a, **k):
    if type(x) is SInt:
        return x
    if type(x) is SBool:
        return mkint(iv(x))
    if isinstance(x, str) and is_sym(x) and not a:
        t = sv(x)
        e = E()
        isnum = z3.Function("py_is_int_text", S, z3.BoolSort())(t)
        e.assume(z3.Implies(z3.StrToInt(t) >= 0, isnum))
        if e.fork(isnum):
            r = z3.Function("py_int_of_text", S, z3.IntSort())(t)
            e.assume(z3.Implies(z3.StrToInt(t) >= 0, r == z3.StrToInt(t)))
            return mkint(r)
        raise ValueError("invalid literal for int()")
    r = getattr(type(x), "vc_int", None)
    if r:
        return r(x)
    return int(x, *a, **k)


@model(str)
def m_str(x="", *a):
    if is_sym(x):
        if a and isinstance(x, bytes):
            return decode_bytes(x, *a)
        return to_str(x)
    return str(x, *a)


@model(list)
def m_list(it=()):
    if hasattr(type(it), "vc_list"):
        return it.vc_list()
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        if type(it) is SList:
            return it.copy()
        if type(r) is SView:
            return r
        if hasattr(type(r), "vc_list"):
            return r.vc_list()
        U("list() of a symbolic iterable")
    return SList(it if r is None else r)


@model(tuple)
def m_tuple(it=()):
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        if type(r) is SView:
            return r
        U("tuple() of a symbolic iterable")
    return tuple(it if r is None else r)


@model(set, frozenset)
def m_set(it=()):
    mk = getattr(E(), "set_factory", None)
    if mk is not None and (not is_sym(it)) and isinstance(it, (tuple, list)) and not it:
        return mk()
    if type(it) is SSet:
        return it.copy()
    if hasattr(type(it), "vc_set"):
        return it.vc_set()
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        U("set() of a symbolic iterable")
    return SSet(it if r is None else r)


@model(dict)
def m_dict(*a, **k):
    if a:
        c = getattr(type(a[0]), "vc_dict", None)
        if c is not None and not k:
            return c(a[0])
        if type(a[0]) is SDict:
            r = a[0].copy()
            r.update(k)
            return r
        it = a[0]
        if isinstance(it, dict):
            return new_dict(list(it.items()) + list(k.items()))
        r = symiter(it)
        if r is not None and not isinstance(r, _Conc):
            if not k and (isinstance(r, SView) or hasattr(type(r), "vc_stream")):
                return SGen(r, lambda x: (True, x), "dict").vc_dict()
            U("dict() of a symbolic iterable")
        return new_dict(list(it if r is None else r) + list(k.items()))
    return new_dict(k.items())


MODELS[frozenset] = lambda it=(): _frozen(it)


def _frozen(it):
    r = m_set(it)
    if type(r) is SSet:
        r.frozen = True
    return r


@model(range)
def m_range(*a):
    if not anysym(a):
        return range(*a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else 1
    if st == 1:
        n = iv(hi) - iv(lo)
        return SView(mkint(z3.If(n > 0, n, z3.IntVal(0))), lambda i: mkint(iv(lo) + iv(i)), tag=("range", lo, hi))
    if st == -1:
        n = iv(lo) - iv(hi)
        return SView(mkint(z3.If(n > 0, n, z3.IntVal(0))), lambda i: mkint(iv(lo) - iv(i)))
    U("range with a step")


@model(enumerate)
def m_enumerate(it, start=0):
    r = symiter(it)
    if r is None or isinstance(r, _Conc):
        if is_sym(start):
            xs = list(it)
            return [(start + i, x) for i, x in builtins.enumerate(xs)]
        return enumerate(it if r is None else r, start)
    if isinstance(r, SView):
        return SView(r.n, lambda i: (mkint(iv(i) + iv(start)), r.f(i)), r.tag)
    if hasattr(type(r), "vc_enumerate"):
        return r.vc_enumerate(start)
    if type(r) is SGen:
        es = EnumStream(r.src, r.step, start)
        return SGen(es, es.item, r.key)
    if hasattr(type(r), "vc_stream"):
        return EnumStream(r, None, start)
    U("enumerate of a symbolic iterable")


class EnumStream(World):
    """enumerate() of a stream (of the items a generator expression keeps)"""
    vc_stream = True

    def __init__(self, src, step, start):
        self.src, self.step = src, step
        self.i = iv(start)
        self.name = f"enum{len(E().world)}"
        super().__init__()

    def ghosts(self):
        return {"i": self.i}

    def facts(self):
        out = {}
        for w in E().world:
            if w is not self:
                for k, t in w.ghosts().items():
                    if z3.is_int(t):
                        out[f"i=={w.name}.{k}"] = self.i == t
        return out

    def havoc(self, loc):
        self.i = E().fresh("enum", z3.IntSort())

    def vc_iter(self):
        return self

    def vc_more(self):
        return self.src.vc_more()

    def count(self, x):
        self.touch()
        i, self.i = self.i, z3.simplify(self.i + 1)
        return mkint(i), x

    def vc_next(self):
        x = self.src.vc_next()
        return self.count(x) if self.step is None else x

    def item(self, x):
        keep, v = self.step(x)
        return (True, self.count(v)) if keep else (False, None)


@model(zip)
def m_zip(*its):
    rs = [symiter(i) for i in its]
    if all(r is None or isinstance(r, _Conc) for r in rs):
        return zip(*[i if r is None else r for i, r in zip(its, rs)])
    vs = []
    for i, r in zip(its, rs):
        if type(r) is SView:
            vs.append(r)
        else:
            xs = list(i if r is None else r)
            if not xs:
                return iter(())
            U("zip of symbolic and concrete sequences")
    n = iv(vs[0].n)
    for v in vs[1:]:
        n = z3.If(iv(v.n) < n, iv(v.n), n)
    return SView(mkint(n), lambda i: tuple(v.f(i) for v in vs))


@model(reversed)
def m_reversed(x):
    r = symiter(x)
    if type(r) is SView:
        return r.vc_getitem(slice(None, None, -1))
    if isinstance(r, _Conc):
        return list(reversed(r))
    return reversed(x)


@model(isinstance)
def m_isinstance(x, t):
    if type(x).__name__ == "Poison":
        U("isinstance on an unassigned loop local")
    f = getattr(type(x), "vc_isinstance", None)
    if f is not None and not isinstance(x, type):
        return f(x, t)
    return isinstance(x, t)


@model(type)
def m_type(*a):
    if len(a) == 1:
        return a[0].__class__
    return type(*a)


@model(iter)
def m_iter(*a):
    if len(a) == 1:
        r = symiter(a[0])
        if type(r) is SView:
            return SIter(r)
        if r is not None and not isinstance(r, _Conc):
            return r
        return iter(a[0])
    if hasattr(getattr(a[0], "__self__", None), "vc_sentinel_iter"):
        return a[0].__self__.vc_sentinel_iter(a[0].__name__, a[1])
    return iter(*a)


class SIter(Sym):
    """an iterator over an indexed sequence of which a few items were taken one by one"""
    __slots__ = ("view", "k")

    def __init__(self, view):
        self.view, self.k = view, 0

    def vc_nextmodel(self, *d):
        if self.k is None:
            U("an iterator used after a loop")
        if E().fork(iv(self.view.n) > self.k):
            self.k += 1
            return self.view.f(self.k - 1)
        if d:
            return d[0]
        raise StopIteration

    def vc_iter(self):
        if self.k is None:
            U("an iterator used after a loop")
        k, self.k = self.k, None
        return self.view.vc_getitem(slice(k, None)) if k else self.view

    def __iter__(self):
        U("native iteration over a symbolic sequence")


@model(next)
def m_next(it, *d):
    m = getattr(type(it), "vc_nextmodel", None)
    if m:
        return m(it, *d)
    if is_sym(it):
        U("next() on a symbolic iterable")
    return next(it, *d)


def _minmax(name, pick):
    nat = getattr(builtins, name)

    @model(nat)
    def f(*a, **k):
        xs = a if len(a) > 1 else None
        if xs is None:
            r = symiter(a[0])
            if r is not None and not isinstance(r, _Conc):
                if hasattr(type(r), "vc_" + name):
                    return getattr(r, "vc_" + name)(**k)
                if type(r) is SView:
                    return view_extreme(r, name, k)
                U(f"{name} of a symbolic iterable")
            xs = list(a[0] if r is None else r)
        if k.get("key") is None and any(is_sym(x) for x in xs) and all(isinstance(x, int) for x in xs):
            if not xs:
                if "default" in k:
                    return k["default"]
                raise ValueError(f"{name}() arg is an empty sequence")
            t = iv(xs[0])
            for x in xs[1:]:
                t = z3.If(pick(iv(x), t), iv(x), t)
            return mkint(t)
        return nat(*a, **k) if len(a) > 1 else nat(xs, **k)


_minmax("min", lambda x, t: x < t)
_minmax("max", lambda x, t: x > t)


def view_extreme(r, name, k):
    e = E()
    n = iv(r.n)
    if not e.fork(n > 0):
        if "default" in k:
            return k["default"]
        raise ValueError(f"{name}() arg is an empty sequence")
    # the extreme is attained at some index and bounds every instantiated element
    j = e.fresh("xi", z3.IntSort())
    e.assume(z3.And(j >= 0, j < n))
    x = r.f(mkint(j))
    for p in getattr(e, "watch_points", ()):        # it bounds these elements
        y = r.f(mkint(p))
        if isinstance(x, int) and isinstance(y, int):
            e.assume(z3.Implies(z3.And(p >= 0, p < n), iv(y) <= iv(x) if name == "max" else iv(y) >= iv(x)))
    e.extremes = getattr(e, "extremes", [])
    e.extremes.append((name, r, x))
    return x


@model(sum)
def m_sum(it, start=0):
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        if hasattr(type(r), "vc_sum"):
            return r.vc_sum(start)
        if isinstance(r, SView):
            return SGen(r, lambda x: (True, x), "sum").vc_sum(start)
        U("sum of a symbolic iterable")
    s = start
    for x in (it if r is None else r):
        s = s + x
    return s


@model(any)
def m_any(it):
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        if hasattr(type(r), "vc_any"):
            return r.vc_any()
        if isinstance(r, SView):
            return SGen(r, lambda x: (True, x), "any").vc_any()
        U("any of a symbolic iterable")
    for x in (it if r is None else r):
        if x:
            return True
    return False


@model(all)
def m_all(it):
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        if hasattr(type(r), "vc_all"):
            return r.vc_all()
        if isinstance(r, SView):
            return SGen(r, lambda x: (True, x), "all").vc_all()
        U("all of a symbolic iterable")
    for x in (it if r is None else r):
        if not x:
            return False
    return True


@model(sorted)
def m_sorted(it, **k):
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        if hasattr(type(it), "vc_sorted"):
            return it.vc_sorted(**k)
        mk = getattr(E(), "sort_model", None)
        if mk is not None:
            return mk(r, **k)
        U("sorted of a symbolic iterable")
    xs = list(it if r is None else r)
    return SList(sorted(xs, **k))


@model(map)
def m_map(f, *its):
    rs = [symiter(i) for i in its]
    if any(r is not None and not isinstance(r, _Conc) for r in rs):
        if len(its) == 1 and type(rs[0]) is SView:
            return sym_comp("gen", "map", rs[0], None, lambda x: h_call(f, x))
        U("map over a symbolic iterable")

    def g():
        for t in zip(*[i if r is None else r for i, r in zip(its, rs)]):
            yield h_call(f, *t)
    return g()


@model(filter)
def m_filter(f, it):
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        U("filter over a symbolic iterable")

    def g():
        for x in (it if r is None else r):
            if (x if f is None else h_call(f, x)):
                yield x
    return g()


@model(divmod)
def m_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return (a // b, a % b)
    return divmod(a, b)


@model(functools.reduce)
def m_reduce(f, it, *init):
    r = symiter(it)
    if type(r) is SView:
        if init:
            acc = init[0]
        else:
            if not E().fork(iv(r.n) > 0):
                raise TypeError("reduce() of empty iterable with no initial value")
            acc, r = r.f(0), r.vc_getitem(slice(1, None))

        def one(x, var):
            var["acc"] = h_call(f, var["acc"], x)
        return SGen(r, lambda x: (True, x), "reduce").drain(one, ("acc",), {"acc": acc})[1]["acc"]
    if r is not None and not isinstance(r, _Conc):
        U("reduce over a symbolic iterable")
    xs = list(it if r is None else r)
    if init:
        acc = init[0]
    else:
        if not xs:
            raise TypeError("reduce() of empty iterable with no initial value")
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = h_call(f, acc, x)
    return acc


@model(bytes)
def m_bytes(x=b"", *a):
    if is_sym(x):
        if isinstance(x, bytes):
            return x
        if isinstance(x, str):
            return x.encode(*a)
        if type(x) is SView or type(x) is SList:
            r = symiter(x)
            if isinstance(r, _Conc):
                return byte_list(r)
        U("bytes() of a symbolic value")
    if isinstance(x, (list, tuple)) and anysym(x):
        return byte_list(x)
    return bytes(x, *a)


def byte_list(xs):
    e = E()
    for v in xs:
        if not e.fork(z3.And(iv(v) >= 0, iv(v) <= 255)):
            raise ValueError("bytes must be in range(0, 256)")
    return norm(SCat([list(xs)]))


def norm(c):
    """concrete bytes when everything is concrete"""
    if type(c) is SCat:
        if not c.parts:
            return b""
        if len(c.parts) == 1:
            p = c.parts[0]
            if type(p) is list:
                if all(type(x) is int for x in p):
                    return bytes(p)
                return c
            return p
    return c


@model(int.from_bytes)
def m_from_bytes(b, byteorder="big", *, signed=False):
    if not is_sym(b):
        return int.from_bytes(b, byteorder, signed=signed)
    n = length(b)
    if type(n) is not int:
        for c in range(0, 17):
            if E().fork(iv(n) == c):
                n = c
                break
        else:
            U("int.from_bytes of long symbolic bytes")
    t = z3.IntVal(0)
    for i in range(n):
        sh = i if byteorder == "little" else n - 1 - i
        t = t + iv(getitem(b, i)) * (1 << (8 * sh))
    if signed and n:
        t = z3.If(t >= (1 << (8 * n - 1)), t - (1 << (8 * n)), t)
    return mkint(t)


@method(int, "to_bytes")
def m_to_bytes(i, n=1, byteorder="big", *, signed=False):
    if not is_sym(i):
        return i.to_bytes(n, byteorder, signed=signed)
    t = iv(i)
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if not E().fork(z3.And(t >= lo, t <= hi)):
        raise OverflowError("int too big to convert")
    bs = [t % 256] + [(t / z3.IntVal(1 << (8 * k))) % 256 for k in range(1, n)]
    return norm(SCat([[mkint(b) for b in (bs if byteorder == "little" else bs[::-1])]]))


METHODS[(type, "from_bytes")] = lambda s, *a, **k: m_from_bytes(*a, **k)


@method(bytes, "join")
def m_bytes_join(sep, it):
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        if hasattr(type(it), "vc_join") :
            return it.vc_join(sep)
        if hasattr(type(r), "vc_join"):
            return r.vc_join(sep)
        if type(r) is SView and sep == b"":
            return SJoin(r)
        U("join of a symbolic iterable")
    xs = list(it if r is None else r)
    if not anysym(xs):
        return sep.join(xs)
    parts = []
    for i, x in enumerate(xs):
        if i and sep:
            parts.append(sep)
        parts.append(x)
    return norm(SCat(parts))


class SJoin(Sym):
    """b"".join(sequence of symbolic length)"""
    __slots__ = ("view",)

    def __init__(self, view):
        self.view = view

    @property
    def __class__(self):
        return bytes


@method(str, "join")
def m_str_join(sep, it):
    r = symiter(it)
    if r is not None and not isinstance(r, _Conc):
        if hasattr(type(r), "vc_strjoin"):
            return r.vc_strjoin(sep)
        U("join of a symbolic iterable")
    xs = list(it if r is None else r)
    if not anysym(xs):
        return sep.join(xs)
    out = ""
    for i, x in enumerate(xs):
        if not isinstance(x, str):
            raise TypeError("sequence item: expected str instance")
        out = out + (sep + x if i and sep else x)
    return out


@method(str, "startswith")
def m_str_sw(s, p, *a):
    if is_sym(p):
        return mkbool(z3.PrefixOf(sv(p), z3.StringVal(s)))
    return s.startswith(p, *a)


for _t in (set, frozenset, dict, tuple, list):
    METHODS[(_t, "__contains__")] = lambda s, x: h_in(x, s)


@method(dict, "get")
def m_dict_get(d, k, default=None):
    if is_sym(k):
        for key in d:
            if E().fork(eq_term(k, key)):
                return d[key]
        return default
    return d.get(k, default)


@method(type, "fromkeys")
def m_fromkeys(t, it, v=None):
    if t is dict:
        r = symiter(it)
        if r is not None and not isinstance(r, _Conc):
            U("fromkeys of a symbolic iterable")
        return SDict([(k, v) for k in (it if r is None else r)])
    return t.fromkeys(it, v)


# ------------------------------------------------------------------------------------------------ struct
SIZES = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True), "I": (4, False), "i": (4, True), "L": (4, False), "l": (4, True), "Q": (8, False), "q": (8, True)}


def fmt_parse(f):
    if isinstance(f, bytes):
        f = f.decode()
    order = "<"
    if f[:1] in "<>=!@":
        order, f = f[0], f[1:]
    else:
        order = "@"
    out = []
    import re
    for n, c in re.findall(r"(\d*)([a-zA-Z?])", f):
        if c not in SIZES:
            U(f"struct format {c}")
        out += [c] * (int(n) if n else 1)
    if order == "@" and len(out) > 1:
        U("native-aligned struct format")
    return order, out


@method(struct.Struct, "pack")
def m_pack(st, *vals):
    if not anysym(vals):
        return st.pack(*vals)
    order, fs = fmt_parse(st.format)
    if len(fs) != len(vals):
        raise struct.error("pack expected items")
    e = E()
    out = []
    for c, v in zip(fs, vals):
        n, sg = SIZES[c]
        t = iv(v)
        if t is None:
            raise struct.error("required argument is not an integer")
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if sg else (0, (1 << (8 * n)) - 1)
        if not e.fork(z3.And(t >= lo, t <= hi)):
            raise struct.error("format requires lo <= number <= hi")
        if sg:
            t = t % (1 << (8 * n))
        if n == 1:
            bs = [t]
        else:
            bs = [(t / z3.IntVal(1 << (8 * i))) % 256 if i else t % 256 for i in range(n)]
        if order in ">!":
            bs = bs[::-1]
        out += [mkint(b) for b in bs]
    return norm(SCat([out]))


@method(struct.Struct, "unpack")
def m_unpack(st, b):
    if not is_sym(b):
        return st.unpack(b)
    order, fs = fmt_parse(st.format)
    tot = sum(SIZES[c][0] for c in fs)
    n = length(b)
    if not (n == tot if type(n) is int else E().fork(iv(n) == tot)):
        raise struct.error(f"unpack requires a buffer of {tot} bytes")
    return unpack_at(b, 0, order, fs)


def unpack_at(b, off, order, fs):
    vals = []
    p = off
    for c in fs:
        n, sg = SIZES[c]
        t = z3.IntVal(0)
        for i in range(n):
            sh = i if order not in ">!" else n - 1 - i
            x = b.at(z3.IntVal(p + i)) if type(b) is SBytes else getitem(b, p + i)
            t = t + iv(x) * (1 << (8 * sh))
        if sg:
            t = z3.If(t >= (1 << (8 * n - 1)), t - (1 << (8 * n)), t)
        vals.append(mkint(t))
        p += n
    return tuple(vals)


@method(struct.Struct, "unpack_from")
def m_unpack_from(st, b, offset=0):
    if not is_sym(b):
        return st.unpack_from(b, offset)
    order, fs = fmt_parse(st.format)
    tot = sum(SIZES[c][0] for c in fs)
    n = iv(length(b))
    if not E().fork(n >= offset + tot):
        raise struct.error("unpack_from requires a larger buffer")
    return unpack_at(b, offset, order, fs)


MODELS[struct.unpack] = lambda f, b: m_unpack(struct.Struct(f), b)
MODELS[struct.pack] = lambda f, *v: m_pack(struct.Struct(f), *v)
MODELS[struct.unpack_from] = lambda f, b, o=0: m_unpack_from(struct.Struct(f), b, o)


# ------------------------------------------------------------------------------------------------ binary streams
class SReader(Sym):
    """a readable, seekable binary stream over a symbolic buffer: [org, size) of `base`; size may be unknown"""
    __slots__ = ("base", "pos", "size", "closed", "w", "org")

    def __init__(self, base, pos, size, w=None, org=0):
        self.base, self.pos, self.size, self.org = base, iv(pos), iv(size), iv(org)
        self.w = w

    def _touch(self):
        if self.w is not None:
            self.w.touch()

    def read(self, n=-1):
        self._touch()
        left = z3.If(self.size > self.pos, self.size - self.pos, z3.IntVal(0))
        if n is None:
            k = left
        else:
            t = iv(n)
            k = z3.If(z3.Or(t < 0, t > left), left, t)
        k = z3.simplify(k)
        r = SBytes(self.base, self.pos, k)
        self.pos = z3.simplify(self.pos + k)
        return r

    def seek(self, off, whence=0):
        self._touch()
        if whence == os.SEEK_SET:
            p = iv(off)
            if E().fork(p < 0):
                raise ValueError("negative seek value")
            p = self.org + p
        elif whence == os.SEEK_CUR:
            p = self.pos + iv(off)
            p = z3.If(p < self.org, self.org, p)
        else:
            p = self.size + iv(off)
            p = z3.If(p < self.org, self.org, p)
        self.pos = z3.simplify(p)
        return mkint(z3.simplify(self.pos - self.org))

    def tell(self):
        return mkint(z3.simplify(self.pos - self.org))

    def close(self):
        pass

    def getvalue(self):
        return SBytes(self.base, self.org, self.size - self.org)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class SCatReader(Sym):
    """reader over a byte concatenation: reads must follow the part boundaries the verifier can see"""


class SWriter(Sym):
    __slots__ = ("parts", "start")

    def __init__(self, init=b"", start=0):
        self.parts = [init] if length(init) != 0 or is_sym(init) else []
        self.start = start

    def write(self, b):
        self.parts.append(b)
        return length(b)

    def tell(self):
        t = iv(self.start)
        for p in self.parts:
            t = t + iv(length(p))
        return mkint(t)

    def getvalue(self):
        if not anysym(self.parts):
            return b"".join(self.parts)
        return norm(SCat(self.parts))

    def getbuffer(self):
        return self.getvalue()

    def read(self, n=-1):
        return b""

    def writelines(self, it):
        for x in it:
            self.write(x)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


@model(io.BytesIO)
def m_bytesio(init=b""):
    if is_sym(init):
        if type(init) is SBytes:
            return SReader(init.base, init.off, z3.simplify(init.off + init.n), org=init.off)
        if type(init) is SCat:
            base = E().fresh("buf", ArrII)
            conds, end = init.constrain(base, z3.IntVal(0))
            for c in conds:
                E().assume(c)
            return SReader(base, z3.IntVal(0), end)
        U("BytesIO over this symbolic value")
    if length(init) == 0:
        return SWriter()
    return io.BytesIO(init)
