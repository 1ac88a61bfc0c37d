"""The re module on symbolic text: patterns are translated to z3 regular expressions (memberships only, no groups)."""
from __future__ import annotations
import re
import re._constants as sc
import re._parser as sp
import z3
from .engine import E
from .values import *   # noqa: F403
from .values import U, is_sym, iv, sv
from .runtime import MODELS, METHODS, active

S = z3.StringSort()
RS = z3.ReSort(S)
ANY = z3.AllChar(RS)
ALL = z3.Full(RS)


def char(c):
    return z3.Re(z3.StringVal(chr(c)))


def rng(a, b):
    return z3.Range(chr(a), chr(min(b, 0x2FFFF)))


def union(xs):
    xs = list(xs)
    return z3.Empty(RS) if not xs else xs[0] if len(xs) == 1 else z3.Union(*xs)


CATS = {sc.CATEGORY_DIGIT: lambda: None, }


def category(c, flags):
    asc = bool(flags & re.ASCII)
    if c in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE):
        r = union([rng(9, 13), rng(28, 32)] + ([] if asc else [char(0x85), char(0xa0), char(0x1680), rng(0x2000, 0x200a), char(0x2028), char(0x2029), char(0x202f), char(0x205f), char(0x3000)]))
        return r if c == sc.CATEGORY_SPACE else z3.Intersect(ANY, z3.Complement(r))
    if asc and c in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT):
        r = rng(48, 57)
        return r if c == sc.CATEGORY_DIGIT else z3.Intersect(ANY, z3.Complement(r))
    if c in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT):
        import sys, unicodedata
        rs, lo = [], None
        for k in range(0x30000):
            d = chr(k).isdecimal()
            if d and lo is None:
                lo = k
            if not d and lo is not None:
                rs.append(rng(lo, k - 1))
                lo = None
        r = union(rs)
        return r if c == sc.CATEGORY_DIGIT else z3.Intersect(ANY, z3.Complement(r))
    U(f"regular expression category {c}")


def icase(c):
    return {c} | {ord(x) for x in (chr(c).lower(), chr(c).upper()) if len(x) == 1}


def cset(items, flags):
    neg = False
    rs = []
    for op, av in items:
        if op == sc.NEGATE:
            neg = True
        elif op == sc.LITERAL:
            rs += [char(c) for c in (icase(av) if flags & re.I else {av})]
        elif op == sc.RANGE:
            rs.append(rng(*av))
            if flags & re.I:
                for c in range(av[0], min(av[1], av[0] + 300) + 1):
                    rs += [char(x) for x in icase(c) if not av[0] <= x <= av[1]]
        elif op == sc.CATEGORY:
            rs.append(category(av, flags))
        else:
            U(f"regular expression set item {op}")
    r = union(rs)
    return z3.Intersect(ANY, z3.Complement(r)) if neg else r


def seq(items, flags):
    parts = []
    for op, av in items:
        if op == sc.LITERAL:
            parts.append(union(char(c) for c in (sorted(icase(av)) if flags & re.I else [av])))
        elif op == sc.NOT_LITERAL:
            parts.append(z3.Intersect(ANY, z3.Complement(char(av))))
        elif op == sc.ANY:
            parts.append(ANY if flags & re.S else z3.Intersect(ANY, z3.Complement(char(10))))
        elif op == sc.IN:
            parts.append(cset(av, flags))
        elif op == sc.BRANCH:
            parts.append(union(seq(x, flags) for x in av[1]))
        elif op == sc.SUBPATTERN:
            parts.append(seq(av[3], (flags | av[1]) & ~av[2]))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            x = seq(sub, flags)
            if hi == sc.MAXREPEAT:
                parts.append(z3.Star(x) if lo == 0 else z3.Plus(x) if lo == 1 else z3.Concat(*[x] * lo, z3.Star(x)))
            elif (lo, hi) == (0, 1):
                parts.append(z3.Option(x))
            elif hi == 0:
                pass
            else:
                parts.append(z3.Loop(x, lo, hi))
        else:
            U(f"regular expression construct {op}")
    return parts[0] if len(parts) == 1 else z3.Re(z3.StringVal("")) if not parts else z3.Concat(*parts)


_cache = {}


def whole(pattern, flags, how):
    """the z3 language of the texts on which re.<how>(pattern, text) succeeds"""
    key = (pattern, int(flags), how)
    if key in _cache:
        return _cache[key]
    p = sp.parse(pattern, flags)
    fl = p.state.flags
    items = list(p)
    head = tail = False
    if items and items[0][0] == sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and not fl & re.M:
        items, head = items[1:], True
    end = None
    if items and items[-1][0] == sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING) and not fl & re.M:
        end, tail = items[-1][1], True
        items = items[:-1]
    r = seq(items, fl)
    if tail and end == sc.AT_END and how != "fullmatch":
        r = z3.Concat(r, z3.Option(char(10)))
    if how == "search" and not head:
        r = z3.Concat(ALL, r)
    if how != "fullmatch" and not tail:
        r = z3.Concat(r, ALL)
    _cache[key] = r
    return r


class SMatch(Sym):
    """a successful match; the matched text only where texts are opaque"""

    def __init__(self, what, whole=None):
        self.what, self.whole = what, whole

    def group(self, *k):
        if self.whole is None or k not in ((), (0,)):
            U("group of a match on symbolic text")
        return self.whole()

    def vc_getitem(self, k):
        return self.group(k)

    __getitem__ = vc_getitem

    def __bool__(self):
        return True

    def __hash__(self):
        return id(self)


class Opaque:
    """What regular expressions make of texts that are not looked into: a chain of operations on a base text.  A chain that agrees with one of the
    specification functions (name -> (python function, z3 function)) on all `words` stands for it (a bounded argument: the words), any other
    chain is an uninterpreted function of the base text."""

    def __init__(self, specs, words):
        self.specs, self.words, self.reg, self.known, self.tried = specs, words, {}, {}, []

    def op(self, how, p, flags, repl, s, sort):
        t = sv(s)
        base, chain, f = self.reg.get(t.get_id(), (t, t, (), lambda w: w))[1:]
        if not chain:
            for n, (py, zf) in self.specs.items():
                if zf.range() == S and z3.is_app(t) and t.decl().eq(zf):
                    base, chain, f = t.arg(0), (n,), py
        c = re.compile(p, flags)
        if how == "sub":
            g = lambda w: c.sub(repl, f(w))
        elif how == "text":
            g = lambda w: (lambda m: m and m[0])(c.match(f(w)))
        elif how == "texts":
            g = lambda w: (lambda m: m and m[0])(c.search(f(w)))
        else:
            m = getattr(c, how)
            g = lambda w: m(f(w)) is not None
        chain = (*chain, (how, p, int(flags), repl))
        if chain not in self.known:
            self.known[chain] = self.find(chain, g, sort)
        name = self.known[chain]
        fn = self.specs[name][1] if name else z3.Function("re" + repr(chain), S, sort)
        r = fn(base)
        if sort == S:
            self.reg[r.get_id()] = (r, base, chain, g)
        return r

    def find(self, chain, g, sort):
        for n, (f, zf) in self.specs.items():
            if zf.range() != sort:
                continue
            w = next((w for w in self.words() if g(w) != f(w)), None)
            self.tried.append((chain, n, w))
            if w is None:
                return n


def opaque():
    return getattr(E(), "regex", None) if active() else None


def run(how, pattern, flags, s):
    if is_sym(s) and isinstance(s, str) and opaque() is not None:
        o = opaque()
        if how == "match" and all(op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[0] == 0 for op, av in sp.parse(pattern, flags)) or E().fork(o.op(how, pattern, flags, "", s, z3.BoolSort())):
            return SMatch(s, None if how == "fullmatch" else lambda: SStr(o.op({"match": "text", "search": "texts"}[how], pattern, flags, "", s, S)))
        return None
    if not is_sym(s):
        return getattr(re, how)(pattern, s, flags)
    if is_sym(pattern):
        U("a symbolic regular expression")
    if not isinstance(s, str):
        U("regular expression on symbolic bytes")
    if E().fork(z3.InRe(sv(s), whole(pattern, flags, how))):
        return SMatch(s)
    return None


def _mk(how):
    nat = getattr(re, how)

    def f(pattern, string, flags=0):
        if isinstance(pattern, re.Pattern):
            pattern, flags = pattern.pattern, pattern.flags & ~re.UNICODE
        return run(how, pattern, flags, string)
    MODELS[nat] = f

    def g(p, string, *a):
        if not is_sym(string):
            return getattr(p, how)(string, *a)
        if a:
            U("pattern method with a position")
        return run(how, p.pattern, p.flags & ~re.UNICODE, string)
    METHODS[(re.Pattern, how)] = g


for _h in ("search", "match", "fullmatch"):
    _mk(_h)


def sub(p, repl, s, count=0, flags=0):
    if isinstance(p, re.Pattern):
        p, flags = p.pattern, p.flags & ~re.UNICODE
    if not is_sym(s):
        return re.sub(p, repl, s, count, flags)
    if opaque() is None or count or is_sym(repl) or not isinstance(repl, str):
        U("re.sub on symbolic text")
    return SStr(opaque().op("sub", p, flags, repl, s, S))


MODELS[re.sub] = sub
METHODS[(re.Pattern, "sub")] = lambda p, repl, s, count=0: sub(p, repl, s, count)
