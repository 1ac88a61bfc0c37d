"""Model of pyexpat: the parser delivers the events of an arbitrary document of a given grammar to the handlers of the real code.

A document is a `Doc`: places (where in the document the parser is), the elements that may start in each place, the places with
text.  Foreign elements (any other name, nested to any depth) may occur everywhere outside text places; the text of an element comes in any number of
pieces.  Parsing is a cut loop whose variables are the closure variables the handlers assign."""
from __future__ import annotations
import dis, types
import z3
from .engine import E, PathEnd, Abort
from .values import *   # noqa: F403
from .values import U, is_sym, sv, iv, bv_, eq_term
from .heap import HeapObj
from .loops import World, Cut
from . import runtime

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()


class TextList(HeapObj):
    """a list of texts (or None): exact while concrete; once a loop over unbounded data changes it, known by its length, the text of
    all its items joined, and the item at the watched index of the harness (e.watch_index)"""
    __slots__ = ("items", "n", "text", "at", "none")

    def __init__(self, items=()):
        self.items = list(items)
        self._reg()

    @property
    def __class__(self):
        return list

    def __repr__(self):
        return f"<texts {self.items}>"

    def vc_absterm(self):
        e = E()
        d = {}
        w = getattr(e, "watch_index", None)
        if self.items is not None:
            d["n"] = ("int", z3.IntVal(len(self.items)))
            if all(x is None or isinstance(x, str) for x in self.items):
                if all(isinstance(x, str) for x in self.items):
                    t = z3.StringVal("")
                    for x in self.items:
                        t = sv(x) if z3.is_string_value(t) and t.as_string() == "" else z3.Concat(t, sv(x))
                    d["text"] = ("str", t)
                if w is not None:
                    at, none = z3.StringVal(""), z3.BoolVal(False)
                    for i, x in enumerate(self.items):
                        at = z3.If(w == i, z3.StringVal("") if x is None else sv(x), at)
                        none = z3.If(w == i, z3.BoolVal(x is None), none)
                    d["at"], d["none"] = ("str", at), ("bool", none)
            return d
        d["n"] = ("int", self.n)
        if self.text is not None:
            d["text"] = ("str", self.text)
        if self.at is not None:
            d["at"], d["none"] = ("str", self.at), ("bool", self.none)
        return d

    def vc_abskinds(self):
        if self.items is None:
            return (("text" if self.text is not None else "-", "at" if self.at is not None else "-"),)
        d = self.vc_absterm()
        return (("text" if "text" in d else "-", "at" if "at" in d else "-"),)

    def vc_makeabs(self, name, kinds):
        e = E()
        ks = [x for k in kinds for x in k] if kinds and isinstance(kinds[0], tuple) else list(kinds)
        self.items = None
        self.n = e.fresh(name + "_n", I)
        e.assume(self.n >= 0)
        texts = [k[0] for k in kinds]
        ats = [k[1] for k in kinds]
        self.text = e.fresh(name + "_text", S) if "-" not in texts else None
        if self.text is not None:
            e.assume(z3.Implies(self.n == 0, self.text == z3.StringVal("")))
        self.at = self.none = None
        if "-" not in ats:
            self.at, self.none = e.fresh(name + "_at", S), e.fresh(name + "_none", B)

    # -- python protocol
    def append(self, x):
        self.touch()
        if self.items is not None:
            self.items.append(x)
            return
        w = getattr(E(), "watch_index", None)
        if x is not None and not isinstance(x, str):
            U(f"item {x!r} in an abstract list of texts")
        if self.at is not None and w is not None:
            self.at = z3.If(self.n == w, z3.StringVal("") if x is None else sv(x), self.at)
            self.none = z3.simplify(z3.If(self.n == w, z3.BoolVal(x is None), self.none))
        if self.text is not None:
            self.text = None if x is None else z3.Concat(self.text, sv(x))
        self.n = z3.simplify(self.n + 1)

    def extend(self, it):
        for x in it:
            self.append(x)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def clear(self):
        self.touch()
        self.items = []

    def vc_len(self):
        return len(self.items) if self.items is not None else mkint(self.n)

    def __len__(self):
        if self.items is not None:
            return len(self.items)
        U("len() of an abstract list in native code")

    def __bool__(self):
        if self.items is not None:
            return bool(self.items)
        return E().fork(self.n > 0)

    def __iter__(self):
        if self.items is not None:
            return iter(list(self.items))
        U("iteration over an abstract list of texts")

    def vc_iter(self):
        if self.items is not None:
            return iter(list(self.items))
        return self

    def vc_strjoin(self, sep):
        if sep != "" or self.text is None:
            U("join of an abstract list of texts")
        return mkstr(self.text)

    def vc_getitem(self, k):
        if self.items is None or is_sym(k):
            U("item of an abstract list of texts")
        return TextList(self.items[k]) if isinstance(k, slice) else self.items[k]

    __getitem__ = vc_getitem

    def __delitem__(self, k):
        if isinstance(k, slice) and k == slice(None, None, None):
            return self.clear()
        if self.items is None:
            U("deletion from an abstract list of texts")
        self.touch()
        del self.items[k]

    def pop(self, i=-1):
        if self.items is None:
            U("pop from an abstract list of texts")
        self.touch()
        return self.items.pop(i)

    def copy(self):
        if self.items is None:
            U("copy of an abstract list of texts")
        return TextList(self.items)

    def vc_contains(self, x):
        if self.items is None:
            U("membership in an abstract list of texts")
        return mkbool(z3.Or(*[eq_term(x, y) for y in self.items]) if self.items else False)

    __hash__ = None


class WatchSet(HeapObj):
    """a set that is only filled: `has` says whether the watched key is in it.  e.watch_key(x) -> z3 Bool: is x the watched key"""
    __slots__ = ("has",)

    def __init__(self, items=()):
        self.has = z3.BoolVal(False)
        self._reg()
        for x in items:
            self.add(x)

    @property
    def __class__(self):
        return set

    def add(self, x):
        self.touch()
        self.has = z3.simplify(z3.Or(self.has, E().watch_key(x)))

    def update(self, *its):
        for it in its:
            if type(it) is WatchSet:
                self.touch()
                self.has = z3.Or(self.has, it.has)
                continue
            for x in it:
                self.add(x)

    def discard(self, x):
        self.touch()
        self.has = z3.simplify(z3.And(self.has, z3.Not(E().watch_key(x))))

    remove = discard

    def copy(self):
        r = WatchSet()
        r.has = self.has
        return r

    vc_set = copy

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def vc_contains(self, x):
        e = E()
        if e.valid(e.watch_key(x)):
            return mkbool(self.has)
        U("membership of another key in a watched set")

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def __iter__(self):
        U("iteration over a watched set")

    def vc_absterm(self):
        return {"has": ("bool", self.has)}

    def vc_abskinds(self):
        return ()

    def vc_makeabs(self, name, kinds):
        self.has = E().fresh(name + "_has", B)

    __hash__ = None


class Attrs(Sym):
    """the attributes of an element: name -> (present, text); names the document's schema does not list are absent"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    @property
    def __class__(self):
        return dict

    def _get(self, k):
        if is_sym(k):
            U("symbolic attribute name")
        p, t = self.d.get(k, (False, None))
        return (p if isinstance(p, bool) else E().fork(p)), t

    def vc_getitem(self, k):
        p, t = self._get(k)
        if not p:
            raise KeyError(k)
        return t

    __getitem__ = vc_getitem

    def get(self, k, d=None):
        p, t = self._get(k)
        return t if p else d

    def vc_contains(self, k):
        if is_sym(k):
            U("symbolic attribute name")
        p, _ = self.d.get(k, (False, None))
        return p if isinstance(p, bool) else mkbool(p)

    def __contains__(self, k):
        return self._get(k)[0]

    def __iter__(self):
        U("iteration over attributes")

    def __len__(self):
        U("number of attributes")

    __hash__ = None


class Doc(World):
    """an arbitrary document.  GRAMMAR: place -> {tag: place}; TEXT: places whose character data counts; REQ: attributes by tag"""
    name = "doc"
    GRAMMAR = {"out": {}}
    TEXT = ()
    FIRST = "out"

    def __init__(self, malformed=True):
        self.place = self.FIRST
        self.foreign = z3.IntVal(0)
        self.malformed_ok, self.ended, self.broken = malformed, False, False
        self.over = False       # no event follows
        self.tags = {t for d in self.GRAMMAR.values() for t in d}
        self.parent, self.tag = {}, {}
        for p, d in self.GRAMMAR.items():
            for t, q in d.items():
                self.parent[q], self.tag[q] = p, t
        super().__init__()

    def loc(self):
        return self.place

    def havoc(self, loc):
        if self.over:
            return
        self.place = loc or self.FIRST
        self.foreign = E().fresh("foreign", I)
        self.havoc_spec()

    def facts(self):
        return {"foreign>0": self.foreign >= 1}

    # -- to override
    def havoc_spec(self):
        pass

    def attrs(self, place, tag):
        return Attrs({})

    def start(self, place, tag, attrs):
        pass

    def end(self, place, tag):
        pass

    def text(self, place, t):
        pass

    def arrived(self):
        pass

    def eof(self):
        pass

    def arrive(self, key, entry):
        if not self.over:
            self.arrived()

    # -- the events
    def event(self, p):
        e = E()
        outer = self.place.endswith("+")
        here = self.place.rstrip("+")
        kids = [] if outer else sorted(self.GRAMMAR.get(here, {}).items())
        evs = [("start", t, q) for t, q in kids]
        if here not in self.TEXT:
            evs.append(("?start",))
        if outer or here == self.FIRST:
            evs.append(("?end",))
        if not outer and here != self.FIRST:
            evs.append(("end",))
        evs.append(("text",))
        if here == self.FIRST and not outer:
            evs.append(("eof",))
        if self.malformed_ok:
            evs.append(("broken",))
        ev = evs[e.choose(len(evs), "event")]
        self.touch()
        k = ev[0]
        if k == "eof":
            self.ended = True
            self.eof()
            return False
        if k == "broken":
            self.broken = True
            import pyexpat
            raise pyexpat.ExpatError("malformed document")
        if k == "start":
            e.cover(f"<{ev[1]}> in {here}")
            a = self.attrs(ev[2], ev[1])
            self.start(ev[2], ev[1], a)
            self.place = ev[2]
            p.fire("StartElementHandler", ev[1], a)
        elif k == "end":
            t = self.tag[here]
            self.end(here, t)
            self.place = self.parent[here]
            p.fire("EndElementHandler", t)
        elif k == "text":
            t = e.fresh("chars", S)
            e.assume(z3.Length(t) >= 1)
            if here in self.TEXT and not outer:
                self.text(here, t)
            p.fire("CharacterDataHandler", SStr(t))
        else:
            t = SStr(e.fresh("tag", S))
            e.assume(z3.And(z3.Length(t.t) >= 1, *[t.t != z3.StringVal(x) for x in sorted(self.tags)]))
            if k == "?start":
                if here != self.FIRST:
                    self.foreign = z3.simplify(self.foreign + 1) if outer else z3.IntVal(1)
                    self.place = here + "+"
                p.fire("StartElementHandler", t, Attrs({}))
            else:
                if here != self.FIRST:
                    if e.fork(self.foreign == 1):
                        self.place = here
                    else:
                        e.assume(self.foreign >= 2)
                        e.check_feasible()
                        self.foreign = z3.simplify(self.foreign - 1)
                p.fire("EndElementHandler", t)
        return True


def assigned(code, out):
    """names of the free variables a function assigns"""
    free = set(code.co_freevars)
    for ins in dis.get_instructions(code):
        if ins.opname in ("STORE_DEREF", "DELETE_DEREF") and ins.argval in free:
            out.add(ins.argval)
    return out


def closure(fs):
    """variables reachable from functions: (cells assigned somewhere: name -> cell)"""
    seen, cells = set(), {}
    todo = list(fs)
    while todo:
        f = todo.pop()
        if not isinstance(f, types.FunctionType) or id(f) in seen:
            continue
        seen.add(id(f))
        w = assigned(f.__code__, set())
        codes = [c for c in f.__code__.co_consts if isinstance(c, types.CodeType)]
        while codes:
            c = codes.pop()
            w |= assigned(c, set()) & set(f.__code__.co_freevars)
            codes += [x for x in c.co_consts if isinstance(x, types.CodeType)]
        for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try:
                v = c.cell_contents
            except ValueError:
                v = None
            if n in w:
                k = n
                i = 0
                while k in cells and cells[k] is not c:
                    i += 1
                    k = f"{n}#{i}"
                cells[k] = c
            if isinstance(v, types.FunctionType):
                todo.append(v)
            elif isinstance(v, types.MethodType):
                todo.append(v.__func__)
    return cells


class Parser(Sym):
    """pyexpat parser object"""
    HANDLERS = ("StartElementHandler", "EndElementHandler", "CharacterDataHandler")
    __slots__ = ("h", "used")

    def __init__(self):
        self.h, self.used = {}, False

    def vc_setattr(self, n, v):
        if n in self.HANDLERS:
            self.h[n] = v
        elif n in ("buffer_text", "buffer_size", "ordered_attributes", "specified_attributes"):
            if n.endswith("attributes") and v:
                U(f"parser.{n}")
        else:
            U(f"parser.{n}")

    def fire(self, n, *a):
        f = self.h.get(n)
        if f is not None:
            runtime.h_call(f, *a)

    def ParseFile(self, io):
        e = E()
        if self.used:
            U("a parser used twice")
        self.used = True
        doc = e.document(io)
        fs = [f for f in self.h.values() if f is not None]
        fs = [f.__func__ if isinstance(f, types.MethodType) else f for f in fs]
        cells = closure(fs)
        key = doc.key + "#events"
        names = sorted(cells)
        from .loops import UNBOUND

        def env():
            d = {}
            for n, c in cells.items():
                try:
                    d[n] = c.cell_contents
                except ValueError:
                    d[n] = UNBOUND
            return d
        cut = Cut(key, names, env())
        for n, c in cells.items():
            v = cut.vals[n]
            if v is UNBOUND:
                U(f"variable {n} unbound in the handlers")
            c.cell_contents = v
        try:
            if not doc.event(self):
                doc.over = True
                return 1
        except Abort:
            raise
        except BaseException:
            doc.over = True
            raise
        cut.done(env())

    def Parse(self, *a):
        U("parser.Parse")


def parser_create(encoding=None, namespace_separator=None, **k):
    if namespace_separator is not None:
        U("namespace processing")
    return Parser()
