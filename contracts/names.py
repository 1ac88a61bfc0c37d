"""C16: the column names (rxls.reader.common:__make_header).

Any number of columns: the k-th of the table is the one at place SORT(k).  The function is verified against a specification by recursion over
the columns: CARRY(k, r) is the header cell in row r that columns from the k-th on inherit, BASE(k) the text of the k-th header and FINAL(k)
its name: the first of BASE(k), BASE(k).1, BASE(k).2, ... that is not the name of an earlier column.  Header heights above 1 are bounded."""
from __future__ import annotations
import re
import z3
import pyarrow as pa
from vc.engine import E, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, sv, is_sym, U
from vc.heap import HeapObj
from vc.loops import World
from vc.models_fam import Fam, FamBase, FamDict, FamList
from . import api
from .api import vc
from . import readfn
from .readfn import I, S, B, F, NC, K, SORT, COLNO, COLPOS, Ser, Scalar, St, TRUST, famlist, in_range, sort_model, sorted_at, window, st, setup, run, pick_header, check_arrays, name, what
import rxls.reader.common as common

TXT, NUL = F("text_of_cell", I, I, S), F("no_text_in_cell", I, I, B)
CN, CT, SEEN = F("nothing_inherited", I, I, B), F("inherited_text", I, I, S), F("header_seen_before", I, B)
BASE, FINAL, TRIES = F("header_text", I, S), F("final_name", I, S), F("repeats", I, I)
IN = F("name_taken_before", I, S, B)
EMPTY, UNNAMED = z3.StringVal(""), z3.StringVal("Unnamed")


def own_cells(k):
    s = st()
    p = SORT(k)
    return [(NUL(p, s.first + r), TXT(p, s.first + r)) for r in range(s.rows)]


def step(k):
    """what column k of the table adds to the specification"""
    e, s = E(), st()
    cells = own_cells(k)
    has = z3.Or(*[z3.Not(n) for n, _ in cells])
    out = []
    filled = []
    for r, (n, t) in enumerate(cells):
        above = z3.And(*[x for x, _ in cells[:r + 1]])      # nothing in this row or above it
        fill = z3.BoolVal(s.rows > 1)
        fn = z3.If(z3.And(above, fill), CN(k, r), n)
        ft = z3.If(z3.And(above, fill), CT(k, r), z3.If(n, EMPTY, t))
        filled.append((fn, ft))
        out += [CN(k + 1, r) == z3.If(has, fn, CN(k, r)), CT(k + 1, r) == z3.If(has, ft, CT(k, r)), z3.Implies(CN(k, r), CT(k, r) == EMPTY)]
    out.append(SEEN(k + 1) == z3.Or(SEEN(k), has))
    out.append(z3.Implies(z3.Not(SEEN(k)), z3.And(*[CN(k, r) for r in range(s.rows)])))
    # the texts that are there, joined
    here = [z3.And(z3.Not(fn), ft != EMPTY) for fn, ft in filled]

    def joined(r, started):
        if r == s.rows:
            return EMPTY
        rest = joined(r + 1, started)
        sep = z3.Concat(z3.StringVal(", "), filled[r][1]) if started else filled[r][1]
        more = joined(r + 1, True)
        return z3.If(here[r], z3.Concat(sep, more) if r + 1 < s.rows else sep, rest)
    out.append(BASE(k) == z3.If(z3.And(has, z3.Or(*here)), joined(0, False), UNNAMED))
    for c in out:
        e.assume(z3.Implies(in_range(k), c))
    for r in range(s.rows):
        e.assume(z3.And(CN(z3.IntVal(0), r), CT(z3.IntVal(0), r) == EMPTY))
    e.assume(z3.Not(SEEN(z3.IntVal(0))))
    sorted_at(k)


SUF = F("with_suffix", S, I, S)         # SUF(s, j) stands for the text s + "." + str(j), j >= 0: see suffix()


def flat(t):
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        return [x for c in t.children() for x in flat(c)]
    return [t]


def suffix(t):
    """texts of the form s + "." + str(j) are abbreviated: what is proved holds whatever the abbreviation means"""
    p = flat(t)
    if len(p) > 1 and z3.is_string_value(p[-1]):
        m = re.fullmatch(r"\.(0|[1-9][0-9]*)", p[-1].as_string())
        return SUF(z3.Concat(*p[:-1]) if len(p) > 2 else p[0], z3.IntVal(int(m[1]))) if m else t
    if len(p) < 3 or not z3.is_app_of(p[-1], z3.Z3_OP_INT_TO_STR) or not z3.is_string_value(p[-2]) or p[-2].as_string() != ".":
        return t
    return SUF(z3.Concat(*p[:-2]) if len(p) > 3 else p[0], p[-1].arg(0))


def cand(k, j):
    return z3.If(j <= 0, BASE(k), SUF(BASE(k), j))


def final(k):
    """the specification of the k-th name"""
    e = E()
    e.assume(z3.And(TRIES(k) >= 0, FINAL(k) == cand(k, TRIES(k)), z3.Not(IN(k, FINAL(k)))))
    return FINAL(k)


def taken(k, x, j=None):
    """is x the name of one of the first k columns"""
    e = E()
    e.assume(z3.Implies(k <= 0, z3.And(z3.Not(IN(k, x)), z3.Not(IN(k, BASE(k))))))
    final(k)
    e.assume(z3.Implies(TRIES(k) > 0, IN(k, BASE(k))))
    if j is not None:           # TRIES(k) is the least number that is not taken
        e.assume(z3.Implies(z3.And(j >= 0, j < TRIES(k)), IN(k, cand(k, j))))
    return IN(k, x)


class Tried(World):
    """ghost: how often a name was looked for among the earlier ones"""
    name = "tried"

    def __init__(self):
        self.j = z3.IntVal(0)
        super().__init__()

    def loc(self):
        return ""

    def havoc(self, loc):
        self.j = E().fresh("tries", I)
        E().assume(self.j >= 0)

    def its(self):
        return [w for w in E().world if w.name.startswith("it:")][-1:]

    def ghosts(self):
        out = {"tests": self.j}
        for n, w in enumerate(self.its()):
            i = z3.simplify(w.i - 1)
            taken(i, cand(i, self.j), self.j)
            taken(i, BASE(i), z3.IntVal(0))
            out[f"candidate{n}"] = cand(i, self.j)
            out[f"base{n}"] = BASE(i)
        return out

    def guards(self):
        return []

    def facts(self):
        return {"no tests": self.j == 0, "tests": self.j >= 1, **{f"not too many tests{n}": z3.And(self.j >= 0, self.j <= TRIES(z3.simplify(w.i - 1))) for n, w in enumerate(self.its())}}


class Inherited(World):
    """ghost: the header cells the following columns inherit"""
    name = "inherited"

    def loc(self):
        return ""

    def havoc(self, loc):
        pass

    def ghosts(self):
        out = {}
        for n, w in enumerate([w for w in E().world if w.name.startswith("it:")][-1:]):
            i = z3.simplify(w.i)
            step(z3.simplify(i - 1))
            step(i)
            out[f"none{n}"] = z3.Not(SEEN(i))
            for r in range(st().rows):
                out[f"null{n}.{r}"] = CN(i, r)
                out[f"text{n}.{r}"] = CT(i, r)
        return out

    def guards(self):
        return []


class HDict(HeapObj):
    """a dict from header rows to texts or None: per row, is it there, is it None, its text"""
    __slots__ = ("d",)

    def __init__(self, pairs=()):
        self.d = {}
        self._reg()
        for k, v in pairs:
            self._put(k, v)

    @property
    def __class__(self):
        return dict

    def _put(self, k, v):
        if type(k) is not int or not 0 <= k < st().rows or not (v is None or isinstance(v, str)):
            U(f"a dict of header cells with {k!r}: {v!r}")
        later = [p for r, (p, _, _) in self.d.items() if r > k]      # a dict keeps the order of insertion: here always ascending
        if later and (k not in self.d or not E().fork(self.d[k][0])) and E().fork(z3.Or(*later)):
            U("the order of a dict of header cells")
        if k not in self.d:
            self.d[k] = None
            self.d = {r: self.d[r] for r in sorted(self.d)}
        self.d[k] = (z3.BoolVal(True), z3.BoolVal(v is None), EMPTY if v is None else sv(v))

    def __setitem__(self, k, v):
        self.touch()
        self._put(k, v)

    def vc_iter(self):
        """the rows that are there, telling apart what is there"""
        return [r for r, (p, _, _) in self.d.items() if E().fork(p)]

    def val(self, r):
        _, n, t = self.d[r]
        return None if E().fork(n) else SStr(t)

    def items(self):
        return [(r, self.val(r)) for r in self.vc_iter()]

    def values(self):
        return [self.val(r) for r in self.vc_iter()]

    keys = vc_list = vc_iter

    def __iter__(self):
        return iter(self.vc_iter())

    def __bool__(self):
        return bool(self.d) and E().fork(z3.Or(*[p for p, _, _ in self.d.values()]))

    def vc_len(self):
        return len(self.vc_iter())

    __len__ = vc_len

    def vc_contains(self, k):
        if is_sym(k):
            U("a symbolic header row")
        return k in self.d and E().fork(self.d[k][0])

    __contains__ = vc_contains

    def get(self, k, default=None):
        return self.val(k) if self.vc_contains(k) else default

    def vc_getitem(self, k):
        if not self.vc_contains(k):
            raise KeyError(k)
        return self.val(k)

    __getitem__ = vc_getitem

    def setdefault(self, k, v=None):
        if not self.vc_contains(k):
            self[k] = v
        return self.val(k)

    def update(self, o=(), **kw):
        if kw:
            U("update with keywords")
        for k, v in (o.items() if isinstance(o, dict) else o):
            self[k] = v

    def copy(self):
        c = HDict()
        c.d = dict(self.d)
        return c

    vc_dict = copy

    def __or__(self, o):
        c = self.copy()
        c.update(o)
        return c

    __ior__ = None

    def clear(self):
        self.touch()
        self.d = {}

    def state(self):
        rows = st().rows
        cells = [self.d.get(r, (z3.BoolVal(False), z3.BoolVal(True), EMPTY)) for r in range(rows)]
        out = {"empty": ("bool", z3.simplify(z3.Not(z3.Or(*[p for p, _, _ in cells])))), "full": ("bool", z3.simplify(z3.And(*[p for p, _, _ in cells])))}
        for r, (p, n, t) in enumerate(cells):
            n = z3.simplify(z3.Or(n, z3.Not(p)))
            out[f"there{r}"] = ("bool", z3.simplify(p))
            out[f"null{r}"] = ("bool", n)
            out[f"text{r}"] = ("str", z3.simplify(z3.If(n, EMPTY, t)))
        return out

    def fresh(self, name):
        e = E()
        self.d = {}
        for r in range(st().rows):
            p, n, t = e.fresh(f"{name}_there{r}", B), e.fresh(f"{name}_null{r}", B), e.fresh(f"{name}_text{r}", S)
            e.assume(z3.And(z3.Implies(z3.Not(p), n), z3.Implies(n, t == EMPTY)))
            self.d[r] = (p, n, t)

    def vc_kind(self):
        return ("obj", HDict)

    vc_terms = state

    @staticmethod
    def vc_havoc(name, orig, kind):
        h = HDict()
        h.fresh(name)
        return h

    def vc_absterm(self):
        return self.state()

    def vc_abskinds(self):
        return ()

    def vc_makeabs(self, name, kinds):
        self.fresh(name)

    __hash__ = None


class NameBox(FamList):
    """a list or set of texts, known as members of the families as far as possible"""
    __slots__ = ()

    def row(self, i, x):
        if isinstance(x, str):      # what is not one of the texts of the specification is some text
            return (("", 1), (*known_family(i, x), "any text"))
        return super().row(i, x)

    def vc_contains(self, x):
        e = E()
        if not isinstance(x, str):
            return False
        if self.rows is not None:
            if self.rows:
                return mkbool(z3.Or(*[sv(y) == sv(x) for y in self.rows if isinstance(y, str)]))
            n = z3.IntVal(0)
        else:
            if self.shape is not None and "final name" not in self.shape[1]:
                return mkbool(e.fresh("among_other_names", B))
            n = self.n
        w = next((w for w in e.world if w.name == "tried"), None)
        x = sv(x)
        r = taken(n, x, w.j)
        if e.valid(x == cand(n, w.j)):
            r = e.fork(r)
            if r:                   # the first w.j candidates are known to be taken
                w.touch()
                w.j = z3.simplify(w.j + 1)
            return r
        return mkbool(r)

    def __contains__(self, x):
        return bool(self.vc_contains(x))

    def add(self, x):
        if self.rows is not None:
            self.touch()
            self.rows.append(x)
        else:
            FamBase.add(self, x)
        self.tried()

    def tried(self):
        w = next((w for w in E().world if w.name == "tried"), None)
        w.touch()
        w.j = z3.IntVal(0)


class NameList(NameBox):
    __slots__ = ()

    def append(self, x):
        self.add(x)


class NameSet(NameBox):
    __slots__ = ()

    @property
    def __class__(self):
        return set

    def append(self, x):
        raise AttributeError("'set' object has no attribute 'append'")

    extend = append

    def vc_getitem(self, k):
        raise TypeError("'set' object is not subscriptable")

    def add(self, x):
        """only what is not in it yet: the length stays the number of columns before"""
        e = E()
        n = z3.IntVal(0) if self.rows is not None else self.n
        if not e.valid(z3.Not(taken(n, sv(x)))):
            U("a text added to a set that may hold it")
        super().add(x)


def known_family(i, x):
    from vc.models_fam import scalar
    t = scalar(x)[1]
    return [f.name for f in E().families if f.kind == "str" and f.name != "any text" and E().valid(t == f.at(i))]


class Texts(Sym):
    """header cells of a column as texts"""
    __slots__ = ("p", "off", "n")

    def __init__(self, p, off, n):
        self.p, self.off, self.n = p, off, n

    @property
    def __class__(self):
        return pa.StringArray

    def at(self, j):
        return None if E().fork(NUL(self.p, z3.simplify(self.off + j))) else SStr(TXT(self.p, z3.simplify(self.off + j)))

    def count(self):
        n = z3.simplify(self.n)
        if not z3.is_int_value(n):
            U("a window of unknown length")
        return n.as_long()

    def vc_getitem(self, i):
        if is_sym(i) or type(i) is not int:
            U("a header cell at a symbolic place")
        n = self.count()
        if not -n <= i < n:
            raise IndexError("index out of bounds")
        return Scalar(self.at(i % n))

    __getitem__ = vc_getitem

    def to_pylist(self):
        return [self.at(j) for j in range(self.count())]

    tolist = to_pylist

    def vc_iter(self):
        return [Scalar(self.at(j)) for j in range(self.count())]

    def vc_len(self):
        return self.count()


def header(rows):
    e = E()
    e.pid = "C16"
    e.families = (Fam("column number", COLNO, COLPOS), Fam("column", lambda i: i, kind="series", mk=Ser),
                  Fam("header text", BASE, on=lambda k: step(k) or []), Fam("final name", FINAL, on=lambda k: [final(k) is not None]), Fam("any text", lambda i: E().fresh("any_text", S), kind="str"))
    e.by = {f.name: f for f in e.families}
    e.family_types = {}
    e.list_factory, e.dict_factory, e.set_factory = NameList, HDict, NameSet
    e.sort_model, e.comp_list, e.str_norm = sort_model, None, suffix
    s = e.scn = St()
    s.filters = s.types = s.lookup = s.boom = None
    s.rows = rows
    s.by = "names"
    s.first = z3.Int("first_row")
    e.scenario = f"@{rows}"
    e.assume(z3.And(s.first >= 0, NC >= 0))
    s.texts = Texts
    Tried()
    Inherited()
    f = common.__dict__.get("__make_header")
    if f is None:
        U("there is no function __make_header")
    columns = famlist(FamDict, NC, "column number", "column")
    h = (True if e.choose(2, "as") else 1) if rows == 1 else rows
    try:
        r = f(columns, mkint(s.first), h)
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        if type(ex).__name__ in ("Unsupported", "Restart", "PathEnd"):
            raise
        e.fail("names: every header gives names", what(ex))
    if not isinstance(r, list) or not is_sym(r):
        e.fail("names: a list of names", repr(r))
    n = iv(r.vc_len())
    e.prove(n == NC, "names: exactly one name per column")
    e.assume(in_range(K))
    e.check_feasible()
    e.cover("names")
    step(K)
    x = r.vc_getitem(mkint(K))
    if not isinstance(x, str):
        e.fail("names: a name is a text", repr(x))
    e.prove(sv(x) == final(K), "names: a column is named by its header, repeated names by the first free suffix", lambda m: f"{m.eval(sv(x))} instead of {m.eval(FINAL(K))}")
    # names are distinct: of two columns the later one's name is none of the earlier ones
    a = e.fresh("earlier", I)
    e.assume(z3.And(a >= 0, a < K, IN(K, FINAL(a))))
    e.prove(FINAL(a) != final(K), "names: all names are distinct")


vc("C16", "__make_header (height 1)", functions=("rxls.reader.common:__make_header",), covers=("names",), assumes=TRUST)(lambda: header(1))
for _h in (2, 3) if api.thorough() else (2,):
    vc("C16", f"__make_header (height {_h})", functions=("rxls.reader.common:__make_header",), covers=("names",), assumes=TRUST, bounded=f"header height {_h}; any number of columns", budget=400)(lambda h=_h: header(h))
