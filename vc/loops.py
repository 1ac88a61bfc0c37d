"""Loop cuts: invariants are inferred (Houdini) per loop and per ghost location, and proved on every run."""
from __future__ import annotations
import types
import z3
from .engine import E, PathEnd, Unsupported, Restart
from .values import *   # noqa: F403
from .values import U, is_sym, iv, bv_, sv, SInt, SBool, SStr, SBytes, SEnc, SCat, Poison, SView

UNBOUND = object()


class World:
    """a ghost/world object whose state a loop cut havocs.  Subclasses: ghosts(), loc(), havoc(loc), arrive(key, entry)"""
    name = "world"
    plain = False       # no candidate says that a variable is the opposite of one of the bool ghosts

    def __init__(self):
        self.version = 0
        E().world.append(self)

    def touch(self):
        self.version += 1

    def loc(self):
        return ""

    def locs_hint(self):
        return None

    def ghosts(self):
        """name -> z3 term (Int/Bool/String/Seq), the vocabulary of invariants"""
        return {}

    def measures(self):
        return {}

    def facts(self):
        """name -> z3 Bool: statements that may hold at a loop head (alone or under a bool ghost)"""
        return {}

    def guards(self):
        """names of the bool ghosts under which candidates are tried (None: all)"""
        return None

    def texts(self):
        """texts a program variable may be known to differ from"""
        return ()

    def havoc(self, loc):
        raise NotImplementedError

    def arrive(self, key, entry):
        """obligations of this world object at a loop head"""


class WSeq(World):
    """Abstract Python list / builder used as an accumulator: content is a z3 sequence term (opaque), only grown."""


def kind_of(v, entry=None):
    if v is UNBOUND or type(v) is Poison:
        return ("poison",)
    if v is None:
        return ("none",)
    t = type(v)
    if t in (bool, SBool):
        return ("bool",)
    if t in (int, SInt):
        return ("int",)
    if t in (str, SStr):
        return ("str",)
    if t in (bytes, SBytes, SCat):
        return ("bytes",)
    if t is SEnc:
        return ("enc", v.codec)
    if t is tuple:
        return ("tuple", *[kind_of(x) for x in v])
    k = getattr(v, "vc_kind", None)
    if k is not None and not isinstance(v, type):
        return k()
    return ("same",)


def mk_kind(kind, name, orig):
    e = E()
    k = kind[0]
    if k == "poison":
        return Poison(name)
    if k == "none":
        return None
    if k == "bool":
        return SBool(e.fresh(name, z3.BoolSort()))
    if k == "int":
        return SInt(e.fresh(name, z3.IntSort()))
    if k == "str":
        return SStr(e.fresh(name, z3.StringSort()))
    if k == "bytes":
        n = e.fresh(name + "_len", z3.IntSort())
        e.assume(n >= 0)
        return SBytes(e.fresh(name, ArrII), z3.IntVal(0), n)
    if k == "enc":
        return SEnc(SStr(e.fresh(name, z3.StringSort())), kind[1])
    if k == "tuple":
        return tuple(mk_kind(x, f"{name}_{i}", None) for i, x in enumerate(kind[1:]))
    if k == "same":
        return orig
    if k == "obj":
        return kind[1].vc_havoc(name, orig, kind)
    U(f"cannot havoc {name} of kind {kind}")


class LoopInv:
    def __init__(self):
        self.kinds = {}       # var -> list of kinds (alternatives)
        self.cands = None     # list of descriptors
        self.consts = {}      # var -> set of constants seen (small)
        self.mod = set()
        self.measures = None
        self.arrivals = 0


def ghost_vocab():
    g = {}
    for w in E().world:
        for k, t in w.ghosts().items():
            g[f"{w.name}.{k}"] = t
        for k, t in w.facts().items():
            g[f"fact:{w.name}.{k}"] = t
    for k, t in E().session_const.items():
        g[k] = t
    return g


def flat_env(env):
    """program variables as scalar terms: name -> ('int'|'bool'|'str', term)"""
    out = {}

    def put(n, v):
        t = type(v)
        if t is Poison or v is UNBOUND:
            return
        if t in (int, SInt):
            out[n] = ("int", iv(v))
        elif t in (bool, SBool):
            out[n] = ("bool", bv_(v))
        elif t in (str, SStr):
            out[n] = ("str", sv(v))
        elif t is tuple:
            for i, x in enumerate(v):
                put(f"{n}[{i}]", x)
        elif t is SBytes:
            out[n + ".off"] = ("int", v.off)
            out[n + ".n"] = ("int", v.n)
            out[n + ".base"] = ("arr", v.base)
        elif t is SEnc:
            out[n] = ("str", sv(v.s))
        elif hasattr(v, "vc_terms"):
            for k, (kk, t_) in v.vc_terms().items():
                out[f"{n}.{k}"] = (kk, t_)
    for n, v in env.items():
        put(n, v)
    return out


def isnone_env(env):
    return {n: v is None for n, v in env.items()}


def inst(c, env, gv, none):
    """instantiate a candidate descriptor; None when not expressible in this state (treated as vacuously true only if the
    variable's kind makes it irrelevant)"""
    op = c[0]
    if op == "guard":
        g = gv.get(c[1])
        if g is None:
            return None
        body = inst(c[3], env, gv, none)
        if body is None:
            return z3.BoolVal(True) if c[3][0] != "isnone" else None
        return z3.Implies(g if c[2] else z3.Not(g), body)
    if op == "vguard":
        x = env.get(c[1])
        if x is None or x[0] != "bool":
            return None
        body = inst(c[3], env, gv, none)
        return None if body is None else z3.Implies(x[1] if c[2] else z3.Not(x[1]), body)
    if op == "isnone":
        if c[1] not in none:
            return None
        return z3.BoolVal(none[c[1]] == c[2])
    if op == "fact":
        return gv.get(c[1])
    x = env.get(c[1])
    if x is None:
        return None
    if op == "eqc":
        return x[1] == c[2] if x[0] == c[3] else None
    if op == "nec":
        return x[1] != z3.StringVal(c[2]) if x[0] == "str" else None
    if op == "eqg":
        g = gv.get(c[2])
        if g is None or g.sort() != x[1].sort():
            return None
        return x[1] == (g + c[3] if c[3] else g)
    if op == "neg":
        g = gv.get(c[2])
        return None if g is None else x[1] == z3.Not(g)
    if op == "cmp":
        g = gv.get(c[2])
        if g is None or x[0] != "int":
            return None
        return x[1] <= g + c[4] if c[3] == "<=" else x[1] >= g + c[4]
    if op == "cmpc":
        if x[0] != "int":
            return None
        return x[1] >= c[2] if c[3] == ">=" else x[1] <= c[2]
    if op == "eqv":
        y = env.get(c[2])
        if y is None or y[0] != x[0]:
            return None
        return x[1] == (y[1] + c[3] if c[3] else y[1])
    if op == "in":
        return z3.Or(*[x[1] == k for k in c[2]])
    raise AssertionError(op)


def gen_cands(env, none, gv, extra_guards=()):
    e = E()
    out = []
    facts = [k for k in gv if k.startswith("fact:")]
    gv = {k: t for k, t in gv.items() if not k.startswith("fact:")}
    bools = {k: t for k, t in gv.items() if z3.is_bool(t)}
    ints = {k: t for k, t in gv.items() if z3.is_int(t)}
    m = None
    if e._sat() == z3.sat:
        m = e.last.model()

    def ev(t):
        return m.eval(t, model_completion=True)
    base = []
    for n, (k, t) in env.items():
        if k == "int":
            c = const_of(t)
            if c is not None:
                base.append(("eqc", n, z3.IntVal(c), "int"))
                if c >= 0:
                    base.append(("cmpc", n, 0, ">="))
                else:
                    base.append(("cmpc", n, -1, ">="))
            else:
                base += [("cmpc", n, 0, ">="), ("cmpc", n, -1, ">=")]
                if n.startswith("@"):
                    base.append(("eqc", n, z3.IntVal(0), "int"))
            for g, gt in ints.items():
                if m is not None:
                    try:
                        d = ev(t - gt).as_long()
                    except Exception:   # noqa: BLE001
                        d = None
                    base += [("eqg", n, g, x) for x in dict.fromkeys((0, d)) if x is not None and abs(x) <= 3]
                for d in (-1, 0, 1):
                    base.append(("cmp", n, g, "<=", d))
                    base.append(("cmp", n, g, ">=", d))
            for n2, (k2, t2) in env.items():
                if n2 < n and k2 == "int" and m is not None:
                    try:
                        d = ev(t - t2).as_long()
                    except Exception:   # noqa: BLE001
                        d = None
                    if d is not None and abs(d) <= 2:
                        base.append(("eqv", n, n2, d))
        elif k == "bool":
            if z3.is_true(t) or z3.is_false(t):
                base.append(("eqc", n, t, "bool"))
            plain = {w.name for w in e.world if w.plain}
            for g in bools:
                base += [("eqg", n, g, 0)] if g.split(".")[0] in plain else [("eqg", n, g, 0), ("neg", n, g)]
        elif k == "str":
            if z3.is_string_value(t):
                base.append(("eqc", n, t, "str"))
            else:
                base += [("eqc", n, z3.StringVal(k), "str") for k in {"": 0, **{k: 0 for w in e.world for k in w.texts()}}]
            base += [("nec", n, k) for w in e.world for k in w.texts()]
            for g, gt in gv.items():
                if gt.sort() == t.sort():
                    base.append(("eqg", n, g, 0))
        else:
            for g, gt in gv.items():
                if gt.sort() == t.sort():
                    base.append(("eqg", n, g, 0))
            for n2, (k2, t2) in env.items():
                if n2 < n and t2.sort() == t.sort():
                    base.append(("eqv", n, n2, 0))
    for n, b in none.items():
        base.append(("isnone", n, b))
    base += [("fact", k) for k in facts]
    return base


def guard_names(gv):
    bools = [k for k, t in gv.items() if not k.startswith("fact:") and z3.is_bool(t)]
    hide = set()
    for w in E().world:
        gs = w.guards()
        if gs is not None:
            hide |= {k for k in bools if k.startswith(w.name + ".") and k[len(w.name) + 1:] not in gs}
    return [g for g in bools if g not in hide]


def weaker(c, guards, bvars):
    """what may still hold where candidate c does not"""
    if c[0] == "guard" and c[3][0] == "fact":
        return [("guard", c[1], c[2], ("vguard", v, pol, c[3])) for v in bvars for pol in (True, False)]
    if c[0] == "fact":
        return [d for g in guards for pol in (True, False) for d in [("guard", g, pol, c), *[("guard", g, pol, ("vguard", v, p2, c)) for v in bvars for p2 in (True, False)]]] + \
            [("vguard", v, pol, c) for v in bvars for pol in (True, False)]
    if c[0] not in ("eqc", "nec", "eqg", "neg", "isnone", "fact"):
        return []
    out = [("guard", g, pol, c) for g in guards for pol in (True, False)]
    if c[0] == "isnone":
        out += [("guard", g, pol, ("isnone", c[1], not c[2])) for g in guards for pol in (True, False)]
    return out


def const_of(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


class Cut:
    """one loop cut on the current path.  `names`: program variables the loop may change."""

    def __init__(self, key, names, env, setter=None):
        e = E()
        self.e = e
        key += e.scenario       # invariants are found separately for each scenario the harness distinguishes
        self.key = key
        self.names = [n for n in names if not n.startswith("vc__")]
        self.entry = {n: env.get(n, UNBOUND) for n in self.names}
        self.entry_none_vars = None
        e.functions.add(key.split("#")[0])
        e.path_cuts.append(key)
        self.ncuts = len(e.path_cuts)
        self.heap0 = list(e.heap)
        self.world0 = list(e.world)
        self.arrive(env, True)
        # havoc
        locs = sorted({l for (k, l) in e.loopinv if k == key})
        self.loc = locs[e.choose(len(locs), "loc")]
        inv = self.inv = e.loopinv[(key, self.loc)]
        for w in list(e.world):
            if w.name in inv_mod(e, key):
                w.havoc(self.loc_of(w))
                w.touch()
        self.vals = {}
        for n in self.names:
            ks = inv.kinds.get(n, [("poison",)])
            k = ks[e.choose(len(ks), n)] if len(ks) > 1 else ks[0]
            self.vals[n] = mk_kind(k, n, self.entry[n])
        for hid in sorted(heap_mod(e, key)):
            if hid < len(self.heap0):
                ks = inv.kinds.get(f"@{hid}")
                if ks is None:
                    raise Restart()
                self.heap0[hid].vc_makeabs(f"heap{hid}", merge_abskinds(ks))
                self.heap0[hid].version += 1        # changed, for the loops around this one
        fe, gv, none = self.terms(self.vals)
        ts = [t for t in (inst(c, fe, gv, none) for c in inv.cands) if t is not None]
        if ts:
            e._add(z3.And(*ts) if len(ts) > 1 else ts[0])
        e.check_feasible()
        self.attr0 = len(e.attr_log)
        self.head_versions = {w.name: w.version for w in e.world}
        self.heap_versions = [o.version for o in self.heap0]
        self.head_measures = self.measure_terms(self.vals)

    def loc_of(self, w):
        d = dict(zip([x.name for x in self.e.world], self.loc.split("|"))) if self.loc else {}
        return d.get(w.name, "")

    def cur_loc(self):
        return "|".join(str(w.loc()) for w in self.e.world)

    def terms(self, env):
        env = {n: v for n, v in env.items() if n in self.names or n == "self"}
        fe = flat_env(env)
        for hid in heap_mod(self.e, self.key):
            if hid < len(self.heap0):
                t = self.heap0[hid].vc_absterm()
                if isinstance(t, dict):
                    for k, x in t.items():
                        fe[f"@{hid}.{k}"] = x
                elif isinstance(t, tuple):
                    fe[f"@{hid}.p"] = ("seq", t[0])
                    fe[f"@{hid}.m"] = ("seq", t[1])
                else:
                    fe[f"@{hid}"] = ("seq", t)
        return fe, ghost_vocab(), isnone_env({n: v for n, v in env.items() if v is not UNBOUND and type(v) is not Poison})

    def measure_terms(self, env):
        out = {}
        for w in self.e.world:
            for k, t in w.measures().items():
                out[f"{w.name}.{k}"] = t
        for n, (k, t) in flat_env({n: v for n, v in env.items() if n in self.names}).items():
            if k == "int":
                out[n] = t
        return out

    def arrive(self, env, is_entry):
        e = self.e
        loc = self.cur_loc()
        inv = e.loopinv.get((self.key, loc))
        if e.replaying():
            ghost_vocab()       # same assumptions as the execution that checked this arrival
            for w in e.world:
                w.arrive(self.key, is_entry)
            return
        env = {n: env.get(n, UNBOUND) for n in self.names}
        if inv is None:
            inv = e.loopinv[(self.key, loc)] = LoopInv()
            e.dirty = True
            if any(k == self.key for (k, l) in e.loopinv if l != loc):
                pass
        # kinds
        newkind = set()
        for n, v in env.items():
            k = kind_of(v)
            if self.entry[n] is UNBOUND:
                k = ("poison",)
            elif k == ("same",) and v is not self.entry[n]:
                k = ("poison",)
            lst = inv.kinds.setdefault(n, [])
            if k not in lst:
                if lst:
                    newkind.add(n)
                lst.append(k)
                lst.sort(key=repr)
                e.dirty = True
        for hid in heap_mod(e, self.key):
            if hid < len(self.heap0):
                o = self.heap0[hid]
                k = o.vc_abskinds()
                k = ("heap", type(o).__name__, tuple(map(tuple, k)) if isinstance(k, tuple) else tuple(k))
                lst = inv.kinds.setdefault(f"@{hid}", [])
                if k not in lst:
                    lst.append(k)
                    e.dirty = True
        # candidates
        envt = {n: v for n, v in env.items() if v is not UNBOUND and not type(v) is Poison and self.entry[n] is not UNBOUND}
        fe, gv, none = self.terms(envt)
        if inv.cands is None:
            inv.cands = self.weaken(gen_cands(fe, none, gv), fe, gv, none)
            inv.arrivals = 1
            e.dirty = True
        else:
            todo = [(c, inst(c, fe, gv, none)) for c in inv.cands]
            terms = [t for _, t in todo if t is not None]
            miss = [c for c, t in todo if t is None]
            if miss or not e.valid(z3.And(*terms) if terms else True):
                keep = self.weaken(inv.cands, fe, gv, none)
                if keep != inv.cands:
                    inv.cands = keep
                    e.dirty = True
            if newkind:
                # a variable of another kind than before: what may be said about it, under the guards that tell the kinds apart
                root = lambda n: n.split("[")[0].split(".")[0]
                guards = guard_names(gv)
                bvars = [n for n, (k, _) in fe.items() if k == "bool" and not n.startswith("@")]
                have = {repr(c) for c in inv.cands}
                for c in gen_cands({n: x for n, x in fe.items() if root(n) in newkind}, {n: b for n, b in none.items() if n in newkind}, gv):
                    if c[0] == "fact":
                        continue
                    for d in weaker(c, guards, bvars):
                        if repr(d) not in have:
                            t = inst(d, fe, gv, none)
                            if t is not None and e.valid(t):
                                inv.cands.append(d)
                                e.dirty = True
            if not e.dirty:
                o = e.obls.get("loop invariant " + self.key)
                if o is None:
                    from .engine import Obligation
                    o = e.obls["loop invariant " + self.key] = Obligation("loop invariant " + self.key)
                o.total += 1
                o.ok += 1
                o.backends["z3 (invariant)"] = o.backends.get("z3 (invariant)", 0) + 1
        for w in e.world:
            w.arrive(self.key, is_entry)
        if not is_entry:
            e.nested.setdefault(self.key, set()).update(e.path_cuts[self.ncuts:])
            mods = inv_mod(e, self.key)
            for w in e.world:
                if w.name in self.head_versions and w.version != self.head_versions[w.name] and w.name not in mods:
                    mods.add(w.name)
                    e.dirty = True
            hm = heap_mod(e, self.key)
            for o, v in zip(self.heap0, self.heap_versions):
                if o.version != v and o.hid not in hm:
                    hm.add(o.hid)
                    # what was recorded (here and in the loops inside) was about a heap that did not change: begin again
                    gone = {self.key} | e.nested.get(self.key, set())
                    for l in [l for l in e.loopinv if l[0] in gone]:
                        del e.loopinv[l]
                    raise Restart()
            self.check_measures(env)

    def weaken(self, cands, fe, gv, none):
        """the candidates that hold here; one that does not is replaced by what is left of it under each guard"""
        e = self.e
        guards = None
        bvars = [n for n, (k, _) in fe.items() if k == "bool" and not n.startswith("@")]
        keep = []
        for c in cands:
            t = inst(c, fe, gv, none)
            if t is not None and e.valid(t):
                keep.append(c)
            else:
                if guards is None:
                    guards = guard_names(gv)
                for d in weaker(c, guards, bvars):
                    t = inst(d, fe, gv, none)
                    if t is not None and e.valid(t):
                        keep.append(d)
        return keep

    def check_measures(self, env):
        e = self.e
        ms = self.measure_terms(env)
        key = "measures:" + self.key
        if not hasattr(e, "measures"):
            e.measures = {}
        cur = e.measures.get(self.key)
        if cur is None:
            cur = e.measures[self.key] = {(k, s) for k in ms for s in ("dec", "inc")}
        keep = set()
        for (k, s) in cur:
            if k not in ms or k not in self.head_measures:
                continue
            a, b = self.head_measures[k], ms[k]
            if s == "dec" and e.valid(z3.And(b < a, b >= 0)):
                keep.add((k, s))
        if keep != cur:
            e.measures[self.key] = keep
            if not keep and cur:
                e.dirty = True

    def done(self, env):
        """back edge: re-establish the invariant and close the path"""
        log = self.e.attr_log
        if len(log) > self.attr0:       # an attribute of an object that outlives the iteration
            old = {id(o) for o, _ in log[:self.attr0]}
            for o, n in log[self.attr0:]:
                if id(o) in old:
                    U(f"attribute {n} of {type(o).__name__} is changed in a loop over unbounded data")
        # iterations begun inside this one are over
        self.e.world[:] = [w for w in self.e.world if not w.name.startswith("it:") or w in self.world0]
        self.arrive(env, False)
        raise PathEnd()


def inv_mod(e, key):
    if not hasattr(e, "mods"):
        e.mods = {}
    return e.mods.setdefault(key, set())


def heap_mod(e, key):
    if not hasattr(e, "heapmods"):
        e.heapmods = {}
    return e.heapmods.setdefault(key, set())


def merge_abskinds(ks):
    a = [k[2] for k in ks]
    if ks and ks[0][1] == "SDict":
        out = ([], [])
        for x in a:
            for j in (0, 1):
                for k in x[j]:
                    if k not in out[j]:
                        out[j].append(k)
        return out
    out = []
    for x in a:
        for k in x:
            if k not in out:
                out.append(k)
    return out
