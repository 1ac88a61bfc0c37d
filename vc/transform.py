"""Mechanical instrumentation of the real source.

Every module of /repo/rxls is parsed from the current working tree and rewritten so that CPython itself executes the
code on symbolic values.  Nothing is dropped: every statement and expression of the source is kept, and only these
hooks are added (names starting with ``vc__``):

  call            f(a)          -> vc__call(f, a)           (models of C functions, contracts of callees)
  membership      a in b        -> vc__in(a, b)
  subscript load  a[b]          -> vc__getitem(a, b)
  list/set/dict   [a], {a}, {}  -> vc__list((a,)) ...       (containers whose content can be abstracted at a loop)
  comprehension   [e for t in i if c] -> vc__comp(kind, key, i, lambda t: c, lambda t: e)  (single generator, no walrus)
  f-string        f"{a}b"       -> vc__fstr(("v", a, conv, spec), ("c", "b"))
  attribute store a.b = v       -> vc__setattr(a, "b", v)   (private names mangled)
  loop            for/while     -> loop controller (native iteration, or an induction cut)
  try             except ...    -> verifier control exceptions pass through first;  finally bodies are skipped after
                                   the path has been closed by the verifier
"""
from __future__ import annotations
import ast

SKIP_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}


def N(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


def call(f, *args, keywords=()):
    return ast.Call(func=N(f), args=list(args), keywords=list(keywords))


def assigned_names(nodes):
    """names bound anywhere in these statements (own scope) plus names nested functions rebind through nonlocal"""
    out = []

    class V(ast.NodeVisitor):
        def add(self, n):
            if n not in out:
                out.append(n)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                self.add(n.id)

        def visit_NamedExpr(self, n):
            self.add(n.target.id)
            self.visit(n.value)

        def visit_FunctionDef(self, n):
            self.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            self.add(n.name)

        def visit_Lambda(self, n):
            pass

        def comp(self, n):  # walrus inside comprehensions binds outside
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.add(x.target.id)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

        def visit_Import(self, n):
            for a in n.names:
                self.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                self.add(n.name)
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                self.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                self.add(n.name)

    v = V()
    for n in nodes:
        v.visit(n)
    return out


def nonlocal_names(fn):
    """names of `fn`'s scope that nested functions declare nonlocal (a nested function that binds the name itself keeps it)"""
    def children(f):
        todo, out = list(ast.iter_child_nodes(f)), []
        while todo:
            n = todo.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(n)
            else:
                todo += ast.iter_child_nodes(n)
        return out

    def declared(f):
        todo, out = list(f.body), []
        while todo:
            n = todo.pop(0)
            if isinstance(n, ast.Nonlocal):
                out += n.names
            elif not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                todo += ast.iter_child_nodes(n)
        return out

    def free(f):
        own = declared(f)
        a = f.args
        bound = {x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg) if x is not None} | (set(assigned_names(f.body)) - set(own))
        return own + [x for g in children(f) for x in free(g) if x not in bound]

    out = []
    for g in children(fn):
        out += [x for x in free(g) if x not in out]
    return out


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.cls = []
        self.fn = []
        self.fnnode = []
        self.k = 0
        self.loops = {}
        self.infunc = []

    # -- helpers
    def mangle(self, name):
        if self.cls and name.startswith("__") and not name.endswith("__"):
            return "_" + self.cls[-1].lstrip("_") + name
        return name

    def qual(self):
        return self.mod + ":" + ".".join(self.fn)

    # -- scopes
    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.cls.append(n.name)
        self.fn.append(n.name)
        body = self.fnnode
        self.fnnode = []
        n.body = [self.visit(s) for s in n.body]
        n.body = flatten(n.body)
        self.fnnode = body
        self.fn.pop()
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        self.fn.append(n.name)
        self.fnnode.append(n)
        n.body = flatten([self.visit(s) for s in n.body])
        self.fnnode.pop()
        self.fn.pop()
        return n

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        return n

    def visit_arg(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return n
        if isinstance(n.target, ast.Attribute):
            return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))
        n.value = self.visit(n.value)
        return n

    # -- expressions
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in SKIP_CALLS:
            return self.generic_visit(n)
        n = self.generic_visit(n)
        return ast.copy_location(ast.Call(func=N("vc__call"), args=[n.func, *n.args], keywords=n.keywords), n)

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            if len(n.ops) == 1:
                e = call("vc__in", n.left, n.comparators[0])
                if isinstance(n.ops[0], ast.NotIn):
                    e = ast.UnaryOp(op=ast.Not(), operand=e)
                return ast.copy_location(e, n)
        return n

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("vc__getitem", n.value, as_expr(n.slice)), n)
        return n

    def starred(self, n, kind, pieces):
        return ast.copy_location(call("vc__star", ast.Constant(kind), *[ast.Tuple(elts=[ast.Constant(s), v], ctx=ast.Load()) for s, v in pieces]), n)

    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in n.elts):
            return self.starred(n, "list", [(True, x.value) if isinstance(x, ast.Starred) else (False, x) for x in n.elts])
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("vc__list", ast.Tuple(elts=n.elts, ctx=ast.Load())), n)
        return n

    def visit_Set(self, n):
        n = self.generic_visit(n)
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.starred(n, "set", [(True, x.value) if isinstance(x, ast.Starred) else (False, x) for x in n.elts])
        return ast.copy_location(call("vc__set", ast.Tuple(elts=n.elts, ctx=ast.Load())), n)

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if any(k is None for k in n.keys):
            return self.starred(n, "dict", [(True, v) if k is None else (False, ast.Tuple(elts=[k, v], ctx=ast.Load())) for k, v in zip(n.keys, n.values)])
        return ast.copy_location(call("vc__dict", n), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Tuple(elts=[ast.Constant("c"), v], ctx=ast.Load()))
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[ast.Constant("v"), self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(call("vc__fstr", *parts), n)

    # -- comprehensions
    def comp(self, n, kind, elt):
        if len(n.generators) == 1 and not n.generators[0].is_async and not any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            g = n.generators[0]
            walrus = [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
            it = self.visit(g.iter)
            if not walrus:
                args, wrap = lam_args(g.target)
                cond = None
                for c in g.ifs:
                    cv = self.visit(c)
                    cond = cv if cond is None else ast.BoolOp(op=ast.And(), values=[cond, cv])
                e = self.visit(elt)
                lam = lambda b: ast.Lambda(args=args(), body=wrap(b))
                return ast.copy_location(call("vc__comp", ast.Constant(kind), ast.Constant(self.compkey()), it, lam(cond) if cond is not None else ast.Constant(None), lam(e)), n)
            # walrus: (cond, elt) share a binding -> one function returning a (flag, value) pair
            names = [w.target.id for w in walrus]
            args, wrap = lam_args(g.target)
            cond = None
            for c in g.ifs:
                cv = self.visit(c)
                cond = cv if cond is None else ast.BoolOp(op=ast.And(), values=[cond, cv])
            e = self.visit(elt)
            pair = ast.IfExp(test=cond if cond is not None else ast.Constant(True),
                             body=ast.Tuple(elts=[ast.Constant(True), e], ctx=ast.Load()),
                             orelse=ast.Tuple(elts=[ast.Constant(False), ast.Constant(None)], ctx=ast.Load()))
            lam = ast.Lambda(args=args(), body=wrap(pair))
            return ast.copy_location(call("vc__comp2", ast.Constant(kind), ast.Constant(self.compkey()), it, lam), n)
        n = self.generic_visit(n)
        for g in n.generators:
            g.iter = call("vc__nativeiter", g.iter)
        if kind == "list":
            return ast.copy_location(call("vc__list", n), n)
        if kind == "set":
            return ast.copy_location(call("vc__set", n), n)
        if kind == "dict":
            return ast.copy_location(call("vc__dict", n), n)
        return n

    def visit_ListComp(self, n):
        return self.comp(n, "list", n.elt)

    def visit_SetComp(self, n):
        return self.comp(n, "set", n.elt)

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen", n.elt)

    def visit_DictComp(self, n):
        return self.comp(n, "dict", ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()))

    # -- statements
    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if not any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for t in n.targets for x in ast.walk(t)):
            n.targets = [self.visit(t) for t in n.targets]
            return n
        self.k += 1
        tmp = f"vc__t{self.k}"
        out = [ast.Assign(targets=[N(tmp, ast.Store())], value=n.value)]
        for t in n.targets:
            out += self.store(t, N(tmp))
        return [ast.copy_location(x, n) for x in out]

    def store(self, t, v):
        if isinstance(t, ast.Attribute):
            return [ast.Expr(value=call("vc__setattr", self.visit(t.value), ast.Constant(self.mangle(t.attr)), v))]
        if isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
            names = []
            for _ in t.elts:
                self.k += 1
                names.append(f"vc__t{self.k}")
            tgt = []
            for nm, e in zip(names, t.elts):
                s = N(nm, ast.Store())
                tgt.append(ast.Starred(value=s, ctx=ast.Store()) if isinstance(e, ast.Starred) else s)
            out = [ast.Assign(targets=[ast.Tuple(elts=tgt, ctx=ast.Store())], value=v)]
            for nm, e in zip(names, t.elts):
                out += self.store(e.value if isinstance(e, ast.Starred) else e, N(nm))
            return out
        return [ast.Assign(targets=[self.visit(t)], value=v)]

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Attribute):
            return ast.copy_location(ast.Expr(value=call("vc__augattr", self.visit(n.target.value), ast.Constant(self.mangle(n.target.attr)),
                                                         ast.Constant(type(n.op).__name__), self.visit(n.value))), n)
        n.target = self.visit(n.target)
        n.value = self.visit(n.value)
        return n

    def loopkey(self, n):
        q = self.qual()
        i = self.loops.get(q, 0)
        self.loops[q] = i + 1
        return f"{q}#loop{i}"

    def compkey(self):
        q = self.qual()
        i = self.loops[q + "#c"] = self.loops.get(q + "#c", 0) + 1
        return f"{q}#comp{i}"

    def loop_common(self, n, ctor_args, kind, names):
        self.k += 1
        L = f"vc__L{self.k}"
        key = n._vckey
        ctor = ast.Assign(targets=[N(L, ast.Store())], value=call(f"vc__{kind}", ast.Constant(key), ast.Tuple(elts=[ast.Constant(x) for x in names], ctx=ast.Load()),
                                                                 ast.Call(func=N("locals"), args=[], keywords=[]), *ctor_args))
        out = [ctor]
        decl_global = set()
        for i, nm in enumerate(names):
            if nm in decl_global:
                continue
            out.append(ast.If(test=ast.Call(func=ast.Attribute(value=N(L), attr="h", ctx=ast.Load()), args=[ast.Constant(nm)], keywords=[]),
                              body=[ast.Assign(targets=[N(nm, ast.Store())], value=ast.Call(func=ast.Attribute(value=N(L), attr="v", ctx=ast.Load()), args=[ast.Constant(nm)], keywords=[]))],
                              orelse=[]))
        return L, out

    def again(self, L):
        return ast.Call(func=ast.Attribute(value=N(L), attr="again", ctx=ast.Load()), args=[ast.Call(func=N("locals"), args=[], keywords=[])], keywords=[])

    def visit_For(self, n):
        n._vckey = self.loopkey(n)
        names = assigned_names([n.target, *n.body])
        if self.fnnode:
            names += [x for x in nonlocal_names(self.fnnode[-1]) if x not in names and x in own_names(self.fnnode[-1])]
        it = self.visit(n.iter)
        L, out = self.loop_common(n, [it], "for", names)
        nxt = ast.Call(func=ast.Attribute(value=N(L), attr="next", ctx=ast.Load()), args=[], keywords=[])
        body = self.store(n.target, nxt) if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(n.target)) else [ast.Assign(targets=[self.visit(n.target)], value=nxt)]
        body += flatten([self.visit(s) for s in n.body])
        orelse = flatten([self.visit(s) for s in n.orelse])
        out.append(ast.While(test=self.again(L), body=body, orelse=orelse))
        return [ast.copy_location(x, n) for x in out]

    def visit_While(self, n):
        n._vckey = self.loopkey(n)
        names = assigned_names([n.test, *n.body])
        if self.fnnode:
            names += [x for x in nonlocal_names(self.fnnode[-1]) if x not in names and x in own_names(self.fnnode[-1])]
        L, out = self.loop_common(n, [], "while", names)
        test = ast.BoolOp(op=ast.And(), values=[self.again(L), self.visit(n.test)])
        out.append(ast.While(test=test, body=flatten([self.visit(s) for s in n.body]), orelse=flatten([self.visit(s) for s in n.orelse])))
        return [ast.copy_location(x, n) for x in out]

    def visit_Try(self, n):
        n = self.generic_visit(n)
        if n.handlers:
            n.handlers.insert(0, ast.ExceptHandler(type=N("vc__Abort"), name=None, body=[ast.Raise(exc=None, cause=None)]))
        if n.finalbody:
            n.finalbody = [ast.If(test=call("vc__alive"), body=n.finalbody, orelse=[])]
        return n

    def visit_If(self, n):
        return self.generic_visit(n)


def own_names(fn):
    s = set(assigned_names(fn.body))
    a = fn.args
    for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg]:
        if x is not None:
            s.add(x.arg)
    return s


def as_expr(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(func=N("vc__slice"), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[as_expr(x) for x in s.elts], ctx=ast.Load())
    return s


def lam_args(target):
    if isinstance(target, ast.Name):
        mk = lambda: ast.arguments(posonlyargs=[], args=[ast.arg(arg=target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
        return mk, (lambda b: b)
    if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
        mk = lambda: ast.arguments(posonlyargs=[], args=[ast.arg(arg="vc__e")], kwonlyargs=[], kw_defaults=[], defaults=[])
        inner = lambda b: ast.Call(func=ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e.id) for e in target.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b),
                                   args=[ast.Starred(value=N("vc__e"), ctx=ast.Load())], keywords=[])
        return mk, inner
    # general nested targets: a for-loop in a one-shot comprehension
    mk = lambda: ast.arguments(posonlyargs=[], args=[ast.arg(arg="vc__e")], kwonlyargs=[], kw_defaults=[], defaults=[])

    def inner(b):
        lc = ast.ListComp(elt=b, generators=[ast.comprehension(target=target, iter=ast.List(elts=[N("vc__e")], ctx=ast.Load()), ifs=[], is_async=0)])
        return ast.Subscript(value=lc, slice=ast.Constant(0), ctx=ast.Load())
    return mk, inner


def flatten(xs):
    out = []
    for x in xs:
        if x is None:
            continue
        if isinstance(x, list):
            out += flatten(x)
        else:
            out.append(x)
    return out


class FlattenBodies(ast.NodeTransformer):
    pass


def instrument(src, filename, modname):
    tree = ast.parse(src, filename)
    t = Instrument(modname)
    tree.body = flatten([t.visit(s) for s in tree.body])
    # nested statement lists produced by visit_* inside generic_visit are already flattened by NodeTransformer
    ast.fix_missing_locations(tree)
    return tree
