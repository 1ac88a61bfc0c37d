"""Path-exhaustive deductive engine.

The instrumented real code is executed by CPython on symbolic proxies.  Every symbolic branch is a decision; all
decision sequences are enumerated by re-execution.  Loops over unbounded data are cut: the invariant is established,
the loop state is havocked, the invariant assumed, one arbitrary iteration executed and the invariant re-established.
Every obligation is discharged by z3 (cvc5 as a second back end) for all values of all symbols.
"""
from __future__ import annotations
import sys, time, os
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3

z3.set_param("smt.random_seed", 1)


TIMES = bool(os.environ.get("VC_TIMES"))

class Abort(BaseException):
    """verifier control flow; never caught by the code under verification"""


class PathEnd(Abort):
    pass


class Unsupported(Abort):
    pass


class Restart(Abort):
    pass


class Budget(Abort):
    pass


class Obligation:
    __slots__ = ("name", "total", "ok", "fail", "unknown", "time", "backends", "models")

    def __init__(self, name):
        self.name = name
        self.total = self.ok = self.fail = self.unknown = 0
        self.time = 0.0
        self.backends = {}
        self.models = []


class Eng:
    cur: "Eng" = None

    def __init__(self, budget=240.0, max_paths=20000, query_ms=20000):
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.query_ms = query_ms
        self.obls = {}
        self.covers = {}
        self.expected_covers = set()
        self.unsupported = []
        self.paths = 0
        self.loopinv = {}      # (loopkey, loc) -> LoopInv
        self.nested = {}       # loopkey -> the loops met inside its iterations
        self.cutset = set()
        self.dirty = False
        self.phase = "infer"
        self.solver_time = 0.0
        self.queries = 0
        self.functions = set()
        self.assumptions = {}
        self.fresh_n = 0
        self.alive = True
        self.feas_unknown = 0
        self.session_const = {}

    # ---------------------------------------------------------------- exploration
    def explore(self, run):
        """run() executes the harness once along the current decision prefix"""
        prefix = []
        Eng.cur = self
        while True:
            self.prefix = prefix
            self.pos = 0
            self.trace = []          # [choice, n_alternatives]
            self.fresh_n = 0
            self.solver = z3.SolverFor("ALL") if False else z3.Solver()
            self.solver.set("timeout", 1000)
            self.pc = []
            self.alive = True
            self.loops_open = []
            self.world = []
            self.heap = []
            self.events = []
            self.cellpool = {}
            self.notes = []
            self.attr_log = []
            self.path_cuts = []
            self.scenario = ""
            self.queues = []
            self.threads = []
            self.paths += 1
            if self.paths > self.max_paths or time.time() > self.deadline:
                raise Budget(f"exploration budget exhausted after {self.paths} paths")
            try:
                run()
            except PathEnd:
                pass
            except Unsupported as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{f.filename.split('/rxls/')[-1]}:{f.lineno}" for f in tb if "/rxls/" in f.filename]
                self.unsupported.append((str(e), where[-1] if where else ""))
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exc()
                if len(self.unsupported) > 20:
                    return
            finally:
                self.alive = False
            # backtrack
            tr = self.trace
            while tr and tr[-1][0] + 1 >= tr[-1][1]:
                tr.pop()
            if not tr:
                return
            prefix = [c for c, _ in tr[:-1]] + [tr[-1][0] + 1]

    def run(self, harness, max_rounds=40):
        """invariant inference to a fixpoint, then the final proving pass"""
        rounds = 0
        while True:
            rounds += 1
            if rounds > max_rounds:
                raise Budget("invariant inference did not converge")
            self.dirty = False
            self.phase = "infer"
            self.obls = {}
            self.covers = {}
            self.unsupported = []
            self.paths = 0
            self.queries = 0
            self.solver_time_round = 0.0
            try:
                self.explore(harness)
            except Restart:
                self.dirty = True
            if not self.dirty:
                break
        self.rounds = rounds
        return self

    # ---------------------------------------------------------------- decisions
    def choose(self, n, label=""):
        if n == 1:
            return 0
        if n <= 0:
            raise PathEnd()
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.trace.append([c, n])
        return c

    def _sat(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.last = self.solver
        if r == z3.unknown:
            r = self.again(extra)
        self.solver_time += time.time() - t
        if TIMES and (time.time() - t > 0.7 or r == z3.unknown):
            print("SLOW", round(time.time() - t, 2), r, flush=True)
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")
        return r

    def fork(self, cond):
        """decide a symbolic condition on this path"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            # codes: 0 = true(other side open), 1 = false ; forced decisions are not recorded with alternatives
            c = self.prefix[self.pos]
            self.pos += 1
            replay = self.pos < len(self.prefix)
            if c == 2:      # forced true
                self.trace.append([2, 0])
                self._add(cond)
                return True
            if c == 3:
                self.trace.append([3, 0])
                self._add(z3.Not(cond))
                return False
            self.trace.append([c, 2])
            self._add(cond if c == 0 else z3.Not(cond))
            return c == 0
        rt = self._sat(cond)
        if rt == z3.unsat:
            self.pos += 1
            self.trace.append([3, 0])
            self._add(z3.Not(cond))
            return False
        rf = self._sat(z3.Not(cond))
        self.pos += 1
        if rf == z3.unsat:
            self.trace.append([2, 0])
            self._add(cond)
            return True
        self.trace.append([0, 2])
        self._add(cond)
        return True

    def _add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd()
        self._add(cond)

    def feasible(self):
        return self._sat() != z3.unsat

    def check_feasible(self):
        if self.pos < len(self.prefix):     # an earlier execution got past this point with the same decisions
            return
        if not self.feasible():
            raise PathEnd()

    def valid(self, cond, quick=True):
        """is cond implied by the path condition?  (used for inference; never for reporting)"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return self._sat() == z3.unsat
        return self._sat(z3.Not(cond)) == z3.unsat

    def again(self, extra, ms=4000):
        """the incremental solver gave up: other solvers, other orders"""
        fs = self.pc + list(extra)
        r = z3.unknown
        for k in range(3):
            s = z3.Solver()
            s.set("timeout", ms)
            s.set("random_seed", 7 * k + 1)
            for f in (fs if k != 1 else fs[::-1]):
                s.add(f)
            r = s.check()
            self.queries += 1
            self.last = s
            if r != z3.unknown:
                break
        return r

    def model_eval(self, *terms):
        if self._sat() != z3.sat:
            return None
        m = self.last.model()
        return [m.eval(t, model_completion=True) for t in terms]

    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const(f"{base}!{self.fresh_n}", sort)

    # ---------------------------------------------------------------- obligations
    def replaying(self):
        """an earlier execution got past this point with the same decisions, in the same state"""
        return self.pos < len(self.prefix)

    def prove(self, cond, name, info=None):
        if self.replaying():
            return True
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obligation(name)
        o.total += 1
        t = time.time()
        if isinstance(cond, bool):
            c = z3.BoolVal(cond)
        else:
            c = z3.simplify(cond)
        backend = "simplifier"
        model = None
        if z3.is_true(c):
            r = z3.unsat
        else:
            neg = z3.Not(c)
            r = self._sat(neg)
            backend = f"z3-{z3.get_version_string()}"
            if r == z3.sat:
                model = self.last.model()
            if r == z3.unknown:
                s = z3.Solver()
                s.set("timeout", self.query_ms)
                for p in self.pc:
                    s.add(p)
                s.add(neg)
                r = s.check()
                if r == z3.sat:
                    model = s.model()
            if r == z3.unknown:
                r2 = cvc5_check(self.pc + [neg], self.query_ms)
                if r2 is not None:
                    r = z3.unsat if r2 else z3.unknown
                    backend = "cvc5"
        o.time += time.time() - t
        if r == z3.unsat:
            o.ok += 1
            o.backends[backend] = o.backends.get(backend, 0) + 1
            return True
        if r == z3.sat:
            o.fail += 1
            if len(o.models) < 4:
                o.models.append(dict(model=model_str(model), info=_txt(info, model), notes=[_txt(n, model) for n in self.notes]))
        else:
            o.unknown += 1
            if len(o.models) < 4:
                o.models.append(dict(model="solver answered unknown", info=_txt(info, None), notes=[]))
        return False

    def fail(self, name, info=None):
        """an obligation that is `false` on this (feasible) path"""
        if self.feasible():
            self.prove(False, name, info)
        raise PathEnd()

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def note(self, *a):
        self.notes.append(a)


def _txt(info, model):
    if info is None:
        return ""
    if callable(info):
        try:
            return str(info(model))
        except Exception as e:   # noqa: BLE001
            return f"(counterexample rendering failed: {e})"
    if isinstance(info, (list, tuple)):
        return " ".join(_txt(x, model) for x in info)
    t = getattr(info, "t", info)
    if isinstance(t, z3.ExprRef):
        if model is not None:
            try:
                return str(model.eval(t, model_completion=True))
            except Exception:    # noqa: BLE001
                return str(t)
        return str(t)
    return str(info)


def model_str(m):
    if m is None:
        return ""
    s = []
    for d in m.decls()[:60]:
        try:
            s.append(f"{d.name()} = {str(m[d])[:200]}")
        except Exception:   # noqa: BLE001
            pass
    return "; ".join(s)[:4000]


def cvc5_check(conds, ms):
    """True = unsat, False = sat, None = no answer"""
    try:
        import cvc5
        s = z3.Solver()
        for c in conds:
            s.add(c)
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("(check-sat)", "")
        tm = cvc5.TermManager()
        sol = cvc5.Solver(tm)
        sol.setOption("tlimit-per", str(ms))
        sol.setOption("strings-exp", "true")
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(sol, sm)
        r = sol.checkSat()
        if r.isUnsat():
            return True
        if r.isSat():
            return False
    except Exception:   # noqa: BLE001
        pass
    return None


def E() -> Eng:
    return Eng.cur
