"""C12: column letters -> column index (rxls.reader.xlsx:col_idx)."""
from __future__ import annotations
import z3
from vc.engine import E, PathEnd, Abort
from vc.values import *   # noqa: F403
from vc.values import iv, ArrII, is_sym, U
from vc.loops import World
from .api import vc
import rxls.reader.xlsx as xlsx

I = z3.IntSort()
pre = z3.Function("horner_prefix", I, I)      # numeral read left to right, letters of col[:j]
suf = z3.Function("positional_suffix", I, I)  # sum of letter * 26**(letters to its right), letters of col[j:]
cnt = z3.Function("letters_from", I, I)       # number of letters of col[j:]


class RefBytes(SBytes):
    """an arbitrary cell reference: `letters` bytes A..Z followed by decimal digits"""
    __slots__ = ("letters",)

    def at(self, i):
        i = iv(i)
        v = SBytes.at(self, i)
        E().assume(z3.Implies(z3.And(i >= 0, i < self.n), z3.If(i < self.letters, z3.And(v.t >= 65, v.t <= 90), z3.And(v.t >= 48, v.t <= 57))))
        return v

    def rstrip(self, chars=None):
        if isinstance(chars, bytes) and not is_sym(chars) and set(b"0123456789") <= set(chars) and not any(65 <= c <= 90 for c in chars):
            r = RefBytes(self.base, self.off, self.letters)
            r.letters = self.letters
            return r
        U("rstrip of other characters")


def step_facts(j, L, d):
    """unfolding of the three recursive definitions at position j (letter value d)"""
    letter = z3.And(j >= 0, j < L)
    return z3.And(pre(j + 1) == z3.If(letter, 26 * pre(j) + d, pre(j)),
                  cnt(j) == z3.If(letter, cnt(j + 1) + 1, cnt(j + 1)),
                  suf(j) == z3.If(letter, d * P26(cnt(j + 1)) + suf(j + 1), suf(j + 1)),
                  cnt(j) >= 0, cnt(j + 1) >= 0)


def P26(e):
    return z3.Function("pow26", I, I)(e)


class RefWorld(World):
    name = "ref"

    def __init__(self, col):
        self.col = col
        super().__init__()

    def idx(self):
        for w in E().world:
            if w.name.startswith("it:"):
                return w.i
        return z3.IntVal(0)

    def ghosts(self):
        i, n = self.idx(), self.col.n
        self.unfold(i)
        j = n - i
        return {"pre": pre(i), "suf": suf(j), "cnt": cnt(j), "pw": P26(cnt(j))}

    def unfold(self, i):
        e = E()
        n, L = self.col.n, self.col.letters
        base = z3.And(pre(z3.IntVal(0)) == 0, cnt(n) == 0, suf(n) == 0, P26(z3.IntVal(0)) == 1)
        e.assume(base)
        e.assume(z3.Implies(i >= L, pre(i) == pre(n)))       # lemma "digits change nothing"
        e.assume(pre(L) == pre(n))
        for j in (i, i - 1, n - 1 - i, n - i):
            d = z3.Select(self.col.base, self.col.off + j) - 64
            e.assume(z3.Implies(z3.And(j >= 0, j < n), step_facts(j, L, d)))
            e.assume(z3.Implies(z3.And(j >= 0, j < n), z3.And(P26(cnt(j + 1) + 1) == 26 * P26(cnt(j + 1)), P26(cnt(j + 1)) >= 1)))


@vc("C12", "col_idx", functions=("rxls.reader.xlsx:col_idx",), covers=("result",))
def col_idx():
    e = E()
    n, L = z3.Int("len"), z3.Int("letters")
    e.assume(z3.And(L >= 1, n >= L))
    col = RefBytes(z3.Const("col", ArrII), z3.IntVal(0), n)
    col.letters = L
    w = RefWorld(col)
    w.unfold(z3.IntVal(0))
    e.assume(pre(n) == suf(z3.IntVal(0)))      # lemma "Horner = positional", proved below
    try:
        r = xlsx.col_idx(col)
    except Abort:
        raise
    except BaseException as ex:   # noqa: BLE001
        e.fail("col_idx: never raises on a cell reference", f"{type(ex).__name__}: {ex}")
    e.cover("result")
    w.unfold(n)

    def info(m):
        k = min(m.eval(n).as_long(), 12)
        return "reference " + repr("".join(chr(m.eval(z3.Select(col.base, j), model_completion=True).as_long() % 256) for j in range(k)))
    if not isinstance(r, int):
        e.fail("col_idx: returns an integer", info)
    e.prove(iv(r) == pre(n) - 1, "col_idx: the index is the bijective base-26 numeral of the letters, minus one", info)


@vc("C12", "lemma: Horner form equals positional form", covers=("base", "step"))
def lemma_horner():
    """for all j <= n: pre(n) == pre(j) * 26**cnt(j) + suf(j), by induction from n downwards; j = 0 gives the lemma used above"""
    e = E()
    n, L, j = z3.Int("len"), z3.Int("letters"), z3.Int("j")
    e.assume(z3.And(L >= 1, n >= L, pre(z3.IntVal(0)) == 0, cnt(n) == 0, suf(n) == 0, P26(z3.IntVal(0)) == 1))
    claim = lambda j: pre(n) == pre(j) * P26(cnt(j)) + suf(j)
    k = e.choose(3)
    if k == 0:
        e.cover("base")
        e.prove(claim(n), "lemma: base case")
    elif k == 1:
        d, q, P0, P1, p, s1, s0 = z3.Ints("d q P0 P1 p s1 s0")
        # the step written on the definitions' values: letter at j
        e.assume(z3.And(j >= 0, j < n))
        e.assume(step_facts(j, L, d))
        e.assume(P26(cnt(j + 1) + 1) == 26 * P26(cnt(j + 1)))
        e.assume(claim(j + 1))
        letter = e.choose(2)
        e.assume(j < L if letter else j >= L)
        e.check_feasible()
        e.cover("step")
        if letter:
            e.assume(z3.And(P26(cnt(j)) == 26 * P26(cnt(j + 1)), pre(j + 1) == 26 * pre(j) + d))
            # polynomial identity in named unknowns (pre(j)=p, 26**cnt(j+1)=q)
            e.prove(z3.Implies(z3.And(p == pre(j), q == P26(cnt(j + 1))), z3.And((26 * p + d) * q == p * (26 * q) + d * q)), "lemma: polynomial identity")
            e.assume((26 * pre(j) + d) * P26(cnt(j + 1)) == pre(j) * (26 * P26(cnt(j + 1))) + d * P26(cnt(j + 1)))
        e.prove(claim(j), "lemma: induction step")
    else:
        e.assume(claim(z3.IntVal(0)))
        e.prove(pre(n) == suf(z3.IntVal(0)), "lemma: conclusion at position 0")


@vc("C12", "lemma: digits change nothing", covers=("base", "step"))
def lemma_digits():
    """for all j with letters <= j <= n: pre(j) == pre(n), by induction from n downwards"""
    e = E()
    n, L, j, d = z3.Ints("len letters j d")
    e.assume(z3.And(L >= 1, n >= L))
    if e.choose(2):
        e.cover("base")
        e.prove(pre(n) == pre(n), "lemma: base case")
    else:
        e.assume(z3.And(j >= L, j < n, step_facts(j, L, d), pre(j + 1) == pre(n)))
        e.check_feasible()
        e.cover("step")
        e.prove(pre(j) == pre(n), "lemma: induction step")


@vc("C12", "lemma: distinct letters give distinct columns", covers=("inj",))
def lemma_injective():
    """the numeral of a prefix determines its last letter and the numeral of the shorter prefix, and is positive exactly when the
    prefix is non-empty: by induction two references with equal numerals have the same letters"""
    e = E()
    p, q, d, f = z3.Ints("p q d f")
    e.assume(z3.And(p >= 0, q >= 0, d >= 1, d <= 26, f >= 1, f <= 26))
    e.cover("inj")
    e.prove(z3.Implies(26 * p + d == 26 * q + f, z3.And(p == q, d == f)), "lemma: last letter and rest are determined")
    e.prove(26 * p + d >= 1, "lemma: a non-empty numeral is positive")
