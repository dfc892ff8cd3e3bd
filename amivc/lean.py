"""Translates specification functions into Lean, so that lemmas about the contracts can be stated and proved there.

The definitions are generated from specs.py on every run; only the proofs are written by hand (lean/*.lean).  Out-of-range reads, which the
term language leaves unspecified, become the default value."""
import re
from . import terms as tm
from .terms import *

HEAD = '''import Mathlib
set_option autoImplicit false
set_option linter.all false
noncomputable section
open Classical
namespace Ami

def m1pow (k : ℤ) : ℤ := (-1) ^ k.natAbs
def choose (n k : ℤ) : ℤ := (Nat.choose n.toNat k.toNat : ℤ)
def factorial (n : ℤ) : ℤ := (Nat.factorial n.toNat : ℤ)
/-- the recursive definition of the specification -/
theorem factorial_spec (n : ℤ) (hn : 0 ≤ n) : factorial n = if n = 0 ∨ n = 1 then 1 else n * factorial (n - 1) := by
  obtain ⟨k, rfl⟩ : ∃ k : ℕ, n = k := ⟨n.toNat, by omega⟩
  match k with
  | 0 => simp [factorial]
  | 1 => simp [factorial]
  | k + 2 =>
    have h : ¬ (((k + 2 : ℕ) : ℤ) = 0 ∨ ((k + 2 : ℕ) : ℤ) = 1) := by omega
    rw [if_neg h]
    unfold factorial
    rw [show (((k + 2 : ℕ) : ℤ) - 1) = ((k + 1 : ℕ) : ℤ) by push_cast; ring, Int.toNat_natCast, Int.toNat_natCast, Nat.factorial_succ (k + 1)]
    push_cast; ring
def sumTo {α : Type} [AddCommMonoid α] (n : ℤ) (f : ℤ → α) : α := ∑ i ∈ Finset.range n.toNat, f (i : ℤ)
def prodTo {α : Type} [CommMonoid α] (n : ℤ) (f : ℤ → α) : α := ∏ i ∈ Finset.range n.toNat, f (i : ℤ)
def exTo (n : ℤ) (p : ℤ → Prop) : Prop := ∃ i : ℕ, (i : ℤ) < n ∧ p i
def ffFrom (p : ℤ → Prop) : ℕ → ℤ → ℤ
  | 0, i => i
  | n + 1, i => if p i then i else ffFrom p n (i + 1)
/-- first index below n with p, else n -/
def ffTo (n : ℤ) (p : ℤ → Prop) : ℤ := ffFrom p n.toNat 0
def flatTo {α : Type} (n : ℤ) (f : ℤ → List α) : List α := (List.range n.toNat).flatMap fun (i : ℕ) => f (i : ℤ)
def foldTo {σ : Type} (n : ℤ) (f : ℤ → σ → σ) (s : σ) : σ := (List.range n.toNat).foldl (fun s (i : ℕ) => f (i : ℤ) s) s
def get {α : Type} [Inhabited α] (v : List α) (i : ℤ) : α := v.getD i.toNat default
def len {α : Type} (v : List α) : ℤ := (v.length : ℤ)
def upd {α : Type} (v : List α) (i : ℤ) (x : α) : List α := v.set i.toNat x
def slice {α : Type} (v : List α) (i j : ℤ) : List α := (v.take j.toNat).drop i.toNat
'''


def stname(n):
    return n.split('<')[0]


def ty(s):
    if isinstance(s, str):
        return {'Int': 'ℤ', 'Real': 'ℝ', 'Cx': 'ℂ', 'Bool': 'Prop'}[s]
    if s[0] == 'Vec':
        return '(List %s)' % ty(s[1])
    if s[0] == 'St':
        return stname(s[1])
    if s[0] == 'Tup':
        return '(%s)' % ' × '.join(map(ty, s[1]))
    raise ValueError(s)


def qn(c, s):
    if c.denominator == 1:
        return '(%d : %s)' % (c.numerator, ty(s))
    return '((%d : %s) / %d)' % (c.numerator, ty(s), c.denominator)


def expr(t, env=()):
    """Lean text of a term; env: names of the bound variables, innermost last"""
    o, s = t.op, t.sort
    g = lambda x: expr(x, env)

    def bind(l, k=1):
        names = []
        for _ in range(k):
            names.append('i%d' % (len(env) + len(names)))
            l = l.args[0] if l.op == 'lam' else None
        return 'fun %s => %s' % (' '.join(names), expr(l, env + tuple(names)))
    if o == 'num':
        return qn(Q(t.data), s)
    if o == 'var':
        return t.data
    if o == 'bv':
        return env[-1 - t.data]
    if o == 'imagunit':
        return 'Complex.I'
    if o in ('true', 'false'):
        return o.capitalize()
    if o == 'add':
        return '(' + ' + '.join(sorted(g(m) if c == 1 else qn(Q(c), s) if m.op == 'num' else '%s * %s' % (qn(Q(c), s), g(m)) for m, c in zip(t.args, t.data))) + ')'
    if o == 'mul':
        return '(' + ' * '.join(sorted(g(a) if p == 1 else '%s ^ (%d : ℕ)' % (g(a), p) for a, p in zip(t.args, t.data))) + ')'
    if o == 'powi':
        return '(%s ^ (%s : ℤ).toNat)' % (g(t.args[0]), g(t.args[1]))
    if o == 'inv':
        return '(%s)⁻¹' % g(t.args[0])
    if o == 'm1pow':
        return '(m1pow %s)' % g(t.args[0])
    if o in ('toR', 'cx'):
        return '((%s : %s) : %s)' % (g(t.args[0]), ty(t.args[0].sort), ty(s))
    if o == 're':
        return '(%s).re' % g(t.args[0])
    if o == 'im':
        return '(%s).im' % g(t.args[0])
    if o == 'abs':
        return '|%s|' % g(t.args[0])
    if o == 'fn' and t.data == 'exp':
        return '(%s %s)' % ('Complex.exp' if s == 'Cx' else 'Real.exp', g(t.args[0]))
    if o == 'fn' and s != 'Bool':
        return '(%s %s)' % (fname(t), ' '.join(map(g, t.args)))
    if o == 'not':
        return '(¬ %s)' % g(t.args[0])
    if o in ('and', 'or'):
        return '(' + {'and': ' ∧ ', 'or': ' ∨ '}[o].join(sorted(map(g, t.args))) + ')'
    if o == 'le0':
        return '(%s ≤ 0)' % g(t.args[0])
    if o == 'eq0':
        return '(%s = 0)' % g(t.args[0])
    if o == 'ite':
        return '(if %s then %s else %s)' % tuple(map(g, t.args))
    if o in ('Sum', 'Prod', 'ex', 'ff', 'flat'):
        return '(%s %s (%s))' % ({'Sum': 'sumTo', 'Prod': 'prodTo', 'ex': 'exTo', 'ff': 'ffTo', 'flat': 'flatTo'}[o], g(t.args[0]), bind(t.args[1]))
    if o == 'fold':
        return '(foldTo %s (%s) %s)' % (g(t.args[0]), bind(t.args[1], 2), g(t.args[2]))
    if o == 'unit':
        return '[%s]' % g(t.args[0])
    if o == 'cat':
        return '(' + ' ++ '.join(map(g, t.args)) + ')' if t.args else '([] : %s)' % ty(s)
    if o == 'len':
        return '(len %s)' % g(t.args[0])
    if o == 'at':
        return '(get %s %s)' % (g(t.args[0]), g(t.args[1]))
    if o == 'upd':
        return '(upd %s %s %s)' % tuple(map(g, t.args))
    if o == 'slice':
        return '(slice %s %s %s)' % tuple(map(g, t.args))
    if o == 'mk':
        return '(⟨%s⟩ : %s)' % (', '.join(map(g, t.args)), ty(s))
    if o == 'fld':
        return '(%s).%s' % (g(t.args[0]), t.data)
    if o == 'tup':
        return '(%s)' % ', '.join(map(g, t.args))
    if o == 'proj':
        k, n = t.data, len(t.args[0].sort[1])
        return '(%s)%s' % (g(t.args[0]), '.2' * k + ('.1' if k < n - 1 else ''))
    if o == 'app':
        return '(%s %s)' % (t.data, ' '.join(map(g, t.args)))
    raise ValueError('no Lean form for %s' % o)


def sorts_of(t, out):
    for u in subterms(t):
        s = u.sort
        todo = [s]
        while todo:
            s = todo.pop()
            if isinstance(s, tuple):
                if s[0] == 'St':
                    if s[1] not in out:
                        for _, x in STRUCTS[s[1]]:
                            sorts_of_sort(x, out)
                        out.append(s[1])
                elif s[0] == 'Vec':
                    todo.append(s[1])
                elif s[0] == 'Tup':
                    todo += list(s[1])


def sorts_of_sort(s, out):
    sorts_of(tm.fresh('s', s), out)


BUILTIN = ('choose', 'factorial')


def fname(t):
    return 'any_' + re.sub(r'\W', '_', str(t.data))


def structures(names):
    return ''.join('structure %s where\n%s' % (stname(n), ''.join('  %s : %s\n' % (f, ty(s)) for f, s in STRUCTS[n])) +
                   'instance : Inhabited %s := ⟨⟨%s⟩⟩\n' % (stname(n), ', '.join('False' if s == 'Bool' else '[]' if s[0] == 'Vec' else '(default : %s)' % ty(s)
                                                                  for _, s in STRUCTS[n])) for n in names)


class Extra:
    """a further definition: name, argument sorts, term"""

    def __init__(self, name, args, fn, ret='Bool'):
        self.name, self.args, self.fn, self.ret, self.opaque = name, args, fn, ret, False


def generate(names, extra=()):
    """definitions of the named specification functions and of everything they use"""
    from . import specs as S
    order, structs, text = [], [], {}
    defs = dict(S.DEFS)
    defs.update({x.name: x for x in extra})

    def visit(n):
        if n in text or n in BUILTIN:
            return
        d = defs[n]
        vs = [var('x_%d' % i, s) for i, s in enumerate(d.args)]
        sg = 'def %s %s : %s' % (n, ' '.join('(x_%d : %s)' % (i, ty(s)) for i, s in enumerate(d.args)), ty(d.ret))
        for s in list(d.args) + [d.ret]:
            sorts_of_sort(s, structs)
        if d.fn is None or getattr(d, 'opaque', False):
            text[n] = 'opaque ' + sg[4:]
            order.append(n)
            return
        b = d.fn(*vs)
        sorts_of(b, structs)
        text[n] = None
        for u in subterms(b):
            if u.op == 'app':
                visit(u.data)
            elif u.op == 'fn' and u.data != 'exp' and fname(u) not in text:
                # left open by the contract
                text[fname(u)] = 'opaque %s : %s' % (fname(u), ' → '.join(ty(x) for x in [a.sort for a in u.args] + [u.sort]))
                order.append(fname(u))
        text[n] = '/-- %s -/\n%s :=\n  %s' % ((d.fn.__doc__ or n).strip(), sg, expr(b))
        order.append(n)
    for n in list(names) + [x.name for x in extra]:
        visit(n)
    return HEAD + structures(structs) + '\n'.join(text[n] for n in order) + '\n'
