"""Equational prover for the term language.

prove_eq(a, b, H): a == b for all values of the free variables satisfying H.
Rules used: normalisation (terms.py), case split on conditions, congruence, extensionality of structures, tuples and
vectors, segment-wise comparison of concatenations, body-wise comparison of Sum/Prod/ex/ff/flat/fold under a fresh
index within its range, fusion of loops over built vectors, reversal of commutative loops, unfolding of specification
functions, and z3 for integer/real/boolean leaves.  Every rule is sound; failure to prove means nothing by itself.
"""
import time
import z3
from . import terms as tm
from .terms import *

COMM = ('Sum', 'Prod', 'ex')


class Timeout(Exception):
    pass


class Z3Ctx:
    """translation of Int/Bool/Real terms to z3 with uninterpreted atoms"""

    def __init__(self):
        self.memo = {}
        self.deps = {}          # term -> terms met in its translation that come with facts
        self.facts = {}         # such a term -> its facts
        self.open = []
        self.seen = set()
        self.fns = {}

    def fact(self, t, f):
        self.facts.setdefault(t.id, []).append(f)
        self.open[-1].add(t.id)

    def sort(self, s):
        if s == 'Int':
            return z3.IntSort()
        if s == 'Real':
            return z3.RealSort()
        if s == 'Bool':
            return z3.BoolSort()
        return z3.DeclareSort('S_' + sort_str(s))

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            self.open.append(set())
            r = self._tr(t)
            self.memo[t.id] = r
            d = self.deps[t.id] = self.open.pop()
        else:
            d = self.deps.get(t.id)
        if d and self.open:
            self.open[-1] |= d
        return r

    def _tr(self, t):
        o = t.op
        if o == 'num':
            if t.sort == 'Int':
                return z3.IntVal(int(t.data))
            if t.sort == 'Real':
                return z3.RealVal(str(t.data))
        if t.sort in ('Int', 'Real'):
            if o == 'add':
                r = None
                for m, c in zip(t.args, t.data):
                    x = self.tr(m)
                    if c != 1:
                        if t.sort == 'Int' and c.denominator != 1:
                            return self.atom(t)
                        x = (z3.IntVal(int(c)) if t.sort == 'Int' else z3.RealVal(str(c))) * x
                    r = x if r is None else r + x
                return r
            if o == 'mul':
                r = None
                for a, p in zip(t.args, t.data):
                    x = self.tr(a)
                    for _ in range(p):
                        r = x if r is None else r * x
                return r
            if o == 'ite':
                return z3.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
            if o == 'toR':
                return z3.ToReal(self.tr(t.args[0]))
            if o == 'abs':
                x = self.tr(t.args[0])
                return z3.If(x >= 0, x, -x)
            if o == 'idiv':
                r = self.atom(t)
                x, y = self.tr(t.args[0]), self.tr(t.args[1])
                self.fact(t, z3.And(z3.Implies(z3.And(y != 0, x == y), r == 1), z3.Implies(z3.And(y != 0, x == -y), r == -1)))
                return r
            if o == 'imod' and is_num(t.args[1]) and t.args[1].data == 2:
                r = self.atom(t)
                x = self.tr(t.args[0])
                q = z3.FreshInt('q')
                self.fact(t, x == 2 * q + r)
                self.fact(t, z3.And(r >= -1, r <= 1, z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0)))
                return r
        if t.sort == 'Bool':
            if o == 'true':
                return z3.BoolVal(True)
            if o == 'false':
                return z3.BoolVal(False)
            if o == 'not':
                return z3.Not(self.tr(t.args[0]))
            if o == 'and':
                return z3.And(*[self.tr(a) for a in t.args])
            if o == 'or':
                return z3.Or(*[self.tr(a) for a in t.args])
            if o == 'le0':
                return self.tr(t.args[0]) <= 0
            if o == 'eq0' and t.args[0].sort in ('Int', 'Real'):
                return self.tr(t.args[0]) == 0
            if o == 'ite':
                return z3.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
        return self.atom(t)

    def atom(self, t):
        """skeleton with integer index holes as an uninterpreted function"""
        holes = []

        def skel(u):
            if u.op == 'at':
                k0 = skel(u.args[0])
                holes.append(u.args[1])
                return ('at', k0)
            if u.op in ('fld', 'proj'):
                return (u.op, u.data, skel(u.args[0]))
            if u.op == 'len' and t.op == 'len':
                return ('len', skel(u.args[0]))
            if u.op in ('app', 'fn', 're', 'im', 'cx', 'toR') and u.loose == 0:
                ks = []
                for x in u.args:
                    if x.sort == 'Int':
                        holes.append(x)
                        ks.append('h')
                    else:
                        ks.append(skel(x))
                return (u.op, u.data) + tuple(ks)
            return u.id
        if t.op in ('Sum', 'Prod', 'ex', 'ff', 'fold'):
            key = (t.op,) + tuple(x.id for x in t.args[1:])
            holes.append(t.args[0])
        else:
            key = skel(t) if t.op in ('at', 'fld', 'proj', 'len', 'app', 'fn', 're', 'im', 'cx', 'toR') else t.id
        if holes:
            f = self.fns.get(key)
            if f is None:
                f = z3.Function('f%d' % (len(self.fns)), *([z3.IntSort()] * len(holes) + [self.sort(t.sort)]))
                self.fns[key] = f
            r = f(*[self.tr(h) for h in holes])
        else:
            r = z3.Const('a%s' % t.id, self.sort(t.sort))
        if t.id in self.seen:
            return r
        self.seen.add(t.id)
        self.memo[t.id] = r
        if t.sort == 'Int':
            if t.op == 'ff':
                n = self.tr(t.args[0])
                self.fact(t, z3.And(r >= 0, z3.Or(r <= n, r == 0)))
                e = ex(t.args[0], t.args[1])
                self.fact(t, self.tr(e) == (r < n))
                hit = inst(t.args[1], t) if t.loose == 0 else None
                if hit is not None and hit.size < 400:
                    self.fact(t, z3.Implies(r < n, self.tr(hit)))
            elif tm._nn(t):
                self.fact(t, r >= 0)
            elif t.op == 'm1pow':
                self.fact(t, z3.Or(r == 1, r == -1))
            elif t.op == 'Sum':
                b = t.args[1].args[0]
                if _lo(b, 0):
                    self.fact(t, r >= 0)
        return r


CTX = Z3Ctx()


def _lo(b, k):
    """b >= k syntactically (k = 0)"""
    if b.op == 'ite':
        return _lo(b.args[1], k) and _lo(b.args[2], k)
    return tm._nn(b)


def universals(h):
    """not(ex(n, body)) facts in a hypothesis"""
    if h.op == 'and':
        for a in h.args:
            yield from universals(a)
    elif h.op == 'not' and h.args[0].op == 'ex':
        yield h.args[0]


def flatten(H):
    for h in H:
        if h.op == 'and':
            yield from flatten(h.args)
        else:
            yield h


_read_at = {}


def read_at(u):
    """(list, offset): entry number i + offset of the closed list is mentioned in the body of a quantifier over i"""
    r = _read_at.get(u.id)
    if r is None:
        w = fresh('i', 'Int')
        r = {}
        for x in subterms(inst(u.args[1], w)):
            if x.op == 'at' and x.args[0].loose == 0 and w.fv and not set(x.args[0].fv) & set(w.fv):
                o = sub(x.args[1], w)
                if not set(o.fv) & set(w.fv) and not o.loose:
                    r[x.args[0].id, o.id] = x.args[0].id, o
        r = _read_at[u.id] = tuple(r.values())
    return r


def polarity(t, out, p=True):
    """the signs with which closed existentials occur in the fact t"""
    if (t.id, p) in out:
        return
    out.add((t.id, p))
    if t.op == 'not':
        polarity(t.args[0], out, not p)
    elif t.op in ('and', 'or'):
        for x in t.args:
            polarity(x, out, p)
    elif t.op == 'ite' and t.sort == 'Bool':
        polarity(t.args[0], out, True)
        polarity(t.args[0], out, False)
        polarity(t.args[1], out, p)
        polarity(t.args[2], out, p)
    else:
        for x in t.args:
            polarity(x, out, True)
            polarity(x, out, False)


class Prover:
    def __init__(self, seconds=None, patience=1, z3_ms=3000):
        """seconds: processor time allowed; patience: factor on the limits of single steps"""
        self.deadline = time.process_time() + seconds if seconds else None
        self.patience = patience
        self.z3_ms = z3_ms
        self.nz3 = 0
        self.z3time = 0.0
        self.memo = {}
        self.unfold_ok = True
        self.trace = []
        self.rules = {}
        self.active = set()
        self.unifying = 0
        self.fails = {}
        self.nesting = 0
        self.lemmas = [choose_facts, elem_facts]     # functions (term) -> list of extra Bool facts
        self.failed = None
        self.inst_depth = 2
        self.fallback = patience > 1
        self.match = True           # first try only instances for entries that are spoken of

    def tick(self):
        if self.deadline and time.process_time() > self.deadline:
            raise Timeout()

    # ---------------------------------------------------------- z3
    def index_terms(self, ts):
        out = {}
        for t in ts:
            for u in subterms(t):
                if u.op == 'at' and u.args[1].loose == 0:
                    out[u.args[1].id] = u.args[1]
                if u.op == 'ff' and u.loose == 0:
                    out[u.id] = u
                if u.op == 'var' and u.sort == 'Int' and '!' in str(u.data):
                    out[u.id] = u
        return list(out.values())

    def entails(self, H, goal, inst_depth=None):
        if goal is TRUE:
            return True
        if self.match and inst_depth is None and self.entails_(H, goal, 6, True):
            return True
        if not self.fallback:
            return False
        return self.entails_(H, goal, inst_depth or self.inst_depth, False)

    def entails_(self, H, goal, inst_depth, match):
        self.tick()
        if goal is TRUE:
            return True
        hs = list(flatten(H))
        if FALSE in hs:
            return True
        k = ('ent', match, tuple(sorted(h.id for h in hs)), goal.id)
        if k in self.memo:
            return self.memo[k]
        c = CTX
        told = set()
        reads = {}
        ngoal = not_(goal)
        hyps = list(hs)
        # existentials: witnesses and instances of their negations, as plain facts
        wit = {}
        done = set()
        new = hyps + [ngoal]
        seen = set()
        exs = []
        its = {}
        pol = set()         # (existential, whether it occurs positively)
        bare = {}           # witness and instance facts without the existential they are about
        s = z3.Solver()
        s.set('timeout', self.z3_ms)
        ok = False
        try:
            for rnd in range(inst_depth + 1):
                if self.check(s, c, new, told):
                    ok = True
                    break
                if rnd == inst_depth or len(hyps) > 500:
                    break
                facts = []
                if rnd == 0:
                    have = set()
                    for lf in self.lemmas:
                        for x in lf(hyps + [ngoal]):
                            if x.id not in have:
                                have.add(x.id)
                                facts.append(x)
                for t in new + facts:
                    polarity(bare.get(t.id, t), pol)
                    for u in subterms(t, seen):
                        if u.op == 'ex' and u.loose == 0:
                            exs.append(u)
                        elif u.op == 'at' and u.args[1].loose == 0:
                            its[u.args[1].id] = u.args[1]
                            if match and u.loose == 0:
                                reads.setdefault(u.args[0].id, {})[u.args[1].id] = u.args[1]
                        elif u.op == 'ff' and u.loose == 0:
                            its[u.id] = u
                        elif u.op == 'var' and u.sort == 'Int' and '!' in str(u.data):
                            its[u.id] = u
                new = facts
                if not exs:
                    if new and self.check(s, c, new, told):
                        ok = True
                    break
                self.tick()
                offs = set()
                for u in exs:
                    if u.id not in wit and (u.id, True) in pol:
                        w = wit[u.id] = fresh('w', 'Int')
                        its[w.id] = w
                        x = and_(le(num(0), w), lt(w, u.args[0]), inst(u.args[1], w))
                        new.append(implies(u, x))
                        bare[new[-1].id] = x
                    for x in subterms(u.args[1]):
                        if x.op == 'at' and x.args[1].op == 'add' and x.args[1].loose:
                            o = poly(x.args[1]).get((), 0)
                            if o and abs(o) <= 2:
                                offs.add(o)
                cand = list(its.values())[:24]
                cand = cand + [add(t, num(-o)) for t in cand[:12] for o in sorted(offs)]
                for u in exs:
                    if (u.id, False) not in pol:
                        continue
                    for t in (cand if not match else {y.id: y for v, o in read_at(u) for y in [sub(x, o) for x in reads.get(v, {}).values()]}.values()):
                        if t is wit.get(u.id) or (u.id, t.id) in done:
                            continue
                        done.add((u.id, t.id))
                        f = or_(u, not_(le(num(0), t)), not_(lt(t, u.args[0])), not_(inst(u.args[1], t)))
                        if f is not TRUE and f.size < max(600, 3 * u.size):
                            new.append(f)
                            bare[f.id] = or_(not_(le(num(0), t)), not_(lt(t, u.args[0])), not_(inst(u.args[1], t)))
                hyps += new
        except z3.Z3Exception:
            ok = False
        self.memo[k] = ok
        return ok

    def check(self, s, c, new, told):
        del c.open[:]
        for h in new:
            s.add(c.tr(h))
            for i in c.deps.get(h.id, ()):
                if i not in told:
                    told.add(i)
                    s.add(*c.facts[i])
        t0 = time.process_time()
        r = s.check()
        self.z3time += time.process_time() - t0
        self.nz3 += 1
        return r == z3.unsat

    # ---------------------------------------------------------- simplification under hypotheses
    def simp(self, t, H):
        lits = {}
        eqs = []
        for h in flatten(H):
            if h.op == 'true':
                continue
            lits[h.id] = TRUE
            lits[not_(h).id] = FALSE
            if h.op == 'eq0':
                eqs.append(h.args[0])
        k = ('simp', t.id, tuple(sorted(h.id for h in flatten(H))))
        r = self.memo.get(k)
        if r is not None:
            return r
        orig = t
        for _ in range(4):
            t0 = t
            if lits:
                t = map_term(t, lambda u: lits.get(u.id) if u.sort == 'Bool' else None)
            for p in eqs:
                e = orient(p)
                if e:
                    t = tm_replace(t, e[0], e[1])
            t = self.fuse(t)
            if t is t0:
                break
        self.memo[k] = t
        return t

    def decide(self, t, H):
        """t with the conditions decided that follow from H"""
        def f(u):
            if u.op == 'ite' and u.loose == 0:
                if self.entails(H, u.args[0]):
                    return u.args[1]
                if self.entails(H, not_(u.args[0])):
                    return u.args[2]
                if u.sort == 'Int':         # the same value either way
                    if self.entails(H + (u.args[0],), eq(u.args[1], u.args[2])):
                        return u.args[2]
        for _ in range(5):
            t2 = map_term(self.simp(t, H), f)
            if t2 is t:
                break
            t = t2
        return t

    def fuse(self, t):
        """loops over vectors that were built by loops"""
        def f(u):
            if u.op in ('Sum', 'Prod', 'ex', 'flat') and u.loose == 0:
                return fuse1(u)
            return None
        return map_term(t, f)

    # ---------------------------------------------------------- equality
    def eq(self, a, b, H=(), d=40):
        self.tick()
        if a is b:
            return True
        if d <= 0:
            return False
        H = tuple(H)
        if is_any(a) or is_any(b):
            return True
        a = self.simp(a, H)
        b = self.simp(b, H)
        if a is b:
            return True
        k = (a.id, b.id, tuple(sorted(h.id for h in H)))
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = False      # cycle guard
            try:
                b2 = reveal(a, b)
                if b2 is not b:
                    b2 = self.simp(b2, H)
                if d > 12 and not (a.sort == 'Bool' and shared_atoms(a, b2)):
                    b2 = self.unify(a, b2, H, d)
                r = True if b2 is a or is_any(b2) else self._eq(a, b2, H, d)
            except Timeout:
                del self.memo[k]
                raise
            self.memo[k] = r
        if not r and (self.failed is None or a.size + b.size < self.failed[0]):
            self.failed = (a.size + b.size, a, b, H)
        return r

    def _eq(self, a, b, H, d):
        s = a.sort
        if s != b.sort:
            return False
        if a.op == 'ite' or b.op == 'ite':
            x, y = (a if a.op == 'ite' else unfold(a)), (b if b.op == 'ite' else unfold(b))
            if x is not None and y is not None:
                if x is not a:
                    x = self.simp(x, H)
                if y is not b:
                    y = self.simp(y, H)
                if x is y:
                    return True
                if x.op == 'ite' and y.op == 'ite':
                    r = self.itepair(x, y, H, d)
                    if r is not None:
                        return r
        if isinstance(s, tuple) and s[0] == 'Fun':
            v = fresh('s', s[1])
            return self.eq(inst(a, v), inst(b, v), H, d - 1)
        if isinstance(s, tuple) and s[0] == 'St':
            if a.op == b.op and a.op in ('at', 'fld', 'proj', 'var', 'app', 'fn') and self.congr(a, b, H, d):
                return True
            c = self.headcond(a) or self.headcond(b)
            if c is not None:
                return self.split(c, a, b, H, d)
            if a.op == 'mk' or b.op == 'mk':
                return all(self.eq(fld(a, f), fld(b, f), H, d - 1) for f, _ in STRUCTS[s[1]])
            return self.unfold_eq(a, b, H, d)
        if isinstance(s, tuple) and s[0] == 'Tup':
            if a.op == b.op and a.op in ('at', 'fld', 'proj', 'fold', 'app') and self.congr(a, b, H, d):
                return True
            c = self.headcond(a) or self.headcond(b)
            if c is not None:
                return self.split(c, a, b, H, d)
            if a.op == 'tup' or b.op == 'tup':
                return all(self.eq(proj(a, i), proj(b, i), H, d - 1) for i in range(len(s[1])))
            return self.unfold_eq(a, b, H, d)
        if s == 'Bool':
            return self.iff(a, b, H, d)
        if s in NUMERIC:
            return self.numeq(a, b, H, d)
        if isinstance(s, tuple) and s[0] == 'Vec':
            return self.veceq(a, b, H, d)
        return False

    def itepair(self, x, y, H, d):
        """two case distinctions on the same condition"""
        c, e = x.args[0], y.args[0]
        if self.nesting > 4 or d < 12:
            return None
        self.nesting += 1
        try:
            same = c is e or self.limited(6, lambda: self.eq(c, e, H, d - 6))
            flip = not same and c.op == 'not' and self.limited(3, lambda: self.eq(c.args[0], e, H, d - 6)) or \
                not same and e.op == 'not' and self.limited(3, lambda: self.eq(c, e.args[0], H, d - 6))
        finally:
            self.nesting -= 1
        if not same and not flip:
            return None
        p, q = (y.args[1], y.args[2]) if same else (y.args[2], y.args[1])
        h1, h2 = H + (c,), H + (not_(c),)
        if c is not e:
            h1, h2 = h1 + ((e,) if same else (not_(e),)), h2 + ((not_(e),) if same else (e,))
        return (self.eq(x.args[1], p, h1, d - 1) or self.absurd(h1, d)) and (self.eq(x.args[2], q, h2, d - 1) or self.absurd(h2, d))

    def unify(self, a, b, H, d):
        """replace searches (ff, ex) of b by provably equal ones of a"""
        if a.size + b.size > 60000:
            return b
        if self.unifying >= 3:
            return b
        self.unifying += 1
        try:
            for _ in range(8):
                b2 = self.unify1(a, b, H, d)
                if b2 is b:
                    break
                b = b2
        finally:
            self.unifying -= 1
        return b

    def unify1(self, a, b, H, d):
        A, B = searches(a), searches(b)
        ida, idb = {x.id for x in A}, {x.id for x in B}
        A = [x for x in A if x.id not in idb]
        B = [x for x in B if x.id not in ida]
        if not A or not B or len(A) * len(B) > 30 or a in A and b in B:
            return b
        for y in sorted(B, key=lambda t: (t.op in ('ex', 'ff'), t.size)):
            for x in A:
                kf = (x.id, y.id, self.unifying)
                if self.fails.get(kf, 0) > 2:
                    continue
                if x.op == 'fold' or y.op == 'fold':
                    ok = x.sort == y.sort and (x.op == 'fold' or isfold(x)) and (y.op == 'fold' or isfold(y)) and \
                        self.limited(4, lambda: self.eq(x, y, H, d - 6))
                else:
                    ok = x.op == y.op and x.op != 'app' and self.limited(4, lambda: self.bindeq(x, y, H, d - 6))
                if ok:
                    return tm_replace(b, y, x)
                self.fails[kf] = self.fails.get(kf, 0) + 1
        return b

    def limited(self, secs, f):
        old = self.deadline
        t = time.process_time() + secs * self.patience
        self.deadline = min(old, t) if old else t
        try:
            return f()
        except Timeout:
            if old and time.process_time() > old:
                raise
            return False
        finally:
            self.deadline = old

    def unfold_eq(self, a, b, H, d):
        ua, ub = unfold(a), unfold(b)
        if ua is None and ub is None:
            return False
        # prefer unfolding one side first
        if ua is not None and (ub is None or not same_app(a, b)):
            if self.eq(ua, b, H, d - 1):
                return True
        if ub is not None and (ua is None or not same_app(a, b)):
            if self.eq(a, ub, H, d - 1):
                return True
        if ua is not None and ub is not None:
            return self.eq(ua, ub, H, d - 1)
        return False

    def headcond(self, t):
        """a condition to split on, at the head of t"""
        if t.op == 'ite':
            return t.args[0]
        if t.op == 'cat':
            for x in t.args:
                if x.op == 'ite':
                    return x.args[0]
                if x.op == 'unit':
                    c = self.headcond(x.args[0])
                    if c is not None:
                        return c
            return None
        if t.op == 'unit':
            return self.headcond(t.args[0])
        if t.op in ('add', 'mul'):
            for x in t.args:
                c = self.headcond(x)
                if c is not None:
                    return c
        if t.op in ('inv', 'abs', 're', 'im', 'fn', 'm1pow', 'powi', 'cx', 'toR', 'eq0', 'le0', 'fld', 'proj', 'len', 'trunc', 'not', 'idiv', 'imod'):
            for x in t.args:
                c = self.headcond(x)
                if c is not None:
                    return c
        if t.op == 'at':
            for x in t.args:
                c = self.headcond(x)
                if c is not None:
                    return c
        if t.op in ('Sum', 'Prod', 'flat', 'ex', 'ff', 'fold'):
            return self.headcond(t.args[0])
        if t.op == 'mk':
            for x in t.args:
                c = self.headcond(x)
                if c is not None:
                    return c
        return None

    def split(self, c, a, b, H, d, quick=False):
        c0 = c
        if c.op in ('and', 'or') and c.loose == 0:
            # split on one conjunct first, gives better literals
            c = c.args[0]
        if c.op == 'not':
            c = c.args[0]
        if c.loose:
            return False
        if self.entails(H, c):
            return self.eq(a, b, H + (c,), d - 1) if not lit_in(c, H) else False
        nc = not_(c)
        if self.entails(H, nc):
            return self.eq(a, b, H + (nc,), d - 1) if not lit_in(nc, H) else False
        r = None if quick else self.resolve(c, H, d)
        if r is not None:
            return self.eq(a, b, H + (c if r else nc,), d - 1)
        h1, h2 = H + (c,), H + (nc,)
        if c.op == 'app' and contains(a, c) != contains(b, c):
            uc = unfold(c)
            if uc is not None:
                h1, h2 = h1 + (uc,), h2 + (not_(uc),)
        return (self.eq(a, b, h1, d - 1) or self.absurd(h1, d)) and (self.eq(a, b, h2, d - 1) or self.absurd(h2, d))

    def absurd(self, H, d):
        """the hypotheses contradict each other (unfolding the definitions in them, identifying equal atoms)"""
        hs = list(flatten(H))
        k = ('absurd', tuple(sorted(h.id for h in hs)))
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        if self.unifying > 1:
            return False
        self.unifying += 1
        try:
            r = self.limited(6, lambda: self.absurd1(hs, d))
        finally:
            self.unifying -= 1
        self.memo[k] = r
        return r

    def absurd1(self, hs, d):
        if self.entails(hs, FALSE):
            return True
        for rnd in range(4):
            apps = {}
            for h in hs:
                for u in subterms(h):
                    if u.op == 'app' and u.loose == 0 and u.data not in RECURSIVE and u.data in APP:
                        apps[u.id] = u
            if not apps:
                break
            new = hs
            for u in sorted(apps.values(), key=lambda t: -t.size):
                x = unfold(u)
                if x is not None:
                    new = [tm_replace(h, u, x) for h in new]
            new = [self.fuse(h) for h in flatten(new)]
            if [h.id for h in new] == [h.id for h in hs]:
                break
            hs = new
            if sum(h.size for h in hs) > 20000:
                return False
            if FALSE in hs or self.entails(hs, FALSE):
                return True
        # identify equal searches and sums
        base = [h for h in hs if h.op in ('eq0', 'le0') and h.size < 60]
        at_ = {}
        for h in hs:
            for u in closed_atoms(h):
                at_[u.id] = u
        at_ = list(at_.values())[:16]
        changed = False
        for i, x in enumerate(at_):
            for y in at_[i + 1:]:
                if x.op == y.op and x.sort == y.sort and self.quick(x, y) and self.congr(x, y, tuple(base), max(8, d - 8)):
                    hs = [tm_replace(h, y, x) for h in hs]
                    changed = True
                    break
        if not changed:
            return False
        # unit propagation
        for _ in range(3):
            out = []
            for h in flatten(hs):
                out.append(self.simp(h, tuple(g for g in flatten(hs) if g is not h)))
            hs = out
            if FALSE in hs:
                return True
        return self.entails(hs, FALSE)

    def resolve(self, c, H, d):
        """truth value of c from a provably equal condition among the hypotheses"""
        if c.op not in ('ex', 'app', 'fn') or self.unifying > 2:
            return None
        self.unifying += 1
        try:
            for h in flatten(H):
                v = True
                if h.op == 'not':
                    h, v = h.args[0], False
                if h.op == c.op and h is not c and self.quick(h, c) and self.limited(3, lambda: self.congr(h, c, H, d - 8)):
                    return v
        finally:
            self.unifying -= 1
        return None

    def congr(self, a, b, H, d):
        if a.op != b.op or len(a.args) != len(b.args) or a.sort != b.sort:
            return False
        o = a.op
        if o in ('var', 'num'):
            return a is b
        if o in ('fld', 'proj', 'app', 'fn') and a.data != b.data:
            return False
        if o in ('Sum', 'Prod', 'ex', 'ff', 'flat', 'fold'):
            return self.bindeq(a, b, H, d)
        return all(self.eq(x, y, H, d - 1) for x, y in zip(a.args, b.args))

    def bindeq(self, a, b, H, d):
        n, m = a.args[0], b.args[0]
        if not self.eq(n, m, H, d - 1):
            return False
        if a.op == 'fold':
            return self.foldeq(a, b, H, d)
        i = fresh('i', 'Int')
        R = (le(num(0), i), lt(i, n))
        x = inst(a.args[1], i)
        if self.eq(x, inst(b.args[1], i), H + R, d - 1):
            return True
        if a.op in COMM:
            y = inst(b.args[1], sub(sub(n, num(1)), i))
            if self.eq(x, y, H + R, d - 1):
                return True
        return False

    def foldeq(self, a, b, H, d):
        n = a.args[0]
        ia, ib = a.args[2], b.args[2]
        if ia.sort != ib.sort:
            return False
        first = num(0)
        if not self.eq(ia, ib, H, d - 1):
            # the first step may make up for different initial values
            first = num(1)
            if not self.eq(ia, ib, H + (le(n, num(0)),), d - 1):
                return False
            z = num(0)
            if not self.eq(inst(inst(a.args[1], z), ia), inst(inst(b.args[1], z), ib), H + (le(num(1), n),), d - 1):
                return False
        i = fresh('i', 'Int')
        st = fresh('st', ia.sort)
        R = (le(first, i), lt(i, n))
        return self.eq(inst(inst(a.args[1], i), st), inst(inst(b.args[1], i), st), H + R, d - 1)

    # ---------------------------------------------------------- numbers
    def numeq(self, a, b, H, d):
        s = a.sort
        p = sub(a, b)
        if p.op == 'num':
            return p.data == 0
        # congruence closure on atoms
        atoms = []
        seen = set()
        for t in (a, b):
            for k, _ in poly(t).items():
                for x, _p in k:
                    if x.id not in seen:
                        seen.add(x.id)
                        atoms.append(x)
        only_b = []
        ida = {x.id for k in poly(a) for x, _ in k}
        idb = {x.id for k in poly(b) for x, _ in k}
        A = [x for x in atoms if x.id in ida and x.id not in idb]
        B = [x for x in atoms if x.id in idb and x.id not in ida]
        for y in B:
            for x in A:
                if x.op == y.op and x.op != 'ite' and x.op != 'var' and self.quick(x, y) and self.congr(x, y, H, d - 1):
                    nb = tm_replace_top(b, y, x)
                    if self.eq(a, nb, H, d - 1):
                        return True
                    break
        # linear arithmetic leaves
        if s in ('Int', 'Real') and self.entails(H, eq(a, b)):
            return True
        if s == 'Int' and (a.op == 'idiv' or b.op == 'idiv') and self.exact_division(a, b, H, d):
            return True
        c = None
        for t in (a, b):
            c = c or self.headcond(t)
        if c is not None:
            return self.split(c, a, b, H, d)
        # combine sums with equal bounds
        if self.sumgroups(p, H, d):
            return True
        # products split by structure: a/b both single monomials with Prod atoms combined
        if self.prodgroups(a, b, H, d):
            return True
        # unfold specification functions
        u = first_unfold(B + A)
        if u is not None:
            x, ux = u
            return self.eq(tm_replace_top(a, x, ux), tm_replace_top(b, x, ux), H, d - 1)
        for x, y in ((a, b), (b, a)):
            if x.op == 'fold' and self.induct(x, y, H, d):
                return True
        return False

    def induct(self, f, y, H, d):
        """fold(n, step, init) == g(n) for y = g(n), by induction on n"""
        n, l, init = f.args
        if n.loose or y.loose:
            return False
        key = ('induct', f.id, y.id)
        if key in self.active:
            return False
        cands = [y]
        for u in subterms(y):
            if u.op == 'app' and u.data == 'choose':
                cands.append(map_rep(y, u, tm.raw('app', (u.args[0], sub(u.args[0], u.args[1])), 'Int', 'choose')))
        for c in cands:
            if c is not y and not self.eq(c, y, H, d - 2):
                continue
            v = fresh('nat:i', 'Int')
            g = map_rep(c, n, v)
            if g is c:
                continue
            self.active.add(key)
            try:
                at_ = lambda t: subst(g, {v: t})
                if not self.entails(H, le(num(0), n)):
                    continue
                if not self.eq(at_(num(0)), init, H, d - 2):
                    continue
                i = fresh('i', 'Int')
                R = (le(num(0), i), lt(i, n))
                stp = inst(inst(l, i), at_(i))
                if self.eq(stp, at_(add(i, num(1))), H + R, d - 2):
                    return True
            finally:
                self.active.discard(key)
        return False

    def exact_division(self, a, b, H, d):
        """idiv(x, y) == b from x == y * b"""
        for u, w in ((a, b), (b, a)):
            if u.op == 'idiv':
                x, y = u.args
                if self.entails(H, not_(eq(y, num(0)))) and self.entails(H, eq(x, mul(y, w))):
                    return True
        return False

    def quick(self, x, y):
        if x.op in ('app', 'fn', 'fld', 'proj') and x.data != y.data:
            return False
        return True

    def sumgroups(self, p, H, d):
        if p.sort not in NUMERIC:
            return False
        groups = []
        rest = []
        for k, c in poly(p).items():
            ss = [(x, pw) for x, pw in k if x.op == 'Sum' and pw == 1]
            if len(ss) >= 1:
                x = ss[0][0]
                cof = [(y, pw) for y, pw in k if y is not x]
                cof = from_poly({tuple(cof): c}, p.sort)
                groups.append((x, cof))
            else:
                rest.append((k, c))
        if len(groups) < 1:
            return False
        # same bound
        n = groups[0][0].args[0]
        off = num(0, p.sort)
        i = fresh('i', 'Int')
        body = num(0, p.sort)
        for x, cof in groups:
            m = x.args[0]
            dlt = sub(m, n)
            if is_num(dlt) and 0 < dlt.data <= 3 and self.entails(H, le(num(0), n)):
                for j in range(int(dlt.data)):
                    off = add(off, mul2(cof, inst(x.args[1], add(n, num(j)))))
            elif is_num(dlt) and -3 <= dlt.data < 0 and self.entails(H, le(num(0), m)):
                for j in range(int(-dlt.data)):
                    off = sub(off, mul2(cof, inst(x.args[1], add(m, num(j)))))
            elif not self.eq(m, n, H, d - 2):
                return False
            body = add(body, mul2(cof, inst(x.args[1], i)))
        for k, c in rest:
            off = add(off, from_poly({k: c}, p.sort))
        if len(groups) == 1 and off.op != 'num':
            return False
        R = (le(num(0), i), lt(i, n))
        return self.eq(off, num(0, p.sort), H, d - 1) and self.eq(body, num(0, p.sort), H + R, d - 1)

    def prodgroups(self, a, b, H, d):
        ma, mb = single_mono(a), single_mono(b)
        if not ma or not mb:
            return False
        pa = [x for x, _ in ma[1] if x.op == 'Prod']
        pb = [x for x, _ in mb[1] if x.op == 'Prod']
        if not pa or not pb or len(pa) + len(pb) <= 2:
            return False
        n = pa[0].args[0]
        i = fresh('i', 'Int')

        def body(m):
            r = num(1, a.sort)
            rest = num(m[0], a.sort)
            for x, pw in m[1]:
                if x.op == 'Prod' and self.eq(x.args[0], n, H, d - 2):
                    r = mul2(r, powc(inst(x.args[1], i), pw))
                else:
                    rest = mul2(rest, powc(x, pw))
            return r, rest
        ba, ra = body(ma)
        bb, rb = body(mb)
        if ra is a or rb is b:
            return False
        R = (le(num(0), i), lt(i, n))
        return self.eq(ba, bb, H + R, d - 1) and self.eq(ra, rb, H, d - 1)

    # ---------------------------------------------------------- booleans
    def iff(self, a, b, H, d):
        if a.op == b.op and a.op in ('ex',) and self.bindeq(a, b, H, d):
            return True
        if a is TRUE:
            return self.prove(b, H, d)
        if b is TRUE:
            return self.prove(a, H, d)
        if a is FALSE:
            return self.prove(not_(b), H, d)
        if b is FALSE:
            return self.prove(not_(a), H, d)
        if self.entails(H, ite(a, b, not_(b))):
            return True
        A, B = bool_atoms(a), bool_atoms(b)
        # shared conditions first
        if len(A) > 1 or len(B) > 1:
            shared = shared_atoms(a, b)
            if shared:
                return self.split(min(shared, key=lambda x: x.size), a, b, H, d, quick=True)
            r = self.peel(a, b, A, B)
            if r is not None:
                return self.eq(r[0], r[1], H, d - 1)
        # definitions occurring on one side only
        names = [{x.data for x in subterms(t) if x.op == 'app'} for t in (a, b)]
        for L, other in ((A, names[1]), (B, names[0])):
            for x in L:
                if x.op == 'app' and x.data not in other and x.loose == 0:
                    ux = unfold(x)
                    if ux is not None:
                        return self.eq(tm_replace(a, x, ux), tm_replace(b, x, ux), H, d - 1)
        r = self.one_sided(a, b, names)
        if r is not None:
            return self.eq(r[0], r[1], H, d - 1)
        # unify atoms by congruence
        A = bool_atoms(a)
        B = bool_atoms(b)
        ida = {x.id for x in A}
        idb = {x.id for x in B}
        b2 = b
        for y in B:
            if y.id in ida:
                continue
            for x in A:
                if x.id in idb or x.op != y.op:
                    continue
                if x.op == 'eq0':
                    px, py = x.args[0], y.args[0]
                    if px.sort == py.sort and (self.eq(px, py, H, d - 1) or self.eq(px, neg(py), H, d - 1)):
                        b2 = tm_replace(b2, y, x)
                        break
                elif x.op == 'le0':
                    if x.args[0].sort == y.args[0].sort and self.eq(x.args[0], y.args[0], H, d - 1):
                        b2 = tm_replace(b2, y, x)
                        break
                elif self.congr(x, y, H, d - 1):
                    b2 = tm_replace(b2, y, x)
                    break
        if b2 is not b:
            if a is b2 or self.entails(H, ite(a, b2, not_(b2))):
                return True
        c = self.headcond_bool(a) or self.headcond_bool(b)
        if c is not None:
            return self.split(c, a, b2, H, d)
        u = first_unfold(A + B)
        if u is not None:
            x, ux = u
            return self.eq(tm_replace(a, x, ux), tm_replace(b, x, ux), H, d - 1)
        # double implication with existential reasoning
        return self.prove(implies(a, b), H, d - 1) and self.prove(implies(b, a), H, d - 1) if d > 30 else False

    def one_sided(self, a, b, names):
        """unfold a definition whose name occurs on one side only"""
        if a.size + b.size > 20000:
            return None
        for t, other in ((b, names[0]), (a, names[1])):
            best = None
            for x in subterms(t):
                if x.op == 'app' and not x.loose and x.data not in other and x.data not in RECURSIVE and (best is None or x.size > best[0].size):
                    ux = unfold(x)
                    if ux is not None:
                        best = (x, ux)
            if best:
                f = lambda v: tm_replace(v, *best)
                return (f(a), b) if t is a else (a, f(b))
        return None

    def peel(self, a, b, A, B):
        """align the ranges of existentials that differ by a constant"""
        for L, M, first in ((A, B, True), (B, A, False)):
            for e in L:
                if e.op != 'ex' or e.loose:
                    continue
                for g in M:
                    if g.op != 'ex' or g.loose or g is e:
                        continue
                    k = sub(e.args[0], g.args[0])
                    if not is_num(k) or not 0 < k.data <= 3:
                        continue
                    k = int(k.data)
                    n = e.args[0]
                    v = fresh('i', 'Int')
                    for s in range(k + 1):
                        if inst(e.args[1], add(v, num(s))) is not inst(g.args[1], v):
                            continue
                        parts = [g]
                        for j in range(s):
                            parts.append(and_(le(num(j + 1), n), inst(e.args[1], num(j))))
                        for j in range(k - s):
                            # the j-th element from the end
                            parts.append(and_(le(num(s + j + 1), n), inst(e.args[1], sub(n, num(j + 1)))))
                        r = or_(*parts)
                        return (tm_replace(a, e, r), b) if first else (a, tm_replace(b, e, r))
        return None

    def headcond_bool(self, t):
        for x in bool_atoms(t):
            for y in x.args:
                c = self.headcond(y)
                if c is not None and c.loose == 0:
                    return c
        return None

    def prove(self, g, H, d=40):
        self.tick()
        H = tuple(H)
        g = self.simp(g, H)
        if g is TRUE:
            return True
        if d <= 0:
            return False
        if g.op == 'and':
            return all(self.prove(x, H, d - 1) for x in g.args)
        if self.entails(H, g):
            return True
        hn = {x.data for h in H if h.size < 4000 for x in subterms(h) if x.op == 'app'}
        if hn and g.size < 4000:
            hs = [h for h in flatten(H) if searches(h)]
            if hs and d > 12:
                g2 = self.unify(raw('and', tuple(hs), 'Bool'), g, H, d)
                if g2 is not g:
                    return self.prove(g2, H, d - 1)
            best = None
            for x in subterms(g):
                if x.op == 'app' and not x.loose and x.data not in hn and x.data not in RECURSIVE and x.sort != 'Bool' and (best is None or x.size > best[0].size):
                    ux = unfold(x)
                    if ux is not None:
                        best = (x, ux)
            if best:
                return self.prove(tm_replace(g, *best), H, d - 1)
        if g.op == 'or':
            # assume the negation of all but one disjunct
            for x in g.args:
                others = tuple(not_(y) for y in g.args if y is not x)
                if x.op in ('eq0', 'ex') or (x.op == 'not' and x.args[0].op == 'ex') or x.op == 'and':
                    if self.prove(x, H + others, d - 4):
                        return True
            for x in bool_atoms(g):
                if x.op == 'app' and not x.loose:
                    u = unfold(x)
                    if u is not None:
                        return self.prove(tm_replace(g, x, u), H, d - 1)
            return False
        if g.op == 'not' and g.args[0].op == 'ex':
            e = g.args[0]
            i = fresh('i', 'Int')
            return self.prove(not_(inst(e.args[1], i)), H + (le(num(0), i), lt(i, e.args[0])), d - 1)
        if g.op == 'eq0':
            p = g.args[0]
            pos = num(0, p.sort)
            ng = num(0, p.sort)
            for k, c in poly(p).items():
                m = from_poly({k: abs(c)}, p.sort)
                if c > 0:
                    pos = add(pos, m)
                else:
                    ng = add(ng, m)
            return self.numeq(pos, ng, H, d - 1)
        c = self.headcond_bool(g)
        if c is not None and not lit_in(c, H) and not lit_in(not_(c), H):
            return self.prove(g, H + (c,), d - 1) and self.prove(g, H + (not_(c),), d - 1)
        # hypotheses of the form ex: unify with goal ex by congruence
        if g.op == 'ex':
            for h in flatten(H):
                if h.op == 'ex' and self.congr(h, g, H, d - 1):
                    return True
        u = first_unfold(bool_atoms(g))
        if u is not None:
            return self.prove(tm_replace(g, u[0], u[1]), H, d - 1)
        return False

    # ---------------------------------------------------------- vectors
    def veceq(self, a, b, H, d):
        if a.op == b.op and a.op in ('at', 'fld', 'proj', 'app', 'fn', 'flat', 'upd', 'slice', 'fold', 'unit'):
            if self.congr(a, b, H, d):
                return True
        if {a.op, b.op} == {'flat', 'slice'}:
            x, y = (tm.flat_f(sub(v.args[2], v.args[1]), lambda i: unit(at(v.args[0], add(v.args[1], i)))) if v.op == 'slice' else v for v in (a, b))
            if x is y or x.op == y.op and self.congr(x, y, H, d):
                return True
        sa, sb = segs(a), segs(b)
        # strip
        while sa and sb and self.segeq(sa[0], sb[0], H, d):
            sa, sb = sa[1:], sb[1:]
        while sa and sb and self.segeq(sa[-1], sb[-1], H, d):
            sa, sb = sa[:-1], sb[:-1]
        if not sa and not sb:
            return True
        a2, b2 = cat(a.sort, sa), cat(b.sort, sb)
        if (a2 is not a or b2 is not b) and not (a2.op == a.op and a2 is a):
            if self.eq(a2, b2, H, d - 1):
                return True
            return False
        c = self.headcond(a) or self.headcond(b)
        if c is not None:
            return self.split(c, a, b, H, d)
        u = first_unfold(sa + sb)
        if u is not None:
            x, ux = u
            f = lambda v: cat(v.sort, [ux if y is x else y for y in segs(v)])
            return self.eq(f(a), f(b), H, d - 1)
        u = unfold_inside(sa + sb)
        if u is not None:
            x, ux = u
            return self.eq(tm_replace(a, x, ux), tm_replace(b, x, ux), H, d - 1)
        # emptiness
        if not sa or not sb:
            v = a if not sb else b
            return self.entails(H, eq(len_(v), num(0))) or self.isempty(v, H, d)
        # copies of one element
        ca, cb = copies(a), copies(b)
        if ca is not None and cb is not None and ca is cb:
            return self.eq(len_(a), len_(b), H, d - 1)
        # one line treated apart: cut the enumeration there
        for x in sa + sb:
            o = odd_line(x)
            if o is not None:
                k, t, usual = o
                N, lam = x.args
                if self.entails(H, and_(le(num(0), t), lt(t, N))):
                    t1 = add(t, num(1))
                    y = cat(x.sort, [tm.flat_f(t, lambda i: subst(usual, {k: i})), inst(lam, t),
                                     tm.flat_f(sub(N, t1), lambda i: subst(usual, {k: add(t1, i)}))])
                    f = lambda v: cat(v.sort, [y if z is x else z for z in segs(v)])
                    return self.eq(f(a), f(b), H, d - 1)
        # extensionality
        if pointwise(a) and pointwise(b):
            la, lb = len_(a), len_(b)
            if self.eq(la, lb, H, d - 1):
                i = fresh('i', 'Int')
                R = (le(num(0), i), lt(i, la))
                return self.extat(a, b, i, H + R, d - 1)
        return False

    def segeq(self, x, y, H, d):
        if x is y:
            return True
        if {x.op, y.op} == {'flat', 'slice'}:
            return self.eq(x, y, H, d - 2)
        if x.op != y.op:
            return False
        if x.op == 'unit':
            return self.eq(x.args[0], y.args[0], H, d - 2)
        if x.op in ('flat', 'slice', 'fld', 'at', 'proj', 'app', 'upd', 'fold'):
            return self.congr(x, y, H, d - 2)
        return False

    def isempty(self, v, H, d):
        if v.op == 'cat':
            return all(self.isempty(x, H, d) for x in v.args)
        if v.op == 'flat':
            i = fresh('i', 'Int')
            R = (le(num(0), i), lt(i, v.args[0]))
            if self.entails(H, le(v.args[0], num(0))):
                return True
            return self.eq(inst(v.args[1], i), empty(v.sort), H + R, d - 1)
        return self.entails(H, le(len_(v), num(0)))

    def extat(self, a, b, i, H, d):
        """a[i] == b[i], resolving positions inside concatenations by case analysis"""
        def cases(v):
            # list of (condition, element)
            if v.op == 'cat':
                off = num(0)
                out = []
                for x in v.args:
                    L = len_(x)
                    lo, hi = off, add(off, L)
                    for c, e in elems(x, sub(i, lo)):
                        out.append((and_(le(lo, i), lt(i, hi), c), e))
                    off = hi
                return out
            return elems(v, i)

        def elems(v, j):
            if v.op == 'upd':
                c = eq(v.args[1], j)
                return [(c, v.args[2])] + [(and_(not_(c), cc), e) for cc, e in elems(v.args[0], j)]
            if v.op == 'slice':
                return elems(v.args[0], add(v.args[1], j))
            return [(TRUE, at(v, j))]
        for c1, e1 in cases(a):
            for c2, e2 in cases(b):
                cc = and_(c1, c2)
                if cc is FALSE or self.entails(H, not_(cc)):
                    continue
                if not self.eq(e1, e2, H + tuple(flatten([cc])), d - 1):
                    return False
        return True


def odd_line(x):
    """(k, t, B) when x is flat(N, k. body), body tests k == t with t fixed, and B is the body for k != t"""
    if x.op != 'flat':
        return None
    k = fresh('k', 'Int')
    b = inst(x.args[1], k)
    for u in (b.args if b.op == 'cat' else (b,)):
        if u.op != 'ite' or u.args[0].op != 'eq0' or u.args[0].args[0].sort != 'Int':
            continue
        c = u.args[0]
        for t in (sub(k, c.args[0]), add(k, c.args[0])):
            if k.id not in t.fv:
                return k, t, tm_replace(b, c, FALSE)
    return None


def pointwise(v):
    if v.op == 'cat':
        return all(pointwise(x) for x in v.args)
    if v.op == 'flat':
        return v.args[1].args[0].op == 'unit'
    return v.op in ('unit', 'slice', 'upd', 'var', 'fld', 'at', 'proj', 'app', 'fold')


RECURSIVE = {'factorial'}


_structs = {}


def structs(t):
    """closed applications of definitions that build a structure"""
    r = _structs.get(t.id)
    if r is None:
        r = []
        for u in subterms(t):
            if u.op == 'app' and not u.loose and isinstance(u.sort, tuple) and u.sort[0] == 'St':
                x = unfold(u)
                if x is not None and x.op == 'mk':
                    r.append((u, x))
        _structs[t.id] = r
    return r


def reveal(a, b):
    """make the structures built by definitions of b explicit where a does not mention them"""
    if a.size + b.size > 40000 or b.op == 'app' or a.op == 'app':
        return b
    for u, x in structs(b):
        if not contains(a, u):
            b = tm_replace(b, u, x)
    return b


def closed_atoms(t):
    """outermost closed ex/ff/Sum/Prod/imod terms"""
    out, seen = [], set()

    def go(u):
        if u.id in seen:
            return
        seen.add(u.id)
        if u.op in ('ff', 'ex', 'Sum', 'Prod') and u.loose == 0:
            out.append(u)
            return
        for x in u.args:
            go(x)
    go(t)
    return out


def shared_atoms(a, b):
    ids = {x.id for x in bool_atoms(b)}
    return [x for x in bool_atoms(a) if x.id in ids and not x.loose]


def isfold(u):
    if u.op != 'app' or u.data in RECURSIVE:
        return False
    x = unfold(u)
    return x is not None and x.op == 'fold'


def inner_folds(t):
    return [u for u in subterms(t) if not u.loose and u is not t and (u.op == 'fold' or isfold(u))]


_searches = {}


def searches(t):
    """closed ff/ex terms occurring in t outside of others"""
    r = _searches.get(t.id)
    if r is None:
        out, seen = [], set()

        def go(u):
            if u.id in seen:
                return
            seen.add(u.id)
            if u.op in ('ff', 'ex', 'fold') and u.loose == 0:
                out.append(u)
                if u.op != 'fold' and u.size < 3000:
                    out.extend(x for x in inner_folds(u) if x not in out)
                return
            if u.op == 'app' and u.loose == 0 and isfold(u):
                out.append(u)
                return
            for x in u.args:
                go(x)
        go(t)
        r = _searches[t.id] = out
    return r


def choose_facts(ts):
    """axioms of the binomial coefficient, instantiated for the occurring terms"""
    out = []
    seen = set()
    for t in list(ts):
        for u in subterms(t, seen):
            if u.op == 'app' and u.data == 'choose' and not u.loose:
                n, k = u.args
                C = lambda j: tm.raw('app', (n, j), 'Int', 'choose')
                out.append(implies(and_(le(num(0), n), eq(k, num(0))), eq(u, num(1))))
                out.append(implies(and_(le(num(0), n), le(num(1), k)), eq(mul(u, k), mul(C(sub(k, num(1))), add(sub(n, k), num(1))))))
                out.append(implies(and_(le(num(0), k), le(k, n)), eq(u, C(sub(n, k)))))
    return out


def map_rep(t, a, b):
    from .loops import map_replace
    return map_replace(t, a, b)


def copies(v):
    """e if every element of v is the closed term e"""
    def f(x):
        if x.op == 'unit':
            return {x.args[0]} if x.args[0].loose == 0 else None
        if x.op == 'cat':
            out = set()
            for y in x.args:
                r = f(y)
                if r is None:
                    return None
                out |= r
            return out
        if x.op == 'flat':
            return f(x.args[1].args[0])
        if x.op == 'ite':
            l, r = f(x.args[1]), f(x.args[2])
            return None if l is None or r is None else l | r
        if isempty_lit(x):
            return set()
        return None
    r = f(v)
    return next(iter(r)) if r is not None and len(r) == 1 else None


def isempty_lit(x):
    return x.op == 'cat' and not x.args or x is empty(x.sort)


def lit_in(c, H):
    return any(h is c for h in flatten(H))


def is_any(t):
    return t.op == 'fn' and isinstance(t.data, str) and t.data.startswith('any:')


def anyval(name, args, sort):
    """a result the specification leaves open"""
    if not isinstance(sort, str) and sort[0] == 'St':
        return mk(sort, *[anyval(name + '.' + f, args, s) for f, s in STRUCTS[sort[1]]])
    return raw('fn', tuple(args), sort, 'any:' + name)


def orient(p):
    """p == 0 as a rewrite atom -> term"""
    if p.sort not in ('Int', 'Real', 'Cx'):
        return None
    best = None
    d = poly(p)
    for k, c in d.items():
        if len(k) == 1 and k[0][1] == 1:
            a = k[0][0]
            if a.op == 'ite' or a.op == 'num':
                continue
            if p.sort == 'Int' and abs(c) != 1:
                continue
            rest = dict(d)
            del rest[k]
            r = scale(tm.Q(-1, c), from_poly(rest, p.sort))
            if contains(r, a):
                continue
            # prefer variables, then larger ids
            rank = (a.op == 'var', a.op != 'len', a.size, a.id)
            if best is None or rank > best[0]:
                best = (rank, a, r)
    if best:
        return best[1], best[2]
    return None


def contains(t, a):
    return any(u is a for u in subterms(t))


def tm_replace(t, a, b):
    from .loops import map_replace
    if a.loose or b.loose:
        return t
    return map_replace(t, a, b)


def tm_replace_top(t, a, b):
    """replace atom a in the polynomial t"""
    r = num(0, t.sort)
    for k, c in poly(t).items():
        m = num(c, t.sort)
        for x, p in k:
            m = mul2(m, powc(b if x is a else x, p))
        r = add(r, m)
    return r


def bool_atoms(t, out=None):
    out = [] if out is None else out
    if t.op in ('and', 'or', 'not'):
        for a in t.args:
            bool_atoms(a, out)
    elif t.op == 'ite' and t.sort == 'Bool':
        for a in t.args:
            bool_atoms(a, out)
    elif t.op not in ('true', 'false'):
        if not any(t is x for x in out):
            out.append(t)
    return out


def same_app(a, b):
    return a.op == 'app' and b.op == 'app' and a.data == b.data


def unfold(t):
    if t.op == 'app':
        f = APP.get(t.data)
        if f is None:
            return None
        return f(*t.args)
    if t.op in ('fld', 'proj', 'len'):
        u = unfold(t.args[0])
        if u is None:
            return None
        return rebuild(t, [u])
    if t.op in ('at', 'slice', 'upd'):
        u = unfold(t.args[0])
        if u is None:
            return None
        return rebuild(t, [u] + list(t.args[1:]))
    return None


def first_unfold(ts):
    for t in ts:
        if t.loose:
            continue
        u = unfold(t)
        if u is not None:
            return t, u
    for t in ts:
        if t.op in ('inv', 're', 'im', 'abs', 'cx', 'toR', 'm1pow', 'powi', 'fn', 'eq0', 'le0', 'trunc', 'imod', 'idiv'):
            for a in t.args:
                us = []
                for k in poly(a):
                    us += [x for x, _ in k]
                r = first_unfold(us)
                if r is not None:
                    return t, rebuild(t, [tm_replace_top(x, r[0], r[1]) if x is a else x for x in t.args])
    for t in ts:
        if t.op in ('Sum', 'Prod', 'ex', 'ff', 'flat'):
            r = unfold_inside([t.args[0]])
            if r is not None:
                return t, rebuild(t, [tm_replace(t.args[0], r[0], r[1])] + list(t.args[1:]))
    return None


def unfold_inside(ts):
    for t in ts:
        for u in subterms(t):
            if u.op == 'app' and u.loose == 0:
                x = unfold(u)
                if x is not None:
                    return u, x
    return None


def domain(t):
    """the finite set of values of an integer term, or None"""
    if t.op == 'num' and t.sort == 'Int':
        return {int(t.data)}
    if t.op == 'ite':
        a, b = domain(t.args[1]), domain(t.args[2])
        return None if a is None or b is None else a | b
    if t.op == 'm1pow':
        return {1, -1}
    if t.op in ('add', 'mul') and t.sort == 'Int':
        acc = {0} if t.op == 'add' else {1}
        for x, c in zip(t.args, t.data):
            d = {1} if x.op == 'num' and t.op == 'add' and x.data == 1 else domain(x)
            if d is None:
                return None
            acc = {y + int(c) * z if t.op == 'add' else y * z ** c for y in acc for z in d}
            if len(acc) > 6:
                return None
        return acc
    return None


def elem_domain(v):
    """the finite set of values of the elements of a built vector of integers, or None"""
    if v.sort != ('Vec', 'Int'):
        return None
    if v.op == 'unit':
        return domain(v.args[0])
    if v.op == 'flat':
        return elem_domain(v.args[1].args[0])
    if v.op in ('cat', 'ite'):
        out = set()
        for x in v.args[v.op == 'ite':]:
            d = elem_domain(x)
            if d is None:
                return None
            out |= d
        return out
    return None


def all_elems(v, f):
    """not(some element fails f), pushed into the way v is built"""
    if v.op == 'unit':
        return f(v.args[0])
    if v.op == 'cat':
        return and_(*[all_elems(x, f) for x in v.args])
    if v.op == 'ite':
        return ite(v.args[0], all_elems(v.args[1], f), all_elems(v.args[2], f))
    if v.op == 'flat':
        return not_(ex_f(v.args[0], lambda i: not_(all_elems(inst(v.args[1], i), f))))
    return not_(ex_f(len_(v), lambda i: not_(f(at(v, i)))))


def adjacent(u):
    """ex(|v|-1, v[i] != v[i+1]) for v with elements from a finite set: not all elements equal"""
    n, l = u.args
    b = l.args[0]
    if b.op != 'not' or b.args[0].op != 'eq0' or b.args[0].args[0].op != 'add' or u.loose:
        return None
    i = fresh('i', 'Int')
    p = inst(l, i)
    if p.op != 'not' or p.args[0].op != 'eq0':
        return None
    p = p.args[0].args[0]
    if p.op != 'add' or len(p.args) != 2 or p.args[0].op != 'at':
        return None
    v = p.args[0].args[0]
    if i.id in v.fv or len_(v) is not add(n, num(1)):
        return None
    d = sub(at(v, i), at(v, add(i, num(1))))
    if p is not d and p is not neg(d):
        return None
    D = elem_domain(v)
    if not D:
        return None
    return and_(*[not_(all_elems(v, lambda e: eq(e, num(k)))) for k in sorted(D)])


def elem_facts(ts):
    """what is known of v[i] for v built from a finite set of values"""
    out = []
    seen = set()
    for t in list(ts):
        for u in subterms(t, seen):
            if u.op == 'at' and u.sort == 'Int' and not u.loose and u.args[0].op in ('flat', 'cat'):
                v, i = u.args
                D = elem_domain(v)
                if D:
                    rng = and_(le(num(0), i), lt(i, len_(v)))
                    out.append(implies(rng, or_(*[eq(u, num(k)) for k in sorted(D)])))
                    for k in sorted(D):
                        out.append(implies(and_(rng, all_elems(v, lambda e: eq(e, num(k)))), eq(u, num(k))))
    return out


def fuse1(u):
    if u.op == 'ex':
        r = adjacent(u)
        if r is not None:
            return r
    """Sum/Prod/ex/flat over j < |w| of body(w[j]) with w built by flat/cat"""
    n, l = u.args[0], u.args[1]
    v = fresh('f', 'Int')
    body = inst(l, v)
    ws = {}
    direct = False
    for x in subterms(body):
        if x.op == 'at' and x.args[1] is v and v.id not in x.args[0].fv and x.args[0].loose == 0:
            ws[x.id] = x
    cands = [x for x in ws.values() if x.args[0].op in ('flat', 'cat', 'slice')]
    if not cands:
        return None
    for x in cands:
        w = x.args[0]
        if len_(w) is not n:
            continue
        e = fresh('e', x.sort)
        b2 = tm_replace(body, x, e)
        if v.id in b2.fv:
            continue
        parts = []
        for s in segs(w):
            if s.op == 'unit':
                parts.append(subst(b2, {e: s.args[0]}))
            elif s.op == 'flat' and s.args[1].args[0].op != 'unit':
                ll = s.args[1]
                op = {'Sum': sum_f, 'Prod': prod_f, 'ex': ex_f, 'flat': flat_f}[u.op]

                def inner(i, ll=ll):
                    return over(u.op, inst(ll, i), lambda y: subst(b2, {e: y}))
                parts.append(op(s.args[0], inner))
            else:
                parts.append(over(u.op, s, lambda y: subst(b2, {e: y})))
        return combine(u.op, parts, u.sort)
    return None


def over(op, vecterm, f):
    """op over the elements of vecterm of f(element), pushing through units/cats/ites"""
    o = vecterm.op
    if o == 'unit':
        return f(vecterm.args[0])
    if o == 'cat':
        parts = [over(op, x, f) for x in vecterm.args]
        if not parts:
            e = fresh('e', vecterm.sort[1])
            return combine(op, [], f(e).sort)
        return combine(op, parts, parts[0].sort)
    if o == 'ite':
        return ite(vecterm.args[0], over(op, vecterm.args[1], f), over(op, vecterm.args[2], f))
    g = {'Sum': sum_f, 'Prod': prod_f, 'ex': ex_f, 'flat': flat_f}[op]
    return g(len_(vecterm), lambda i: f(at(vecterm, i)))


def combine(op, parts, sort):
    if op == 'Sum':
        return add(num(0, sort), *parts)
    if op == 'Prod':
        return mul(num(1, sort), *parts)
    if op == 'ex':
        return or_(*parts)
    return cat(sort, parts)
