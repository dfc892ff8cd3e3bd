"""C15: every access stays inside its container, for every well-formed input.

Well-formedness is a type invariant over two ghost constants (NE energies, NA frequencies): every line and pole has NE energy and
NA frequency coefficients, a pole's frequency index is one of them and its multiplicity is positive, the external lists have NE and
NA entries, and no more than NA integrations are asked for.  Every function may assume it for its arguments and for the results of
its callees and must establish it for its results and for the arguments it passes; what ties several arguments together is stated
per function in REQ and FACTS.
"""
from . import terms as tm
from .terms import *

NE, NA = var('NE', 'Int'), var('NA', 'Int')
BASE = (le(num(0), NE), le(num(0), NA))

G, P, TERM, EXT, PARMS = [('St', n) for n in ('g_struct', 'pole_struct', 'term', 'ami_vars', 'ami_parms')]
DEBUG = False
KINDS = (G, P, EXT, PARMS)


def holds(s):
    """values of this sort contain structures with an invariant"""
    if s in KINDS or s == TERM:
        return True
    return isinstance(s, tuple) and s[0] == 'Vec' and holds(s[1])


def invariant(x):
    s = x.sort
    if s == G:
        return [eq(len_(fld(x, 'eps_')), NE), eq(len_(fld(x, 'alpha_')), NA)]
    if s == P:
        i = fld(x, 'index_')
        return [eq(len_(fld(x, 'eps_')), NE), eq(len_(fld(x, 'alpha_')), NA), le(num(0), i), lt(i, NA), le(num(1), fld(x, 'multiplicity_')),
                le(num(0), fld(x, 'der_')), le(len_(fld(x, 'x_alpha_')), NA)]
    if s == EXT:
        return [eq(len_(fld(x, 'energy_')), NE), eq(len_(fld(x, 'frequency_')), NA)]
    if s == PARMS:
        n = fld(x, 'N_INT_')
        return [le(num(0), n), le(n, NA)]
    return []


REQ = {}       # label -> function of the arguments -> conditions every caller must establish
EACH = {}
FACTS = {}     # spec function -> function of (application's arguments, value) -> what its value satisfies


def req(*labels):
    def deco(f):
        for l in labels:
            REQ[l] = f
        return f
    return deco


def fact(*names):
    def deco(f):
        for n in names:
            FACTS[n] = f
        return f
    return deco


def each(*names):
    """what every entry of a list satisfies"""
    def deco(f):
        for n in names:
            EACH[n] = f
            FACTS[n] = lambda a, v, f=f: [every(len_(v), lambda q: f(a, at(v, q)))]
        return f
    return deco


def requires(label, args):
    f = REQ.get(label)
    out = []
    for a in args:
        if a.op == 'var':
            out += invariant(a)
    return out + (list(f(*args)) if f else [])


def every(n, f):
    return not_(ex_f(n, lambda i: not_(f(i))))


def within(i, v):
    return and_(le(num(0), i), lt(i, len_(v)))


def which(pole, g):
    """the lines a pole refers to"""
    w = fld(pole, 'which_g_')
    return [le(num(1), len_(w)), every(len_(w), lambda j: within(at(w, j), g))]


@req('find_poles', 'find_signs')
def _(i, r):
    return [le(num(0), i), lt(i, NA)]


@req('get_simple_sign')
def _(i, r, p):
    return [le(num(0), i), lt(i, NA)] + which(p, r)


@req('simple_residue', 'get_starting_sign', 'evaluate_general_residue')
def _(g, p, *_):
    return which(p, g)


@req('update_gprod_general')
def _(i, a, r, p, s):
    return [le(num(0), i), lt(i, NA), within(a, r)]


@req('terms_general_residue')
def _(t, p, out):
    return which(p, fld(t, 'g_list'))


@req('integrate_step')
def _(i, tin, tout):
    return [le(num(0), i), lt(i, NA)]


@req('construct_terms')
def _(n, r0, out):
    return [le(num(0), n), le(n, NA)]


@each('find_poles')
def _(a, x):
    return and_(*which(x, a[1]))


def first_hit(R, level):
    return tm.ff_f(len_(R), lambda i: not_(eq(len_(level(at(R, i), i)), num(0))))


def in_lines(R, x, k):
    """x names a line (two lines of one product) of level k"""
    n = at(at(R, at(x, num(0))), at(x, num(1)))
    return and_(eq(at(x, num(0)), k), within(at(x, num(0)), R), within(at(x, num(1)), at(R, at(x, num(0)))), within(at(x, num(2)), n))


@each('triggers')
def _(a, x):
    from . import specs as S
    return and_(eq(len_(x), num(3)), in_lines(a[0], x, first_hit(a[0], lambda r, i: S.DEFS['level_triggers'].fn(r, i, a[1]))))


@each('equal_pairs')
def _(a, x):
    from . import specs as S
    return and_(eq(len_(x), num(4)), in_lines(a[0], x, first_hit(a[0], lambda r, i: S.DEFS['level_pairs'].fn(r, i, a[1]))),
                within(at(x, num(3)), at(at(a[0], at(x, num(0))), at(x, num(1)))))


def step_shape(R, x, y, z):
    """one level's products, poles and signs follow the shape of the level before"""
    return [eq(len_(y), len_(R)), eq(len_(z), len_(R)), every(len_(R), lambda j: eq(len_(at(z, j)), len_(at(y, j)))),
            eq(len_(x), sum_f(len_(R), lambda j: len_(at(y, j))))]


LEVEL = ('next_products', 'level_poles', 'level_signs')


@fact('next_products', 'level_signs', 'level_poles')
def _(a, v):
    from . import specs as S
    return step_shape(a[1], *(S.DEFS[f](*a) for f in LEVEL))


ENSURES = {}   # label -> function of the arguments and outputs -> what the outputs satisfy


def ensures(*labels):
    def deco(f):
        for l in labels:
            ENSURES[l] = f
        return f
    return deco


@ensures('update_gprod_general')
def _(args, ret, outs):
    i, a, R, P, S = args
    R2, P2, S2 = outs[2:]
    return [eq(len_(R2), add(len_(R), num(1))), eq(len_(P2), add(len_(P), num(1))), eq(len_(S2), add(len_(S), num(1)))] + step_shape(
        at(R, a), at(R2, len_(R)), at(P2, len_(P)), at(S2, len_(S)))


@ensures('construct')
def _(args, ret, outs):
    n = fld(args[0], 'N_INT_')
    return solution(n, *outs[2:]) + [eq(len_(outs[2]), add(n, num(1))), le(n, NA)]


class Each:
    """every entry of v (deep = 0), every entry of every entry of v (1) satisfies phi"""

    def __init__(self, v, phi, deep=0, hyps=()):
        self.v, self.phi, self.deep, self.hyps = v, phi, deep, tuple(hyps)

    def cond(self):
        def f(v, d):
            return every(len_(v), lambda q: f(at(v, q), d - 1) if d else self.phi(at(v, q)))
        return f(self.v, self.deep)


@fact('groups')
def _(a, v):
    return [x.cond() for x in group_facts(a[0], v)]


def group_facts(rr, v):
    """groups have members, which are products"""
    return [Each(v, lambda x: le(num(1), len_(x))), Each(v, lambda r: within_n(fld(r, 'first'), len_(rr)), 1)]


@fact('all_refs')
def _(a, v):
    """references name lines of the list of unique lines"""
    from . import specs as S
    return [Each(v, lambda r: within(fld(r, 'first'), S.unique_lines(a[0])), 1).cond()]


def references_by_definition(Rn):
    """the same about the definitions of all_refs and unique_lines"""
    from . import specs as S
    names = ('unique_lines', 'all_refs', 'product_refs', 'add_lines', 'first_equiv', 'has_equiv')
    v, u = open_up(S.all_refs(Rn), names), open_up(S.unique_lines(Rn), names)
    return Each(v, lambda r: within(fld(r, 'first'), u), 1)


@ensures('reduce_rref')
def _(args, ret, outs):
    return group_facts(args[0], outs[1])


@ensures('factorize_Rn', 'factorize_terms')
def _(args, ret, outs):
    ug, rref, ev = outs[1:]
    goal = lambda n, u, r, e: factorised(n, u, r, e)
    if rref.op != 'app' or rref.data != 'leader_refs':
        return goal(len_(args[0]), ug, rref, ev)
    # first the references of all products, then the groups made of them
    A = rref.args[0]
    A1, U1 = fresh('references', A.sort), fresh('lines', ug.sort)
    r1, e1 = (tm.map_term(x, lambda y: A1 if y is A else None) for x in (rref, ev))
    phi = lambda r, u: within(fld(r, 'first'), u)
    known = [Each(A1, lambda r: phi(r, U1), 1).cond(), eq(len_(A1), len_(args[0]))]
    first, rest = factorised(len_(args[0]), U1, r1, e1)[0], Each(r1.args[1], lambda r: within_n(fld(r, 'first'), len_(args[0])), 1, known)
    return ([references_by_definition(args[0])] if args[0].sort == vec(vec(G)) else []) + [eq(len_(A), len_(args[0])), Each(A, lambda r: phi(r, ug), 1), Each(rest.v, rest.phi, 1, known), implies(and_(*known), first),
            Each(r1, lambda r: phi(r, U1), 1, known)]


@req('star')
def _(parms, K, R, ext):
    return [le(num(1), len_(K)), le(len_(at(K, num(0))), len_(R))]


@req('dot')
def _(S, F):
    return [le(len_(S), len_(F)), every(len_(S), lambda i: le(len_(at(S, i)), len_(at(F, i))))]


@req('cross')
def _(l, r):
    return [le(num(1), len_(l)), le(num(1), len_(r)), le(len_(at(l, num(0))), len_(r))]


def solution(n, R, P, S):
    """what a stored solution for n integrations looks like"""
    return [lt(n, len_(R)), le(n, len_(P)), le(n, len_(S)), eq(len_(at(R, num(0))), num(1)),
            every(n, lambda i: and_(eq(len_(at(P, i)), len_(at(R, i))), eq(len_(at(S, i)), len_(at(R, i))),
                                    every(len_(at(R, i)), lambda j: eq(len_(at(at(S, i), j)), len_(at(at(P, i), j)))),
                                    eq(len_(at(R, add(i, num(1)))), sum_f(len_(at(R, i)), lambda j: len_(at(at(P, i), j))))))]


def given(n, R, P, S):
    """a stored solution as a precondition: with the size of its first level written out"""
    first = len_(at(at(P, num(0)), num(0)))
    return solution(n, R, P, S) + [or_(eq(n, num(0)), and_(eq(len_(at(R, num(1))), first), eq(len_(at(at(S, num(0)), num(0))), first)))]


@req('evaluate')
def _(parms, R, P, S, ext, *_):
    return given(fld(parms, 'N_INT_'), R, P, S)


@req('evaluate_otf', 'detect_otf_trigger')
def _(parms, R, P, S, ext, *_):
    n = fld(parms, 'N_INT_')
    return given(n, R, P, S) + [le(len_(R), add(n, num(1))), le(n, NA)]


def factorised(nk, ug, rref, ev):
    """references of a factorised solution over nk products"""
    return [le(len_(ev), len_(rref)),
            every(len_(ev), lambda i: and_(every(len_(at(ev, i)), lambda j: within_n(fld(at(at(ev, i), j), 'first'), nk)),
                                           every(len_(at(rref, i)), lambda j: within(fld(at(at(rref, i), j), 'first'), ug))))]


def within_n(i, n):
    return and_(le(num(0), i), lt(i, n))


@req('optimized_star')
def _(parms, K, ug, rref, ev, ext):
    return [le(num(1), len_(K))] + factorised(len_(at(K, num(0))), ug, rref, ev)


@req('evaluate_opt')
def _(parms, R, P, S, ext, ug, rref, ev):
    n = fld(parms, 'N_INT_')
    return given(n, R, P, S) + factorised(len_(at(R, n)), ug, rref, ev) + [
        # a factorised solution has terms, hence so has every level (follows from the sizes above)
        or_(eq(len_(ug), num(0)), eq(len_(rref), num(0)), eq(len_(ev), num(0)), every(n, lambda i: lt(num(0), len_(at(R, i)))))]


@req('evaluate_terms_opt')
def _(parms, ts, ext, ug, rref, ev):
    return factorised(len_(ts), ug, rref, ev)


@req('derivative_opt')
def _(ug, rref, ev, *_):
    return [eq(len_(ev), len_(rref)), lt(num(0), NA), every(len_(rref), lambda i: every(len_(at(rref, i)), lambda j: within(fld(at(at(rref, i), j), 'first'), ug)))]


@req('reduce_rref')
def _(rref, ev, *_):
    return [eq(len_(ev), num(0))]


def shared_lengths():
    """the three lists of a derivative are built in step: one entry for the occupation and one per line that depends on the pole"""
    from . import specs as S

    def n(g, p, *_):
        return add(num(1), sum_f(len_(g), lambda t: ite(eq(S.deriv_coeff(g, p, t), num(0)), num(0), num(1))))
    for f in ('derivative_products', 'derivative_poles', 'derivative_signs'):
        def ln(*xs, f=f):
            if any(x.loose for x in xs):
                vs = [fresh('a', x.sort) for x in xs]
                return S.subst_open(n(*vs), vs, xs)
            return n(*xs)
        # justified by the definition itself
        vs = [fresh('a', x) for x in S.DEFS[f].args]
        d = len_(S.DEFS[f].fn(*vs))
        assert d is n(*vs), (f, str(d), str(n(*vs)))
        tm.LEN[f] = ln


def rows(args):
    """candidate loop invariants: after i steps a list of coefficients belongs to one of the levels of a stored solution"""
    out = []
    n = fld(next(x for x in args if x.sort == PARMS), 'N_INT_')
    for r in args:
        for p in args:
            if r.sort == vec(vec(vec(G))) and p.sort == vec(vec(vec(P))):
                for d in (0, 1):
                    def f(s, r=r, p=p, d=d):
                        if s != vec(vec('Cx')):
                            return []

                        def ok(i, t):
                            k = add(i, num(d))
                            return [le(num(1), len_(t)), eq(len_(at(t, num(0))), sum_f(len_(at(r, k)), lambda j: len_(at(at(p, k), j))))]
                        return [(lambda i, t, m=m: or_(and_(le(i, num(0)), not_(eq(n, num(1)))), ok(i, t)[m]), (sub(n, num(1 + d)),)) for m in (0, 1)]
                    out.append(f)
    return out


class Shapes:
    """lemmas of one function: the invariants of the structures met in a goal, the facts about the results of its callees"""

    depth = 3

    def __init__(self, hyps, seconds=5):
        self.hyps = tuple(hyps)
        self.memo = {}
        self.growth = False    # supply facts about the lengths of lists that loops append to
        self.busy = set()
        self.guess = []
        self.seconds = seconds

    def prover(self, seconds=None):
        from . import prover as PR
        pr = PR.Prover(seconds or self.seconds)
        pr.inst_depth = self.depth
        pr.match = True
        pr.lemmas = pr.lemmas + [self.lemma]
        return pr

    def lemma(self, ts):
        out, seen = [], set()
        new = list(ts)
        for _ in range(3):
            add_ = []
            met = [u for t in new for u in subterms(t) if u.op == 'fold' and not u.loose]
            for u in met:
                for w in met:
                    if u.args[0] is w.args[0] and u is not w:
                        add_ += self.alongside(u, w)
            for t in new:
                for u in subterms(t, seen):
                    if u.loose:
                        continue
                    if u.op == 'fld' and u.args[0].sort in KINDS:
                        add_ += self.of(u.args[0])
                    elif u.op == 'app' and u.data in FACTS:
                        add_ += FACTS[u.data](u.args, u)
                    elif u.op == 'fold':
                        add_ += self.fold(u)
                    elif u.op == 'at' and u.args[0].op == 'fold' and isinstance(u.sort, tuple) and u.sort[0] == 'Vec':
                        add_ += self.appended(u)
            add_ = [f for f in add_ if f is not TRUE]
            if not add_:
                break
            out += add_
            new = add_
        if self.growth:
            out += growth(list(ts) + out)
        return out

    # ---------------------------------------------------------- what a loop preserves
    def fold(self, u):
        n, l, init = u.args
        k = ('fold', l.id, init.id)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = []
            i = fresh('k', 'Int')
            s = fresh('s', init.sort)
            cands = self.candidates(init.sort, l, len_(init) if init.sort[0] == 'Vec' else None)
            step = inst(inst(l, i), s)
            vs = set(l.fv) | set(init.fv) | set(NA.fv) | set(NE.fv) | {x for f, b in cands for x in f(num(0), init).fv}
            hyps = tuple(h for h in self.hyps if set(h.fv) <= vs)
            keep = [(f, b) for f, b in cands if self.prove(f(num(0), init), hyps)]
            if DEBUG:
                print('LOOP', str(step)[:600], 'candidates', len(cands), 'initially', len(keep))
            while keep:
                H = hyps + (le(num(0), i),) + tuple(f(i, s) for f, b in keep)
                good = [(f, b) for f, b in keep if self.prove(f(add(i, num(1)), step), H + tuple(lt(i, x) for x in b))]
                if DEBUG:
                    for f, b in keep:
                        print('  STEP', (f, b) in good, str(f(add(i, num(1)), step))[:600])
                if len(good) == len(keep):
                    break
                keep = good
            r = self.memo[k] = keep
        m = ite(le(num(0), n), n, num(0))
        return [implies(and_(*(le(m, x) for x in b)), f(m, u)) for f, b in r]

    def appended(self, u):
        """entry j of a list that grows by one entry per iteration: in place after iteration j, and unchanged from then on"""
        F, j = u.args
        n, l, init = F.args
        k = fresh('k', 'Int')
        s = fresh('s', init.sort)
        st = inst(inst(l, k), s)
        m = len_(init)
        if not (st.op == 'cat' and len(st.args) == 2 and st.args[0] is s and st.args[1].op == 'unit'):
            return []
        j1 = sub(j, m)
        at_j = lambda c: tm.fold(c, l, init)
        here = subst(st.args[1].args[0], {k: j1, s: at_j(j1)})
        ok = and_(le(num(0), n), le(m, j), lt(j1, n))
        return [implies(ok, eq(len_(u), len_(here))), implies(ok, eq(len_(u), len_(at(at_j(add(j1, num(1))), j)))),
                implies(and_(le(num(0), n), le(num(0), j), lt(j, m)), eq(len_(u), len_(at(init, j))))]

    def alongside(self, u, w):
        """two loops with as many iterations: lists that grow in step"""
        k = ('pair', u.args[1].id, u.args[2].id, w.args[1].id, w.args[2].id)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = []
            if u.sort[0] == 'Vec':
                i = fresh('k', 'Int')
                s = fresh('s', u.sort)
                W = fold_at(w, i)
                us, ws = inst(inst(u.args[1], i), s), inst(inst(w.args[1], i), W)
                for j in parts(w.sort):
                    if self.prove(eq(len_(u.args[2]), len_(part(w.args[2], j))), self.hyps) and self.prove(
                            eq(len_(us), len_(part(ws, j))), self.hyps + (le(num(0), i), eq(len_(s), len_(part(W, j))))):
                        r.append(j)
        return [eq(len_(u), len_(part(w, j))) for j in r]

    def candidates(self, s, l, len0=None):
        """[(predicate of iteration count and state, bounds on the count)]"""
        out = []
        if isinstance(s, tuple) and s[0] == 'Tup':
            v = [j for j, x in enumerate(s[1]) if isinstance(x, tuple) and x[0] == 'Vec']
            for a in range(len(v)):
                for b in range(a):
                    out.append((lambda i, t, p=v[a], q=v[b]: eq(len_(proj(t, p)), len_(proj(t, q))), ()))
        if isinstance(s, tuple) and s[0] == 'Vec' and len0 is not None:
            out.append((lambda i, t: eq(len_(t), add(len0, i)), ()))
        for f in self.guess:
            for g in f(s):
                out.append(g)
        return out

    def of(self, x):
        r = self.memo.get(x.id)
        if r is None:
            self.memo[x.id] = []
            if x.op == 'ite':
                r = []      # met again in the branches
            elif x.op != 'mk' and self.ok(x, self.hyps):
                g = self.guards(x)
                r = [implies(and_(*g), i) for i in invariant(x)]
            else:
                r = []
            self.memo[x.id] = r
        return r

    def guards(self, x):
        """the reads that lead to x are inside their containers"""
        out = []
        while True:
            if x.op == 'at':
                out += [le(num(0), x.args[1]), lt(x.args[1], len_(x.args[0]))]
                x = x.args[0]
            elif x.op in ('fld', 'proj'):
                x = x.args[0]
            else:
                return out

    def ok(self, t, H, why=None):
        """every structure in t satisfies its invariant"""
        if t.sort in ('Int', 'Real', 'Cx', 'Bool') or not holds_any(t.sort):
            return True
        o = t.op
        if o == 'var':
            r = not str(t.data).startswith('undef_')
        elif o == 'app':
            r = True
        elif o == 'ite':
            r = self.ok(t.args[1], H + (t.args[0],), why) and self.ok(t.args[2], H + (not_(t.args[0]),), why)
        elif o in ('cat', 'tup'):
            return all(self.ok(x, H, why) for x in t.args)
        elif o == 'unit':
            return self.ok(t.args[0], H, why)
        elif o == 'flat':
            i = fresh('i', 'Int')
            return self.ok(inst(t.args[1], i), H + (le(num(0), i), lt(i, t.args[0])), why)
        elif o == 'slice':
            return self.ok(t.args[0], H, why)
        elif o == 'upd':
            return self.ok(t.args[0], H, why) and self.ok(t.args[2], H, why)
        elif o in ('at', 'fld', 'proj'):
            return self.ok(t.args[0], H, why)
        elif o == 'fold':
            n, l, init = t.args
            i = fresh('i', 'Int')
            s = fresh('s', init.sort)
            return self.ok(init, H, why) and self.ok(inst(inst(l, i), s), H + (le(num(0), i), lt(i, n)) + kept(l, s, init), why)
        elif o == 'mk':
            if t.sort not in KINDS:
                return all(self.ok(x, H, why) for x in t.args)
            for c in invariant(t):
                if not self.prove(c, H):
                    if why is not None:
                        why.append('%s does not hold for %s' % (str(c)[:400], str(t)[:400]))
                    return False
            return True
        else:
            r = False
        if not r and why is not None:
            why.append('nothing is known about ' + str(t)[:400])
        return r

    def each(self, v, phi, H, known=(), deep=0):
        """every entry of v satisfies phi"""
        o = v.op
        if o == 'ite':
            return self.each(v.args[1], phi, H + (v.args[0],), known, deep) and self.each(v.args[2], phi, H + (not_(v.args[0]),), known, deep)
        if o == 'cat':
            return all(self.each(x, phi, H, known, deep) for x in v.args)
        if o == 'unit':
            return self.each(v.args[0], phi, H, (), deep - 1) if deep else self.prove(phi(v.args[0]), H)
        if o == 'flat':
            i = fresh('i', 'Int')
            return self.each(inst(v.args[1], i), phi, H + (le(num(0), i), lt(i, v.args[0])), known, deep)
        if o == 'slice':
            return self.each(v.args[0], phi, H, known, deep)
        if o == 'upd':
            i = fresh('i', 'Int')
            return not deep and self.each(v.args[0], phi, H, known, deep) and self.prove(
                phi(v.args[2]), H + (le(num(0), v.args[1]), lt(v.args[1], len_(v.args[0])), phi(at(v.args[0], v.args[1]))))
        if o == 'fold':
            n, l, init = v.args
            i = fresh('i', 'Int')
            s = fresh('s', init.sort)
            return self.each(init, phi, H, known, deep) and self.each(inst(inst(l, i), s), phi, H + (le(num(0), i), lt(i, n)) + kept(l, s, init), known + (s,), deep)
        if any(v is x for x in known):
            return True
        if self.prove(Each(v, phi, deep).cond(), H):
            return True
        from . import specs as S
        return o == 'app' and v.data not in EACH and v.data in tm.APP and self.each(S.DEFS[v.data].fn(*v.args), phi, H, known, deep)

    def entries(self, c, H):
        """c speaks about an entry of a list built here: show it for every entry"""
        for u in subterms(c):
            if u.op != 'at' or u.loose or u.args[0].op not in ('cat', 'flat', 'fold', 'upd', 'ite'):
                continue
            v, i = u.args
            x = fresh('x', u.sort)
            r = tm.map_term(c, lambda y: x if y is u else None)
            if any(y is u for y in subterms(r)):
                continue
            if not self.prove(and_(le(num(0), i), lt(i, len_(v))), H):
                continue
            vals = [h for h in H if not any(y is v for y in subterms(h))]
            if self.each(v, lambda y: subst(r, {x: y}), tuple(vals)):
                return True
        return False

    # ---------------------------------------------------------- entries of lists put together from several parts
    def boundary(self, u, pr, H):
        """entry u of a list in two parts: (where the second part starts, the entry if it is in the first part, in the second part)"""
        v, i = u.args
        if v.op == 'cat':
            n = pr.decide(len_(v.args[0]), H)
            return n, at(v.args[0], i), at(cat(v.sort, v.args[1:]), sub(i, n))
        n, l, init = v.args
        k = fresh('k', 'Int')
        s = fresh('s', init.sort)
        st = inst(inst(l, k), s)
        if not (st.op == 'cat' and len(st.args) == 2 and st.args[0] is s and st.args[1].op == 'unit'):
            return None
        m = pr.decide(len_(init), H)
        j = sub(i, m)
        # in range: the entry written in iteration j
        if not pr.entails(H, lt(j, n)):
            return None
        return m, at(init, i), subst(st.args[1].args[0], {k: j, s: tm.fold(j, l, init)})

    def settle(self, g, H, seconds, depth=6, local=()):
        """prove g by resolving the entries it and what is assumed locally read, case by case"""
        if g is TRUE:
            return True
        if g.op == 'and':
            return all(self.settle(x, H, seconds, depth, local) for x in g.args)
        if g.op == 'not' and g.args[0].op == 'ex':
            e = g.args[0]
            i = fresh('i', 'Int')
            return self.settle(not_(inst(e.args[1], i)), H, seconds, depth, local + (le(num(0), i), lt(i, e.args[0])))
        if g.op == 'or' and any(x.op == 'and' for x in g.args):
            x = [x for x in g.args if x.op == 'and'][0]
            return self.settle(x, H, seconds, depth, local + tuple(not_(y) for y in g.args if y is not x))
        pr = self.prover(seconds)
        pivot = None
        for _ in range(12):
            m = {}
            for u in {u.id: u for x in (g,) + local for u in subterms(x)}.values():
                if u.op == 'at' and not u.loose and u.args[0].op in ('cat', 'fold') and (u.args[0].op == 'cat' or u.sort[0] == 'Vec'):
                    G = H + local
                    b = self.boundary(u, pr, G)
                    if b is None:
                        continue
                    if pr.entails(G, lt(u.args[1], b[0])):
                        m[u.id] = b[1]
                    elif pr.entails(G, le(b[0], u.args[1])):
                        m[u.id] = b[2]
                    elif pivot is None:
                        pivot = lt(u.args[1], b[0])
            if not m:
                break
            pivot = None
            g, *local = [tm.map_term(x, lambda x: m.get(x.id)) for x in (g,) + local]
            local = tuple(local)
        known = tuple(f for u in subterms(g) if u.op == 'app' and u.data in FACTS and not u.loose for f in FACTS[u.data](u.args, u) if f is not TRUE)
        if known:
            from .prover import Prover, Timeout
            try:
                if Prover(2).entails(H + local + known, g):
                    return True
            except (Timeout, RecursionError):
                pass
        if pivot is not None and depth > 0:
            return self.settle(g, H + (pivot,), seconds, depth - 1, local) and self.settle(g, H + (not_(pivot),), seconds, depth - 1, local)
        if DEBUG:
            print('SETTLE', str(g)[:400])
        return self.prove(g, H + local + known, seconds)

    def prove(self, c, H, seconds=None):
        from .prover import Timeout
        k = (c.id, tuple(h.id for h in H))
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        try:
            self.memo[k] = self.prover(seconds).prove(open_up(c), tuple(open_up(h) for h in H))
        except (Timeout, RecursionError):
            pass
        return self.memo[k]


OPEN = ('cross', 'dot', 'fermi', 'dot_cx', 'vanishing', 'coinciding')
_open = {}


def open_up(t, names=OPEN):
    """unfold the definitions of lists that follow the shape of their arguments"""
    from . import specs as S

    def f(u):
        if u.op == 'app' and u.data in names:
            vs = [fresh('a', x.sort) for x in u.args]
            d = open_up(S.DEFS[u.data].fn(*vs), names) if names is not OPEN else S.DEFS[u.data].fn(*vs)
            return S.subst_open(d, vs, u.args) if any(x.loose for x in u.args) else subst(d, dict(zip(vs, u.args)))
    k = (names, t.id)
    r = _open.get(k)
    if r is None:
        r = _open[k] = tm.map_term(t, f) if any(u.op == 'app' and u.data in names for u in subterms(t)) else t
    return r


def kept(l, s, init):
    """the state s of a loop that only writes entries in place has the row lengths of init"""
    if l.loose or init.loose or init.sort[0] != 'Vec':
        return ()
    out = []
    if tm.keeps_length(l):
        out.append(eq(len_(s), len_(init)))
    if isinstance(init.sort[1], tuple) and init.sort[1][0] == 'Vec' and tm.keeps_length(l, 1):
        out.append(every(len_(init), lambda j: eq(len_(at(s, j)), len_(at(init, j)))))
        if isinstance(init.sort[1][1], tuple) and init.sort[1][1][0] == 'Vec' and tm.keeps_length(l, 2):
            out.append(every(len_(init), lambda j: every(len_(at(init, j)), lambda k: eq(len_(at(at(s, j), k)), len_(at(at(init, j), k))))))
    return tuple(out)


def parts(s):
    if s[0] == 'Tup':
        return [j for j, x in enumerate(s[1]) if isinstance(x, tuple) and x[0] == 'Vec']
    return [None]


def appends(st, s):
    if st is s:
        return True
    if st.op == 'cat':
        return appends(st.args[0], s)
    if st.op == 'ite':
        return appends(st.args[1], s) and appends(st.args[2], s)
    if st.op == 'fold':
        k, t = fresh('k', 'Int'), fresh('s', st.sort)
        return appends(st.args[2], s) and appends(inst(inst(st.args[1], k), t), t)
    return False


def growth(ts):
    """lengths of a list that loops append to, after different numbers of iterations"""
    out, seen, loops, after = [], set(), {}, set()
    new = list(ts)
    for _ in range(4):
        met = [u for t in new for u in subterms(t, seen) if u.op == 'fold' and not u.loose and isinstance(u.sort, tuple) and u.sort[0] == 'Vec']
        new = []
        for u in met:
            n, l, init = u.args
            g = loops.get((l.id, init.id))
            if g is None:
                k, s = fresh('k', 'Int'), fresh('s', u.sort)
                g = loops[(l.id, init.id)] = {} if appends(inst(inst(l, k), s), s) else False
            if g is False or n.id in g:
                continue
            g[n.id] = u
            if n.id not in after and not tm.is_num(n):
                n1 = add(n, num(1))
                after.add(n1.id)
                new.append(implies(le(num(0), n), eq(len_(tm.fold(n1, l, init)), len_(inst(inst(l, n), u)))))
        out += new
        if not new:
            break
    for g in loops.values():
        us = list(g.values()) if g else []
        for u in us:
            out.append(le(len_(u.args[2]), len_(u)))
            for w in us:
                if u is not w:
                    out.append(implies(le(u.args[0], w.args[0]), le(len_(u), len_(w))))
    return [x for x in out if x is not TRUE]


def part(t, j):
    return t if j is None else proj(t, j)


def fold_at(u, i):
    return tm.fold(i, u.args[1], u.args[2])


def holds_any(s):
    if isinstance(s, tuple) and s[0] == 'Tup':
        return any(holds_any(x) for x in s[1])
    return holds(s)


class Ob:
    """an obligation of C15"""

    def __init__(self, fn, kind, cond, hyps, loc):
        self.fn, self.kind, self.cond, self.hyps, self.loc = fn, kind, cond, tuple(hyps), loc
        self.status = self.why = self.each = None
        self.guess = []
        self.cases = ()
        self.time = 0.0

    @property
    def name(self):
        return '%s.%s@%s' % (self.fn, self.kind, self.loc)


def obligations(prog, func, contract, byfn):
    from . import contracts as K
    if 'derivative_products' not in tm.LEN:
        shared_lengths()
    ex, vcs = K.obligations(prog, func, contract, byfn, memory=True)
    c, args, this, ret, outs, this_out = ex.instance
    L = contract.label
    H = BASE + tuple(c.pre) + tuple(requires(L, args))
    obs = []
    for o in ex.obls:
        if o.cond.op == 'fn' and str(o.cond.data).startswith('call:'):
            callee = o.cond.data[5:]
            f = REQ.get(callee)
            for x in o.cond.args:
                if holds(x.sort) and x.op not in ('var', 'app'):
                    obs.append(Ob(L, 'argument of ' + callee, x, H + o.hyps, o.loc))
            for x in (f(*o.cond.args) if f else ()):
                obs.append(Ob(L, 'requirement of ' + callee, x, H + o.hyps, o.loc))
        else:
            obs.append(Ob(L, o.kind, o.cond, H + o.hyps, o.loc))
    for j, q in enumerate(func.params):
        if outs[j] is not args[j] and isinstance(outs[j], T):
            obs += result(L, q.get('name', str(j)), outs[j], c.out.get(j), H)
    if L in ENSURES:
        for x in ENSURES[L](args, ret, [outs[j] for j in range(len(args))]):
            if isinstance(x, Each):
                o = Ob(L, 'shape of the outputs', x.cond(), H + x.hyps, '')
                o.each = (x.v, x.phi, x.deep)
            else:
                o = Ob(L, 'shape of the outputs', x, H, '')
            obs.append(o)
    if isinstance(ret, T):
        obs += result(L, 'result', ret, c.ret, H)
    if c.cases:
        obs.append(Ob(L, 'cases are exhaustive', or_(*(and_(*x) for x in c.cases)), H, ''))
    for o in obs:
        o.cases = tuple(c.cases) if not o.kind.startswith('cases') else ()
        if any(x.sort == PARMS for x in args):
            o.guess = rows(args)
    return ex, obs, H


def result(L, n, code, spec, H):
    out = []
    if holds(code.sort):
        out.append(Ob(L, 'invariant of ' + n, code, H, ''))
    if spec is not None and spec.op == 'app' and spec.data in FACTS:
        for f in FACTS[spec.data](spec.args, code):
            o = Ob(L, 'shape of ' + n, f, H, '')
            if spec.data in EACH:
                o.each = (code, lambda x: EACH[spec.data](spec.args, x), 0)
            out.append(o)
    u = [x for x in fv(code) if str(x.data).startswith('undef_')]
    if u:
        out.append(Ob(L, 'unset value in ' + n, code, H, ''))
    return out


def fv(t):
    return [tm._vars[i] for i in t.fv]


def discharge(o, H, seconds=20):
    import time
    t0 = time.process_time()
    sh = Shapes(o.hyps)
    sh.guess = o.guess
    sh.growth = o.each is not None and o.each[2] > 0
    o.why = []
    if o.kind.startswith('invariant') or o.kind.startswith('argument'):
        r = sh.ok(o.cond, o.hyps, o.why)
    elif o.kind.startswith('unset'):
        m = {x: fresh('other', x.sort) for x in fv(o.cond) if str(x.data).startswith('undef_')}
        r = True
        for x in o.cases or ((),):
            try:
                pr = sh.prover(seconds)
                t = pr.decide(o.cond, o.hyps + x) if o.cases else o.cond
                r = r and (not any(y.id in t.fv for y in m) or pr.eq(t, subst(t, m), o.hyps + x))
            except Exception:
                r = False
    else:
        r = o.each is not None and sh.each(o.each[0], o.each[1], o.hyps, deep=o.each[2])
        r = r or sh.entries(o.cond, o.hyps) or sh.prove(o.cond, o.hyps, seconds / 4 if o.cases else seconds)
        r = r or bool(o.cases) and all(sh.settle(sh.prover().decide(o.cond, o.hyps + x), o.hyps + x, seconds) for x in o.cases)
    o.time = time.process_time() - t0
    o.status = 'proved' if r else 'unproved'
    return r
