"""Comparison of the real code with the specification on concrete inputs."""
import math, random, time
from . import ceval, terms as tm, contracts as K
from .ceval import ANY, Stop
from .gen import Gen
from .driver import Driver, Crash
from .terms import STRUCTS, var
from .symex import Exec


# ---- outputs judged by meaning instead of by equality with the specified list

def lines_equal(g, h, sign):
    f = lambda v, n: v[[m for m, _ in STRUCTS['g_struct']].index(n)]
    return f(g, 'species_') == f(h, 'species_') and f(g, 'eps_') == tuple(sign * x for x in f(h, 'eps_')) and f(g, 'alpha_') == tuple(sign * x for x in f(h, 'alpha_'))


def sgn(rs):
    r = 1
    for _, s in rs:
        r *= s
    return r


def custom_pair(args, ret, outs):
    a, b = args[0], args[1]
    same_lines = sorted(x for x, _ in a) == sorted(x for x, _ in b)
    if ret and not same_lines:
        return {'output': 'result', 'expected': 'not equivalent', 'got': 'equivalent'}
    if ret and (outs[2], outs[3]) != (sgn(a), sgn(b)):
        return {'output': 'signs', 'expected': repr((sgn(a), sgn(b))), 'got': repr(outs[2:4])}
    if not ret and same_lines and len(set(x for x, _ in a)) == len(a):
        return {'output': 'result', 'expected': 'equivalent', 'got': 'not equivalent'}


custom_pair.outputs = ('result', 'r1', 'r2', 'r1sign', 'r2sign')


def groups_ok(refs, newrefs, ev, base=0):
    """every index in exactly one group; references of its group equal its own up to order and the recorded sign"""
    seen = sorted(i for g in ev for i, _ in g)
    if seen != list(range(len(refs))):
        return {'output': 'groups', 'expected': 'every product in exactly one group', 'got': repr(ev)}
    if len(newrefs) != len(ev):
        return {'output': 'references', 'expected': '%d groups' % len(ev), 'got': repr(newrefs)}
    for g, nr in zip(ev, newrefs):
        for i, s in g:
            if sorted(x for x, _ in refs[i]) != sorted(x for x, _ in nr):
                return {'output': 'references', 'expected': 'the lines of product %d: %r' % (i, refs[i]), 'got': repr(nr)}
            if s * sgn(nr) != sgn(refs[i]):
                return {'output': 'signs', 'expected': 'sign %d for product %d' % (sgn(refs[i]), i), 'got': repr(s * sgn(nr))}


def custom_reduce(args, ret, outs):
    refs, ev0 = args
    n = len(ev0)
    if outs[1][:n] != ev0:
        return {'output': 'Eval_list', 'expected': 'earlier entries kept', 'got': repr(outs[1])}
    if n == 0:
        return groups_ok(refs, outs[0], outs[1])


custom_reduce.outputs = ('Rref', 'Eval_list')


def factor_ok(prods, u, rr, ev):
    import itertools
    if sorted(i for g in ev for i, _ in g) != list(range(len(prods))):
        return {'output': 'Eval_list', 'expected': 'every product in exactly one group', 'got': repr(ev)}
    if len(rr) != len(ev):
        return {'output': 'Rref', 'expected': '%d groups' % len(ev), 'got': repr(rr)}
    for g, nr in zip(ev, rr):
        for i, s in g:
            p = prods[i]
            if len(p) != len(nr) or any(not 0 <= x < len(u) for x, _ in nr):
                return {'output': 'Rref', 'expected': 'references of the %d lines of product %d' % (len(p), i), 'got': repr(nr)}
            if not match(list(p), [u[x] for x, _ in nr], s * sgn(nr)):
                return {'output': 'Rref', 'expected': 'product %d = sign * referenced lines' % i, 'got': 'sign %r, lines %r' % (s * sgn(nr), [u[x] for x, _ in nr])}


def match(p, ls, sign):
    """p equals, line by line in some order and up to signs of lines with the given total sign, the lines ls"""
    if not p:
        return sign == 1
    g = p[0]
    for k, l in enumerate(ls):
        for s in (1, -1):
            if lines_equal(g, l, s) and match(p[1:], ls[:k] + ls[k + 1:], sign * s):
                return True
    return False


def custom_factor(args, ret, outs):
    return factor_ok(args[0], outs[1], outs[2], outs[3])


custom_factor.outputs = ('unique_g', 'Rref', 'Eval_list')


def custom_factor_terms(args, ret, outs):
    k = [m for m, _ in STRUCTS['term']].index('g_list')
    return factor_ok([t[k] for t in args[0]], outs[1], outs[2], outs[3])


custom_factor_terms.outputs = ('unique_g', 'Rref', 'Eval_list')

CUSTOM = {'pair_v_equiv': custom_pair, 'reduce_rref': custom_reduce, 'factorize_Rn': custom_factor, 'factorize_terms': custom_factor_terms}


def finite(v):
    if isinstance(v, tuple):
        return all(finite(x) for x in v)
    if isinstance(v, complex):
        return math.isfinite(v.real) and math.isfinite(v.imag)
    if isinstance(v, float):
        return math.isfinite(v)
    return True


def same(a, b, s, rel=1e-9, slack=None, floor=1e-14):
    """spec value a, real value b; slack: spec value at perturbed inputs, to estimate conditioning"""
    if a is ANY:
        return True
    if s in ('Int', 'Bool'):
        return a == b
    if s in ('Real', 'Cx'):
        if not finite(a):
            return True
        if isinstance(b, float) and not math.isfinite(b) or isinstance(b, complex) and not finite(b):
            return slack is not None and not finite(slack)
        d = abs(a - b)
        tol = rel * max(abs(a), abs(b)) + floor
        if slack is not None and slack is not ANY:
            if not finite(slack):
                return True
            tol += 3e4 * abs(a - slack)
        return d <= tol
    if s[0] == 'Vec':
        if len(a) != len(b):
            return False
        ok = slack is not None and len(slack) == len(a)
        return all(same(x, y, s[1], rel, slack[i] if ok else None) for i, (x, y) in enumerate(zip(a, b)))
    return all(same(x, y, fs, rel, slack[i] if slack is not None else None) for i, ((x, y), (f, fs)) in enumerate(zip(zip(a, b), STRUCTS[s[1]])))


def perturb(v, s, k=1e-13):
    if s == 'Real':
        return v * (1 + k)
    if s == 'Cx':
        return complex(v.real * (1 + k), v.imag * (1 + k * 0.7))
    if isinstance(s, str):
        return v
    if s[0] == 'Vec':
        return tuple(perturb(x, s[1], k * (1 + 0.37 * i)) for i, x in enumerate(v))
    return tuple(perturb(x, fs, k * (1 + 0.21 * i)) for i, (x, (f, fs)) in enumerate(zip(v, STRUCTS[s[1]])))


def small(v):
    if isinstance(v, (tuple, list)):
        return all(small(x) for x in v)
    return not isinstance(v, int) or abs(v) < 1 << 31


class Oracle:
    """one function under contract, ready for concrete comparison"""

    def __init__(self, prog, label, func, contract):
        ex = Exec(prog, {})
        self.label, self.func = label, func
        self.sorts = [ex.sort(q) for q in func.params]
        self.names = [q.get('name', str(j)) for j, q in enumerate(func.params)]
        self.refs = []
        for q in func.params:
            qt = q['type'].get('desugaredQualType') or q['type']['qualType']
            self.refs.append(qt.rstrip().endswith('&'))
        rt = func.type.split('(')[0].strip()
        s = prog.sort(rt)
        self.ret = None if s == 'Unit' else s
        self.av = [var('%s' % n, s) for n, s in zip(self.names, self.sorts)]
        self.tv = {n: var('this.' + n, s) for n, s in STRUCTS['AmiBase']}
        self.c = contract.instance(self.av, self.tv)
        self.wanted = lambda n: True
        self.project = None

    def env(self, args, state):
        e = {v: x for v, x in zip(self.av, args)}
        for (n, s), x in zip(STRUCTS['AmiBase'], state):
            e[self.tv[n]] = x
        return e

    def pre(self, args, state):
        return all(ceval.evaluate(p, self.env(args, state)) for p in self.c.pre)

    def check(self, drv, args, state, budget=300000, rel=1e-9):
        """None if the real outputs conform, else a description.  Raises Stop if the specification has no value here"""
        if not small(args):
            raise Stop('integer out of range in the input')
        env = self.env(args, state)
        c = self.c
        spec = {}
        if c.ret is not None:
            spec['result'] = (ceval.evaluate(c.ret, env, budget), self.ret)
        custom = CUSTOM.get(self.label)
        for j, s in enumerate(self.sorts):
            if self.refs[j]:
                spec[self.names[j]] = (ceval.evaluate(c.out[j], env, budget), s) if j in c.out else (args[j], s)
        try:
            r, outs, st = drv.call(self.label, args, self.sorts, self.ret, self.sorts, state)
        except Crash as e:
            return {'output': 'termination', 'expected': 'normal return', 'got': str(e)}
        real = {'result': r}
        for j, n in enumerate(self.names):
            real[n] = outs[j]
        if custom and self.wanted('result') and not self.project:
            bad = custom(args, r, outs)
            if bad:
                return bad
        pert = None
        floor = 1e-14
        if self.label == 'fermi_bose' and args[0] == 0:     # no cancellation: small values count
            floor = 0.0
        for n, (a, s) in spec.items():
            if custom and n in custom.outputs and not self.project or not self.wanted(n):
                continue
            if self.project and s is not None:
                from .props import species_value, holds_lines
                if holds_lines(s):
                    x, y = species_value(a, s), species_value(real[n], s)
                    if x != y:
                        return {'output': n, 'expected': 'species ' + repr(x), 'got': 'species ' + repr(y)}
                    continue
                if self.label != 'g_struct_equiv':
                    continue
            if n != 'result' and s is None:
                continue
            if not same(a, real[n], s, rel, None, floor):
                if pert is None:
                    e2 = self.env([perturb(x, s2) for x, s2 in zip(args, self.sorts)], state)
                    pert = {}
                    try:
                        for m in spec:
                            t = c.ret if m == 'result' else c.out.get(self.names.index(m))
                            if t is not None:
                                pert[m] = ceval.evaluate(t, e2, budget)
                    except Stop:
                        pass
                if not same(a, real[n], s, rel, pert.get(n), floor):
                    return {'output': n, 'expected': repr(a), 'got': repr(real[n])}
        for (n, s), old, new in zip(STRUCTS['AmiBase'], state, st):
            if not self.wanted(n):
                continue
            if n in c.least:
                bound, opq, keep = c.least[n]
                if not keep:
                    i = [m for m, _ in STRUCTS['AmiBase']].index(n)
                    _, _, st2 = drv.call(self.label, args, self.sorts, self.ret, self.sorts, state[:i] + (not old,) + state[i + 1:])
                    if st2[i] != new:
                        return {'output': n, 'expected': 'the same whether it was set before the call or not', 'got': repr({old: new, not old: st2[i]})}
                if keep and old and not new:
                    return {'output': n, 'expected': 'stays set', 'got': 'cleared'}
                try:
                    need = ceval.evaluate(bound, env, budget)
                except Stop:
                    need = False
                if not new and need is True and self.robust(bound, env, args, state, budget):
                    return {'output': n, 'expected': 'raised', 'got': 'not raised'}
                continue
            t = c.set.get(n)
            if t is None:
                if old != new:
                    return {'output': n, 'expected': 'unchanged (%r)' % (old,), 'got': repr(new)}
                continue
            try:
                want = ceval.evaluate(t, env, budget)
            except Stop:
                continue
            if want is ANY or want == new:
                continue
            if self.robust(t, env, args, state, budget):
                return {'output': n, 'expected': repr(want), 'got': repr(new)}
        return None

    def robust(self, t, env, args, state, budget):
        """the expected flag does not hinge on rounding"""
        base = ceval.evaluate(t, env, budget)
        for k in (1e-11, -1e-11):
            st = tuple(perturb(x, s, k) if n == 'precision_cutoff' else x for (n, s), x in zip(STRUCTS['AmiBase'], state))
            try:
                if ceval.evaluate(t, self.env(args, st), budget) != base:
                    return False
                if ceval.evaluate(t, self.env([perturb(x, s2, k) for x, s2 in zip(args, self.sorts)], st), budget) != base:
                    return False
            except Stop:
                return False
        return True


def campaign(oracle, drv, seed, n, seconds, lits=(), big=False):
    """-> (number of comparisons, skipped, failure or None)"""
    g = Gen(seed, lits, big)
    t0 = time.time()
    done = skipped = 0
    for i in range(n):
        if time.time() - t0 > seconds:
            break
        g.big = big or i > n // 2
        try:
            args = g.args(oracle.label, oracle.sorts)
            state = g.state()
            if not oracle.pre(args, state):
                skipped += 1
                continue
            bad = oracle.check(drv, args, state, rel=1e-3 if g.loose else 1e-9)
        except (Stop, OverflowError, ValueError) as e:
            skipped += 1
            continue
        done += 1
        if bad:
            bad.update(function=oracle.label, arguments={k: repr(v) for k, v in zip(oracle.names, args)},
                       state={k: v for (k, _), v in zip(STRUCTS['AmiBase'], state)}, request=drv.last)
            return done, skipped, bad
    return done, skipped, None


# ---- C14: the same call again, on the same object, after other calls and with other contents of the output arguments

def vary(g, v, s):
    """v with some real leaf changed"""
    if s in ('Real', 'Cx'):
        return g.r.choice((v + 0.5, v * 2 + 0.25, v - 1.25, g.dyadic()))
    if isinstance(s, str):
        return v
    if s[0] == 'Vec':
        if not v:
            return v
        k = g.r.randrange(len(v))
        return v[:k] + (vary(g, v[k], s[1]),) + v[k + 1:]
    ks = [i for i, (f, fs) in enumerate(STRUCTS[s[1]]) if not (fs in ('Int', 'Bool'))]
    if not ks:
        return v
    k = g.r.choice(ks)
    return v[:k] + (vary(g, v[k], STRUCTS[s[1]][k][1]),) + v[k + 1:]


def order_campaign(oracles, mk, seed, n, seconds, lits=()):
    """the same calls, every one on a new object, in one order in one process and in the opposite order in another: a result that depends on
    anything but the arguments (a table shared by calls, a remembered value) differs for any pair of calls of which one influences the other.
    -> (number of comparisons, skipped, {label: failure})"""
    import itertools
    g = Gen(seed, lits)
    t0 = time.time()
    calls = []
    skipped = 0
    for o in oracles:
        sets = []
        if all(s == 'Int' for s in o.sorts) and len(o.sorts) <= 2:
            sets = [(a, g.state()) for a in itertools.product(range(14), repeat=len(o.sorts))]
        for i in range(n):
            try:
                sets.append((g.args(o.label, o.sorts), g.state()))
            except (Stop, OverflowError, ValueError):
                skipped += 1
        for args, state in sets:
            try:
                if not o.pre(args, state) or not small(args):
                    raise Stop('not a valid input')
                env = o.env(args, state)
                spec = {j: ceval.evaluate(t, env, 30000) for j, t in o.c.out.items()}
                spec['result'] = ceval.evaluate(o.c.ret, env, 30000) if o.c.ret is not None else None
            except (Stop, OverflowError, ValueError):
                skipped += 1
                continue
            calls.append((o, args, state, spec))
            if time.time() - t0 > seconds / 2:
                break
    g.r.shuffle(calls)
    # calls of one function follow each other now and then
    calls = calls[:len(calls) // 2] + sorted(calls[len(calls) // 2:], key=lambda c: c[0].label)

    def run(seq):
        drv = mk()
        out, text = {}, {}
        try:
            for k in seq:
                o, args, state, spec = calls[k]
                try:
                    out[k] = drv.call(o.label, args, o.sorts, o.ret, o.sorts, state, False)[:2]
                except Crash:
                    pass
                text[k] = drv.last
        finally:
            drv.close()
        return out, text

    def differ(k, x, y):
        o, args, state, spec = calls[k]
        if not equal_up_to(x[0], y[0], spec['result']):
            return 'result', x[0], y[0]
        for j in o.c.out:
            if not equal_up_to(x[1][j], y[1][j], spec[j]):
                return o.names[j], x[1][j], y[1][j]
        return None
    ks = list(range(len(calls)))
    a, text = run(ks)
    b, _ = run(ks[::-1])
    bad = {}
    for k in ks:
        o = calls[k][0]
        if k not in a or k not in b or o.label in bad or not differ(k, a[k], b[k]):
            continue
        alone = run([k])[0].get(k)
        if alone is None:
            continue
        before = ks[:k] if differ(k, alone, a[k]) else ks[:k:-1]

        def shows(h):
            r = run(h + [k])[0].get(k)
            return r and differ(k, alone, r)
        if not shows(before):
            continue        # not reproduced: no verdict
        lo, hi = 0, len(before)         # shortest ending of the history that still shows it
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if shows(before[mid:]):
                lo = mid
            else:
                hi = mid
        h = before[lo:]
        if len(h) > 1 and shows(h[:1]):
            h = h[:1]
        d = shows(h)
        if not d:
            continue
        bad[o.label] = {'function': o.label, 'output': d[0], 'expected': 'the same as without earlier calls: ' + repr(d[1]), 'got': repr(d[2]),
                        'arguments': {m: repr(v) for m, v in zip(o.names, calls[k][1])},
                        'state': {m: v for (m, _), v in zip(STRUCTS['AmiBase'], calls[k][2])}, 'request': text[k],
                        'history': [text[x] for x in h] + [text[k]], 'calls': [calls[x][0].label for x in h] + [o.label]}
    return len(a) + len(b), skipped, bad


def equal_up_to(a, b, spec):
    if spec is ANY:
        return True
    if isinstance(a, tuple):
        if len(a) != len(b):
            return False
        k = isinstance(spec, tuple) and len(spec) == len(a)
        return all(equal_up_to(x, y, spec[i] if k else None) for i, (x, y) in enumerate(zip(a, b)))
    return repr(a) == repr(b)


def purity_campaign(oracle, others, drv, seed, n, seconds, lits=()):
    g = Gen(seed, lits)
    t0 = time.time()
    done = skipped = 0
    o = oracle
    c = o.c
    fv = set()
    for t in [c.ret] + list(c.out.values()):
        if t is not None:
            fv |= t.fv
    pure = [j for j in c.out if o.av[j].id not in fv]
    ov = o.tv['overflow_detected']
    flag = 'overflow_detected' in c.set and not (c.least and c.least['overflow_detected'][2]) and ov.id not in c.set['overflow_detected'].fv
    fi = [m for m, _ in STRUCTS['AmiBase']].index('overflow_detected')
    for i in range(n):
        if time.time() - t0 > seconds:
            break
        g.big = i > n // 2
        try:
            args = g.args(o.label, o.sorts)
            state = g.state()
            if not o.pre(args, state) or not small(args):
                skipped += 1
                continue
            args2 = list(args)
            for j in pure:
                args2[j] = g.garbage(o.sorts[j])
            mids = []
            for _ in range(g.r.choice((1, 1, 2))):
                if g.chance(0.6):
                    a = list(args2)
                    k = [j for j, s in enumerate(o.sorts) if j not in pure and not (s in ('Int', 'Bool'))]
                    if k:
                        j = g.r.choice(k)
                        a[j] = vary(g, a[j], o.sorts[j])
                    mids.append((o, a))
                else:
                    p = g.r.choice(others)
                    a = p and g.args(p.label, p.sorts)
                    if p.pre(a, state) and small(a):
                        mids.append((p, a))
        except (Stop, OverflowError, ValueError):
            skipped += 1
            continue
        log = []

        def call(q, a, st, keep):
            r = drv.call(q.label, a, q.sorts, q.ret, q.sorts, st, keep)
            log.append((q.label, drv.last))
            return r
        try:
            r1, outs1, st1 = call(o, args, state, False)
        except Crash as e:
            skipped += 1      # judged elsewhere (memory safety, values)
            continue
        bad = None
        for j in range(len(args)):
            if o.refs[j] and j not in c.out and repr(outs1[j]) != repr(args[j]):
                bad = {'output': o.names[j], 'expected': 'unchanged: ' + repr(args[j]), 'got': repr(outs1[j])}
        for k, ((m, s), x, y) in enumerate(zip(STRUCTS['AmiBase'], state, st1)):
            if m not in c.set and repr(x) != repr(y) and not bad:
                bad = {'output': m, 'expected': 'unchanged: ' + repr(x), 'got': repr(y)}
        if not bad:
            try:
                for q, a in mids:
                    call(q, a, None, True)
                r2, outs2, st2 = call(o, args2, None, True)
            except Crash:
                skipped += 1
                continue
            try:
                env = o.env(args, state)
                spec = {j: ceval.evaluate(c.out[j], env) for j in c.out}
                spec['result'] = ceval.evaluate(c.ret, env) if c.ret is not None else None
            except (Stop, OverflowError, ValueError):
                spec = {}
            if not equal_up_to(r1, r2, spec.get('result')):
                bad = {'output': 'result', 'expected': 'the same when called again: ' + repr(r1), 'got': repr(r2)}
            for j in c.out:
                if not equal_up_to(outs1[j], outs2[j], spec.get(j)) and not bad:
                    bad = {'output': o.names[j], 'expected': 'the same when called again: ' + repr(outs1[j]), 'got': repr(outs2[j])}
            if flag and st1[fi] != st2[fi] and not bad:
                bad = {'output': 'overflow_detected', 'expected': 'the same when called again: ' + repr(st1[fi]), 'got': repr(st2[fi])}
        done += 1
        if bad:
            bad.update(function=o.label, arguments={k: repr(v) for k, v in zip(o.names, args)},
                       state={k: v for (k, _), v in zip(STRUCTS['AmiBase'], state)}, request=log[-1][1], history=[x for _, x in log], calls=[x for x, _ in log])
            return done, skipped, bad
    return done, skipped, None


# ---- C15: the same calls under sanitizers, in two builds that fill unset storage differently

def sizes(args, sorts):
    """(NE, NA) of well-formed arguments"""
    def walk(v, s):
        if s in (('St', 'g_struct'), ('St', 'pole_struct')):
            f = [n for n, _ in STRUCTS[s[1]]]
            return len(v[f.index('eps_')]), len(v[f.index('alpha_')])
        if s == ('St', 'ami_vars'):
            f = [n for n, _ in STRUCTS[s[1]]]
            return len(v[f.index('energy_')]), len(v[f.index('frequency_')])
        if isinstance(s, str):
            return None
        parts = [(x, s[1]) for x in v] if s[0] == 'Vec' else list(zip(v, (fs for _, fs in STRUCTS[s[1]])))
        for x, fs in parts:
            r = walk(x, fs)
            if r:
                return r
    for a, s in zip(args, sorts):
        r = walk(a, s)
        if r:
            return r
    return 2, 3


def memory_campaign(o, conds, drv, other, seed, n, seconds, lits=()):
    """conds: what callers of the function establish, over o.av, memory.NE and memory.NA"""
    from . import memory as M
    g = Gen(seed, lits, False)
    t0 = time.time()
    done = skipped = 0
    for i in range(n):
        if time.time() - t0 > seconds:
            break
        g.big = i > n // 2
        try:
            args = g.args(o.label, o.sorts)
            state = g.state()
            ne, na = sizes(args, o.sorts)
            env = o.env(args, state)
            env[M.NE], env[M.NA] = ne, na
            if not small(args) or not o.pre(args, state) or not all(ceval.evaluate(c, env, 100000) for c in conds):
                skipped += 1
                continue
        except (Stop, OverflowError, ValueError, IndexError):
            skipped += 1
            continue
        bad = None
        try:
            r = drv.call(o.label, args, o.sorts, o.ret, o.sorts, state)
            if other is not None:
                q = other.call(o.label, args, o.sorts, o.ret, o.sorts, state)
                if repr(r) != repr(q):
                    bad = {'output': 'unset value', 'expected': 'the same whatever unset storage holds: ' + repr(r), 'got': repr(q)}
        except Crash as e:
            if 'no answer' in str(e):
                skipped += 1
                continue
            bad = {'output': 'memory', 'expected': 'every access inside its container', 'got': str(e)}
        except ValueError as e:
            bad = {'output': 'unset value', 'expected': 'a result of the declared type', 'got': str(e)[:200]}
        done += 1
        if bad:
            bad.update(function=o.label, arguments={k: repr(v) for k, v in zip(o.names, args)},
                       state={k: v for (k, _), v in zip(STRUCTS['AmiBase'], state)}, request=drv.last)
            return done, skipped, bad
    return done, skipped, None
