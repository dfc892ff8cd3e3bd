"""Loop summarisation.

For a loop the unknown state at the head of iteration k is a vector of leaf variables x.  The body is executed once
on symbolic leaves, giving next(x,k).  A candidate invariant x == cl_x(k) is inferred per leaf and
  init:          cl_x(0)   == value on entry
  preservation:  cl_x(k+1) == next(x:=cl(k), k)
hold because cl_x is built from the step itself (Fold), or is a Fold law instance (Sum/Prod/flat/map/constant).
"""
from . import terms as tm
from .terms import *
from .frontend import Unsupported


def leaves_of(key, val, prefix=''):
    """flatten struct valued roots into leaves: list of (accessor path, term)"""
    out = []

    def go(v, path):
        s = v.sort
        if not isinstance(s, str) and s[0] == 'St':
            for f, _ in STRUCTS[s[1]]:
                go(fld(v, f), path + (f,))
        else:
            out.append((path, v))
    go(val, ())
    return out


def build(sort, path, get):
    if not isinstance(sort, str) and sort[0] == 'St':
        return mk(sort, *[build(s, path + (f,), get) for f, s in STRUCTS[sort[1]]])
    return get(path)


class Leaf:
    __slots__ = ('key', 'path', 'init', 'var', 'next', 'order')


def run_loop(ex_, env, pc, fcond, fbody, finc, node):
    from .symex import It, Path, Closure, Stream, BackIns, Obl, line_of
    It_ = It
    leaves = []
    fenv = {}
    for key, val in env.items():
        if isinstance(val, T):
            ls = leaves_of(key, val)
            m = {}
            for path, t in ls:
                l = Leaf()
                l.key, l.path, l.init = key, path, t
                l.var = fresh('L%s' % ('.'.join(path)), t.sort)
                l.order = len(leaves)
                leaves.append(l)
                m[path] = l.var
            fenv[key] = build(val.sort, (), lambda p: m[p])
        elif isinstance(val, It):
            l = Leaf()
            l.key, l.path, l.init = key, ('@it',), val.idx
            l.var = fresh('Lit', 'Int')
            l.order = len(leaves)
            leaves.append(l)
            fenv[key] = It(val.path, l.var, val.rev)
        else:
            fenv[key] = val
    nobl = len(ex_.obls)
    head = dict(fenv)
    cond = fcond(head, TRUE)
    # the condition may have effects: whenever the loop ends on it, the state left is `head`, not `fenv`
    obl_cond = ex_.obls[nobl:]
    body_env = dict(head)
    e, exits = fbody(body_env, cond)
    conts = [x for x in exits if x[1] == 'continue']
    outs = [x for x in exits if x[1] != 'continue']
    # normal continuation: merge continues with fallthrough. exits are chronological.
    cur = e
    for x in reversed(conts):
        cur = x[2] if cur is None else ex_.merge(x[0], x[2], cur)
    # outs conditions must exclude earlier continues
    outs2 = []
    for i, x in enumerate(exits):
        if x[1] == 'continue':
            continue
        c = x[0]
        for y in exits[:i]:
            if y[1] == 'continue':
                c = and_(c, not_(y[0]))
        outs2.append((c, x[1], x[2], x[3]))
    outs = outs2
    obls = ex_.obls[nobl:]
    del ex_.obls[nobl:]
    k = fresh('nat:k', 'Int')
    if cur is not None:
        finc(cur, TRUE)
        obls += ex_.obls[nobl:]
        del ex_.obls[nobl:]
    # new static/global roots discovered inside the body
    extra = {}
    for src in [cur] + [x[2] for x in outs] + [head]:
        if src is None:
            continue
        for key, v in src.items():
            if key[0] == 'static' and key not in env and key not in extra:
                extra[key] = ex_.statics[key]
    if extra:
        env = dict(env)
        env.update(extra)
        return run_loop(ex_, env, pc, fcond, fbody, finc, node)

    def value_leaf(src, l):
        v = src[l.key]
        if l.path == ('@it',):
            if not isinstance(v, It) or not v.path.same(env[l.key].path):
                raise Unsupported('iterator moved to another container')
            return v.idx
        if not isinstance(v, T):
            raise Unsupported('leaf lost')
        for f in l.path:
            v = fld(v, f)
        return v

    if cur is None:
        # body never continues: at most one iteration
        sub0 = {l.var: l.init for l in leaves}
        c0 = subst(cond, sub0)
        after = conv_env(head, env, lambda t: subst(t, sub0))
        for o in obls:
            ex_.obls.append(Obl(o.kind, subst(o.cond, sub0), [subst(h, sub0) for h in o.hyps] + [pc, c0], o.loc, o.fn))
        rets = []
        for x in outs:
            xe = conv_env(x[2], env, lambda t: subst(t, sub0))
            xc = subst(x[0], sub0)
            rets.append((and_(c0, xc), x[1], xe, subst(x[3], sub0) if isinstance(x[3], T) else x[3]))
        return combine(ex_, env, rets, after, None, exhaustive=c0)
    for l in leaves:
        l.next = value_leaf(cur, l)
    # -------- Houdini: leaves equal to their entry value at every iteration
    const = {l.var.id: l for l in leaves}
    while True:
        sub_ = {l.var: l.init for l in const.values()}
        bad = []
        for l in list(const.values()):
            if l.next is l.var:
                continue
            if not mentions(l.next, const) and l.next is not l.init:
                bad.append(l)
                continue
            if subst(l.next, sub_) is not l.init:
                bad.append(l)
        if not bad:
            break
        for l in bad:
            del const[l.var.id]
    csub = {l.var: l.init for l in const.values()}
    state = [l for l in leaves if l.var.id not in const]
    nxt = {l.var.id: subst(l.next, csub) for l in state}
    cond1 = subst(cond, csub)
    svars = {l.var.id for l in state}
    # -------- induction variables
    ind = {}
    for l in state:
        if l.var.sort == 'Int':
            d = sub(nxt[l.var.id], l.var)
            if is_num(d) and d.data in (1, -1):
                ind[l.var.id] = (l, int(d.data))
    isub = {l.var: add(l.init, scale(d, k)) for l, d in ind.values()}
    # trip count
    N = None
    extra_exit = []
    conj = list(cond1.args) if cond1.op == 'and' else [cond1]
    conj = [freeze(c, state, nxt, ind, svars) for c in conj]
    for c in conj:
        n_ = trip(c, ind, svars)
        if n_ is not None and N is None:
            N = n_
        else:
            extra_exit.append(c)
    if N is None:
        raise Unsupported('loop at line %s: no induction variable bounds it' % line_of(node))
    rest = [(l.var, l.init, subst(nxt[l.var.id], isub)) for l in state if l.var.id not in ind]
    cl = classify(rest, k)

    def at_k(kk):
        m = dict(csub)
        for l, d in ind.values():
            m[l.var] = add(l.init, scale(d, kk))
        for v, i, n_ in rest:
            m[v] = cl[v.id](kk)
        return m
    mk_ = at_k(k)
    kenv = {}
    # exits
    xs = []
    if extra_exit:
        c = subst(not_(and_(*extra_exit)), mk_)
        xs.append((c, 'break', dict(head), None))
    for x in outs:
        xs.append((subst(x[0], mk_), x[1], x[2], x[3]))
    # obligations inside
    prior = []
    rngc = and_(le(num(0), k), lt(k, N))
    for o in obl_cond:      # the condition is evaluated once more when the loop ends
        mn = at_k(N)
        ex_.obls.append(Obl(o.kind, subst(o.cond, mn), [pc, le(num(0), N)] + [subst(h, mn) for h in o.hyps], o.loc, o.fn))
    for o in obls:
        hy = [subst(h, mk_) for h in o.hyps]
        ex_.obls.append(Obl(o.kind, subst(o.cond, mk_), [pc, rngc] + hy, o.loc, o.fn))
    fin = at_k(N)
    normal = conv_env(head, env, lambda t: subst(t, fin))
    xs = [x for x in xs if x[0] is not FALSE]
    ex_.nloops = getattr(ex_, 'nloops', 0) + 1
    if not xs:
        return normal, []
    E = or_(*[x[0] for x in xs])
    lamE = mklam(k, E)
    hit = ex(N, lamE)
    kx = ff(N, lamE)
    m2 = at_k(kx)
    # exit conditions as evaluated at kx
    rets = []
    for (c, kind, xe, v), orig in zip(xs, xs):
        ck = subst(c, {k: kx})
        e2 = conv_env(xe, env, lambda t: subst(t, m2))
        rv = subst(v, m2) if isinstance(v, T) else v
        if not isinstance(v, T) and v is not None and isinstance(v, It_):
            rv = It_(v.path, subst(v.idx, m2))
        rets.append((and_(hit, ck) if len(xs) > 1 else hit, kind, e2, rv))
    return combine(ex_, env, rets, normal, hit)


def conv_env(src, env, f):
    from .symex import It
    out = {}
    for key in env:
        v = src.get(key)
        if isinstance(v, T):
            out[key] = f(v)
        elif isinstance(v, It):
            out[key] = It(v.path, f(v.idx), v.rev)
        else:
            out[key] = v
    return out


def combine(ex_, env, rets, normal, hit, exhaustive=None):
    """chronological exits; breaks merge with the normal env, returns become outer exits"""
    breaks = [r for r in rets if r[1] == 'break']
    returns = [r for r in rets if r[1] == 'return']
    outer = []
    prev = []
    for r in rets:
        c = r[0]
        if r[1] == 'return':
            cc = c
            for p in prev:
                if p[1] != 'return':
                    cc = and_(cc, not_(p[0]))
            outer.append((cc, 'return', r[2], r[3]))
        prev.append(r)
    if exhaustive is TRUE and not breaks:
        return None, outer
    res = normal
    for r in reversed(breaks):
        res = ex_.merge(r[0], r[2], res)
    return res, outer


def mentions(t, d):
    return any(v in d for v in t.fv)


def freeze(c, state, nxt, ind, svars):
    """replace loop-invariant measures of the loop state (lengths that no iteration changes) by their entry value"""
    a0 = c
    while a0.op == 'not':
        a0 = a0.args[0]
    if a0.op not in ('le0', 'eq0') or a0.args[0].sort != 'Int':
        return c
    step = {l.var: nxt[l.var.id] for l in state}
    init = {l.var: l.init for l in state}
    m = {}
    for key in poly(a0.args[0]):
        for a, _ in key:
            if a.fv & svars and a.id not in ind and a.op != 'var' and not (a.fv & ind.keys()):
                b = subst(a, step)
                if b is a or same_int(a, b):
                    m[a.id] = (a, subst(a, init))
    if not m:
        return c

    def f(t):
        r = m.get(t.id)
        return r[1] if r else None

    def go(t):
        r = m.get(t.id)
        if r is not None:
            return r[1]
        if not (t.fv & svars):
            return t
        if t.op in ('var', 'lam'):
            return t
        return rebuild(t, [go(x) for x in t.args])
    return go(c)


def same_int(a, b):
    from .prover import Prover, Timeout
    import time
    try:
        return Prover(5).eq(a, b, ())
    except Timeout:
        return False


def trip(c, ind, svars):
    """number of iterations during which condition c (on an induction variable) holds, from entry"""
    def lin(p):
        out = None
        for kk, co in poly(p).items():
            for a, pw in kk:
                if a.fv & svars:
                    if a.id in ind and len(kk) == 1 and pw == 1 and abs(co) == 1:
                        if out is not None:
                            return None
                        out = (a, co)
                    else:
                        return None
        return out
    if c.op == 'le0':
        p = c.args[0]
        if p.sort != 'Int':
            return None
        r = lin(p)
        if r is None:
            return None
        v, co = r
        l, step = ind[v.id]
        rest = sub(p, scale(co, v))
        if rest.fv & svars:
            return None
        if co == 1 and step == 1:      # v <= -rest
            return nonneg(add(sub(neg(rest), l.init), num(1)))
        if co == -1 and step == -1:    # v >= rest
            return nonneg(add(sub(l.init, rest), num(1)))
        return None
    if c.op == 'not' and c.args[0].op == 'eq0':
        p = c.args[0].args[0]
        if p.sort != 'Int':
            return None
        r = lin(p)
        if r is None:
            return None
        v, co = r
        l, step = ind[v.id]
        rest = sub(p, scale(co, v))
        if rest.fv & svars:
            return None
        b = scale(-co, rest)
        return nonneg(sub(b, l.init)) if step == 1 else nonneg(sub(l.init, b))
    # negated existential (v != end with find?) not handled
    return None


def sccs(nodes, deps):
    """Tarjan; returns list of components in dependency order"""
    index, low, st, on, out = {}, {}, [], set(), []
    cnt = [0]

    def go(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        st.append(v)
        on.add(v)
        for w in deps[v]:
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = st.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    for v in nodes:
        if v not in index:
            go(v)
    return out


def classify(items, k):
    """items: [(var, init, next)], next may mention vars and k.  Returns var.id -> (lambda n -> term)"""
    byid = {v.id: (v, i, n) for v, i, n in items}
    ids = [v.id for v, _, _ in items]
    cl = {}
    done = {}
    deps = {x: [y for y in ids if y in byid[x][2].fv and y != x] for x in ids}
    for comp in sccs(ids, deps):
        sub_ = {byid[d][0]: done[d] for c in comp for d in deps[c] if d not in comp and d in done}
        if len(comp) == 1:
            v, init, nxt = byid[comp[0]]
            nxt = subst(nxt, sub_)
            f = single(v, init, nxt, k)
            if f is None:
                f = foldform([(v, init, nxt)], k)[v.id]
            cl[v.id] = f
            done[v.id] = f(k)
        else:
            comp = sorted(comp, key=lambda c: ids.index(c))
            its = [(byid[c][0], byid[c][1], subst(byid[c][2], sub_)) for c in comp]
            fs = None
            # focusing may decouple: try each var assuming nothing; fall back to joint fold
            fs = foldform(its, k)
            for c in comp:
                cl[c] = fs[c]
                done[c] = fs[c](k)
    return cl


def foldform(its, k):
    its = sorted(its, key=lambda t: sort_str(t[0].sort))
    out = {}
    if len(its) == 1:
        v, init, nxt = its[0]
        l = mklam(k, mklam(v, nxt))
        out[v.id] = lambda n: fold(n, l, init)
        return out
    ss = tuple(v.sort for v, _, _ in its)
    st = fresh('st', ('Tup', ss))
    m = {v: proj(st, i) for i, (v, _, _) in enumerate(its)}
    step = tup(*[subst(n, m) for _, _, n in its])
    init = tup(*[i for _, i, _ in its])
    l = mklam(k, mklam(st, step))
    for j, (v, _, _) in enumerate(its):
        out[v.id] = (lambda j: lambda n: proj(fold(n, l, init), j))(j)
    return out


def single(v, init, nxt, k):
    s = v.sort
    free = lambda t: v.id not in t.fv
    L = lambda body: mklam(k, body)
    if nxt is v:
        return lambda n: init
    if free(nxt):
        # last value
        if k.id not in nxt.fv:
            return lambda n: ite(le(n, num(0)), init, nxt)
        l = L(nxt)
        return lambda n: ite(le(n, num(0)), init, inst(l, sub(n, num(1))))
    if s in NUMERIC:
        d = sub(nxt, v)
        if free(d):
            l = L(d)
            return lambda n: add(init, sum_(n, l))
        p = poly(nxt)
        q = {}
        ok = True
        for key, c in p.items():
            kk = []
            f = False
            for a, pw in key:
                if a is v and pw == 1:
                    f = True
                elif v.id in a.fv:
                    ok = False
                else:
                    kk.append((a, pw))
            if not f:
                ok = False
            q[tuple(kk)] = c
        if ok:
            r = from_poly(q, s)
            l = L(r)
            return lambda n: mul2(init, prod_(n, l))
        # v + r under a condition was already normalised by ite; conditional last write:
        f = last_write(v, init, nxt, k)
        return f
    if s == 'Bool':
        t1, t0 = subst(nxt, {v: TRUE}), subst(nxt, {v: FALSE})
        if t1 is TRUE:
            l = L(t0)
            return lambda n: or_(init, ex(n, l))
        if t0 is FALSE:
            l = L(not_(t1))
            return lambda n: and_(init, not_(ex(n, l)))
        return last_write(v, init, nxt, k)
    if s[0] == 'Vec':
        ss = segs(nxt)
        if ss and ss[0] is v and all(free(x) for x in ss[1:]):
            l = L(cat(s, ss[1:]))
            return lambda n: cat(s, [init, flat(n, l)])
        if ss and ss[-1] is v and all(free(x) for x in ss[:-1]):
            l = L(cat(s, ss[:-1]))
            return lambda n: cat(s, [flat_f(n, lambda j: inst(l, sub(sub(n, num(1)), j))), init])
        f = updform(v, init, nxt, k) or pointwise(v, init, nxt, k)
        if f:
            return f
        return last_write(v, init, nxt, k)
    if s[0] == 'St':
        # a structure: field by field
        vs = [fresh('nat:f' if fs == 'Nat' else 'f', fs) for _, fs in STRUCTS[s[1]]]
        n2 = subst(nxt, {v: mk(s, *vs)})
        items = [(x, fld(init, f), fld(n2, f)) for x, (f, _) in zip(vs, STRUCTS[s[1]])]
        ids = {x.id for x in vs}
        if all(len([y for y in n_.fv if y in ids and y != x.id]) == 0 for x, _, n_ in items):
            cl = classify(items, k)
            return lambda n: mk(s, *[cl[x.id](n) for x in vs])
    return last_write(v, init, nxt, k)


def pointwise(v, init, nxt, k):
    """every entry is replaced by a function of itself: a loop per entry"""
    ss = segs(nxt)
    if not ss or ss[0].op != 'flat' or len(ss) > 2:
        return None
    m, l = ss[0].args
    if v.id in m.fv or k.id in m.fv or len_(init) is not m:
        return None
    if len(ss) == 2 and not (ss[1].op == 'slice' and ss[1].args[0] is v and ss[1].args[1] is m):
        return None
    j = fresh('nat:j', 'Int')
    e = inst(l, j)
    if e.op != 'unit':
        return None
    elem = fresh('el', v.sort[1])
    e = map_replace(map_replace(e.args[0], at(v, j), elem), len_(v), m)
    if v.id in e.fv:
        return None
    g = single(elem, at(init, j), e, k)
    if g is None:
        return None

    def f(n):
        r = lamf('Int', lambda x: subst(unit(g(n)), {j: x}))
        return flat(m, r)
    return f


def last_write(v, init, nxt, k):
    """nxt = ite(c, w, v) with c, w free of v"""
    if nxt.op != 'ite':
        return None
    c, a, b = nxt.args
    if b is v:
        pass
    elif a is v:
        c, a, b = not_(c), b, a
    else:
        return None
    if v.id in c.fv and not {v.id, k.id} & set(a.fv):
        # once overwritten it stays: the first overwriting iteration sees the initial value
        lc = lamf('Int', lambda x: subst(c, {v: init, k: x}), 'nat:k')
        return lambda n: ite(ex(n, lc), a, init)
    if v.id in c.fv or v.id in a.fv:
        return None
    lc = mklam(k, c)
    if k.id not in a.fv:
        return lambda n: ite(ex(n, lc), a, init)
    la = mklam(k, a)

    def f(n):
        # last iteration where c holds
        rev = lamf('Int', lambda j: inst(lc, sub(sub(n, num(1)), j)))
        j = ff(n, rev)
        return ite(ex(n, lc), inst(la, sub(sub(n, num(1)), j)), init)
    return f


def updform(v, init, nxt, k):
    """in-place updates of one vector"""
    # push the condition inside: ite(c, upd(v,i,e), v) -> upd(v,i,ite(c,e,v[i]))
    def norm(t):
        if t.op == 'ite':
            c, a, b = t.args
            a, b = norm(a), norm(b)
            if a.op == 'upd' and a.args[0] is v and b is v:
                return raw('upd', (v, a.args[1], ite(c, a.args[2], at(v, a.args[1]))), v.sort)
            if b.op == 'upd' and b.args[0] is v and a is v:
                return raw('upd', (v, b.args[1], ite(c, at(v, b.args[1]), b.args[2])), v.sort)
            if a.op == 'upd' and b.op == 'upd' and a.args[0] is v and b.args[0] is v and a.args[1] is b.args[1]:
                return raw('upd', (v, a.args[1], ite(c, a.args[2], b.args[2])), v.sort)
        return t
    nxt = norm(nxt)
    if nxt.op != 'upd' or nxt.args[0] is not v:
        return None
    _, i, e = nxt.args
    # replace v[i] by elem ; len(v) by len(init)
    target = at(v, i)
    i = map_replace(i, len_(v), len_(init))
    if v.id in i.fv:
        return None
    elem = fresh('el', v.sort[1])
    e2 = map_replace(e, target, elem)
    e2 = map_replace(e2, len_(v), len_(init))
    if v.id in e2.fv:
        return None
    d = sub(i, k)
    if k.id not in d.fv:
        # i = k + d : map
        i0 = d
        le_ = mklam(k, mklam(elem, e2))

        def f(n):
            L0 = len_(init)
            body = flat_f(n, lambda j: unit(inst(inst(le_, j), at(init, add(i0, j)))))
            return cat(v.sort, [slice_(init, num(0), i0), body, slice_(init, add(i0, n), L0)])
        return f
    if k.id not in i.fv:
        g = single(elem, at(init, i), e2, k)
        if g is None:
            g = foldform([(elem, at(init, i), e2)], k)[elem.id]
        return lambda n: upd(init, i, g(n))
    return None


def map_replace(t, a, b):
    memo = {}

    def go(u):
        if u is a:
            return b
        if not u.args:
            return u
        r = memo.get(u.id)
        if r is None:
            if u.op == 'lam':
                x = go(u.args[0])
                r = u if x is u.args[0] else raw('lam', (x,), ('Fun', u.data, x.sort), u.data)
            else:
                r = rebuild(u, [go(x) for x in u.args])
            memo[u.id] = r
        return r
    return go(t)
