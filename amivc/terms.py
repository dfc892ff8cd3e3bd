"""Hash-consed terms with locally nameless binders and normalising constructors.

Sorts: 'Int' 'Bool' 'Real' 'Cx' ('Vec',s) ('St',name) ('Tup',(s...)) 'Unit'
C++ int/unsigned are mathematical integers here, double is an exact real and
complex<double> an element of a field extension (see DESIGN.md, trusted base).
"""
from fractions import Fraction
from math import gcd
import sys

sys.setrecursionlimit(200000)

STRUCTS = {}          # name -> [(field, sort)]


def vec(s):
    return ('Vec', s)


def pair_sort(a, b):
    n = 'pair<%s,%s>' % (sort_str(a), sort_str(b))
    STRUCTS.setdefault(n, [('first', a), ('second', b)])
    return ('St', n)


def sort_str(s):
    if isinstance(s, str):
        return s
    if s[0] == 'Vec':
        return 'Vec<%s>' % sort_str(s[1])
    if s[0] == 'St':
        return s[1]
    if s[0] == 'Tup':
        return '(%s)' % ','.join(map(sort_str, s[1]))
    return str(s)


class T:
    __slots__ = ('op', 'args', 'sort', 'data', 'id', 'loose', 'fv', 'size', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
_vars = {}


def raw(op, args, sort, data=None):
    k = (op, tuple(a.id for a in args), sort, data)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = tuple(args)
    t.sort = sort
    t.data = data
    t.id = _n[0]
    _n[0] += 1
    if op == 'bv':
        t.loose = data + 1
    elif op == 'lam':
        t.loose = max(0, args[0].loose - 1)
    else:
        t.loose = max([a.loose for a in args], default=0)
    if op == 'var':
        t.fv = frozenset([t.id])
        _vars[t.id] = t
    elif len(args) == 1:
        t.fv = args[0].fv
    elif args:
        s = args[0].fv
        for a in args[1:]:
            if not a.fv <= s:
                s = s | a.fv
        t.fv = s
    else:
        t.fv = frozenset()
    t.size = 1 + sum(a.size for a in args)
    _tab[k] = t
    return t


def var(name, sort):
    return raw('var', (), sort, name)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort)


def bv(i, sort):
    return raw('bv', (), sort, i)


NUMERIC = ('Int', 'Real', 'Cx')


def Q(a, b=1):
    """exact quotient: an int where it is whole (mixed arithmetic of ints and fractions stays exact; never use / on ints)"""
    if b == 1 and type(a) is int:
        return a
    f = Fraction(a) / Fraction(b)
    return f.numerator if f.denominator == 1 else f


def num(q, sort='Int'):
    return raw('num', (), sort, q if type(q) is int else Q(q))


TRUE = raw('true', (), 'Bool')
FALSE = raw('false', (), 'Bool')
IMAG = raw('imagunit', (), 'Cx')


def boolc(b):
    return TRUE if b else FALSE


def is_num(t):
    return t.op == 'num'


# ---------------------------------------------------------------- polynomials

def poly(t):
    """dict: key tuple((atomid,pow)...) -> coef ; plus atoms table"""
    o = t.op
    if o == 'num':
        return {(): t.data} if t.data != 0 else {}
    if o == 'add':
        return {_key(m): c for m, c in zip(t.args, t.data)}
    if o == 'mul':
        return {_key(t): 1}
    return {((t, 1),): 1}


def _key(m):
    if m.op == 'num':
        return ()
    if m.op == 'mul':
        return tuple(zip(m.args, m.data))
    return ((m, 1),)


def _mono(key, sort):
    if not key:
        return num(1, sort)
    if len(key) == 1 and key[0][1] == 1:
        return key[0][0]
    return raw('mul', [a for a, _ in key], sort, tuple(p for _, p in key))


def rejoin(d):
    """re(z) + i im(z) = z"""
    for k, c in d.items():
        for a, p in k:
            if p == 1 and a.op == 'cx' and a.args[0].op == 're' and c != 0:
                z = a.args[0].args[0]
                rest = _mono(tuple(x for x in k if x[0] is not a), 'Cx')
                m = single_mono(mul2(rest, mul2(IMAG, cx(raw('im', (z,), 'Real')))))
                if m and d.get(m[1], 0) == c * m[0]:
                    d = dict(d)
                    del d[k]
                    del d[m[1]]
                    for k2, c2 in poly(mul2(rest, z)).items():
                        d[k2] = d.get(k2, 0) + c * c2
                    return rejoin(d)
    return d


def from_poly(d, sort):
    if sort == 'Cx' and any(a.op == 'cx' and a.args[0].op == 're' for k in d for a, _ in k):
        d = rejoin(d)
    items = [(k, c) for k, c in d.items() if c != 0]
    if not items:
        return num(0, sort)
    if len(items) == 1:
        k, c = items[0]
        if not k:
            return num(c, sort)
        if c == 1:
            return _mono(k, sort)
    ms = [(_mono(k, sort), c) for k, c in items]
    ms.sort(key=lambda x: x[0].id)
    return raw('add', [m for m, _ in ms], sort, tuple(c for _, c in ms))


def add(*ts):
    sort = ts[0].sort
    if len(ts) == 2:
        if ts[0].op == 'num' and ts[0].data == 0:
            return ts[1]
        if ts[1].op == 'num' and ts[1].data == 0:
            return ts[0]
    d = {}
    for t in ts:
        assert t.sort == sort, (sort, t.sort, show(t))
        for k, c in poly(t).items():
            d[k] = d.get(k, 0) + c
    return from_poly(d, sort)


def scale(c, t):
    if type(c) is not int:
        c = Q(c)
    if c == 1:
        return t
    return from_poly({k: c * v for k, v in poly(t).items()}, t.sort)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _mulkey(k1, k2):
    """returns (coef, key)"""
    if not k1:
        return 1, k2
    if not k2:
        return 1, k1
    d = {}
    for a, p in k1:
        d[a.id] = [a, p]
    for a, p in k2:
        if a.id in d:
            d[a.id][1] += p
        else:
            d[a.id] = [a, p]
    coef = 1
    out = []
    for i in sorted(d):
        a, p = d[i]
        if a.op == 'm1pow':
            p %= 2
        elif a.op == 'cx' and a.args[0].op == 'm1pow':
            p %= 2
        elif a.op == 'toR' and a.args[0].op == 'm1pow':
            p %= 2
        elif a is IMAG:
            q = p % 4
            if q >= 2:
                coef = -coef
            p = q % 2
        if p:
            out.append((a, p))
    return coef, tuple(out)


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = mul2(r, t)
    return r


def mul2(a, b):
    assert a.sort == b.sort, (a.sort, b.sort, show(a), show(b))
    if a.op == 'num':
        return scale(a.data, b)
    if b.op == 'num':
        return scale(b.data, a)
    pa, pb = poly(a), poly(b)
    d = {}
    for k1, c1 in pa.items():
        for k2, c2 in pb.items():
            c, k = _mulkey(k1, k2)
            d[k] = d.get(k, 0) + c * c1 * c2
    return from_poly(d, a.sort)


def powc(t, n):
    r = num(1, t.sort)
    for _ in range(n):
        r = mul2(r, t)
    return r


def single_mono(t):
    """(coef,key) if t is a single monomial"""
    p = poly(t)
    if len(p) == 1:
        (k, c), = p.items()
        return c, k
    return None


def inv(t):
    if t.op == 'num':
        if t.data == 0:
            return raw('inv', (t,), t.sort)
        return num(Q(1, t.data), t.sort)
    sm = single_mono(t)
    if sm:
        c, k = sm
        r = num(Q(1, c), t.sort)
        for a, p in k:
            r = mul2(r, powc(_inv_atom(a), p))
        return r
    # polynomial: scale leading coefficient to one
    lead = t.data[0]
    if lead != 1:
        return scale(Q(1, lead), raw('inv', (scale(Q(1, lead), t),), t.sort))
    return raw('inv', (t,), t.sort)


def _inv_atom(a):
    if a.op == 'inv':
        return a.args[0]
    if a.op == 'm1pow':
        return a
    if a.op in ('cx', 'toR') and a.args[0].op == 'm1pow':
        return a
    if a is IMAG:
        return neg(IMAG)
    if a.op == 'Prod':
        n, l = a.args
        return prod_(n, lam_map(l, inv))
    if a.op == 'powi':
        return powi(inv(a.args[0]), a.args[1])
    if a.op == 'cx':
        y = inv(a.args[0])
        return raw('inv', (a,), a.sort) if y.op == 'inv' else cx(y)
    if a.op == 'ite':
        return ite(a.args[0], inv(a.args[1]), inv(a.args[2]))
    return raw('inv', (a,), a.sort)


def div(a, b):
    return mul2(a, inv(b))


def idiv(a, b):
    """C++ truncated integer division"""
    if is_num(a) and is_num(b) and b.data != 0:
        q = abs(int(a.data)) // abs(int(b.data))
        return num(q if (a.data < 0) == (b.data < 0) else -q)
    if is_num(b) and b.data == 1:
        return a
    return raw('idiv', (a, b), 'Int')


def imod(a, b):
    if is_num(a) and is_num(b) and b.data != 0:
        return sub(a, mul2(b, idiv(a, b)))
    return raw('imod', (a, b), 'Int')


def m1pow(n):
    """(-1)^n, n integer; Int sort"""
    r = num(1)
    for k, c in poly(n).items():
        if c.denominator != 1:
            return raw('m1pow', (n,), 'Int')
        if int(c) % 2 == 0:
            continue
        if not k:
            r = neg(r)
        else:
            # parity of a^p is parity of a
            key = tuple((a, 1) for a, p in k)
            m = _mono(key, 'Int')
            if m.op == 'ite':
                r = mul2(r, ite(m.args[0], m1pow(m.args[1]), m1pow(m.args[2])))
            elif m.op == 'Sum':
                r = mul2(r, prod_(m.args[0], lam_map(m.args[1], m1pow)))
            else:
                r = mul2(r, raw('m1pow', (m,), 'Int'))
    return r


def is_sign(t):
    """t is 1 or -1 by its form"""
    if t.op == 'num':
        return t.data in (1, -1)
    if t.op == 'm1pow':
        return True
    if t.op == 'ite':
        return is_sign(t.args[1]) and is_sign(t.args[2])
    if t.op == 'Prod':
        return is_sign(t.args[1].args[0])
    if t.op == 'mul':
        sm = single_mono(t)
        return bool(sm) and sm[0] in (1, -1) and all(is_sign(x) for x, _ in sm[1])
    return False


def _flipsign(b):
    if b.op == 'ite':
        return ite(b.args[0], _flipsign(b.args[1]), _flipsign(b.args[2]))
    return neg(b)


def sign_test(p):
    """(s, e) if the equation p = 0 says that the sign s equals e"""
    if p.op != 'add' or p.sort not in ('Int', 'Real'):
        return None
    d = poly(p)
    c0 = d.get((), 0)
    if len(d) != 2 or not c0:
        return None
    (k, c), = [x for x in d.items() if x[0]]
    if abs(c) != abs(c0):
        return None
    s = _mono(k, p.sort)
    if not is_sign(s):
        return None
    for x, _ in k:
        # (-1)^n times n signs: the opposite signs
        if x.op == 'Prod' and p.sort == 'Int' and x.args[1].args[0].op == 'ite':
            for y, _ in k:
                if y.op == 'm1pow' and y.args[0] is x.args[0] and _nn(x.args[0]):
                    s = mul2(_mono(tuple(z for z in k if z[0] is not x and z[0] is not y), 'Int') if len(k) > 2 else num(1),
                             prod_(x.args[0], raw('lam', (_flipsign(x.args[1].args[0]),), x.args[1].sort, x.args[1].data)))
                    if s.op != 'Prod' and len(k) == 2:
                        continue
                    q = sub(s, num(int(-c0 / c)))
                    return sign_test(q)
    return s, int(-c0 / c)


def powi(b, k):
    if is_num(k) and 0 <= k.data <= 12 and k.data.denominator == 1:
        return powc(b, int(k.data))
    if is_num(b):
        if b.data == 1:
            return b
        if b.data == -1:
            return coerce(m1pow(k), b.sort)
    sm = single_mono(b)
    if sm and (sm[0] != 1 or len(sm[1]) > 1 or (len(sm[1]) == 1 and sm[1][0][1] > 1)):
        c, key = sm
        r = num(1, b.sort)
        if c == -1:
            r = mul2(r, coerce(m1pow(k), b.sort))
        elif c != 1:
            r = mul2(r, raw('powi', (num(c, b.sort), k), b.sort))
        for a, p in key:
            r = mul2(r, powi(a, scale(p, k)))
        return r
    c = b
    while c.op in ('toR', 'cx'):
        c = c.args[0]
    if c.op == 'm1pow':
        return coerce(m1pow(mul2(c.args[0], k)), b.sort)
    return raw('powi', (b, k), b.sort)


# ---------------------------------------------------------------- coercions

def toR(t):
    """Int -> Real"""
    if t.sort == 'Real':
        return t
    assert t.sort == 'Int', (t.sort, show(t))
    return _hom(t, 'Real', 'toR', toR)


def cx(t):
    """Real -> Cx"""
    if t.sort == 'Cx':
        return t
    if t.sort == 'Int':
        t = toR(t)
    return _hom(t, 'Cx', 'cx', cx)


def _hom(t, sort, op, f):
    o = t.op
    if o == 'num':
        return num(t.data, sort)
    if o == 'add':
        return add(num(0, sort), *[scale(c, _hom(m, sort, op, f)) for m, c in zip(t.args, t.data)])
    if o == 'mul':
        r = num(1, sort)
        for a, p in zip(t.args, t.data):
            r = mul2(r, powc(_hom(a, sort, op, f), p))
        return r
    if o == 'ite':
        return ite(t.args[0], f(t.args[1]), f(t.args[2]))
    if o == 'Sum':
        return sum_(t.args[0], lam_map(t.args[1], f))
    if o == 'Prod':
        return prod_(t.args[0], lam_map(t.args[1], f))
    if o == 'inv' and op == 'cx':
        return inv(f(t.args[0]))
    if o == 'powi':
        return powi(f(t.args[0]), t.args[1])
    return raw(op, (t,), sort)


def coerce(t, sort):
    if t.sort == sort:
        return t
    if sort == 'Real':
        if t.sort == 'Bool':
            return ite(t, num(1, 'Real'), num(0, 'Real'))
        return toR(t)
    if sort == 'Cx':
        if t.sort == 'Bool':
            return ite(t, num(1, 'Cx'), num(0, 'Cx'))
        return cx(t)
    if sort == 'Int':
        if t.sort == 'Bool':
            return ite(t, num(1), num(0))
        if t.sort == 'Real':
            return trunc(t)
    if sort == 'Bool':
        if t.sort in NUMERIC:
            return not_(eq(t, num(0, t.sort)))
    raise TypeError('coerce %s -> %s: %s' % (t.sort, sort, show(t)))


def trunc(t):
    """double -> int"""
    if t.op == 'num':
        q = t.data
        return num(int(q))
    if t.op == 'toR':
        return t.args[0]
    r = unreal(t)
    if r is not None:
        return r
    if t.op == 'ite':
        return ite(t.args[0], trunc(t.args[1]), trunc(t.args[2]))
    return raw('trunc', (t,), 'Int')


_iv = {}


def unreal(t):
    """Int term x with toR(x)==t, if syntactically evident"""
    if t.id in _iv:
        return _iv[t.id]
    r = _unreal(t)
    _iv[t.id] = r
    return r


def _unreal(t):
    o = t.op
    if t.sort == 'Int':
        return t
    if o == 'num':
        return num(t.data) if t.data.denominator == 1 else None
    if o == 'toR':
        return t.args[0]
    if o == 'cx':
        return unreal(t.args[0])
    if o == 'add':
        if any(c.denominator != 1 for c in t.data):
            return None
        r = num(0)
        for a, c in zip(t.args, t.data):
            x = unreal(a)
            if x is None:
                return None
            r = add(r, scale(c, x))
        return r
    if o == 'mul':
        r = num(1)
        for a, p in zip(t.args, t.data):
            x = unreal(a)
            if x is None:
                return None
            r = mul2(r, powc(x, p))
        return r
    if o == 'ite':
        a, b = unreal(t.args[1]), unreal(t.args[2])
        if a is None or b is None:
            return None
        return ite(t.args[0], a, b)
    if o in ('Sum', 'Prod'):
        l = t.args[1]
        b = unreal(l.args[0])
        if b is None:
            return None
        l = raw('lam', (b,), ('Fun', l.data, 'Int'), l.data)
        return sum_(t.args[0], l) if o == 'Sum' else prod_(t.args[0], l)
    return None


def complex_(re, im):
    return add(cx(re), mul2(IMAG, cx(im)))


def real_(z):
    p = poly(z)
    # real(a + b*I*..) : only pure cx parts recognised
    re, im = _split(z)
    if re is not None:
        return re
    return raw('re', (z,), 'Real')


def imag_(z):
    re, im = _split(z)
    if im is not None:
        return im
    return raw('im', (z,), 'Real')


def _split(z):
    re = num(0, 'Real')
    im = num(0, 'Real')
    for k, c in poly(z).items():
        m = num(c, 'Real')
        isim = False
        for a, p in k:
            if a is IMAG:
                isim = True
            elif a.op == 'cx':
                m = mul2(m, powc(a.args[0], p))
            else:
                return None, None
        if isim:
            im = add(im, m)
        else:
            re = add(re, m)
    return re, im


def fn(name, args, sort):
    """uninterpreted library function"""
    if name == 'rpow':
        q = unreal(args[1])
        if q is not None:
            return powi(args[0], q)
    return raw('fn', tuple(args), sort, name)


def iabs(t):
    if is_num(t):
        return num(abs(t.data), t.sort)
    # abs(-x) == abs(x): canonical sign
    if t.op == 'add' and t.data[0] < 0:
        t = neg(t)
    return raw('abs', (t,), t.sort)


# ---------------------------------------------------------------- booleans

def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'le0' and t.args[0].sort == 'Int':
        # not (p<=0)  <=>  p>=1  <=> 1-p<=0
        return le0(sub(num(1), t.args[0]))
    if t.op == 'and':
        return or_(*[not_(a) for a in t.args])
    if t.op == 'or':
        return and_(*[not_(a) for a in t.args])
    return raw('not', (t,), 'Bool')


def and_(*ts):
    out = {}
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for a in (t.args if t.op == 'and' else (t,)):
            out[a.id] = a
    for a in list(out.values()):
        if not_(a).id in out:
            return FALSE
    # absorb ors containing a conjunct, and resolve or-literals
    changed = True
    while changed:
        changed = False
        for i, a in list(out.items()):
            if a.op == 'or':
                if any(x.id in out for x in a.args):
                    del out[i]
                    changed = True
                    break
                rest = [x for x in a.args if not_(x).id not in out]
                if len(rest) != len(a.args):
                    del out[i]
                    n = or_(*rest)
                    if n is FALSE:
                        return FALSE
                    for b in (n.args if n.op == 'and' else (n,)):
                        if b is not TRUE:
                            out[b.id] = b
                    changed = True
                    break
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return raw('and', [out[i] for i in sorted(out)], 'Bool')


def or_(*ts):
    out = {}
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for a in (t.args if t.op == 'or' else (t,)):
            out[a.id] = a
    for a in list(out.values()):
        if not_(a).id in out:
            return TRUE
    changed = True
    while changed:
        changed = False
        for i, a in list(out.items()):
            if a.op == 'and':
                if any(x.id in out for x in a.args):
                    del out[i]
                    changed = True
                    break
                rest = [x for x in a.args if not_(x).id not in out]
                if len(rest) != len(a.args):
                    del out[i]
                    n = and_(*rest)
                    if n is TRUE:
                        return TRUE
                    for b in (n.args if n.op == 'or' else (n,)):
                        if b is not FALSE:
                            out[b.id] = b
                    changed = True
                    break
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return raw('or', [out[i] for i in sorted(out)], 'Bool')


def implies(a, b):
    return or_(not_(a), b)


def _ffpair(p):
    """recognise  c + ff(n,l) - n  patterns: returns (ffatom, remaining coefficient sign, const)"""
    ffs = [(k, c) for k, c in p.items() if len(k) == 1 and k[0][1] == 1 and k[0][0].op == 'ff' and abs(c) == 1]
    for k, c in ffs:
        f = k[0][0]
        rest = dict(p)
        del rest[k]
        # rest + c*(bound) should be constant
        r = from_poly(rest, 'Int')
        r = add(r, scale(c, nonneg(f.args[0])))
        if is_num(r):
            return f, c, r.data
    return None


def le0(p):
    if p.op == 'num':
        return boolc(p.data <= 0)
    if p.sort == 'Real':
        q = unreal(scale(_denlcm(p), p))
        if q is not None:
            return le0(q)
    d = poly(p)
    if p.sort == 'Int':
        q = absorb(p)
        if q is not p:
            return le0(q)
        ff = _ffpair(d)
        if ff:
            f, c, k = ff
            # c*(f-n)+k <= 0, with f-n in [-n,0]
            if c == 1:
                if k <= 0:
                    return TRUE
                if k == 1:
                    return ex(f.args[0], f.args[1])
            else:
                # n-f+k<=0
                if k == 0:
                    return not_(ex(f.args[0], f.args[1]))
                if k > 0:
                    return FALSE
        c0 = d.get((), 0)
        g = 0
        den = 1
        for k, c in d.items():
            if k:
                den = den * c.denominator // gcd(den, c.denominator)
        for k, c in d.items():
            if k:
                g = gcd(g, int(c * den))
        if g > 1 or den > 1:
            f = Q(den, g)
            d = {k: c * f for k, c in d.items()}
            c0 = d.get((), 0)
        import math
        nc0 = -math.floor(-c0)
        d = dict(d)
        d[()] = Q(nc0)
        p = from_poly(d, 'Int')
        # sums of syntactically nonnegative things
        if all(c < 0 and _nn(_mono(k, 'Int')) for k, c in d.items() if k and c) and d.get((), 0) <= 0:
            return TRUE
        if all(c > 0 and _nn(_mono(k, 'Int')) for k, c in d.items() if k and c) and d.get((), 0) > 0:
            return FALSE
        if p.op == 'ite' and (is_num(p.args[1]) or is_num(p.args[2])):
            return ite(p.args[0], le0(p.args[1]), le0(p.args[2]))
        if nncomb(p) and poly(p).get((), 0) == 0:
            return eq0(p)
        if poly(p).get((), 0) == 1:
            q = sub(num(1), p)
            if nncomb(q):
                return not_(eq0(q))
    return raw('le0', (p,), 'Bool')


def _bits(b):
    """b is 0 or 1 by its form"""
    if b.op == 'ite':
        return _bits(b.args[1]) and _bits(b.args[2])
    return b.op == 'num' and b.data in (0, 1)


def _flipbits(b):
    if b.op == 'ite':
        return ite(b.args[0], _flipbits(b.args[1]), _flipbits(b.args[2]))
    return sub(num(1), b)


def absorb(p):
    """n - Sum(n, b) with b in {0, 1} is the number of the others"""
    d = poly(p)
    if len(d) < 2:
        return p
    for k, c in d.items():
        if len(k) == 1 and k[0][1] == 1 and k[0][0].op == 'Sum':
            n, l = k[0][0].args
            if n.op in ('num', 'add', 'mul') or not _nn(n) or not _bits(l.args[0]):
                continue
            cn = d.get(((n, 1),))
            if cn is not None and cn == -c:
                r = sum_(n, raw('lam', (_flipbits(l.args[0]),), l.sort, l.data))
                if r.op != 'Sum':
                    continue
                return absorb(add(sub(p, from_poly({k: c, ((n, 1),): cn}, 'Int')), scale(cn, r)))
    return p


def nncomb(p):
    """a nonnegative combination of syntactically nonnegative things"""
    d = poly(p)
    return bool(d) and all(c > 0 and (not k or _nn(_mono(k, 'Int'))) for k, c in d.items())


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    if a.sort == 'Int':
        return le0(add(sub(a, b), num(1)))
    return not_(le0(sub(b, a)))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    s = a.sort
    assert s == b.sort, (s, b.sort, show(a), show(b))
    if s in NUMERIC:
        p = sub(a, b)
        return eq0(p)
    if s == 'Bool':
        return ite(a, b, not_(b))
    if s[0] == 'Vec':
        return veq(a, b)
    if s[0] == 'St':
        return and_(*[eq(fld(a, f), fld(b, f)) for f, _ in STRUCTS[s[1]]])
    raise TypeError(s)


def eq0(p):
    if p.op == 'num':
        return boolc(p.data == 0)
    d = poly(p)
    if p.sort == 'Int':
        q = absorb(p)
        if q is not p:
            return eq0(q)
        ff = _ffpair(d)
        if ff and ff[2] == 0:
            return not_(ex(ff[0].args[0], ff[0].args[1]))
        for k, c in d.items():
            # x == (found ? first : n') with n' >= n: not found
            if len(k) == 1 and k[0][1] == 1 and abs(c) == 1 and k[0][0].op == 'ite':
                t = k[0][0]
                if t.args[0].op == 'ex' and t.args[1].op == 'ff' and t.args[1].args[1] is t.args[0].args[1] and t.args[1].args[0] is t.args[0].args[0]:
                    x = scale(Q(-1, c), sub(p, scale(c, t)))
                    g = sub(x, t.args[0].args[0])
                    if x is t.args[2] and is_num(g) and g.data >= 0:
                        return not_(t.args[0])
        if d.get((), 0) == 0:
            q = p if nncomb(p) else neg(p) if nncomb(neg(p)) else None
            if q is not None:
                dq = poly(q)
                if len(dq) > 1:
                    return and_(*[eq0(_mono(k, 'Int')) for k in dq])
                k = next(iter(dq))
                if len(k) == 1 and k[0][0].op == 'Sum':
                    n, l = k[0][0].args
                    return not_(ex(n, raw('lam', (not_(eq0(l.args[0])),), ('Fun', l.data, 'Bool'), l.data)))
        if all(c > 0 and _nn(_mono(k, 'Int')) for k, c in d.items() if k) and d.get((), 0) > 0:
            return FALSE
        if all(c < 0 and _nn(_mono(k, 'Int')) for k, c in d.items() if k) and d.get((), 0) < 0:
            return FALSE
    if p.op == 'ite' and (is_num(p.args[1]) or is_num(p.args[2])):
        return ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    if p.op == 'add' and p.sort in ('Real', 'Cx'):
        # a real/complex atom ite with numeric branches plus constants: c*ite + c0
        nc = [(k, c) for k, c in d.items() if k]
        if len(nc) == 1 and len(nc[0][0]) == 1 and nc[0][0][0][0].op == 'ite' and nc[0][0][0][1] == 1:
            t = nc[0][0][0][0]
            c0 = num(d.get((), 0), p.sort)
            if is_num(t.args[1]) and is_num(t.args[2]):
                f = lambda x: eq0(add(scale(nc[0][1], x), c0))
                return ite(t.args[0], f(t.args[1]), f(t.args[2]))
    if p.op == 'add' and p.sort == 'Int':
        nc = [(k, c) for k, c in d.items() if k]
        if len(nc) == 1 and len(nc[0][0]) == 1 and nc[0][0][0][0].op == 'ite' and nc[0][0][0][1] == 1:
            t = nc[0][0][0][0]
            c0 = num(d.get((), 0), p.sort)
            if is_num(t.args[1]) and is_num(t.args[2]):
                f = lambda x: eq0(add(scale(nc[0][1], x), c0))
                return ite(t.args[0], f(t.args[1]), f(t.args[2]))
    # normalise sign / scale: leading coefficient one (real/cx) or gcd (int)
    if p.op == 'add':
        if p.sort == 'Int':
            g = 0
            for c in p.data:
                g = gcd(g, int(c)) if c.denominator == 1 else 1
            g = g or 1
            if p.data[0] < 0:
                g = -g
            if g != 1:
                p = scale(Q(1, g), p)
        else:
            if p.data[0] != 1:
                p = scale(Q(1, p.data[0]), p)
    if p.op in ('toR', 'cx'):
        return eq0(p.args[0])
    if p.op in ('add', 'mul') and p.sort == 'Cx':
        re, im = _split(p)
        if re is not None and is_num(im) and im.data == 0 and re.sort == 'Real':
            return eq0(re)
    if p.op in ('add', 'mul') and p.sort == 'Real':
        q = unreal(scale(_denlcm(p), p))
        if q is not None:
            return eq0(q)
    if is_sign(p):
        return FALSE
    if p.op == 'imod' and is_num(p.args[1]) and abs(p.args[1].data) == 2:
        return eq0(sub(m1pow(absorb(p.args[0])), num(1)))
    if p.op == 'add' and p.sort == 'Int' and len(d) == 2 and d.get((), 0) in (1, -1):
        (k, c), = [x for x in d.items() if x[0]]
        m = _mono(k, 'Int')
        if m.op == 'imod' and is_num(m.args[1]) and abs(m.args[1].data) == 2 and d[()] == -c and (_nn(m.args[0]) or nncomb(m.args[0])):
            return not_(eq0(sub(m1pow(absorb(m.args[0])), num(1))))
    st = sign_test(p)
    if st:
        if st[1] == -1:
            return not_(eq0(sub(st[0], num(1, p.sort))))
        p = sub(num(1, p.sort), st[0])
    return raw('eq0', (p,), 'Bool')


def _denlcm(p):
    l = 1
    for c in poly(p).values():
        l = l * c.denominator // gcd(l, c.denominator)
    return l


def veq(a, b):
    n = len_(a)
    return and_(eq(n, len_(b)), not_(ex_f(n, lambda i: not_(eq(at(a, i), at(b, i))))))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    assert a.sort == b.sort, (a.sort, b.sort, show(a), show(b))
    s = a.sort
    a = _under(c, True, a)
    b = _under(c, False, b)
    if a is b:
        return a
    if c.op == 'eq0' and c.args[0].op in ('len', 'fld', 'var', 'proj', 'at') and c.args[0].sort == 'Int' and _at_zero(b, c.args[0]) is a:
        return b
    if s == 'Bool':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'eq0' and s in NUMERIC and neg(a) is b:
        st = sign_test(c.args[0])
        if st and st[1] == 1:
            z = st[0] if st[0].sort == s else toR(st[0]) if s == 'Real' else cx(toR(st[0]) if st[0].sort == 'Int' else st[0]) if s == 'Cx' else None
            if z is not None:
                return mul2(a, z)
    # canonical polarity for int comparisons
    if c.op == 'le0' and c.args[0].op == 'add' and c.args[0].data[0] < 0 and c.args[0].sort == 'Int':
        return ite_(not_(c), b, a, s)
    if c.op == 'or':
        # prefer conjunction polarity
        return ite_(not_(c), b, a, s)
    return ite_(c, a, b, s)


def _at_zero(t, n):
    """t with the loops over n elements evaluated for n = 0"""
    if t.op in ('flat', 'fold', 'ex') and t.args[0] is n:
        return empty(t.sort) if t.op == 'flat' else FALSE if t.op == 'ex' else t.args[2]
    if t.sort in NUMERIC and t.size < 3000:
        d = poly(t)
        if len(d) > 12 or not any(x.op in ('Sum', 'Prod') and x.args[0] is n for k in d for x, _ in k):
            return None
        r = num(0, t.sort)
        for k, c in d.items():
            m = num(c, t.sort)
            for x, p in k:
                if x.op in ('Sum', 'Prod') and x.args[0] is n:
                    x = num(0 if x.op == 'Sum' else 1, t.sort)
                m = mul2(m, powc(x, p))
            r = add(r, m)
        return r
    return None


def _under(c, pol, t, depth=3):
    """shallow simplification of t assuming c is pol"""
    if depth == 0 or t.op != 'ite':
        return t
    tc = t.args[0]
    if tc is c:
        return _under(c, pol, t.args[1] if pol else t.args[2], depth - 1)
    if tc is not_(c):
        return _under(c, pol, t.args[2] if pol else t.args[1], depth - 1)
    if pol and c.op == 'and':
        if any(x is tc for x in c.args):
            return _under(c, pol, t.args[1], depth - 1)
        nt = not_(tc)
        if any(x is nt for x in c.args):
            return _under(c, pol, t.args[2], depth - 1)
    return t


def ite_(c, a, b, s):
    if s in NUMERIC:
        pa, pb = poly(a), poly(b)
        common = {k: v for k, v in pa.items() if pb.get(k) == v}
        if common:
            cm = from_poly(common, s)
            ra, rb = sub(a, cm), sub(b, cm)
            return add(cm, ite(c, ra, rb))
        sa, sb = single_mono(a), single_mono(b)
        if sa and sb and sa[1] and sb[1]:
            da = {x.id: (x, p) for x, p in sa[1]}
            cmn = []
            for x, p in sb[1]:
                if x.id in da:
                    cmn.append((x, min(p, da[x.id][1])))
            if cmn:
                def strip(sm):
                    dd = {x.id: [x, p] for x, p in sm[1]}
                    for x, p in cmn:
                        dd[x.id][1] -= p
                    r = num(sm[0], s)
                    for x, p in dd.values():
                        if p:
                            r = mul2(r, powc(x, p))
                    return r
                m = num(1, s)
                for x, p in cmn:
                    m = mul2(m, powc(x, p))
                return mul2(m, ite(c, strip(sa), strip(sb)))
        return raw('ite', (c, a, b), s)
    if s[0] == 'St':
        if a.op == 'mk' or b.op == 'mk':
            return mk(s, *[ite(c, fld(a, f), fld(b, f)) for f, _ in STRUCTS[s[1]]])
        return raw('ite', (c, a, b), s)
    if s[0] == 'Tup':
        if a.op == 'tup' or b.op == 'tup':
            return tup(*[ite(c, proj(a, i), proj(b, i)) for i in range(len(s[1]))])
        return raw('ite', (c, a, b), s)
    if s[0] == 'Vec':
        sa, sb = segs(a), segs(b)
        if sa and sb:
            i = 0
            while i < len(sa) and i < len(sb) and sa[i] is sb[i]:
                i += 1
            j = 0
            while j < len(sa) - i and j < len(sb) - i and sa[-1 - j] is sb[-1 - j]:
                j += 1
            if i or j:
                pre = sa[:i]
                suf = sa[len(sa) - j:]
                ma = cat(a.sort, sa[i:len(sa) - j])
                mb = cat(a.sort, sb[i:len(sb) - j])
                return cat(a.sort, list(pre) + [ite(c, ma, mb)] + list(suf))
            if len(sa) == len(sb) and all(x.op == 'unit' for x in sa) and all(x.op == 'unit' for x in sb):
                return cat(s, [unit(ite(c, x.args[0], y.args[0])) for x, y in zip(sa, sb)])
        return raw('ite', (c, a, b), s)
    return raw('ite', (c, a, b), s)


# ---------------------------------------------------------------- binders

def abstract(t, v, depth=0):
    """replace free var v by bv(depth)"""
    memo = {}

    def go(t, d):
        if v.id not in t.fv:
            return t
        k = (t.id, d)
        r = memo.get(k)
        if r is not None:
            return r
        if t is v:
            r = bv(d, v.sort)
        elif t.op == 'lam':
            r = raw('lam', (go(t.args[0], d + 1),), t.sort, t.data)
        else:
            r = rebuild(t, [go(a, d) for a in t.args])
        memo[k] = r
        return r
    return go(t, depth)


def mklam(v, body):
    if body.loose:
        # an open body moves under one more binder
        body = shift(body, 1)
    return raw('lam', (abstract(body, v),), ('Fun', v.sort, body.sort), v.sort)


def lamf(sort, f, hint='i'):
    v = fresh(hint, sort)
    return mklam(v, f(v))


def inst(lam, t):
    """instantiate lam with t (t has no loose bvs unless it is used under the same binders)"""
    assert lam.op == 'lam'
    memo = {}

    def go(u, d):
        if u.loose <= d:
            return u
        k = (u.id, d)
        r = memo.get(k)
        if r is not None:
            return r
        if u.op == 'bv':
            r = t if u.data == d else u
            assert u.data <= d
        elif u.op == 'lam':
            r = raw('lam', (go(u.args[0], d + 1),), u.sort, u.data)
        else:
            r = rebuild(u, [go(a, d) for a in u.args])
        memo[k] = r
        return r
    if lam.loose > 0 or t.loose > 0:
        # open terms: happens inside rebuild of outer binders; use shifting-free trick
        return inst_open(lam, t)
    return go(lam.args[0], 0)


def shift(t, by, cut=0):
    memo = {}

    def go(u, d):
        if u.loose <= d:
            return u
        k = (u.id, d)
        r = memo.get(k)
        if r is not None:
            return r
        if u.op == 'bv':
            r = bv(u.data + by, u.sort)
        elif u.op == 'lam':
            r = raw('lam', (go(u.args[0], d + 1),), u.sort, u.data)
        else:
            r = rebuild(u, [go(a, d) for a in u.args])
        memo[k] = r
        return r
    return go(t, cut)


def inst_open(lam, t):
    memo = {}

    def go(u, d):
        if u.loose <= d:
            return u
        k = (u.id, d)
        r = memo.get(k)
        if r is not None:
            return r
        if u.op == 'bv':
            if u.data == d:
                r = shift(t, d)
            elif u.data > d:
                r = bv(u.data - 1, u.sort)
            else:
                r = u
        elif u.op == 'lam':
            r = raw('lam', (go(u.args[0], d + 1),), u.sort, u.data)
        else:
            r = rebuild(u, [go(a, d) for a in u.args])
        memo[k] = r
        return r
    return go(lam.args[0], 0)


def lam_map(l, f):
    """apply term function under binder"""
    if l.loose == 0:
        v = fresh('m', l.data)
        return mklam(v, f(inst(l, v)))
    # open lambda: apply f on the body with loose bvs (f must be structural)
    b = f(l.args[0])
    return raw('lam', (b,), ('Fun', l.data, b.sort), l.data)


def body_indep(l):
    """does the body not depend on the bound variable? then return it, lowered"""
    b = l.args[0]
    if not has_bv(b, 0):
        return shift(b, -1, 0) if b.loose else b
    return None


_hb = {}


def has_bv(t, d):
    if t.loose <= d:
        return False
    k = (t.id, d)
    r = _hb.get(k)
    if r is not None:
        return r
    if t.op == 'bv':
        r = t.data == d
    elif t.op == 'lam':
        r = has_bv(t.args[0], d + 1)
    else:
        r = any(has_bv(a, d) for a in t.args)
    _hb[k] = r
    return r


EXPAND = 8


def small(n):
    return is_num(n) and n.data <= EXPAND


def sum_(n, l):
    n = strip_nonneg(n)
    sort = l.sort[2]
    if is_num(n) and n.data <= 0:
        return num(0, sort)
    if small(n):
        return add(num(0, sort), *[inst(l, num(i)) for i in range(int(n.data))])
    b = l.args[0]
    bi = body_indep(l)
    if bi is not None:
        return mul2(coerce(nonneg(n), sort), bi)
    d = poly(b)
    if len(d) == 1:
        (k, c), = d.items()
        outk = [(a, p) for a, p in k if not has_bv(a, 0)]
        if outk or c != 1:
            ink = [(a, p) for a, p in k if has_bv(a, 0)]
            r = num(c, sort)
            for a, p in outk:
                r = mul2(r, powc(shift(a, -1, 0) if a.loose else a, p))
            inner = num(1, sort)
            for a, p in ink:
                inner = mul2(inner, powc(a, p))
            return mul2(r, sum_(n, raw('lam', (inner,), l.sort, l.data)))
        if len(k) == 1 and k[0][1] == 1 and k[0][0].op == 'ite' and not has_bv(k[0][0].args[0], 0):
            t = k[0][0]
            c = shift(t.args[0], -1, 0) if t.args[0].loose else t.args[0]
            return ite(c, sum_(n, raw('lam', (t.args[1],), l.sort, l.data)), sum_(n, raw('lam', (t.args[2],), l.sort, l.data)))
        return raw('Sum', (n, l), sort)
    r = num(0, sort)
    for k, c in d.items():
        r = add(r, sum_(n, raw('lam', (scale(c, _mono(k, sort)),), l.sort, l.data)))
    return r


def prod_(n, l):
    n = strip_nonneg(n)
    sort = l.sort[2]
    if is_num(n) and n.data <= 0:
        return num(1, sort)
    if small(n):
        return mul(num(1, sort), *[inst(l, num(i)) for i in range(int(n.data))])
    b = l.args[0]
    bi = body_indep(l)
    if bi is not None:
        return powi(bi, nonneg(n))
    sm = single_mono(b)
    if sm and (sm[0] != 1 or len(sm[1]) != 1 or sm[1][0][1] != 1):
        c, k = sm
        r = num(1, sort)
        if c != 1:
            r = mul2(r, powi(num(c, sort), nonneg(n)))
        for a, p in k:
            r = mul2(r, powc(prod_(n, raw('lam', (a,), l.sort, l.data)), p))
        return r
    if b.op == 'ite' and not has_bv(b.args[0], 0):
        c = shift(b.args[0], -1, 0) if b.args[0].loose else b.args[0]
        return ite(c, prod_(n, raw('lam', (b.args[1],), l.sort, l.data)), prod_(n, raw('lam', (b.args[2],), l.sort, l.data)))
    if b.op == 'm1pow':
        pass
    return raw('Prod', (n, l), sort)


def solve_bv0(p):
    """e with  p == 0 <=> bv0 == e"""
    d = poly(p)
    hit = None
    for k, c in d.items():
        if any(has_bv(a, 0) for a, _ in k):
            if hit is not None or len(k) != 1 or k[0][1] != 1 or k[0][0].op != 'bv' or abs(c) != 1:
                return None
            hit = (k, c)
    if hit is None:
        return None
    rest = dict(d)
    del rest[hit[0]]
    r = scale(-hit[1], from_poly(rest, 'Int'))
    return shift(r, -1, 0) if r.loose else r


def ex(n, l):
    n = strip_nonneg(n)
    if is_num(n) and n.data <= 0:
        return FALSE
    if small(n):
        return or_(*[inst(l, num(i)) for i in range(int(n.data))])
    b = l.args[0]
    if b is FALSE:
        return FALSE
    bi = body_indep(l)
    if bi is not None:
        return and_(le(num(1), n), bi)
    l = first_step(l) or l
    b = l.args[0]
    if b.op == 'eq0' and b.args[0].sort == 'Int':
        e = solve_bv0(b.args[0])
        if e is not None:
            return and_(le(num(0), e), lt(e, n))
    if b.op == 'or':
        return or_(*[ex(n, raw('lam', (x,), l.sort, l.data)) for x in b.args])
    if b.op == 'and':
        # one-point rule
        for x in b.args:
            if x.op == 'eq0' and x.args[0].sort == 'Int':
                e = solve_bv0(x.args[0])
                if e is not None:
                    r = inst_any(raw('lam', (and_(*[y for y in b.args if y is not x]),), l.sort, l.data), e)
                    return and_(le(num(0), e), lt(e, n), r)
        out = [x for x in b.args if not has_bv(x, 0)]
        if out:
            inn = [x for x in b.args if has_bv(x, 0)]
            out = [shift(x, -1, 0) if x.loose else x for x in out]
            return and_(*(out + [ex(n, raw('lam', (and_(*inn),), l.sort, l.data))]))
    return raw('ex', (n, l), 'Bool')


def first_step(l):
    """A(i) or some j < i with A(j): the first such i is the first with A(i)"""
    b = l.args[0]
    if b.op != 'or':
        return None
    for m in b.args:
        if m.op == 'ex' and m.args[0].op == 'bv' and m.args[0].data == 0:
            g = m.args[1].args[0]
            if has_bv(g, 1):
                continue
            g1 = shift(g, -1, 1) if g.loose > 1 else g
            parts = set(g1.args) if g1.op == 'or' else {g1}
            rest = [x for x in b.args if x is not m]
            if parts <= set(rest):
                r = raw('lam', (or_(*rest),), l.sort, l.data)
                return first_step(r) or r
    return None


def ff(n, l):
    """first index i<n with body(i), else n"""
    l = first_step(l) or l
    if is_num(n) and n.data <= 0:
        return num(0)
    if small(n):
        r = n
        for i in reversed(range(int(n.data))):
            r = ite(inst(l, num(i)), num(i), r)
        return r
    b = l.args[0]
    if b is FALSE:
        return nonneg(n)
    if b is TRUE:
        return num(0)
    return raw('ff', (n, l), 'Int')


def below(c):
    """m if c, under the binder of i, is i < m"""
    if c.op != 'le0':
        return None
    p = c.args[0]
    for x in (p.args if p.op == 'add' else (p,)):
        if x.op == 'bv' and x.data == 0:
            r = sub(p, x)
            if has_bv(r, 0):
                return None
            m = sub(num(1), r)
            return shift(m, -1, 0) if m.loose else m
    return None


def flat(n, l):
    """concatenation over i<n of the vectors body(i)"""
    n = strip_nonneg(n)
    sort = l.sort[2]
    if is_num(n) and n.data <= 0:
        return empty(sort)
    if small(n):
        return cat(sort, [inst(l, num(i)) for i in range(int(n.data))])
    b = l.args[0]
    if b.op == 'cat' and not b.args:
        return empty(sort)
    if n.op == 'ff' and n.args[1].args[0] is not_(eq0(len_(b))):
        return empty(sort)
    # eta
    if b.op == 'unit' and b.args[0].op == 'at':
        v, i = b.args[0].args
        if i.op == 'bv' and i.data == 0 and not has_bv(v, 0):
            v2 = shift(v, -1, 0) if v.loose else v
            if len_(v2) is n:
                return v2
    if b.op == 'ite' and not has_bv(b.args[0], 0):
        c = shift(b.args[0], -1, 0) if b.args[0].loose else b.args[0]
        return ite(c, flat(n, raw('lam', (b.args[1],), l.sort, l.data)), flat(n, raw('lam', (b.args[2],), l.sort, l.data)))
    if b.op == 'ite' and n.sort == 'Int':
        # a range cut short
        for c, x, y in ((b.args[0], b.args[1], b.args[2]), (not_(b.args[0]), b.args[2], b.args[1])):
            if y.op == 'cat' and not y.args:
                m = below(c)
                if m is not None and is_num(sub(n, m)):
                    return flat(n if sub(n, m).data <= 0 else m, raw('lam', (x,), l.sort, l.data))
    return raw('flat', (n, l), sort)


def fold(n, l, init):
    """l = lam i. lam s. step ; value after n steps"""
    n = strip_nonneg(n)
    if is_num(n) and n.data <= 0:
        return init
    if small(n):
        s = init
        for i in range(int(n.data)):
            s = inst(inst(l, num(i)), s)
        return s
    inner = l.args[0]
    if inner.args[0].op == 'bv' and inner.args[0].data == 0:
        return init
    return raw('fold', (n, l, init), init.sort)


def sum_f(n, f, hint='i'):
    return sum_(n, lamf('Int', f, hint))


def prod_f(n, f, hint='i'):
    return prod_(n, lamf('Int', f, hint))


def ex_f(n, f, hint='i'):
    return ex(n, lamf('Int', f, hint))


def ff_f(n, f, hint='i'):
    return ff(n, lamf('Int', f, hint))


def flat_f(n, f, hint='i'):
    return flat(n, lamf('Int', f, hint))


def map_f(n, f, hint='i'):
    return flat(n, lamf('Int', lambda i: unit(f(i)), hint))


def fold_f(n, init, f):
    """f(i, s) -> s'"""
    return fold(n, lamf('Int', lambda i: lamf(init.sort, lambda s: f(i, s), 's')), init)


# ---------------------------------------------------------------- vectors

def empty(sort):
    return raw('cat', (), sort)


def unit(e):
    return raw('unit', (e,), vec(e.sort))


def segs(v):
    if v.op == 'cat':
        return list(v.args)
    return [v]


def cat(sort, ss):
    out = []
    for s in ss:
        assert s.sort == sort, (s.sort, sort, show(s))
        for x in segs(s):
            if out and x.op == 'slice' and out[-1].op == 'slice' and x.args[0] is out[-1].args[0] and out[-1].args[2] is x.args[1]:
                out[-1] = slice_(x.args[0], out[-1].args[1], x.args[2])
                continue
            out.append(x)
    if len(out) == 1:
        return out[0]
    return raw('cat', out, sort)


def push(v, e):
    return cat(v.sort, [v, unit(e)])


def append(a, b):
    return cat(a.sort, [a, b])


def vlit(sort, es):
    return cat(vec(sort), [unit(e) for e in es])


_nnm = {}


def _nn(t):
    """syntactically nonnegative Int"""
    r = _nnm.get(t.id)
    if r is None:
        r = _nn0(t)
        _nnm[t.id] = r
    return r


def _nn0(t):
    o = t.op
    if o == 'num':
        return t.data >= 0
    if o in ('len', 'ff', 'abs'):
        return True
    if o == 'add':
        return all(c >= 0 and _nn(m) for m, c in zip(t.args, t.data))
    if o == 'mul':
        return all(p % 2 == 0 or _nn(a) for a, p in zip(t.args, t.data))
    if o == 'ite':
        c, a, b = t.args
        return (_nn(a) or not_(c) is le0(add(a, num(1))) or not_(c) is le0(a)) and (_nn(b) or c is le0(add(b, num(1))) or c is le0(b))
    if o == 'Sum':
        return _nn(t.args[1].args[0])
    if o == 'Prod':
        return _nn(t.args[1].args[0])
    if o == 'var' and isinstance(t.data, str) and t.data.startswith('nat:'):
        return True
    return False


def nonneg(n):
    if _nn(n):
        return n
    if is_num(n):
        return num(0) if n.data < 0 else n
    return ite(le0(n), num(0), n)


def strip_nonneg(n):
    """max(x,0) as a loop bound is the bound x"""
    if n.op == 'ite' and n.sort == 'Int':
        for x in n.args[1:]:
            if x.op != 'num' and nonneg(x) is n:
                return x
    return n


def len_(v):
    o = v.op
    if o == 'cat':
        return add(num(0), *[len_(s) for s in v.args])
    if o == 'unit':
        return num(1)
    if o == 'flat':
        n, l = v.args
        return sum_(n, _lenlam(l))
    if o == 'slice':
        return sub(v.args[2], v.args[1])
    if o == 'upd':
        return len_(v.args[0])
    if o == 'ite':
        return ite(v.args[0], len_(v.args[1]), len_(v.args[2]))
    if o == 'fold' and keeps_length(v.args[1]):
        return len_(v.args[2])
    if o == 'app':
        f = LEN.get(v.data)
        if f is not None:
            return f(*v.args)
    if o == 'at':
        # an entry of a list in which a loop changed entries in place
        path, u = [], v
        while u.op == 'at':
            path.append(u.args[1])
            u = u.args[0]
        if u.op == 'fold' and keeps_length(u.args[1], len(path)):
            u = u.args[2]
            for i in reversed(path):
                u = at(u, i)
            return len_(u)
    return raw('len', (v,), 'Int')


_keeps = {}


def keeps_length(l, depth=0):
    """does the step of a fold over vectors keep the length (of the entries at that depth)?"""
    inner = l.args[0]
    k = (l.id, depth)
    r = _keeps.get(k)
    if r is None:
        if l.loose:
            # abstract the free binders: they stand for arbitrary values
            r = False
        else:
            i = fresh('i', 'Int')
            s = fresh('s', inner.data)
            st = inst(inst(l, i), s)
            r = in_place(st, s, depth) if depth else len_(st) is len_(s)
        _keeps[k] = r
    return r


def in_place(t, s, depth):
    """t is s up to entries, of the same length at each depth, written to it"""
    if t is s:
        return True
    if t.op == 'ite':
        return in_place(t.args[1], s, depth) and in_place(t.args[2], s, depth)
    if t.op == 'upd':
        v, i, e = t.args
        if not in_place(v, s, depth):
            return False
        return depth == 0 or in_place(e, at(s, i), depth - 1)
    return False


LEN = {}    # spec functions whose result length is known from their definition


def _lenlam(l):
    b = len_(l.args[0])
    return raw('lam', (b,), ('Fun', l.data, 'Int'), l.data)


def at(v, i):
    o = v.op
    es = v.sort[1]
    if o == 'unit':
        return v.args[0]
    if o == 'flat':
        b = v.args[1].args[0]
        if b.op == 'unit':
            return inst_any(raw('lam', (b.args[0],), ('Fun', v.args[1].data, es), v.args[1].data), i)
        return raw('at', (v, i), es)
    if o == 'ite':
        return ite(v.args[0], at(v.args[1], i), at(v.args[2], i))
    if o == 'slice':
        return at(v.args[0], add(v.args[1], i))
    if o == 'cat':
        off = i
        for k, s in enumerate(v.args):
            if is_num(off):
                if off.data < 0:
                    break
                if s.op == 'unit':
                    if off.data == 0:
                        return s.args[0]
                else:
                    L = len_(s)
                    # definitely inside?
                    if le0(sub(add(off, num(1)), L)) is TRUE:
                        return at(s, off)
            else:
                pass
            L = len_(s)
            if not is_num(off) or not is_num(L):
                d = sub(off, L)
                if le0(neg(d)) is TRUE:      # off >= L
                    off = d
                    continue
                if lt(off, L) is TRUE and le(num(0), off) is TRUE:
                    return at(s, off)
                break
            off = sub(off, L)
        else:
            return raw('at', (v, i), es)
        if k > 0:
            return at_cat_raw(cat(v.sort, v.args[k:]), off, es)
        return raw('at', (v, i), es)
    if o == 'upd':
        c = eq(v.args[1], i)
        return ite(c, v.args[2], at(v.args[0], i))
    return raw('at', (v, i), es)


def at_cat_raw(v, i, es):
    if v.op != 'cat':
        return at(v, i)
    return raw('at', (v, i), es)


def inst_any(l, t):
    if l.loose or t.loose:
        return inst_open(l, t)
    return inst(l, t)


def back(v):
    return at(v, sub(len_(v), num(1)))


def upd(v, i, e):
    o = v.op
    if e is at(v, i):
        return v
    if o == 'cat' and not v.args:
        return v
    if o == 'unit' and is_num(i) and i.data == 0:
        return unit(e)
    if o == 'cat':
        off = i
        for k, s in enumerate(v.args):
            L = len_(s)
            inside = lt(off, L) is TRUE and le(num(0), off) is TRUE
            if inside:
                return cat(v.sort, list(v.args[:k]) + [upd(s, off, e)] + list(v.args[k + 1:]))
            if le(L, off) is TRUE:
                off = sub(off, L)
                continue
            break
    if o == 'upd' and v.args[1] is i:
        return upd(v.args[0], i, e)
    return raw('upd', (v, i, e), v.sort)


def slice_(v, lo, hi):
    if lo is hi:
        return empty(v.sort)
    if is_num(lo) and lo.data == 0 and len_(v) is hi:
        return v
    if v.op == 'slice':
        return slice_(v.args[0], add(v.args[1], lo), add(v.args[1], hi))
    if v.op == 'flat' and v.args[1].args[0].op == 'unit' and v.args[1].loose == 0:
        l = v.args[1]
        return flat_f(sub(hi, lo), lambda i: inst(l, add(lo, i)))
    if v.op == 'cat':
        # align at boundaries
        pos = num(0)
        bounds = [pos]
        for s in v.args:
            pos = add(pos, len_(s))
            bounds.append(pos)
        a = next((k for k, b in enumerate(bounds) if b is lo), None)
        b = next((k for k, x in enumerate(bounds) if x is hi), None)
        if a is not None and b is not None and a <= b:
            return cat(v.sort, v.args[a:b])
        if a:
            rest = cat(v.sort, v.args[a:])
            return slice_(rest, num(0), sub(hi, lo))
    return raw('slice', (v, lo, hi), v.sort)


# ---------------------------------------------------------------- structs

def mk(sort, *fs):
    names = STRUCTS[sort[1]]
    assert len(names) == len(fs), (sort, len(fs))
    for (f, s), x in zip(names, fs):
        assert x.sort == s, (sort, f, s, x.sort, show(x))
    if fs and fs[0].op == 'fld' and fs[0].args[0].sort == sort:
        b = fs[0].args[0]
        if all(x.op == 'fld' and x.args[0] is b and x.data == f for x, (f, _) in zip(fs, names)):
            return b
    if fs and fs[0].op == 'ite':
        pass
    return raw('mk', fs, sort)


def fidx(sort, f):
    for k, (n, s) in enumerate(STRUCTS[sort[1]]):
        if n == f:
            return k
    raise KeyError((sort, f))


def fld(s, f):
    if s.op == 'mk':
        return s.args[fidx(s.sort, f)]
    if s.op == 'ite':
        return ite(s.args[0], fld(s.args[1], f), fld(s.args[2], f))
    k = fidx(s.sort, f)
    return raw('fld', (s,), STRUCTS[s.sort[1]][k][1], f)


def setf(s, f, v):
    return mk(s.sort, *[v if n == f else fld(s, n) for n, _ in STRUCTS[s.sort[1]]])


def pair(a, b):
    return mk(pair_sort(a.sort, b.sort), a, b)


def tup(*fs):
    sort = ('Tup', tuple(f.sort for f in fs))
    if fs and fs[0].op == 'proj':
        b = fs[0].args[0]
        if b.sort == sort and all(x.op == 'proj' and x.args[0] is b and x.data == k for k, x in enumerate(fs)):
            return b
    return raw('tup', fs, sort)


def proj(t, i):
    if t.op == 'tup':
        return t.args[i]
    if t.op == 'ite':
        return ite(t.args[0], proj(t.args[1], i), proj(t.args[2], i))
    return raw('proj', (t,), t.sort[1][i], i)


# spec function application; data=(name)
APP = {}    # name -> unfold function(args)->term or None


def app(name, args, sort):
    return raw('app', tuple(args), sort, name)


def rebuild(t, args):
    o = t.op
    if all(x is y for x, y in zip(args, t.args)):
        return t
    if o == 'add':
        return add(num(0, t.sort), *[scale(c, a) for c, a in zip(t.data, args)])
    if o == 'mul':
        return mul(num(1, t.sort), *[powc(a, p) for a, p in zip(args, t.data)])
    f = _RB.get(o)
    if f:
        return f(*args)
    if o == 'cat':
        return cat(t.sort, args)
    if o == 'fn':
        return fn(t.data, args, t.sort)
    if o == 'mk':
        return mk(t.sort, *args)
    if o == 'fld':
        return fld(args[0], t.data)
    if o == 'proj':
        return proj(args[0], t.data)
    return raw(o, args, t.sort if o != 'lam' else t.sort, t.data)


_RB = {
    'inv': inv, 'idiv': idiv, 'imod': imod, 'm1pow': m1pow, 'powi': powi, 'toR': toR, 'cx': cx, 'trunc': trunc,
    're': real_, 'im': imag_, 'abs': iabs, 'not': not_, 'and': and_, 'or': or_, 'le0': le0, 'eq0': eq0, 'ite': ite,
    'Sum': sum_, 'Prod': prod_, 'ex': ex, 'ff': ff, 'flat': flat, 'fold': fold, 'unit': unit, 'len': len_, 'at': at,
    'upd': upd, 'slice': slice_, 'tup': tup,
}


def subst(t, m):
    """m: dict var-term -> term"""
    mm = {k.id: v for k, v in m.items()}
    keys = frozenset(mm)
    memo = {}

    def go(t):
        if not (t.fv & keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'var':
            r = mm[t.id]
        elif t.op == 'lam':
            b = go(t.args[0])
            r = raw('lam', (b,), ('Fun', t.data, b.sort), t.data)
        else:
            r = rebuild(t, [go(a) for a in t.args])
        memo[t.id] = r
        return r
    return go(t)


def map_term(t, f, memo=None):
    """bottom-up rewriting: f(t) returns replacement or None. works on open terms"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'lam':
            b = go(t.args[0])
            r = t if b is t.args[0] else raw('lam', (b,), ('Fun', t.data, b.sort), t.data)
        elif t.args:
            r = rebuild(t, [go(a) for a in t.args])
        else:
            r = t
        x = f(r)
        if x is not None:
            r = x
        memo[t.id] = r
        return r
    return go(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        yield u
        st.extend(u.args)


# ---------------------------------------------------------------- printing

def show(t, depth=60):
    def q(c):
        return str(c.numerator) if c.denominator == 1 else str(c)

    def go(t, env, d):
        o = t.op
        if d <= 0:
            return '...'
        g = lambda x: go(x, env, d - 1)
        if o == 'num':
            return q(t.data) + {'Int': '', 'Real': '.', 'Cx': 'c'}[t.sort]
        if o == 'var':
            return str(t.data)
        if o == 'bv':
            return env[-1 - t.data] if t.data < len(env) else '#%d' % t.data
        if o == 'add':
            return '(' + ' + '.join((g(m) if c == 1 else q(c) if m.op == 'num' else q(c) + '*' + g(m)) for m, c in zip(t.args, t.data)) + ')'
        if o == 'mul':
            return '*'.join(g(a) + ('^%d' % p if p != 1 else '') for a, p in zip(t.args, t.data))
        if o == 'lam':
            n = 'x%d' % len(env)
            return '\\%s. %s' % (n, go(t.args[0], env + [n], d - 1))
        if o in ('true', 'false'):
            return o
        if o == 'imagunit':
            return 'I'
        if o == 'at':
            return '%s[%s]' % (g(t.args[0]), g(t.args[1]))
        if o == 'len':
            return '|%s|' % g(t.args[0])
        if o == 'fld':
            return '%s.%s' % (g(t.args[0]), t.data)
        if o == 'proj':
            return '%s.%d' % (g(t.args[0]), t.data)
        if o == 'unit':
            return '[%s]' % g(t.args[0])
        if o == 'cat':
            return '(' + ' ++ '.join(map(g, t.args)) + ')' if t.args else '[]'
        if o == 'mk':
            return '%s{%s}' % (t.sort[1], ', '.join('%s=%s' % (f, g(a)) for (f, _), a in zip(STRUCTS[t.sort[1]], t.args)))
        if o in ('app', 'fn'):
            return '%s(%s)' % (t.data, ', '.join(map(g, t.args)))
        if o == 'le0':
            return '%s<=0' % g(t.args[0])
        if o == 'eq0':
            return '%s==0' % g(t.args[0])
        if o == 'ite':
            return 'ite(%s, %s, %s)' % tuple(map(g, t.args))
        return '%s(%s)' % (o, ', '.join(map(g, t.args)))
    return go(t, [], depth)
