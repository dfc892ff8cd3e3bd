"""Concrete evaluation of specification terms: the oracle used to search for failing inputs.

The same defining equations that the prover unfolds are executed here on concrete values, so the oracle cannot drift
from the specification.  Int -> int, Real -> float, Cx -> complex, Vec and structures -> tuples.  ANY marks a result the
specification leaves open.
"""
import cmath, math
from . import terms as tm
from . import specs as S
from .terms import fresh


class _Any:
    def __repr__(self):
        return 'ANY'


ANY = _Any()


class Stop(Exception):
    """the specification gives no value (out of range access, budget)"""


class Fr:
    __slots__ = ('up', 'val', 'memo', 'vars')

    def __init__(self, up, val, vars):
        self.up, self.val, self.vars = up, val, vars
        self.memo = {}


_code = {}
_defs = {}
BUDGET = [0]
NAN = float('nan')


def body_of(name):
    d = _defs.get(name)
    if d is None:
        s = S.DEFS[name]
        vs = [fresh('c', a) for a in s.args]
        d = _defs[name] = (vs, comp(s.fn(*vs)))
    return d


_appmemo = {}


def call(name, vals):
    f = OPAQUE.get(name)
    if f:
        return f(*vals)
    if name not in tm.APP:
        return ANY
    key = (name, tuple(vals))
    try:
        r = _appmemo.get(key)
    except TypeError:
        r, key = None, None
    if r is not None:
        return r
    vs, code = body_of(name)
    fr = Fr(None, None, {v.id: x for v, x in zip(vs, vals)})
    r = code(fr)
    if key is not None:
        if len(_appmemo) > 50000:
            _appmemo.clear()
        _appmemo[key] = r
    return r


def comp(t):
    c = _code.get(t.id)
    if c is None:
        c = _code[t.id] = _wrap(t, _comp(t))
    return c


_hold = []


def _wrap(t, f):
    _hold.append(t)
    if t.op in ('var', 'bv', 'num', 'true', 'false', 'imagunit', 'lam') or t.size < 3:
        return f
    i = t.id
    if t.loose == 0:
        def g(fr):
            while fr.up is not None:
                fr = fr.up
            m = fr.memo
            if i in m:
                return m[i]
            BUDGET[0] -= 1
            if BUDGET[0] < 0:
                raise Stop('budget')
            r = m[i] = f(fr)
            return r
    else:
        def g(fr):
            m = fr.memo
            if i in m:
                return m[i]
            BUDGET[0] -= 1
            if BUDGET[0] < 0:
                raise Stop('budget')
            r = m[i] = f(fr)
            return r
    return g


def conv(s):
    return {'Int': int, 'Real': float, 'Cx': complex}[s]


def cinv(x):
    if x is ANY:
        return ANY
    try:
        return 1 / x
    except ZeroDivisionError:
        return complex(NAN, NAN) if isinstance(x, complex) else NAN
    except OverflowError:
        return 0.0


def cmul(a, b):
    if isinstance(a, complex) and isinstance(b, complex):
        if b.imag == 0:
            return complex(a.real * b.real, a.imag * b.real)
        if a.imag == 0:
            return complex(a.real * b.real, a.real * b.imag)
    return a * b


def ipow(a, p):
    try:
        return a ** p
    except ZeroDivisionError:
        return a * NAN
    except OverflowError:
        return a * float('inf')


def cexp(z):
    try:
        return cmath.exp(z)
    except (OverflowError, ValueError):
        return complex(float('inf'), float('inf'))


def fnval(name, a):
    if name == 'exp':
        return cexp(a[0]) if isinstance(a[0], complex) else math.exp(a[0])
    if name == 'cabs':
        return abs(a[0])
    if name == 'conj':
        return a[0].conjugate()
    if name == 'floor':
        return float(math.floor(a[0]))
    if name == 'rpow':
        return a[0] ** a[1]
    if name.startswith('any:'):
        return ANY
    raise Stop('function ' + name)


OPAQUE = {'choose': lambda n, k: math.comb(n, k) if 0 <= k <= n else 0,
          'factorial': lambda n: math.factorial(n) if n >= 0 else 0}


def _comp(t):
    o = t.op
    A = [comp(x) for x in t.args if x.op != 'lam']
    if o == 'var':
        i = t.id

        def f(fr):
            while fr.up is not None:
                fr = fr.up
            return fr.vars[i]
        return f
    if o == 'bv':
        k = t.data

        def f(fr):
            for _ in range(k):
                fr = fr.up
            return fr.val
        return f
    if o == 'num':
        q = t.data
        v = int(q) if t.sort == 'Int' else float(q) if t.sort == 'Real' else complex(float(q))
        return lambda fr: v
    if o == 'true':
        return lambda fr: True
    if o == 'false':
        return lambda fr: False
    if o == 'imagunit':
        return lambda fr: 1j
    if o == 'add':
        cs = [int(c) if c.denominator == 1 else (float(c) if t.sort != 'Int' else c) for c in t.data]

        def f(fr):
            r = 0
            for c, a in zip(cs, A):
                v = a(fr)
                if v is ANY:
                    return ANY
                r = r + (v if c == 1 else c * v)
            if isinstance(r, complex) or t.sort == 'Int':
                return int(r) if t.sort == 'Int' else r
            return r
        return f
    if o == 'mul':
        ps = t.data
        one = conv(t.sort)(1)

        def f(fr):
            r = one
            for a, p in zip(A, ps):
                v = a(fr)
                if v is ANY:
                    return ANY
                r = cmul(r, v if p == 1 else ipow(v, p))
            return r
        return f
    if o == 'inv':
        a = A[0]
        return lambda fr: cinv(a(fr))
    if o == 'idiv':
        a, b = A

        def f(fr):
            x, y = a(fr), b(fr)
            if y == 0:
                raise Stop('division by zero')
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        return f
    if o == 'imod':
        a, b = A

        def f(fr):
            x, y = a(fr), b(fr)
            if y == 0:
                raise Stop('division by zero')
            r = abs(x) % abs(y)
            return -r if x < 0 else r
        return f
    if o == 'm1pow':
        a = A[0]
        return lambda fr: 1 - 2 * (a(fr) % 2)
    if o == 'powi':
        a, b = A
        return lambda fr: ipow(a(fr), b(fr))
    if o == 'toR':
        a = A[0]

        def f(fr):
            v = a(fr)
            return v if v is ANY else float(v)
        return f
    if o == 'cx':
        a = A[0]

        def f(fr):
            v = a(fr)
            return v if v is ANY else complex(v)
        return f
    if o == 'trunc':
        a = A[0]
        return lambda fr: int(a(fr))
    if o == 're':
        a = A[0]

        def f(fr):
            v = a(fr)
            return ANY if v is ANY else v.real
        return f
    if o == 'im':
        a = A[0]

        def f(fr):
            v = a(fr)
            return ANY if v is ANY else v.imag
        return f
    if o == 'fn':
        name = t.data
        if name.startswith('any:'):
            return lambda fr: ANY
        return lambda fr: fnval(name, [a(fr) for a in A])
    if o == 'abs':
        a = A[0]
        return lambda fr: abs(a(fr))
    if o == 'not':
        a = A[0]

        def f(fr):
            v = a(fr)
            return ANY if v is ANY else not v
        return f
    if o in ('and', 'or'):
        absorb = o == 'or'

        def f(fr):
            bad = None
            anyv = False
            for a in A:
                try:
                    v = a(fr)
                    if v is ANY:
                        anyv = True
                    elif bool(v) == absorb:
                        return absorb
                except Stop as s:
                    bad = s
            if bad:
                raise bad
            return ANY if anyv else not absorb
        return f
    if o == 'le0':
        a = A[0]

        def f(fr):
            v = a(fr)
            if isinstance(v, float) and not math.isfinite(v):
                raise Stop('not finite')
            return ANY if v is ANY else v <= 0
        return f
    if o == 'eq0':
        a = A[0]

        def f(fr):
            v = a(fr)
            if isinstance(v, (float, complex)) and not cmath.isfinite(v):
                raise Stop('not finite')
            return ANY if v is ANY else v == 0
        return f
    if o == 'ite':
        c, a, b = A

        def f(fr):
            v = c(fr)
            return ANY if v is ANY else a(fr) if v else b(fr)
        return f
    if o in ('Sum', 'Prod', 'ex', 'ff', 'flat'):
        n = A[0]
        body = comp(t.args[1].args[0])
        if o == 'Sum':
            zero = conv(t.sort)(0)

            def f(fr):
                r = zero
                for i in range(max(0, n(fr))):
                    r = r + body(Fr(fr, i, None))
                return r
        elif o == 'Prod':
            one = conv(t.sort)(1)

            def f(fr):
                r = one
                for i in range(max(0, n(fr))):
                    r = cmul(r, body(Fr(fr, i, None)))
                return r
        elif o == 'ex':
            def f(fr):
                bad, anyv = None, False
                for i in range(max(0, n(fr))):
                    try:
                        v = body(Fr(fr, i, None))
                        if v is ANY:
                            anyv = True
                        elif v:
                            return True
                    except Stop as s:
                        bad = s
                if bad:
                    raise bad
                return ANY if anyv else False
        elif o == 'ff':
            def f(fr):
                m = n(fr)
                for i in range(max(0, m)):
                    if body(Fr(fr, i, None)):
                        return i
                return max(0, m)
        else:
            def f(fr):
                r = []
                for i in range(max(0, n(fr))):
                    r.extend(body(Fr(fr, i, None)))
                return tuple(r)
        return f
    if o == 'fold':
        n, init = comp(t.args[0]), comp(t.args[2])
        body = comp(t.args[1].args[0].args[0])

        def f(fr):
            s = init(fr)
            for i in range(max(0, n(fr))):
                s = body(Fr(Fr(fr, i, None), s, None))
            return s
        return f
    if o == 'unit':
        a = A[0]
        return lambda fr: (a(fr),)
    if o == 'cat':
        def f(fr):
            r = []
            for a in A:
                r.extend(a(fr))
            return tuple(r)
        return f
    if o == 'len':
        a = A[0]
        return lambda fr: len(a(fr))
    if o == 'at':
        a, b = A

        def f(fr):
            v, i = a(fr), b(fr)
            if i < 0 or i >= len(v):
                raise Stop('index out of range in the specification')
            return v[i]
        return f
    if o == 'upd':
        a, b, c = A

        def f(fr):
            v, i = a(fr), b(fr)
            if i < 0 or i >= len(v):
                return v
            return v[:i] + (c(fr),) + v[i + 1:]
        return f
    if o == 'slice':
        a, b, c = A
        return lambda fr: a(fr)[max(0, b(fr)):max(0, c(fr))]
    if o in ('mk', 'tup'):
        return lambda fr: tuple(a(fr) for a in A)
    if o == 'fld':
        a = A[0]
        k = next(i for i, (nm, _) in enumerate(tm.STRUCTS[t.args[0].sort[1]]) if nm == t.data)
        return lambda fr: a(fr)[k]
    if o == 'proj':
        a = A[0]
        k = t.data
        return lambda fr: a(fr)[k]
    if o == 'app':
        name = t.data
        return lambda fr: call(name, [a(fr) for a in A])
    raise Stop('operator ' + o)


def evaluate(t, env, budget=400000):
    """env: variable term -> value"""
    BUDGET[0] = budget
    return comp(t)(Fr(None, None, {v.id: x for v, x in env.items()}))


def run(name, *vals, budget=400000):
    BUDGET[0] = budget
    return call(name, list(vals))
