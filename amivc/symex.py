"""Symbolic execution of the clang AST into terms; every loop is replaced by the closed form of an
inferred inductive invariant (init + preservation hold by construction of the closed form, checked in loops.py)."""
import re
from fractions import Fraction
from . import terms as tm
from .terms import *
from .frontend import Unsupported, ctype, clean
from . import loops

INTLIKE_UNSIGNED = ('unsigned', 'size_type', 'size_t')


class Path:
    __slots__ = ('root', 'steps')

    def __init__(self, root, steps=()):
        self.root = root
        self.steps = tuple(steps)

    def f(self, name):
        return Path(self.root, self.steps + (('fld', name),))

    def i(self, idx):
        return Path(self.root, self.steps + (('at', idx),))

    def same(self, o):
        return self.root == o.root and len(self.steps) == len(o.steps) and all(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]) for a, b in zip(self.steps, o.steps))


class It:
    """iterator: container path + index"""
    __slots__ = ('path', 'idx', 'rev')

    def __init__(self, path, idx, rev=False):
        self.path = path
        self.idx = idx
        self.rev = rev


class Closure:
    def __init__(self, node, frame, tu, this):
        self.node = node
        self.frame = frame
        self.tu = tu
        self.this = this


class BackIns:
    def __init__(self, path):
        self.path = path


class Stream:
    pass


class Obl:
    __slots__ = ('kind', 'cond', 'hyps', 'loc', 'fn')

    def __init__(self, kind, cond, hyps, loc, fn):
        self.kind = kind
        self.cond = cond
        self.hyps = tuple(hyps)
        self.loc = loc
        self.fn = fn


WRAP = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr')
PASSCASTS = ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion',
             'UncheckedDerivedToBase', 'DerivedToBase', 'FloatingCast', 'BuiltinFnToFnPtr', 'ToVoid', 'Dependent')


def kids(n):
    return [c for c in n.get('inner', []) if c.get('kind') and not c['kind'].endswith('Comment')]


def strip(n):
    while True:
        k = n.get('kind')
        if k in WRAP:
            n = kids(n)[0]
        elif k in ('ImplicitCastExpr',) and n.get('castKind') in ('NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'LValueToRValue', 'ConstructorConversion', 'BuiltinFnToFnPtr'):
            n = kids(n)[0]
        else:
            return n


def line_of(n):
    for key in ('loc',):
        l = n.get(key)
        if isinstance(l, dict):
            if 'line' in l:
                return l['line']
            e = l.get('expansionLoc')
            if e and 'line' in e:
                return e['line']
    r = n.get('range', {}).get('begin', {})
    return r.get('line') or r.get('expansionLoc', {}).get('line')


class Frame:
    n = 0

    def __init__(self, func, tu, this=True):
        Frame.n += 1
        self.id = Frame.n
        self.func = func
        self.tu = tu


class Exec:
    """One symbolic execution. contracts: mangled -> Contract"""

    def __init__(self, prog, contracts, self_contract_ok=True, inline_all=False):
        self.prog = prog
        self.contracts = contracts
        self.obls = []
        self.memory = False
        self.log = []
        self.inline_stack = []
        self.called = set()
        self.inlined = set()
        self.dropped = {}
        self.curfn = None
        self.statics = {}
        self.undefs = 0
        self.noinline = set()

    # -------------------------------------------------------------- helpers
    def undef(self, sort, why='undef'):
        self.undefs += 1
        if sort == 'Unit':
            return None
        if not isinstance(sort, str) and sort[0] == 'St':
            return self.default_struct(sort, None)
        return fresh('undef_' + why, sort)

    def sort(self, n):
        t = n.get('type', {})
        for k in ('desugaredQualType', 'qualType'):
            if k in t:
                try:
                    return self.prog.sort(t[k])
                except Unsupported as e:
                    err = e
        raise err

    def trysort(self, n):
        try:
            return self.sort(n)
        except Unsupported:
            return None

    def default_val(self, sort, zero=False):
        if not isinstance(sort, str):
            if sort[0] == 'Vec':
                return empty(sort)
            if sort[0] == 'St':
                return self.default_struct(sort, None)
        if sort == 'Cx':
            return num(0, 'Cx')
        if zero:
            if sort in NUMERIC:
                return num(0, sort)
            if sort == 'Bool':
                return FALSE
        return self.undef(sort)

    def default_struct(self, sort, env):
        name = sort[1]
        rec = self.prog.records.get(name)
        if rec is None:   # pair
            return mk(sort, *[self.default_val(s, True) for _, s in STRUCTS[name]])
        for c in rec['ctors']:
            ps = [x for x in kids(c) if x['kind'] == 'ParmVarDecl']
            if all(x.get('init') for x in ps) and any(x['kind'] == 'CompoundStmt' for x in kids(c)):
                return self.run_ctor(rec, name, c, [], {}, TRUE)
        return self.field_defaults(rec, name)

    def field_defaults(self, rec, name, env=None):
        vals = []
        inits = {f: i for f, _, i in rec['fields']}
        for f, s in STRUCTS[name]:
            if inits.get(f) is not None:
                fr = Frame(None, rec['tu'])
                v = self.ev(inits[f], dict(env or {}), TRUE, fr)
                vals.append(coerce(v, s) if s in NUMERIC or s == 'Bool' else v)
            elif isinstance(s, str) and s != 'Cx':
                vals.append(self.undef(s, f))
            else:
                vals.append(self.default_val(s))
        return mk(('St', name), *vals)

    def run_ctor(self, rec, name, c, args, env, pc):
        fr = Frame(None, rec['tu'])
        key = ('obj', fr.id)
        env = dict(env)
        env[key] = self.field_defaults(rec, name)
        fr.thiskey = key
        ps = [x for x in kids(c) if x['kind'] == 'ParmVarDecl']
        args = list(args)
        for p in ps[len(args):]:
            v = self.ev(kids(p)[-1], {}, TRUE, Frame(None, rec['tu']))
            s = self.sort(p)
            args.append(coerce(v, s) if s in NUMERIC or s == 'Bool' else v)
        for p, a in zip(ps, args):
            env[(fr.id, p['id'])] = a
        fr.objkey = key
        for x in c.get('inner', []):
            if x.get('kind') == 'CXXCtorInitializer':
                fname = x.get('anyInit', {}).get('name')
                e = kids(x)
                if fname is None:
                    v = self.ev(e[0], env, pc, fr) if e else None      # delegating constructor
                    if not isinstance(v, T) or v.sort != ('St', name):
                        raise Unsupported('base class initialiser')
                    env[key] = v
                    continue
                if not e or e[0]['kind'] == 'CXXDefaultInitExpr':
                    continue
                try:
                    s = dict(STRUCTS[name])[fname]
                except KeyError:
                    continue
                if e[0]['kind'] == 'CXXConstructExpr' and not kids(e[0]):
                    continue
                v = self.ev(e[0], env, pc, fr)
                if s in NUMERIC or s == 'Bool':
                    v = coerce(v, s)
                env[key] = setf(env[key], fname, v)
        body = next((x for x in kids(c) if x['kind'] == 'CompoundStmt'), None)
        if body is not None:
            e2, exits = self.stmt(body, env, pc, fr)
            e2, _ = self.finish(e2, exits, 'Unit', pc)
            env = e2
        return env[key]

    def oblig(self, kind, cond, pc, n):
        if cond is TRUE:
            return
        self.obls.append(Obl(kind, cond, [pc] if pc is not TRUE else [], line_of(n) if isinstance(n, dict) else n, self.curfn))

    # -------------------------------------------------------------- paths
    def read(self, p, env, pc=TRUE, n=None):
        if p.root not in env:
            raise Unsupported('read of unknown root %r' % (p.root,))
        v = env[p.root]
        for k, x in p.steps:
            if k == 'fld':
                v = fld(v, x)
            else:
                v = at(v, x)
        return v

    def write(self, p, val, env):
        def go(v, steps):
            if not steps:
                return val
            k, x = steps[0]
            if k == 'fld':
                return setf(v, x, go(fld(v, x), steps[1:]))
            return upd(v, x, go(at(v, x), steps[1:]))
        if p.root not in env:
            raise Unsupported('write to unknown root')
        env[p.root] = go(env[p.root], p.steps)

    def temp(self, val, env):
        Frame.n += 1
        k = ('tmp', Frame.n)
        env[k] = val
        return Path(k)

    # -------------------------------------------------------------- lvalues
    def lv(self, n, env, pc, fr):
        n0 = n
        n = strip(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
                key = self.find_var(r, env, fr)
                v = env[key]
                if isinstance(v, Path):
                    return v
                return Path(key)
            raise Unsupported('lvalue ref to ' + r['kind'])
        if k == 'MemberExpr':
            base = strip(kids(n)[0])
            if base['kind'] == 'CXXThisExpr':
                if hasattr(fr, 'objkey'):
                    return Path(fr.objkey).f(n['name'])
                return Path(('this', n['name']))
            b = kids(n)[0]
            if n.get('isArrow'):
                v = self.ev(b, env, pc, fr)
                if isinstance(v, It):
                    return v.path.i(v.idx).f(n['name'])
                raise Unsupported('arrow on non iterator')
            return self.lv(b, env, pc, fr).f(n['name'])
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n)
            a = kids(n)[1:]
            if op == 'operator[]':
                s0 = self.trysort(a[0])
                if s0 is None:
                    it = self.ev(a[0], env, pc, fr)
                    if isinstance(it, It):
                        idx = add(it.idx, self.evi(a[1], env, pc, fr))
                        self.idx_obl(it.path, idx, env, pc, n)
                        return it.path.i(idx)
                    raise Unsupported('operator[] on %s' % ctype(a[0]))
                p = self.lv(a[0], env, pc, fr)
                idx = self.evi(a[1], env, pc, fr)
                self.idx_obl(p, idx, env, pc, n)
                return p.i(idx)
            if op == 'operator*':
                it = self.ev(a[0], env, pc, fr)
                if isinstance(it, It):
                    self.idx_obl(it.path, it.idx, env, pc, n)
                    return it.path.i(it.idx)
            if op in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator++', 'operator--'):
                self.ev(n, env, pc, fr)
                return self.lv(a[0], env, pc, fr)
        if k == 'CXXMemberCallExpr':
            me = strip(kids(n)[0])
            nm = me.get('name')
            if me['kind'] == 'MemberExpr' and nm in ('back', 'front', 'at'):
                p = self.lv(kids(me)[0], env, pc, fr)
                if nm == 'at':
                    idx = self.evi(kids(n)[1], env, pc, fr)
                elif nm == 'front':
                    idx = num(0)
                else:
                    idx = sub(len_(self.read(p, env)), num(1))
                self.idx_obl(p, idx, env, pc, n)
                return p.i(idx)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode', '').endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
            self.ev(n, env, pc, fr)
            return self.lv(kids(n)[0], env, pc, fr)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.ev(n, env, pc, fr)
            return self.lv(kids(n)[0], env, pc, fr)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            it = self.ev(kids(n)[0], env, pc, fr)
            if isinstance(it, It):
                self.idx_obl(it.path, it.idx, env, pc, n)
                return it.path.i(it.idx)
        if k == 'CallExpr':
            nm = self.callee_name(n)
            if nm in ('move', 'forward', 'ref', 'cref'):
                return self.lv(kids(n)[1], env, pc, fr)
            if nm == 'get':
                pass
        if k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr') and n.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.lv(kids(n)[0], env, pc, fr)
        if k == 'ConditionalOperator':
            c = self.cond(kids(n)[0], env, pc, fr)
            p1 = self.lv(kids(n)[1], env, pc, fr)
            p2 = self.lv(kids(n)[2], env, pc, fr)
            if p1.same(p2):
                return p1
            if p1.root == p2.root and len(p1.steps) == len(p2.steps):
                st = []
                for a, b in zip(p1.steps, p2.steps):
                    if a[0] == b[0] == 'at':
                        st.append(('at', ite(c, a[1], b[1])))
                    elif a == b:
                        st.append(a)
                    else:
                        raise Unsupported('conditional lvalue')
                return Path(p1.root, st)
        # rvalue: materialise
        v = self.ev(n, env, pc, fr)
        if isinstance(v, It) or v is None:
            raise Unsupported('lvalue of %s' % k)
        return self.temp(v, env)

    def idx_obl(self, p, idx, env, pc, n):
        try:
            v = self.read(p, env)
        except Unsupported:
            return
        self.oblig('index', and_(le(num(0), idx), lt(idx, len_(v))), pc, n)

    def find_var(self, r, env, fr):
        f = fr
        while f is not None:
            key = (f.id, r['id'])
            if key in env:
                return key
            f = getattr(f, 'parent', None)
        # static / global variable
        key = ('static', r['id'])
        if key in env:
            return key
        s = self.prog.sort(r['type'].get('desugaredQualType') or r['type']['qualType'])
        tu = fr.tu
        d = self.prog.constant(r.get('name'), tu) if tu is not None else None
        if d is not None:
            v = self.ev([c for c in kids(d)][-1], {}, TRUE, Frame(None, tu))
            if isinstance(v, T) and not v.fv:
                env[key] = coerce(v, s) if s in NUMERIC or s == 'Bool' else v
                return key
        env[key] = var('global:%s' % r.get('name'), s)
        self.log.append('global variable %s read' % r.get('name'))
        self.statics[key] = env[key]
        return key

    # -------------------------------------------------------------- rvalues
    def evi(self, n, env, pc, fr):
        v = self.ev(n, env, pc, fr)
        return coerce(v, 'Int')

    def cond(self, n, env, pc, fr):
        v = self.ev(n, env, pc, fr)
        return coerce(v, 'Bool')

    def opname(self, n):
        c = strip(kids(n)[0])
        if c['kind'] == 'DeclRefExpr':
            return c['referencedDecl'].get('name')
        return c.get('name')

    def callee_name(self, n):
        c = strip(kids(n)[0])
        if c['kind'] == 'DeclRefExpr':
            return c['referencedDecl'].get('name')
        if c['kind'] == 'UnresolvedLookupExpr':
            return c.get('name')
        return None

    def ev(self, n, env, pc, fr):
        k = n.get('kind')
        m = getattr(self, 'ev_' + k, None) if k else None
        if m is None:
            raise Unsupported('expression %s (line %s)' % (k, line_of(n)))
        return m(n, env, pc, fr)

    def _pass(self, n, env, pc, fr):
        return self.ev(kids(n)[0], env, pc, fr)
    ev_ExprWithCleanups = ev_MaterializeTemporaryExpr = ev_CXXBindTemporaryExpr = ev_ParenExpr = ev_ConstantExpr = _pass
    ev_SubstNonTypeTemplateParmExpr = _pass

    def ev_IntegerLiteral(self, n, env, pc, fr):
        return num(int(n['value']))

    def ev_CharacterLiteral(self, n, env, pc, fr):
        return num(int(n['value']))

    def ev_FloatingLiteral(self, n, env, pc, fr):
        return num(Fraction(repr(float(n['value']))), 'Real')      # the decimal as written

    def ev_CXXBoolLiteralExpr(self, n, env, pc, fr):
        return boolc(n['value'])

    def ev_StringLiteral(self, n, env, pc, fr):
        return Stream()

    def ev_CXXThisExpr(self, n, env, pc, fr):
        return Stream()

    def ev_CXXDefaultArgExpr(self, n, env, pc, fr):
        ks = kids(n)
        if ks:
            return self.ev(ks[0], env, pc, fr)
        s = self.trysort(n)
        if s in ('Real', 'Int', 'Cx'):
            return num(0, s)
        return Stream()

    def ev_CXXDefaultInitExpr(self, n, env, pc, fr):
        ks = kids(n)
        if ks:
            return self.ev(ks[0], env, pc, fr)
        raise Unsupported('CXXDefaultInitExpr')

    def ev_CXXScalarValueInitExpr(self, n, env, pc, fr):
        return self.default_val(self.sort(n), True)
    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr

    def ev_UnaryExprOrTypeTraitExpr(self, n, env, pc, fr):
        raise Unsupported('sizeof')

    def ev_DeclRefExpr(self, n, env, pc, fr):
        r = n['referencedDecl']
        if r['kind'] == 'EnumConstantDecl':
            return num(self.prog.enums[r['name']])
        if r['kind'] in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            if r.get('name') in ('cout', 'cerr', 'clog', 'endl'):
                return Stream()
            key = self.find_var(r, env, fr)
            v = env[key]
            if isinstance(v, Path):
                return self.read(v, env)
            return v
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return ('func', r, fr)
        raise Unsupported('DeclRef to %s' % r['kind'])

    def ev_MemberExpr(self, n, env, pc, fr):
        base = strip(kids(n)[0])
        if base['kind'] == 'CXXThisExpr' or n.get('isArrow') or base['kind'] in ('DeclRefExpr', 'MemberExpr', 'CXXOperatorCallExpr'):
            return self.read(self.lv(n, env, pc, fr), env)
        v = self.ev(kids(n)[0], env, pc, fr)
        return fld(v, n['name'])

    def castv(self, v, n, ck, env, pc, fr):
        if isinstance(v, (It, Closure, BackIns, Stream, tuple)) or v is None:
            return v
        s = self.trysort(n)
        if s is None:
            return v
        if ck == 'IntegralCast' and any(u in ctype(n) for u in INTLIKE_UNSIGNED):
            self.oblig('unsigned-conversion', le(num(0), v), pc, n)
        if s == v.sort:
            return v
        if s in ('Int', 'Real', 'Cx', 'Bool') and v.sort in ('Int', 'Real', 'Cx', 'Bool'):
            return coerce(v, s)
        return v

    def ev_ImplicitCastExpr(self, n, env, pc, fr):
        ck = n.get('castKind')
        inner = kids(n)[0]
        if ck == 'LValueToRValue' or ck == 'NoOp':
            return self.ev(inner, env, pc, fr)
        v = self.ev(inner, env, pc, fr)
        return self.castv(v, n, ck, env, pc, fr)

    def ev_cast(self, n, env, pc, fr):
        if n.get('castKind') == 'ToVoid':
            try:
                self.ev(kids(n)[0], env, pc, fr)
            except Unsupported:
                pass
            return Stream()
        v = self.ev(kids(n)[0], env, pc, fr)
        return self.castv(v, n, n.get('castKind'), env, pc, fr)
    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXConstCastExpr = ev_BuiltinBitCastExpr = ev_cast

    # construction
    def construct_val(self, s, n, args, env, pc, fr):
        vals = None
        if s == 'Cx':
            if not args:
                return num(0, 'Cx')
            vs = [self.ev(a, env, pc, fr) for a in args]
            vs = [v for v in vs if not isinstance(v, Stream)]
            if len(vs) == 1:
                return coerce(vs[0], 'Cx')
            return complex_(coerce(vs[0], 'Real'), coerce(vs[1], 'Real'))
        if s in NUMERIC or s == 'Bool':
            vs = [self.ev(a, env, pc, fr) for a in args]
            vs = [v for v in vs if isinstance(v, T)]
            if not vs:
                return num(0, s) if s != 'Bool' else FALSE
            return coerce(vs[0], s)
        if s[0] == 'Vec':
            vs = [self.ev(a, env, pc, fr) for a in args if a['kind'] != 'CXXDefaultArgExpr']
            if not vs:
                return empty(s)
            if isinstance(vs[0], T) and vs[0].sort == s:
                return vs[0]
            if isinstance(vs[0], It) and len(vs) >= 2 and isinstance(vs[1], It):
                return self.range_vec(vs[0], vs[1], env, pc, n)
            if isinstance(vs[0], T) and vs[0].sort == 'Int':
                n_ = vs[0]
                d = vs[1] if len(vs) > 1 else self.default_val(s[1], True)
                d = coerce(d, s[1]) if s[1] in NUMERIC or s[1] == 'Bool' else d
                return flat_f(n_, lambda i: unit(d))
            raise Unsupported('vector constructor')
        if s[0] == 'St':
            vs = [self.ev(a, env, pc, fr) for a in args if a['kind'] != 'CXXDefaultArgExpr']
            if not vs:
                return self.default_struct(s, env)
            if len(vs) == 1 and isinstance(vs[0], T) and vs[0].sort == s:
                return vs[0]
            if s[1].startswith('pair<'):
                if len(vs) == 1 and vs[0].sort[0] == 'St':
                    vs = [fld(vs[0], 'first'), fld(vs[0], 'second')]
                fs = STRUCTS[s[1]]
                return mk(s, *[coerce(v, t) if t in NUMERIC or t == 'Bool' else v for v, (_, t) in zip(vs, fs)])
            rec = self.prog.records.get(s[1])
            ct = n.get('ctorType', {}).get('qualType') if n is not None else None
            cands = []
            for c in rec['ctors']:
                ps = [x for x in kids(c) if x['kind'] == 'ParmVarDecl']
                if len(ps) < len(vs) or not all(p.get('init') for p in ps[len(vs):]) or c.get('isImplicit'):
                    continue
                if ct and c['type']['qualType'] == ct:
                    cands.insert(0, c)
                else:
                    cands.append(c)
            for c in cands:
                ps = [x for x in kids(c) if x['kind'] == 'ParmVarDecl']
                try:
                    cv = []
                    for p, v in zip(ps, vs):
                        t = self.sort(p)
                        cv.append(coerce(v, t) if t in NUMERIC or t == 'Bool' else v)
                        if cv[-1].sort != t:
                            raise TypeError
                except TypeError:
                    continue
                return self.run_ctor(rec, s[1], c, cv, env, pc)
            # aggregate
            raise Unsupported('constructor of %s' % s[1])
        raise Unsupported('construct')

    def ev_CXXConstructExpr(self, n, env, pc, fr):
        s = self.trysort(n)
        args = kids(n)
        if s is None:
            if len(args) == 1:
                return self.ev(args[0], env, pc, fr)
            if not args:
                return Stream()
            raise Unsupported('construct %s' % ctype(n))
        return self.construct_val(s, n, args, env, pc, fr)
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def ev_CXXStdInitializerListExpr(self, n, env, pc, fr):
        return self.ev(kids(n)[0], env, pc, fr)

    def ev_InitListExpr(self, n, env, pc, fr):
        s = self.trysort(n)
        vs = [self.ev(a, env, pc, fr) for a in kids(n)]
        if s is not None and not isinstance(s, str) and s[0] == 'St':
            fs = STRUCTS[s[1]]
            return mk(s, *[coerce(v, t) if t in NUMERIC or t == 'Bool' else v for v, (_, t) in zip(vs, fs)])
        if s is not None and not isinstance(s, str) and s[0] == 'Vec':
            return cat(s, [unit(coerce(v, s[1]) if s[1] in NUMERIC or s[1] == 'Bool' else v) for v in vs])
        if s in NUMERIC or s == 'Bool':
            return vs[0] if vs else num(0, s)
        if vs and all(isinstance(v, T) for v in vs):
            return vlit(vs[0].sort, vs)
        raise Unsupported('init list')

    def range_vec(self, a, b, env, pc=TRUE, n=None):
        if not a.path.same(b.path):
            raise Unsupported('iterator range over two containers')
        v = self.read(a.path, env)
        self.range_obl(v, a.idx, b.idx, pc, n)
        return slice_(v, a.idx, b.idx)

    def range_obl(self, v, lo, hi, pc, n):
        self.oblig('range', and_(le(num(0), lo), le(lo, hi), le(hi, len_(v))), pc, n)

    # operators
    def arith(self, op, a, b, n, pc):
        s = a.sort
        if s == 'Bool':
            a = coerce(a, 'Int')
        if b.sort == 'Bool':
            b = coerce(b, 'Int')
        order = {'Int': 0, 'Real': 1, 'Cx': 2}
        if a.sort not in order or b.sort not in order:
            raise Unsupported('arithmetic on %s, %s' % (a.sort, b.sort))
        s = max(a.sort, b.sort, key=lambda x: order[x])
        a, b = coerce(a, s), coerce(b, s)
        if op == '+':
            return add(a, b)
        if op == '-':
            r = sub(a, b)
            if s == 'Int' and n is not None and any(u in ctype(n) for u in INTLIKE_UNSIGNED):
                self.oblig('unsigned-subtraction', le(num(0), r), pc, n)
            return r
        if op == '*':
            return mul2(a, b)
        if op == '/':
            if s == 'Int':
                self.oblig('division', not_(eq(b, num(0))), pc, n)
                return idiv(a, b)
            return div(a, b)
        if op == '%':
            self.oblig('division', not_(eq(b, num(0))), pc, n)
            return imod(a, b)
        raise Unsupported('operator ' + op)

    def compare(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            if not a.path.same(b.path):
                raise Unsupported('comparing iterators of two containers')
            a, b = a.idx, b.idx
        if op in ('==', '!='):
            if a.sort in NUMERIC + ('Bool',):
                order = {'Bool': -1, 'Int': 0, 'Real': 1, 'Cx': 2}
                s = max(a.sort, b.sort, key=lambda x: order[x])
                a, b = coerce(a, s), coerce(b, s)
            r = eq(a, b)
            return r if op == '==' else not_(r)
        a2 = coerce(a, 'Int') if a.sort == 'Bool' else a
        b2 = coerce(b, 'Int') if b.sort == 'Bool' else b
        if 'Real' in (a2.sort, b2.sort):
            a2, b2 = coerce(a2, 'Real'), coerce(b2, 'Real')
        return {'<': lt, '<=': le, '>': gt, '>=': ge}[op](a2, b2)

    def ev_BinaryOperator(self, n, env, pc, fr):
        op = n['opcode']
        l, r = kids(n)
        if op == ',':
            self.ev(l, env, pc, fr)
            return self.ev(r, env, pc, fr)
        if op == '=':
            v = self.ev(r, env, pc, fr)
            s = self.trysort(l)
            if s in ('Int', 'Real', 'Cx', 'Bool') and isinstance(v, T):
                v = coerce(v, s)
            p = self.lv(l, env, pc, fr)
            self.write(p, v, env)
            return v
        if op in ('&&', '||'):
            a = self.cond(l, env, pc, fr)
            e2 = dict(env)
            g = a if op == '&&' else not_(a)
            b = self.cond(r, e2, and_(pc, g), fr)
            m = self.merge(g, e2, env)
            if m is not env:
                env.clear()
                env.update(m)
            return and_(a, b) if op == '&&' else or_(a, b)
        a = self.ev(l, env, pc, fr)
        b = self.ev(r, env, pc, fr)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        if isinstance(a, It) and isinstance(b, T):
            return It(a.path, self.arith(op, a.idx, b, None, pc))
        if isinstance(a, It) and isinstance(b, It) and op == '-':
            return sub(a.idx, b.idx)
        if op in ('&', '|') and a.sort == 'Bool' and b.sort == 'Bool':
            return and_(a, b) if op == '&' else or_(a, b)
        if op == '&' and is_num(b) and b.data == 1:
            return self.mod2(coerce(a, 'Int'))
        if op == '^' and a.sort == 'Bool' and b.sort == 'Bool':
            return not_(eq(a, b))
        return self.arith(op, a, b, n, pc)

    def mod2(self, a):
        return imod(a, num(2))

    def ev_CompoundAssignOperator(self, n, env, pc, fr):
        op = n['opcode'][:-1]
        l, r = kids(n)
        b = self.ev(r, env, pc, fr)
        p = self.lv(l, env, pc, fr)
        a = self.read(p, env)
        if isinstance(a, It):
            v = It(a.path, self.arith(op, a.idx, b, None, pc))
        else:
            if a.sort == 'Bool' and op in ('|', '&'):
                v = or_(a, coerce(b, 'Bool')) if op == '|' else and_(a, coerce(b, 'Bool'))
            else:
                v = coerce(self.arith(op, a, b, n, pc), a.sort)
        self.write(p, v, env)
        return v

    def ev_UnaryOperator(self, n, env, pc, fr):
        op = n['opcode']
        e = kids(n)[0]
        if op in ('++', '--'):
            p = self.lv(e, env, pc, fr)
            a = self.read(p, env)
            d = num(1 if op == '++' else -1)
            if isinstance(a, It):
                v = It(a.path, add(a.idx, d))
            else:
                v = add(a, coerce(d, a.sort))
            self.write(p, v, env)
            return a if n.get('isPostfix') else v
        if op == '*':
            return self.read(self.lv(n, env, pc, fr), env)
        v = self.ev(e, env, pc, fr)
        if op == '-':
            return neg(coerce(v, 'Int') if v.sort == 'Bool' else v)
        if op == '+':
            return coerce(v, 'Int') if v.sort == 'Bool' else v
        if op == '!':
            return not_(coerce(v, 'Bool'))
        if op == '__extension__':
            return v
        raise Unsupported('unary ' + op)

    def ev_ConditionalOperator(self, n, env, pc, fr):
        c, a, b = kids(n)
        cv = self.cond(c, env, pc, fr)
        e1, e2 = dict(env), dict(env)
        va = self.ev(a, e1, and_(pc, cv), fr)
        vb = self.ev(b, e2, and_(pc, not_(cv)), fr)
        m = self.merge(cv, e1, e2)
        if m is not env:
            env.clear()
            env.update(m)
        if isinstance(va, It):
            return It(va.path, ite(cv, va.idx, vb.idx))
        if isinstance(va, Stream):
            return va
        if va.sort != vb.sort:
            s = self.sort(n)
            va, vb = coerce(va, s), coerce(vb, s)
        return ite(cv, va, vb)

    def ev_CXXOperatorCallExpr(self, n, env, pc, fr):
        op = self.opname(n)
        a = kids(n)[1:]
        if op in ('operator<<', 'operator>>'):
            self.effects(n, env, pc, fr)
            return Stream()
        if op == 'operator[]':
            return self.read(self.lv(n, env, pc, fr), env)
        if op == 'operator*' and len(a) == 1:
            return self.read(self.lv(n, env, pc, fr), env)
        if op == 'operator->':
            return self.ev(a[0], env, pc, fr)
        if op == 'operator=':
            v = self.ev(a[1], env, pc, fr)
            s = self.trysort(a[0])
            if s in ('Int', 'Real', 'Cx', 'Bool') and isinstance(v, T):
                v = coerce(v, s)
            p = self.lv(a[0], env, pc, fr)
            self.write(p, v, env)
            return v
        if op in ('operator++', 'operator--'):
            p = self.lv(a[0], env, pc, fr)
            x = self.read(p, env)
            d = num(1 if op == 'operator++' else -1)
            v = It(x.path, add(x.idx, d)) if isinstance(x, It) else add(x, coerce(d, x.sort))
            self.write(p, v, env)
            return x if len(a) > 1 else v
        if op == 'operator()':
            f = self.ev(a[0], env, pc, fr)
            return self.call_callable(f, a[1:], env, pc, fr)
        if op in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            b = self.ev(a[1], env, pc, fr)
            p = self.lv(a[0], env, pc, fr)
            x = self.read(p, env)
            if isinstance(x, It):
                v = It(x.path, self.arith(op[-2], x.idx, b, None, pc))
            else:
                v = coerce(self.arith(op[-2], x, b, n, pc), x.sort)
            self.write(p, v, env)
            return v
        if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            return self.compare(op[8:], self.ev(a[0], env, pc, fr), self.ev(a[1], env, pc, fr))
        if op in ('operator+', 'operator-', 'operator*', 'operator/'):
            x = self.ev(a[0], env, pc, fr)
            if len(a) == 1:
                return neg(x) if op == 'operator-' else x
            y = self.ev(a[1], env, pc, fr)
            if isinstance(x, It) and isinstance(y, It):
                return sub(x.idx, y.idx)
            if isinstance(x, It):
                return It(x.path, self.arith(op[-1], x.idx, y, None, pc))
            return self.arith(op[-1], x, y, n, pc)
        if op == 'operator bool':
            return self.ev(a[0], env, pc, fr)
        raise Unsupported(op)

    def effects(self, n, env, pc, fr):
        """evaluate AmiBase calls inside a printing expression for their side effects"""
        n_ = n
        found = []

        def walk(x):
            if x.get('kind') == 'CXXMemberCallExpr':
                me = strip(kids(x)[0])
                if me.get('kind') == 'MemberExpr':
                    b = kids(me)
                    if b and strip(b[0]).get('kind') == 'CXXThisExpr':
                        found.append(x)
                        return
            if x.get('kind') in ('UnaryOperator',) and x.get('opcode') in ('++', '--') or x.get('kind') == 'CompoundAssignOperator' or \
                    (x.get('kind') == 'BinaryOperator' and x.get('opcode') == '='):
                found.append(x)
                return
            for c in x.get('inner', []):
                walk(c)
        walk(n_)
        for x in found:
            self.ev(x, env, pc, fr)
        self.dropped['output statements'] = self.dropped.get('output statements', 0) + 1

    # calls
    def ev_LambdaExpr(self, n, env, pc, fr):
        return Closure(n, fr, fr.tu, None)

    def call_callable(self, f, args, env, pc, fr, vals=None):
        if isinstance(f, Closure):
            rec = next(c for c in kids(f.node) if c['kind'] == 'CXXRecordDecl')
            m = None
            for c in kids(rec):
                if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()':
                    m = c
                if c['kind'] == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                    for x in kids(c):
                        if x['kind'] == 'CXXMethodDecl' and 'auto' not in x['type']['qualType'].split('->')[0]:
                            m = x
            if m is None:
                raise Unsupported('lambda operator()')
            nf = Frame(None, f.tu)
            nf.parent = f.frame
            if hasattr(f.frame, 'objkey'):
                nf.objkey = f.frame.objkey
            body = next((c for c in kids(m) if c['kind'] == 'CompoundStmt'), None)
            if body is None:
                body = next((c for c in kids(f.node) if c['kind'] == 'CompoundStmt'), None)
            ps = [c for c in kids(m) if c['kind'] == 'ParmVarDecl']
            return self.run_body(m, ps, body, nf, args, env, pc, fr, vals)
        if isinstance(f, tuple) and f[0] == 'func':
            r = f[1]
            func, node = self.prog.resolve(r, f[2].tu)
            if func is None:
                func = self.prog.helper(r.get('name'), r['type']['qualType'], f[2].tu)
            if func is None:
                raise Unsupported('call of %s' % r.get('name'))
            return self.inline(func, args, env, pc, fr, vals)
        raise Unsupported('callable')

    def run_body(self, decl, ps, body, nf, args, env, pc, fr, vals=None):
        """bind params and execute; args: AST nodes evaluated in fr, or vals"""
        for j, p in enumerate(ps):
            key = (nf.id, p['id'])
            qt = p['type'].get('desugaredQualType') or p['type']['qualType']
            isref = qt.rstrip().endswith('&') or p['type']['qualType'].rstrip().endswith('&')
            if vals is not None:
                v = vals[j]
                if isinstance(v, Path) and not isref:
                    v = self.read(v, env)
            else:
                if j < len(args):
                    if isref:
                        try:
                            st = self.trysort(p)
                            a = args[j]
                            v = self.lv(a, env, pc, fr) if self.is_lval(a) else None
                        except Unsupported:
                            v = None
                        if v is None:
                            v = self.ev(args[j], env, pc, fr)
                        else:
                            w = self.read(v, env)
                            if isinstance(w, T) and st in NUMERIC and w.sort != st:
                                v = coerce(w, st)
                    else:
                        v = self.ev(args[j], env, pc, fr)
                else:
                    init = [c for c in kids(p)]
                    v = self.ev(init[0], env, pc, fr)
            if isinstance(v, T):
                s = self.trysort(p)
                if s in ('Int', 'Real', 'Cx', 'Bool'):
                    v = coerce(v, s)
            env[key] = v
        rt = decl['type'].get('desugaredQualType') or decl['type']['qualType']
        e2, exits = self.stmt(body, env, pc, nf)
        e3, ret = self.finish(e2, exits, None, pc)
        if e3 is not env:
            env.clear()
            env.update(e3)
        rs = rt.split('(')[0].strip() if '->' not in rt else rt.split('->')[-1].strip()
        try:
            s = self.prog.sort(rs)
            if isinstance(ret, T) and s in ('Int', 'Real', 'Cx', 'Bool') and ret.sort != s:
                ret = coerce(ret, s)
        except Unsupported:
            pass
        return ret

    def is_lval(self, a):
        return strip(a).get('valueCategory', a.get('valueCategory')) in ('lvalue', 'xvalue')

    def finish(self, env, exits, rs, pc):
        """merge return exits with the fall-through env"""
        rets = exits
        for c, kind, e, v in rets:
            if kind != 'return':
                raise Unsupported('%s outside loop' % kind)
        if env is not None:
            cur, val = env, None
        else:
            if not rets:
                raise Unsupported('no exit')
            c, k, e, v = rets[-1]
            cur, val = e, v
            rets = rets[:-1]
        for c, k, e, v in reversed(rets):
            if val is None and v is not None and not isinstance(v, Stream):
                val = v if not isinstance(v, T) else ite(c, v, fresh('noreturn', v.sort))
            elif isinstance(v, T) and isinstance(val, T):
                if v.sort != val.sort:
                    o = {'Bool': -1, 'Int': 0, 'Real': 1, 'Cx': 2}
                    s = max(v.sort, val.sort, key=lambda x: o[x])
                    v, val = coerce(v, s), coerce(val, s)
                val = ite(c, v, val)
            elif isinstance(v, It) and isinstance(val, It):
                if not v.path.same(val.path):
                    raise Unsupported('returned iterators differ')
                val = It(v.path, ite(c, v.idx, val.idx))
            cur = self.merge(c, e, cur)
        return cur, val

    def merge(self, c, e1, e2):
        if c is TRUE:
            return dict(e1)
        if c is FALSE:
            return dict(e2)
        out = {}
        for k, v in e1.items():
            if k not in e2:
                if k[0] == 'static':
                    e2[k] = self.statics.get(k, v)
                else:
                    continue
            w = e2[k]
            if v is w:
                out[k] = v
            elif isinstance(v, T) and isinstance(w, T):
                out[k] = ite(c, v, w)
            elif isinstance(v, It) and isinstance(w, It) and v.path.same(w.path):
                out[k] = It(v.path, ite(c, v.idx, w.idx))
            elif isinstance(v, Path) and isinstance(w, Path) and v.same(w):
                out[k] = v
            elif isinstance(v, (Closure, Stream, tuple)):
                out[k] = v
            else:
                out[k] = None
        for k, w in e2.items():
            if k[0] == 'static' and k not in e1:
                out[k] = w if w is self.statics.get(k) else ite(c, self.statics[k], w)
        return out

    def inline(self, func, args, env, pc, fr, vals=None):
        if len(self.inline_stack) > 25 or self.inline_stack.count(func.mangled) > 2:
            raise Unsupported('recursion without contract: ' + func.name)
        if func.body is None:
            raise Unsupported('no body: ' + func.name)
        self.inline_stack.append(func.mangled)
        self.inlined.add(func.name)
        try:
            nf = Frame(func, func.tu)
            return self.run_body(func.node, func.params, func.body, nf, args, env, pc, fr, vals)
        finally:
            self.inline_stack.pop()

    def ev_CXXMemberCallExpr(self, n, env, pc, fr):
        me = strip(kids(n)[0])
        args = kids(n)[1:]
        name = me.get('name')
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call via %s' % me['kind'])
        base = kids(me)[0]
        sb = strip(base)
        if sb['kind'] == 'CXXThisExpr' or self.is_ami(sb):
            func, node = self.prog.resolve(me.get('referencedMemberDecl'), fr.tu)
            if func is None:
                cands = self.prog.by_name.get(name, [])
                cands = [f for f in cands if len(f.params) == len(args)]
                if len(cands) == 1:
                    func = cands[0]
                else:
                    h = self.prog.helper(name, '', fr.tu)
                    func = h
            if func is None:
                raise Unsupported('method ' + str(name))
            self.called.add(func.name)
            ct = self.contracts.get(func.mangled)
            if ct is not None and func.mangled not in self.noinline:
                return ct.apply(self, func, args, env, pc, fr, n)
            return self.inline(func, args, env, pc, fr)
        bs = self.trysort(base)
        if bs is not None and not isinstance(bs, str) and bs[0] == 'Vec':
            return self.vec_method(name, base, bs, args, n, env, pc, fr)
        if bs == 'Bool' and name == 'operator bool':
            return self.ev(base, env, pc, fr)
        if bs == 'Cx':
            if name == 'operator=':
                v = coerce(self.ev(args[0], env, pc, fr), 'Cx')
                self.write(self.lv(base, env, pc, fr), v, env)
                return v
            if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
                b = self.ev(args[0], env, pc, fr)
                p = self.lv(base, env, pc, fr)
                v = coerce(self.arith(name[-2], self.read(p, env), b, n, pc), 'Cx')
                self.write(p, v, env)
                return v
            z = self.ev(base, env, pc, fr)
            if name == 'real' and not args:
                return real_(z)
            if name == 'imag' and not args:
                return imag_(z)
        if bs == 'Real' and name in ('convert_to', 'operator double'):
            return self.ev(base, env, pc, fr)
        if bs is not None and not isinstance(bs, str) and bs[0] == 'St':
            if name == 'operator=':
                v = self.ev(args[0], env, pc, fr)
                self.write(self.lv(base, env, pc, fr), v, env)
                return v
            if name == 'swap':
                return self.swap(self.lv(base, env, pc, fr), self.lv(args[0], env, pc, fr), env)
        if name in ('precision', 'setf', 'flush', 'open', 'close', 'is_open', 'width', 'fill'):
            return Stream()
        raise Unsupported('member call %s on %s' % (name, ctype(base)))

    def is_ami(self, n):
        return clean(n.get('type', {}).get('qualType', '')) in ('AmiBase', 'AmiBase *') and n['kind'] == 'CXXThisExpr'

    def swap(self, p, q, env):
        a, b = self.read(p, env), self.read(q, env)
        self.write(p, b, env)
        self.write(q, a, env)
        return Stream()

    def vec_method(self, name, base, bs, args, n, env, pc, fr):
        es = bs[1]

        def elem(a):
            v = self.ev(a, env, pc, fr)
            return coerce(v, es) if es in NUMERIC or es == 'Bool' else v
        if name in ('size', 'empty'):
            v = self.ev(base, env, pc, fr) if not self.is_lval(base) else self.read(self.lv(base, env, pc, fr), env)
            return len_(v) if name == 'size' else eq(len_(v), num(0))
        if name in ('back', 'front', 'at'):
            return self.read(self.lv(n, env, pc, fr), env)
        if name == 'operator=':
            v = self.ev(args[0], env, pc, fr)
            self.write(self.lv(base, env, pc, fr), v, env)
            return v
        if name in ('begin', 'cbegin'):
            return It(self.lv(base, env, pc, fr), num(0))
        if name in ('end', 'cend'):
            p = self.lv(base, env, pc, fr)
            return It(p, len_(self.read(p, env)))
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.ev(a, env, pc, fr)
            return Stream()
        if name == 'capacity':
            raise Unsupported('capacity')
        vals = None
        if name in ('push_back', 'emplace_back'):
            if name == 'emplace_back' and not (len(args) == 1 and self.trysort(args[0]) == es):
                v = self.construct_val(es, None, args, env, pc, fr)
            else:
                v = elem(args[0])
            p = self.lv(base, env, pc, fr)
            x = self.read(p, env)
            self.write(p, push(x, v), env)
            return Stream()
        p = self.lv(base, env, pc, fr)
        x = self.read(p, env)
        if name == 'clear':
            self.write(p, empty(bs), env)
        elif name == 'pop_back':
            self.oblig('index', le(num(1), len_(x)), pc, n)
            self.write(p, slice_(x, num(0), sub(len_(x), num(1))), env)
        elif name == 'resize':
            m = self.evi(args[0], env, pc, fr)
            d = elem(args[1]) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else self.default_val(es, True)
            L = len_(x)
            grown = cat(bs, [x, flat_f(sub(m, L), lambda i: unit(d))])
            self.write(p, ite(le(L, m), grown, slice_(x, num(0), m)), env)
        elif name == 'assign':
            a0 = self.ev(args[0], env, pc, fr)
            if isinstance(a0, It):
                self.write(p, self.range_vec(a0, self.ev(args[1], env, pc, fr), env, pc, n), env)
            elif a0.sort == bs:
                self.write(p, a0, env)
            else:
                d = elem(args[1])
                self.write(p, flat_f(coerce(a0, 'Int'), lambda i: unit(d)), env)
        elif name == 'insert':
            it = self.ev(args[0], env, pc, fr)
            if not isinstance(it, It) or not it.path.same(p):
                raise Unsupported('insert position')
            if len(args) >= 3:
                a1 = self.ev(args[1], env, pc, fr)
                if isinstance(a1, It):
                    ins = self.range_vec(a1, self.ev(args[2], env, pc, fr), env, pc, n)
                else:
                    d = elem(args[2])
                    ins = flat_f(coerce(a1, 'Int'), lambda i: unit(d))
            else:
                v = self.ev(args[1], env, pc, fr)
                if v.sort == bs:
                    ins = v
                else:
                    ins = unit(coerce(v, es) if es in NUMERIC else v)
            x = self.read(p, env)
            L = len_(x)
            self.range_obl(x, num(0), it.idx, pc, n)
            self.write(p, cat(bs, [slice_(x, num(0), it.idx), ins, slice_(x, it.idx, L)]), env)
        elif name == 'erase':
            it = self.ev(args[0], env, pc, fr)
            hi = self.ev(args[1], env, pc, fr).idx if len(args) > 1 else add(it.idx, num(1))
            self.range_obl(x, it.idx, hi, pc, n)
            self.write(p, cat(bs, [slice_(x, num(0), it.idx), slice_(x, hi, len_(x))]), env)
        elif name == 'swap':
            return self.swap(p, self.lv(args[0], env, pc, fr), env)
        else:
            raise Unsupported('vector method ' + str(name))
        return Stream()

    def pred(self, f, env, pc, fr):
        def g(*xs):
            if isinstance(f, Closure) or isinstance(f, tuple):
                e2 = dict(env)
                r = self.call_callable(f, None, e2, pc, fr, list(xs))
                for k, v in env.items():
                    if isinstance(v, T) and e2.get(k) is not v:
                        raise Unsupported('predicate with side effects')
                return r
            raise Unsupported('predicate')
        return g

    def ev_CallExpr(self, n, env, pc, fr):
        name = self.callee_name(n)
        args = kids(n)[1:]
        c = strip(kids(n)[0])
        if name is None:
            f = self.ev(kids(n)[0], env, pc, fr)
            return self.call_callable(f, args, env, pc, fr)
        rd = c.get('referencedDecl', {})
        if rd.get('kind') == 'CXXMethodDecl' or rd.get('id') in fr.tu.ids:
            func, node = self.prog.resolve(rd, fr.tu)
            if func is not None:
                ct = self.contracts.get(func.mangled)
                if ct is not None:
                    return ct.apply(self, func, args, env, pc, fr, n)
                return self.inline(func, args, env, pc, fr)
        h = getattr(self, 'std_' + name, None)
        user = None
        if h is None:
            user = self.prog.helper(name, rd.get('type', {}).get('qualType', ''), fr.tu)
            if user is not None:
                return self.inline(user, args, env, pc, fr)
            raise Unsupported('call of ' + name)
        return h(args, n, env, pc, fr)

    # ---- std functions
    def evs(self, args, env, pc, fr):
        return [self.ev(a, env, pc, fr) for a in args]

    def rng(self, a, b):
        if not (isinstance(a, It) and isinstance(b, It) and a.path.same(b.path)):
            raise Unsupported('iterator range')
        return a.path, a.idx, sub(b.idx, a.idx)

    def std_begin(self, args, n, env, pc, fr):
        return It(self.lv(args[0], env, pc, fr), num(0))
    std_cbegin = std_begin

    def std_end(self, args, n, env, pc, fr):
        p = self.lv(args[0], env, pc, fr)
        return It(p, len_(self.read(p, env)))
    std_cend = std_end

    def std_forward(self, args, n, env, pc, fr):
        if len(args) != 1:
            raise Unsupported('call with %d arguments' % len(args))
        return self.ev(args[0], env, pc, fr)
    std_ref = std_cref = std_as_const = std_forward

    def std_move(self, args, n, env, pc, fr):
        v = self.std_forward(args, n, env, pc, fr)
        if isinstance(v, T) and not isinstance(v.sort, str) and v.sort[0] == 'Vec' and self.is_lval(args[0]):
            # what is left behind is unspecified
            p = self.lv(args[0], env, pc, fr)
            self.write(p, self.undef(v.sort, 'moved'), env)
        return v

    def std_setprecision(self, args, n, env, pc, fr):
        return Stream()
    std_setw = std_endl = std_setprecision

    def std_swap(self, args, n, env, pc, fr):
        return self.swap(self.lv(args[0], env, pc, fr), self.lv(args[1], env, pc, fr), env)

    def std_make_pair(self, args, n, env, pc, fr):
        a, b = self.evs(args, env, pc, fr)
        return pair(a, b)

    def std_abs(self, args, n, env, pc, fr):
        v = self.ev(args[0], env, pc, fr)
        if v.sort == 'Cx':
            return fn('cabs', [v], 'Real')
        return iabs(v)
    std_fabs = std_labs = std_abs

    def std_norm(self, args, n, env, pc, fr):
        v = self.ev(args[0], env, pc, fr)
        return add(powc(real_(v), 2), powc(imag_(v), 2))

    def std_conj(self, args, n, env, pc, fr):
        v = self.ev(args[0], env, pc, fr)
        return fn('conj', [coerce(v, 'Cx')], 'Cx')

    def std_real(self, args, n, env, pc, fr):
        return real_(coerce(self.ev(args[0], env, pc, fr), 'Cx'))

    def std_imag(self, args, n, env, pc, fr):
        return imag_(coerce(self.ev(args[0], env, pc, fr), 'Cx'))

    def _fn1(name):
        def f(self, args, n, env, pc, fr):
            v = self.ev(args[0], env, pc, fr)
            if v.sort == 'Int':
                v = toR(v)
            return fn(name, [v], v.sort)
        return f
    std_exp = _fn1('exp')
    std_log = _fn1('log')
    std_sqrt = _fn1('sqrt')
    std_sin = _fn1('sin')
    std_cos = _fn1('cos')
    std_tanh = _fn1('tanh')
    std_cosh = _fn1('cosh')
    std_sinh = _fn1('sinh')
    std_expm1 = _fn1('expm1')

    def std_floor(self, args, n, env, pc, fr):
        v = self.ev(args[0], env, pc, fr)
        if v.sort == 'Int':
            return toR(v)
        return fn('floor', [v], 'Real')

    def std_ceil(self, args, n, env, pc, fr):
        v = self.ev(args[0], env, pc, fr)
        return fn('ceil', [v], 'Real')

    def std_round(self, args, n, env, pc, fr):
        return fn('round', [self.ev(args[0], env, pc, fr)], 'Real')

    def std_trunc(self, args, n, env, pc, fr):
        return fn('trunc', [self.ev(args[0], env, pc, fr)], 'Real')

    def std_isnan(self, args, n, env, pc, fr):
        return fn('isnan', [self.ev(args[0], env, pc, fr)], 'Bool')

    def std_isinf(self, args, n, env, pc, fr):
        return fn('isinf', [self.ev(args[0], env, pc, fr)], 'Bool')

    def std_isfinite(self, args, n, env, pc, fr):
        return fn('isfinite', [self.ev(args[0], env, pc, fr)], 'Bool')

    def std_pow(self, args, n, env, pc, fr):
        a, b = self.evs(args, env, pc, fr)
        if a.sort == 'Int':
            a = toR(a)
        if b.sort == 'Int':
            return powi(a, b)
        if b.sort == 'Real':
            q = unreal(b)
            if q is not None:
                return powi(a, q)
            return fn('rpow', [coerce(a, 'Cx'), cx(b)], 'Cx') if a.sort == 'Cx' else fn('rpow', [a, b], 'Real')
        return fn('rpow', [coerce(a, 'Cx'), b], 'Cx')

    def _mm(self, args, n, env, pc, fr, pick):
        a = self.ev(args[0], env, pc, fr)
        if len(args) == 1 and not isinstance(a, str) and a.sort[0] == 'Vec':
            raise Unsupported('min/max of list')
        b = self.ev(args[1], env, pc, fr)
        return ite(pick(a, b), a, b)

    def std_min(self, args, n, env, pc, fr):
        return self._mm(args, n, env, pc, fr, le)

    def std_max(self, args, n, env, pc, fr):
        return self._mm(args, n, env, pc, fr, ge)

    def std_find(self, args, n, env, pc, fr):
        a, b, v = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        v = coerce(v, x.sort[1]) if x.sort[1] in NUMERIC else v
        return It(p, add(lo, ff_f(cnt, lambda i: eq(at(x, add(lo, i)), v))))

    def std_find_if(self, args, n, env, pc, fr, negate=False):
        a, b, f = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        g = self.pred(f, env, pc, fr)
        return It(p, add(lo, ff_f(cnt, lambda i: not_(g(at(x, add(lo, i)))) if negate else g(at(x, add(lo, i))))))

    def std_find_if_not(self, args, n, env, pc, fr):
        return self.std_find_if(args, n, env, pc, fr, True)

    def std_count(self, args, n, env, pc, fr):
        a, b, v = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        v = coerce(v, x.sort[1]) if x.sort[1] in NUMERIC else v
        return sum_f(cnt, lambda i: ite(eq(at(x, add(lo, i)), v), num(1), num(0)))

    def std_count_if(self, args, n, env, pc, fr):
        a, b, f = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        g = self.pred(f, env, pc, fr)
        return sum_f(cnt, lambda i: ite(g(at(x, add(lo, i))), num(1), num(0)))

    def std_any_of(self, args, n, env, pc, fr):
        a, b, f = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        g = self.pred(f, env, pc, fr)
        return ex_f(cnt, lambda i: g(at(x, add(lo, i))))

    def std_none_of(self, args, n, env, pc, fr):
        return not_(self.std_any_of(args, n, env, pc, fr))

    def std_all_of(self, args, n, env, pc, fr):
        a, b, f = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        g = self.pred(f, env, pc, fr)
        return not_(ex_f(cnt, lambda i: not_(g(at(x, add(lo, i))))))

    def std_equal(self, args, n, env, pc, fr):
        vs = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(vs[0], vs[1])
        q, qlo = vs[2].path, vs[2].idx
        x, y = self.read(p, env), self.read(q, env)
        g = eq
        extra = TRUE
        rest = vs[3:]
        if rest and isinstance(rest[0], It):
            extra = eq(cnt, sub(rest[0].idx, qlo))
            rest = rest[1:]
        else:
            self.oblig('range', le(add(qlo, cnt), len_(y)), pc, n)
        if rest:
            g = self.pred(rest[0], env, pc, fr)
        return and_(extra, not_(ex_f(cnt, lambda i: not_(g(at(x, add(lo, i)), at(y, add(qlo, i)))))))

    def std_adjacent_find(self, args, n, env, pc, fr):
        vs = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(vs[0], vs[1])
        x = self.read(p, env)
        if len(vs) > 2:
            f = vs[2]
            if isinstance(f, Closure):
                g = self.pred(f, env, pc, fr)
            elif 'not_equal_to' in ctype(args[2]):
                g = lambda a, b: not_(eq(a, b))
            else:
                raise Unsupported('adjacent_find predicate')
        else:
            g = eq
        m = sub(cnt, num(1))
        k = ff_f(m, lambda i: g(at(x, add(lo, i)), at(x, add(lo, add(i, num(1))))))
        h = ex_f(m, lambda i: g(at(x, add(lo, i)), at(x, add(lo, add(i, num(1))))))
        return It(p, ite(h, add(lo, k), add(lo, cnt)))

    def std_fill(self, args, n, env, pc, fr):
        a, b, v = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        v = coerce(v, x.sort[1]) if x.sort[1] in NUMERIC else v
        L = len_(x)
        self.write(p, cat(x.sort, [slice_(x, num(0), lo), flat_f(cnt, lambda i: unit(v)), slice_(x, add(lo, cnt), L)]), env)
        return Stream()

    def std_iota(self, args, n, env, pc, fr):
        a, b, v = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        self.write(p, cat(x.sort, [slice_(x, num(0), lo), flat_f(cnt, lambda i: unit(coerce(add(v, i), x.sort[1]))), slice_(x, add(lo, cnt), len_(x))]), env)
        return Stream()

    def out_range(self, dst, newelems, cnt, env):
        """write a vector of cnt elements to an output iterator"""
        if isinstance(dst, BackIns):
            x = self.read(dst.path, env)
            self.write(dst.path, cat(x.sort, [x, newelems]), env)
            return dst
        p = dst.path
        x = self.read(p, env)
        self.range_obl(x, dst.idx, add(dst.idx, cnt), TRUE, None)
        self.write(p, cat(x.sort, [slice_(x, num(0), dst.idx), newelems, slice_(x, add(dst.idx, cnt), len_(x))]), env)
        return It(p, add(dst.idx, cnt))

    def std_back_inserter(self, args, n, env, pc, fr):
        return BackIns(self.lv(args[0], env, pc, fr))

    def std_copy(self, args, n, env, pc, fr):
        a, b, d = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        return self.out_range(d, slice_(x, lo, add(lo, cnt)), cnt, env)

    def std_copy_if(self, args, n, env, pc, fr):
        a, b, d, f = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        x = self.read(p, env)
        g = self.pred(f, env, pc, fr)
        v = flat_f(cnt, lambda i: ite(g(at(x, add(lo, i))), unit(at(x, add(lo, i))), empty(x.sort)))
        if not isinstance(d, BackIns):
            raise Unsupported('copy_if target')
        return self.out_range(d, v, len_(v), env)

    def std_transform(self, args, n, env, pc, fr):
        vs = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(vs[0], vs[1])
        x = self.read(p, env)
        if len(vs) == 4:
            d = vs[2]
            if isinstance(vs[3], Closure):
                return self.transform_loop(p, lo, cnt, d, vs[3], env, pc, fr, n)
            g = self.pred(vs[3], env, pc, fr)
            f = lambda i: g(at(x, add(lo, i)))
        else:
            y = self.read(vs[2].path, env)
            ylo = vs[2].idx
            g = self.pred(vs[4], env, pc, fr)
            f = lambda i: g(at(x, add(lo, i)), at(y, add(ylo, i)))
            d = vs[3]
        es = self.read(d.path, env).sort[1]
        h = lambda i: unit(coerce(f(i), es) if es in NUMERIC else f(i))
        return self.out_range(d, flat_f(cnt, h), cnt, env)

    def transform_loop(self, p, lo, cnt, d, f, env, pc, fr, n):
        """the calls are made in order, each on the state the previous one left (the lambda may have effects)"""
        vs = self.read(d.path, env).sort
        es = vs[1]
        Frame.n += 1
        key = ('idx', Frame.n)
        env[key] = num(0)
        acc = self.temp(flat_f(num(0), lambda i: unit(self.undef(es, 'none'))), env)

        def body(e, pc2):
            r = self.call_callable(f, None, e, pc2, fr, [p.i(add(lo, e[key]))])
            if isinstance(r, Path):
                r = self.read(r, e)
            self.write(acc, cat(vs, [self.read(acc, e), unit(coerce(r, es) if es in NUMERIC else r)]), e)
            return e, []

        def inc(e, pc2):
            e[key] = add(e[key], num(1))
        before = self.read(d.path, env)
        e2, exits = self.loop(env, pc, lambda e, pc2: lt(e[key], cnt), body, inc, n)
        if e2 is not env:
            env.clear()
            env.update(e2)
        if self.read(d.path, env) is not before:
            raise Unsupported('transform: the function changes the destination')
        return self.out_range(d, self.read(acc, env), cnt, env)

    def std_accumulate(self, args, n, env, pc, fr):
        vs = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(vs[0], vs[1])
        x = self.read(p, env)
        init = vs[2]
        if len(vs) == 3:
            return add(init, sum_f(cnt, lambda i: coerce(at(x, add(lo, i)), init.sort)))
        if isinstance(vs[3], Closure):
            g = self.pred(vs[3], env, pc, fr)
        elif 'multiplies' in ctype(args[3]):
            g = lambda s, e: mul2(s, coerce(e, s.sort))
        elif 'plus' in ctype(args[3]):
            g = lambda s, e: add(s, coerce(e, s.sort))
        else:
            raise Unsupported('accumulate op')
        st = fresh('acc', init.sort)
        k = fresh('nat:k', 'Int')
        nxt = coerce(g(st, at(x, add(lo, k))), init.sort)
        cl = loops.classify([(st, init, nxt)], k)
        return cl[st.id](cnt)

    def std_inner_product(self, args, n, env, pc, fr):
        vs = self.evs(args, env, pc, fr)
        if len(vs) != 4:
            raise Unsupported('inner_product')
        p, lo, cnt = self.rng(vs[0], vs[1])
        x, y = self.read(p, env), self.read(vs[2].path, env)
        ylo, init = vs[2].idx, vs[3]
        return add(init, sum_f(cnt, lambda i: coerce(self.arith('*', at(x, add(lo, i)), at(y, add(ylo, i)), None, pc), init.sort)))

    def std_distance(self, args, n, env, pc, fr):
        a, b = self.evs(args, env, pc, fr)
        return self.rng(a, b)[2]

    def std_next(self, args, n, env, pc, fr):
        a = self.ev(args[0], env, pc, fr)
        d = self.evi(args[1], env, pc, fr) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else num(1)
        return It(a.path, add(a.idx, d))

    def std_prev(self, args, n, env, pc, fr):
        a = self.ev(args[0], env, pc, fr)
        d = self.evi(args[1], env, pc, fr) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else num(1)
        return It(a.path, sub(a.idx, d))

    def std_for_each(self, args, n, env, pc, fr):
        a, b, f = self.evs(args, env, pc, fr)
        p, lo, cnt = self.rng(a, b)
        Frame.n += 1
        key = ('idx', Frame.n)
        env[key] = lo
        hi = b.idx

        def body(e, pc2):
            self.call_callable(f, None, e, pc2, fr, [p.i(e[key])])
            return e, []

        def inc(e, pc2):
            e[key] = add(e[key], num(1))
        e2, exits = self.loop(env, pc, lambda e, pc2: lt(e[key], hi), body, inc, n)
        if e2 is not env:
            env.clear()
            env.update(e2)
        return Stream()

    # -------------------------------------------------------------- statements
    def stmt(self, n, env, pc, fr):
        """-> (env or None, exits[(cond, kind, env, value)])   cond is relative to the start of the enclosing region"""
        return self.st(n, env, pc, TRUE, fr)

    def st(self, n, env, pc, rel, fr):
        k = n.get('kind')
        if k == 'CompoundStmt':
            exits = []
            for c in kids(n):
                if env is None:
                    break
                env, ex_ = self.st(c, env, pc, rel, fr)
                exits += ex_
                for x in ex_:
                    pc = and_(pc, not_(x[0]))
            return env, exits
        if k == 'NullStmt' or k is None:
            return env, []
        if k == 'DeclStmt':
            for d in kids(n):
                if d['kind'] == 'VarDecl':
                    self.decl(d, env, pc, fr)
                elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl'):
                    self.prog.typedefs.setdefault(d['name'], d['type'].get('desugaredQualType') or d['type']['qualType'])
                elif d['kind'] in ('StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
                    pass
                elif d['kind'] == 'DecompositionDecl':
                    raise Unsupported('structured binding')
                else:
                    raise Unsupported('declaration ' + d['kind'])
            return env, []
        if k == 'ReturnStmt':
            ks = kids(n)
            v = None
            if ks:
                v = self.ev(ks[0], env, pc, fr)
            return None, [(rel, 'return', env, v)]
        if k == 'BreakStmt':
            return None, [(rel, 'break', env, None)]
        if k == 'ContinueStmt':
            return None, [(rel, 'continue', env, None)]
        if k == 'IfStmt':
            inner = [c for c in n.get('inner', []) if c.get('kind')]
            if n.get('hasInit'):
                env, _ = self.st(inner[0], env, pc, rel, fr)
                inner = inner[1:]
            if n.get('hasVar'):
                env, _ = self.st(inner[0], env, pc, rel, fr)
                inner = inner[1:]
            c = self.cond(inner[0], env, pc, fr)
            then = inner[1]
            els = inner[2] if n.get('hasElse') and len(inner) > 2 else None
            if c is TRUE:
                return self.st(then, env, pc, rel, fr)
            if c is FALSE:
                return self.st(els, env, pc, rel, fr) if els else (env, [])
            e1, x1 = self.st(then, dict(env), and_(pc, c), and_(rel, c), fr)
            if els:
                e2, x2 = self.st(els, dict(env), and_(pc, not_(c)), and_(rel, not_(c)), fr)
            else:
                e2, x2 = env, []
            if e1 is None and e2 is None:
                return None, x1 + x2
            if e1 is None:
                return e2, x1 + x2
            if e2 is None:
                return e1, x1 + x2
            return self.merge(c, e1, e2), x1 + x2
        if k == 'ForStmt':
            inner = n.get('inner', [])
            init, cv, cond, inc, body = (inner + [{}] * 5)[:5]
            if init.get('kind'):
                if init['kind'] == 'DeclStmt':
                    env, _ = self.st(init, env, pc, rel, fr)
                else:
                    self.ev(init, env, pc, fr)

            def fcond(e, pc2):
                return self.cond(cond, e, pc2, fr) if cond.get('kind') else TRUE

            def fbody(e, pc2):
                return self.st(body, e, pc2, TRUE, fr) if body.get('kind') else (e, [])

            def finc(e, pc2):
                if inc.get('kind'):
                    self.ev(inc, e, pc2, fr)
            e, ex_ = self.loop(env, pc, fcond, fbody, finc, n)
            return e, [(and_(rel, c), kd, ee, v) for c, kd, ee, v in ex_]
        if k == 'WhileStmt':
            inner = [c for c in n.get('inner', []) if c.get('kind')]
            cond, body = inner[-2], inner[-1]
            e, ex_ = self.loop(env, pc, lambda e, pc2: self.cond(cond, e, pc2, fr), lambda e, pc2: self.st(body, e, pc2, TRUE, fr), lambda e, pc2: None, n)
            return e, [(and_(rel, c), kd, ee, v) for c, kd, ee, v in ex_]
        if k == 'DoStmt':
            inner = [c for c in n.get('inner', []) if c.get('kind')]
            body, cond = inner[0], inner[1]
            cnode = strip(cond)
            # do{...}while(0)
            e, exits = self.st(body, env, pc, TRUE, fr)
            probe = dict(e) if e is not None else None
            if probe is not None:
                c = self.cond(cond, probe, pc, fr)
                if c is FALSE and not exits:
                    return probe, []
                if not exits:
                    e2, ex_ = self.loop(e, pc, lambda e, pc2: self.cond(cond, e, pc2, fr), lambda e, pc2: self.st(body, e, pc2, TRUE, fr), lambda e, pc2: None, n)
                    return e2, [(and_(rel, c), kd, ee, v) for c, kd, ee, v in ex_]
            raise Unsupported('do loop')
        if k == 'CXXForRangeStmt':
            return self.range_for(n, env, pc, rel, fr)
        if k == 'SwitchStmt':
            return self.switch(n, env, pc, rel, fr)
        if k == 'AttributedStmt':
            return self.st(kids(n)[-1], env, pc, rel, fr)
        if k in ('CXXTryStmt', 'GotoStmt', 'LabelStmt', 'GCCAsmStmt'):
            raise Unsupported(k)
        # expression statement
        self.ev(n, env, pc, fr)
        return env, []

    def constant_local(self, d, fr):
        """a static constant whose initialiser depends on nothing: the same as an ordinary local"""
        q = d['type']['qualType']
        if not (d.get('constexpr') or re.match(r'const\b|.*\bconst$', q)) or not kids(d):
            return False
        try:
            v = self.ev(kids(d)[-1], {}, TRUE, Frame(None, fr.tu))
        except Unsupported:
            return False
        return isinstance(v, T) and not v.fv

    def decl(self, d, env, pc, fr):
        key = (fr.id, d['id'])
        if d.get('storageClass') == 'static' and self.constant_local(d, fr):
            pass
        elif d.get('storageClass') == 'static':
            key = ('static', d['id'])
            if key not in env:
                env[key] = var('static:%s' % d.get('name'), self.sort(d))
                self.statics[key] = env[key]
                self.log.append('static local %s' % d.get('name'))
            return
        init = [c for c in kids(d)]
        qt = d['type'].get('desugaredQualType') or d['type']['qualType']
        isref = qt.rstrip().endswith('&')
        if isref and init:
            if self.is_lval(init[0]):
                env[key] = self.lv(init[0], env, pc, fr)
                return
            v = self.ev(init[0], env, pc, fr)
            env[key] = v
            return
        s = self.trysort(d)
        if init:
            v = self.ev(init[0], env, pc, fr)
            if isinstance(v, T) and s in ('Int', 'Real', 'Cx', 'Bool'):
                v = coerce(v, s)
            env[key] = v
            return
        if s is None:
            env[key] = Stream()
            return
        env[key] = self.default_val(s)

    def switch(self, n, env, pc, rel, fr):
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        v = self.evi(inner[0], env, pc, fr)
        body = inner[-1]
        groups = []   # (list of values or None for default, stmts)
        cur = None

        def flatten(s):
            nonlocal cur
            k = s['kind']
            if k in ('CaseStmt', 'DefaultStmt'):
                ks = kids(s)
                val = None
                if k == 'CaseStmt':
                    val = self.ev(ks[0], dict(env), pc, fr)
                    sub_ = ks[-1]
                else:
                    sub_ = ks[0]
                if cur is None or cur[1]:
                    cur = ([], [])
                    groups.append(cur)
                cur[0].append(val)
                flatten(sub_)
            else:
                cur[1].append(s)
        for s in kids(body):
            flatten(s)
        allvals = [x for g in groups for x in g[0] if x is not None]
        outs = []
        exits = []
        res = None
        for gi, (vals, stmts) in enumerate(groups):
            c = or_(*[eq(v, coerce(x, 'Int')) for x in vals if x is not None])
            if any(x is None for x in vals):
                c = or_(c, not_(or_(*[eq(v, coerce(x, 'Int')) for x in allvals])))
            # fallthrough: concatenate following groups until break
            seq = list(stmts)
            j = gi + 1
            while not (seq and seq[-1]['kind'] in ('BreakStmt', 'ReturnStmt', 'ContinueStmt')) and j < len(groups):
                seq += groups[j][1]
                j += 1
            e, x = self.st({'kind': 'CompoundStmt', 'inner': seq}, dict(env), and_(pc, c), and_(rel, c), fr)
            brk = [y for y in x if y[1] == 'break']
            oth = [y for y in x if y[1] != 'break']
            if len(brk) > 1 or (brk and brk[0][0] is not and_(rel, c)):
                raise Unsupported('switch with conditional break')
            if brk:
                e = brk[0][2]
            exits += oth
            if e is not None:
                outs.append((c, e))
        res = env
        has_default = any(x is None for g in groups for x in g[0])
        alive = None
        if not has_default:
            alive = env
        for c, e in reversed(outs):
            alive = e if alive is None else self.merge(c, e, alive)
        return alive, exits

    def range_for(self, n, env, pc, rel, fr):
        inner = n['inner']
        stmts = [c for c in inner if c.get('kind')]
        rdecl = None
        lvdecl = None
        for c in stmts:
            if c['kind'] == 'DeclStmt':
                v = kids(c)[0]
                if v.get('name', '').startswith('__range'):
                    rdecl = v
                elif not v.get('name', '').startswith('__'):
                    lvdecl = v
        body = stmts[-1]
        rinit = kids(rdecl)[0]
        if self.is_lval(rinit):
            p = self.lv(rinit, env, pc, fr)
        else:
            p = self.temp(self.ev(rinit, env, pc, fr), env)
        Frame.n += 1
        key = ('idx', Frame.n)
        env[key] = num(0)
        qt = lvdecl['type'].get('desugaredQualType') or lvdecl['type']['qualType']
        isref = qt.rstrip().endswith('&')
        lkey = (fr.id, lvdecl['id'])
        x0 = self.read(p, env)
        N = len_(x0)

        def fbody(e, pc2):
            e[lkey] = p.i(e[key]) if isref else self.read(p.i(e[key]), e)
            return self.st(body, e, pc2, TRUE, fr)

        def finc(e, pc2):
            e[key] = add(e[key], num(1))
        e, ex_ = self.loop(env, pc, lambda e, pc2: lt(e[key], len_(self.read(p, e))), fbody, finc, n)
        return e, [(and_(rel, c), kd, ee, v) for c, kd, ee, v in ex_]

    # -------------------------------------------------------------- loops
    def loop(self, env, pc, fcond, fbody, finc, node):
        return loops.run_loop(self, env, pc, fcond, fbody, finc, node)
