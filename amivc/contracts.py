"""Contracts of the library's functions and their use during symbolic execution.

A contract is functional: it gives every output of a method (result, reference parameters, members) as a term over the
values of the parameters and members on entry.  Outputs that are not listed are unchanged (frame condition).  Some flag
outputs are only bounded from below (`least`): the code's flag must be old-or-f(inputs) with f implied by the bound.
At a call the contract is used instead of the callee's body; spec functions in it stay opaque until the prover needs them.
"""
from . import terms as tm
from .terms import *
from . import specs as S
from .specs import GP, PA, RI, PI, SI, RR, PP_, SS, SF, TERMS, TERM, PARMS, EXT, REFV, RREF, VI, VC, VR, G, P
from .frontend import Unsupported
from .symex import Exec, Frame, Path

TABLE = {}      # (name, sorts) -> Contract


class C:
    """inputs and outputs of one contract instance"""

    def __init__(self, args, this):
        self.a = args
        self._t = this
        self.ret = None
        self.out = {}
        self.set = {}
        self.pre = []
        self.least = {}       # member -> (lower bound, opaque function application, reads_old)
        self.lemmas = []      # (name, application of a definition, what every entry of it satisfies)
        self.cases = []       # hints: an exhaustive list of cases
        self.known = []       # instances of the lemmas

    def __getitem__(self, i):
        return self.a[i]

    def this(self, n):
        return self._t[n]

    @property
    def drop(self):
        return self._t['drop_matsubara_poles']

    @property
    def fl(self):
        return self._t['bosonic_external'], self._t['drop_bosonic_diverge'], self._t['drop_der']

    @property
    def cut(self):
        return self._t['precision_cutoff']

    @property
    def ov(self):
        return self._t['overflow_detected']

    def require(self, *conds):
        self.pre += [x for x in conds if x is not TRUE]

    def every(self, app, phi):
        """ghost lemma: every entry of the list satisfies phi (proved from the definition); used for the first entry"""
        self.lemmas.append((app.data, app, phi))
        self.known.append(or_(eq(len_(app), num(0)), phi(at(app, num(0)))))

    def flag(self, cond):
        self.set['overflow_detected'] = or_(self.ov, cond)

    def flag_least(self, bound, opaque, old=True):
        """flag = (old or) opaque, where bound implies opaque"""
        self.least['overflow_detected'] = (bound, opaque, old)
        self.set['overflow_detected'] = or_(self.ov if old else FALSE, bound, opaque)


class Contract:
    def __init__(self, name, sorts, f):
        self.name, self.sorts, self.f = name, tuple(sorts), f
        self.label = name

    def instance(self, args, this):
        c = C(args, this)
        self.f(c)
        return c

    def apply(self, ex, func, args, env, pc, fr, node):
        binds = []
        for j, p in enumerate(func.params):
            qt = p['type'].get('desugaredQualType') or p['type']['qualType']
            isref = qt.rstrip().endswith('&')
            if j < len(args):
                a = args[j]
                v = None
                if isref and ex.is_lval(a):
                    v = ex.lv(a, env, pc, fr)
                if v is None:
                    v = ex.ev(a, env, pc, fr)
            else:
                from .symex import kids
                init = kids(p)
                v = ex.ev(init[0], env, pc, fr)
            binds.append((p, isref, v))
        vals = []
        for p, isref, v in binds:
            t = ex.read(v, env) if isinstance(v, Path) else v
            s = ex.sort(p)
            if isinstance(t, T) and s in ('Int', 'Real', 'Cx', 'Bool'):
                t = coerce(t, s)
            if not isinstance(t, T) or t.sort != s:
                raise Unsupported('argument of ' + self.name)
            vals.append(t)
        this = {n: env[('this', n)] for n, _ in STRUCTS['AmiBase']}
        c = self.instance(vals, this)
        for i in c.out:
            pi = binds[i][2]
            if not isinstance(pi, Path):
                raise Unsupported('output argument of ' + self.name)
            for j, (_, isref, v) in enumerate(binds):
                if j != i and isref and isinstance(v, Path) and overlap(pi, v):
                    return ex.inline(func, [], env, pc, fr, [b[2] for b in binds])
        ex.used.add(self.label)
        if ex.memory:
            ex.oblig('call of ' + self.label, fn('call:' + self.label, vals, 'Bool'), pc, node)
        for x in c.pre:
            ex.oblig('precondition of ' + self.label, x, pc, node)
        for i, t in c.out.items():
            ex.write(binds[i][2], t, env)
        for n, t in c.set.items():
            env[('this', n)] = t
        return c.ret


def overlap(p, q):
    if p.root != q.root:
        return False
    for a, b in zip(p.steps, q.steps):
        if a[0] == 'fld' and b[0] == 'fld' and a[1] != b[1]:
            return False
        if a[0] == 'at' and b[0] == 'at' and is_num(a[1]) and is_num(b[1]) and a[1] is not b[1]:
            return False
    return True


def contract(name, *sorts):
    def deco(f):
        k = Contract(name, sorts, f)
        k.label = f.__name__.lstrip('_')
        TABLE[(name, tuple(sorts))] = k
        return f
    return deco


I, Rl = 'Int', 'Real'


@contract('pole_equiv', P, P)
def pole_equiv(c):
    c.ret = S.pole_equiv(c[0], c[1])


@contract('g_equiv', G, G)
def g_equiv(c):
    c.ret = S.g_equiv(c[0], c[1])


@contract('find_poles', I, GP)
def find_poles(c):
    c.ret = S.find_poles(c[0], c[1], c.drop)


@contract('update_G_pole', G, P)
def update_G_pole(c):
    c.ret = S.update_G_pole(c[0], c[1])


@contract('update_Z_pole', P, P)
def update_Z_pole(c):
    c.ret = S.update_Z_pole(c[0], c[1])


@contract('simple_residue', GP, P)
def simple_residue(c):
    c.ret = S.simple_residue(c[0], c[1])


@contract('get_simple_sign', I, GP, P)
def get_simple_sign(c):
    c.ret = S.get_simple_sign(c[0], c[1], c[2])


@contract('find_signs', I, GP)
def find_signs(c):
    c.ret = S.find_signs(c[0], c[1])


@contract('factorial', I)
def factorial(c):
    c.ret = S.factorial(c[0])


@contract('reduce_gprod', GP, P)
def reduce_gprod(c):
    c.ret = S.reduce_gprod(c[0], c[1])


@contract('get_starting_sign', GP, P)
def get_starting_sign(c):
    c.ret = S.get_starting_sign(c[0], c[1])


@contract('take_derivative_gprod', GP, P, Rl, RI, PA, VR)
def take_derivative_gprod(c):
    c.out[3] = S.derivative_products(c[0], c[1])
    c.out[4] = S.derivative_poles(c[0], c[1])
    c.out[5] = S.derivative_signs(c[0], c[1], c[2])


@contract('evaluate_general_residue', GP, P, RI, PA, VR)
def evaluate_general_residue(c):
    c.out[2] = S.general_residue_products(c[0], c[1])
    c.out[3] = S.general_residue_poles(c[0], c[1])
    c.out[4] = S.general_residue_signs(c[0], c[1])


@contract('take_term_derivative', TERM, P, TERMS)
def take_term_derivative(c):
    c.out[2] = append(c[2], S.term_derivative(c[0], c[1]))


@contract('terms_general_residue', TERM, P, TERMS)
def terms_general_residue(c):
    c.out[2] = S.terms_general_residue(c[0], c[1])


@contract('integrate_step', I, TERMS, TERMS)
def integrate_step(c):
    c.out[2] = S.integrate_step(c[0], c[1], c.drop)


@contract('construct', I, GP, TERMS)
def construct_terms(c):
    c.require(le(num(0), c[0]))
    c.out[2] = S.construct_terms(c[0], c[1], c.drop)


@contract('construct', PARMS, GP, TERMS)
def construct_terms_parms(c):
    c.require(le(num(0), fld(c[0], 'N_INT_')))
    c.out[2] = S.construct_terms(fld(c[0], 'N_INT_'), c[1], c.drop)


@contract('update_gprod_general', I, I, RR, PP_, SS)
def update_gprod_general(c):
    c.out[2] = push(c[2], S.next_products(c[0], at(c[2], c[1]), c.drop))
    c.out[3] = push(c[3], S.level_poles(c[0], at(c[2], c[1]), c.drop))
    c.out[4] = push(c[4], S.level_signs(c[0], at(c[2], c[1]), c.drop))


@contract('construct', PARMS, GP, RR, PP_, SS)
def construct(c):
    c.require(le(num(0), fld(c[0], 'N_INT_')))
    n = fld(c[0], 'N_INT_')
    c.out[2] = S.construct_R(n, c[1], c.drop)
    c.out[3] = S.construct_P(n, c[1], c.drop)
    c.out[4] = S.construct_S(n, c[1], c.drop)


@contract('binomialCoeff', I, I)
def binomialCoeff(c):
    c.require(and_(le(num(0), c[1]), le(c[1], c[0])))
    c.ret = S.choose(c[0], c[1])


@contract('frk', I, I)
def frk(c):
    c.ret = S.frk(c[0], c[1])


@contract('fermi_bose', I, Rl, Rl, 'Cx')
def fermi_bose(c):
    c.ret = S.fermi_bose(c[0], c[1], c[2], c[3])
    c.flag(S.fermi_bose_ovf(c[0], c[1], c[2], c[3], c.cut))


@contract('get_energy_from_pole', P, EXT)
def get_energy_from_pole(c):
    c.ret = S.dot_cx(fld(c[0], 'eps_'), fld(c[1], 'energy_'))


@contract('get_energy_from_g', G, EXT)
def get_energy_from_g(c):
    c.ret = S.dot_cx(fld(c[0], 'eps_'), fld(c[1], 'energy_'))


@contract('fermi_pole', PARMS, P, EXT)
def fermi_pole(c):
    c.ret = S.fermi_pole(c[1], c[0], c[2], *c.fl)
    c.flag(S.fermi_pole_ovf(c[1], c[0], c[2], *c.fl, c.cut))


@contract('eval_gprod', PARMS, GP, EXT)
def eval_gprod(c):
    c.ret = S.eval_gprod(c[1], c[2])


# the extended-precision variants: the same functions, over exact reals
@contract('eval_gprod_mp', PARMS, GP, EXT)
def eval_gprod_mp(c):
    c.ret = S.eval_gprod(c[1], c[2])


@contract('evaluate_term_mp', PARMS, TERM, EXT)
def evaluate_term_mp(c):
    evaluate_term(c)


@contract('fermi', PARMS, PI, EXT)
def fermi(c):
    c.ret = S.fermi(c[1], c[0], c[2], *c.fl)
    c.flag(S.fermi_ovf(c[1], c[0], c[2], *c.fl, c.cut))


@contract('dot', SI, SF)
def dot(c):
    c.ret = S.dot(c[0], c[1])


@contract('cross', SF, SF)
def cross(c):
    c.ret = S.cross(c[0], c[1])


@contract('star', PARMS, SF, RI, EXT)
def star(c):
    c.ret = S.star(c[1], c[2], c[3])
    c.flag_least(S.star_req(c[1], c[2], c[3], c.cut), S.star_warn(c[1], c[2], c[3], c.cut))


@contract('evaluate', PARMS, RR, PP_, SS, EXT)
def evaluate(c):
    c.require(le(num(0), fld(c[0], 'N_INT_')))
    a = (c[0], c[1], c[2], c[3], c[4]) + c.fl
    c.ret = S.evaluate_spr(*a)
    c.flag_least(S.evaluate_spr_req(*a, c.cut), S.evaluate_spr_flag(*a, c.cut), old=False)


@contract('eval_fprod', PARMS, PA, EXT)
def eval_fprod(c):
    c.ret = S.eval_fprod(c[1], c[0], c[2], *c.fl)
    c.flag(S.eval_fprod_ovf(c[1], c[0], c[2], *c.fl, c.cut))


def _term_req(t, parms, ext, b, db, dd, cut):
    return S.eval_fprod_ovf(fld(t, 'p_list'), parms, ext, b, db, dd, cut)


@contract('evaluate_term', PARMS, TERM, EXT)
def evaluate_term(c):
    a = (c[1], c[0], c[2]) + c.fl
    c.ret = S.evaluate_term(*a)
    c.flag_least(_term_req(*a, c.cut), S.term_warn(*a, c.cut))


@contract('evaluate', PARMS, TERMS, EXT)
def evaluate_terms(c):
    ts = c[1]
    a = lambda i: (at(ts, i), c[0], c[2]) + c.fl
    c.ret = S.evaluate_terms(c[1], c[0], c[2], *c.fl)
    req = ex_f(len_(ts), lambda i: _term_req(*a(i), c.cut))
    c.flag_least(req, S.evaluate_terms_flag(c[1], c[0], c[2], *c.fl, c.cut), old=False)


@contract('g_struct_equiv', G, G, I)
def g_struct_equiv(c):
    c.ret = S.g_struct_equiv(c[0], c[1])
    c.out[2] = S.g_struct_equiv_sign(c[0], c[1])


@contract('pair_v_equiv', REFV, REFV, I, I)
def pair_v_equiv(c):
    c.ret = S.pair_v_equiv(c[0], c[1])
    a, b = c[0], c[1]
    c.out[2] = ite(c.ret, S.sign_product(a), S.anyval('pair_v_equiv.r1sign', (a, b), I))
    c.out[3] = ite(c.ret, S.sign_product(b), S.anyval('pair_v_equiv.r2sign', (a, b), I))


@contract('reduce_rref', RREF, RREF)
def reduce_rref(c):
    g = S.groups(c[0])
    c.out[1] = append(c[1], g)
    c.out[0] = S.leader_refs(c[0], append(c[1], g))


@contract('factorize_Rn', RI, GP, RREF, RREF)
def factorize_Rn(c):
    rr = S.all_refs(c[0])
    g = S.groups(rr)
    c.out[1] = S.unique_lines(c[0])
    c.out[3] = g
    c.out[2] = S.leader_refs(rr, g)


def term_products(ts):
    return map_f(len_(ts), lambda i: fld(at(ts, i), 'g_list'))


@contract('convert_terms_to_ri', TERMS, RI)
def convert_terms_to_ri(c):
    c.out[1] = term_products(c[0])


@contract('factorize_terms', TERMS, GP, RREF, RREF)
def factorize_terms(c):
    Ri = term_products(c[0])
    rr = S.all_refs(Ri)
    g = S.groups(rr)
    c.out[1] = S.unique_lines(Ri)
    c.out[3] = g
    c.out[2] = S.leader_refs(rr, g)


@contract('optimized_star', PARMS, SF, GP, RREF, RREF, EXT)
def optimized_star(c):
    c.ret = S.optimized_star(c[1], c[2], c[3], c[4], c[5])
    c.flag(S.optimized_star_req(c[1], c[2], c[3], c[4], c[5], c.cut))


@contract('evaluate', PARMS, RR, PP_, SS, EXT, GP, RREF, RREF)
def evaluate_opt(c):
    c.require(le(num(0), fld(c[0], 'N_INT_')))
    a = tuple(c[i] for i in range(8)) + c.fl
    c.ret = S.evaluate_spr_opt(*a)
    n = fld(c[0], 'N_INT_')
    plain = (c[0], c[1], c[2], c[3], c[4]) + c.fl
    nd = S.no_data(c[5], c[6], c[7])
    K = S.path_coeffs(c[0], c[2], c[3], c[4], *c.fl, n)
    c.set['overflow_detected'] = ite(nd, or_(S.evaluate_spr_req(*plain, c.cut), S.evaluate_spr_flag(*plain, c.cut)),
                                     and_(not_(eq(n, num(0))), or_(S.level_ovf_upto(c[0], c[2], c[4], *c.fl, c.cut, n),
                                                                   S.optimized_star_req(K, c[5], c[6], c[7], c[4], c.cut))))


@contract('evaluate', PARMS, TERMS, EXT, GP, RREF, RREF)
def evaluate_terms_opt(c):
    a = (c[1], c[0], c[2], c[3], c[4], c[5]) + c.fl
    c.ret = S.evaluate_terms_opt(*a)
    nd = S.no_data(c[3], c[4], c[5])
    ts = c[1]
    req = ex_f(len_(ts), lambda i: _term_req(at(ts, i), c[0], c[2], *c.fl, c.cut))
    c.set['overflow_detected'] = ite(nd, or_(req, S.evaluate_terms_flag(c[1], c[0], c[2], *c.fl, c.cut)),
                                     S.evaluate_terms_opt_req(*a, c.cut))


@contract('get_triggers', PARMS, RR, PP_, SS, EXT, vec(VI))
def get_triggers(c):
    c.out[5] = S.triggers(c[1], c[4])


@contract('find_equal_values', PARMS, RR, EXT, vec(VI))
def find_equal_values(c):
    c.out[3] = S.equal_pairs(c[1], c[2])


@contract('detect_otf_trigger', PARMS, RR, PP_, SS, EXT)
def detect_otf_trigger(c):
    c.require(le(num(0), fld(c[0], 'N_INT_')))
    a = (c[0], c[1], c[2], c[3], c[4], c.drop) + c.fl
    c.ret = S.otf_value(*a)
    c.set['overflow_detected'] = S.otf_flag(*a, c.cut)
    t, q = S.triggers(c[1], c[4]), S.equal_pairs(c[1], c[4])
    for x in (t, q):
        c.every(x, lambda e: and_(le(num(0), at(e, num(0))), lt(at(e, num(0)), len_(c[1]))))
    nt, nq = eq(len_(t), num(0)), eq(len_(q), num(0))
    a, b = at(at(t, num(0)), num(0)), at(at(q, num(0)), num(0))
    c.cases = [(nt, nq), (not_(nt), nq), (nt, not_(nq))] + [(not_(nt), not_(nq), x) for x in (lt(a, b), lt(b, a), eq(a, b))]


@contract('evaluate_otf', PARMS, RR, PP_, SS, EXT)
def evaluate_otf(c):
    c.require(le(num(0), fld(c[0], 'N_INT_')))
    a = (c[0], c[1], c[2], c[3], c[4], c.drop) + c.fl
    c.ret = S.otf_value(*a)
    c.set['overflow_detected'] = S.otf_flag(*a, c.cut)


@contract('derivative_opt', GP, RREF, RREF)
def derivative_opt(c):
    c.out[1] = S.derivative_opt_refs(c[0], c[1])
    c.out[2] = S.derivative_opt_groups(c[0], c[1], c[2])


# ------------------------------------------------------------------ attaching contracts to the code

class VC:
    __slots__ = ('fn', 'out', 'code', 'spec', 'kind', 'status', 'why', 'time', 'hyps', 'sort', 'cases')

    def __init__(self, fn, out, code, spec, kind='post'):
        self.fn, self.out, self.code, self.spec, self.kind = fn, out, code, spec, kind
        self.status = None
        self.why = None
        self.time = 0
        self.hyps = ()
        self.cases = ()

    @property
    def name(self):
        return '%s.%s' % (self.fn, self.out)


def attach(prog, disable=()):
    """mangled name -> Contract for the functions present in the code, and label -> Func"""
    ex = Exec(prog, {})
    byfn, bylabel = {}, {}
    for m, f in prog.funcs.items():
        try:
            ss = tuple(ex.sort(q) for q in f.params)
        except Unsupported:
            continue
        k = TABLE.get((f.name, ss))
        if k is None or f.body is None or k.label in disable:
            continue
        byfn[m] = k
        bylabel[k.label] = f
    return byfn, bylabel


def execute(prog, func, contracts, memory=False):
    """symbolic execution of one function from an arbitrary state"""
    ex = Exec(prog, contracts)
    ex.used = set()
    ex.memory = memory
    env = {}
    fr = Frame(func, func.tu)
    this = {}
    for n, s in STRUCTS['AmiBase']:
        this[n] = env[('this', n)] = var('this.' + n, s)
    args = []
    for j, q in enumerate(func.params):
        v = var('%s' % q.get('name', '_%d' % j), ex.sort(q))
        env[(fr.id, q['id'])] = v
        args.append(v)
    ex.curfn = func.name
    e, x = ex.stmt(func.body, env, TRUE, fr)
    e, ret = ex.finish(e, x, None, TRUE)
    rt = func.type.split('(')[0].strip()
    try:
        s = prog.sort(rt)
        if isinstance(ret, T) and s in ('Int', 'Real', 'Cx', 'Bool'):
            ret = coerce(ret, s)
    except Unsupported:
        pass
    outs = {j: e[(fr.id, q['id'])] for j, q in enumerate(func.params)}
    this_out = {n: e[('this', n)] for n in this}
    statics = {k: (v, e.get(k)) for k, v in ex.statics.items()}
    return ex, args, this, ret, outs, this_out, statics


def obligations(prog, func, contract, contracts, memory=False):
    ex, args, this, ret, outs, this_out, statics = execute(prog, func, contracts, memory)
    c = contract.instance(args, this)
    ex.instance = c, args, this, ret, outs, this_out
    vcs = []
    L = contract.label
    H = tuple(c.pre)
    if c.ret is not None:
        vcs.append(VC(L, 'result', ret, c.ret))
    for j, q in enumerate(func.params):
        qt = q['type'].get('desugaredQualType') or q['type']['qualType']
        if not qt.rstrip().endswith('&'):
            continue
        kind = 'post' if j in c.out else 'frame'
        vcs.append(VC(L, q.get('name', str(j)), outs[j], c.out.get(j, args[j]), kind))
    for n, s in STRUCTS['AmiBase']:
        code = this_out[n]
        if n in c.least:
            bound, opq, old = c.least[n]
            o = this[n]
            on, off = subst(code, {o: TRUE}), subst(code, {o: FALSE})
            if old:
                vcs.append(VC(L, n + ' kept when set', on, TRUE, 'flag'))
            else:
                vcs.append(VC(L, n + ' independent of earlier calls', on, off, 'flag'))
            v = VC(L, n + ' raised when required', bound, off, 'implies')
            vcs.append(v)
            allowed = set()
            for a in opq.args:
                allowed |= a.fv
            extra = [tm._vars[i].data for i in off.fv - allowed]
            v = VC(L, n + ' depends on the inputs only', boolc(not extra), TRUE, 'frame')
            v.why = extra
            vcs.append(v)
            continue
        vcs.append(VC(L, n, code, c.set.get(n, this[n]), 'post' if n in c.set else 'frame'))
    for k, (old, new) in statics.items():
        vcs.append(VC(L, 'no hidden state (%s)' % old.data, FALSE, TRUE, 'frame'))
    for o in ex.obls:
        if o.kind.startswith('precondition'):
            v = VC(L, o.kind, o.cond, TRUE, 'pre')
            v.hyps = o.hyps
            vcs.append(v)
    for v in vcs:
        v.hyps = H + tuple(c.known) + tuple(v.hyps)
        if v.kind == 'post' and c.cases:
            v.cases = tuple(c.cases)
        if isinstance(v.spec, T) and v.spec.op == 'ite' and v.spec.args[2].op == 'fn' and v.spec.args[2].data.startswith('any:'):
            # specified only where the condition holds
            v.hyps += (v.spec.args[0],)
            v.spec = v.spec.args[1]
    for n, app, phi in c.lemmas:
        v = VC(L, 'lemma about ' + n, app, phi, 'lemma')
        v.hyps = H
        vcs.append(v)
    if c.cases:
        v = VC(L, 'cases are exhaustive', or_(*(and_(*x) for x in c.cases)), TRUE, 'lemma')
        v.hyps = H
        vcs.append(v)
    return ex, vcs


def dependencies(ex, func, contract):
    """obligations: no output is a function of what a pure output argument held before, of the overflow flag, or of options that
    only control printing (the values of the callees are opaque functions of the arguments their contracts mention)"""
    c, args, this, ret, outs, this_out = ex.instance
    L = contract.label
    specfv = set()
    for t in [c.ret] + list(c.out.values()) + list(c.set.values()):
        if t is not None:
            specfv |= t.fv
    forbidden = [args[j] for j, q in enumerate(func.params) if j in c.out and args[j].id not in specfv]
    forbidden += [this[n] for n in this if n in ('overflow_detected', 'verbose') and this[n].id not in specfv]
    vcs = []

    def add(out, code, flag=False):
        if not isinstance(code, T):
            vcs.append(VC(L, out + ' depends on the inputs only', FALSE, TRUE, 'dep'))
            return
        bad = [v for v in forbidden if v.id in code.fv]
        vcs.append(VC(L, out + ' depends on the inputs only', code, subst(code, {v: fresh('other_' + str(v.data), v.sort) for v in bad}), 'dep'))
    if c.ret is not None:
        add('result', ret)
    for j in c.out:
        add(func.params[j].get('name', str(j)), outs[j])
    if 'overflow_detected' in c.set:
        add('overflow_detected', this_out['overflow_detected'])
    for v in vcs:
        v.hyps = tuple(c.pre)
    return vcs


def discharge(v, prover):
    import time
    from .prover import Timeout
    t0 = time.time()
    try:
        prover.failed = None
        if v.kind == 'implies':
            ok = prover.eq(or_(v.code, v.spec), v.spec, v.hyps) or prover.prove(implies(v.code, v.spec), v.hyps)
        elif not isinstance(v.code, T):
            ok = False
        elif callable(v.spec):
            from . import memory as M
            ok = M.Shapes(v.hyps).each(S.DEFS[v.code.data].fn(*v.code.args), v.spec, v.hyps)
        elif v.cases and v.code is not v.spec:
            ok = all(prover.eq(prover.decide(v.code, v.hyps + x), prover.decide(S.DEFS[v.spec.data].fn(*v.spec.args), v.hyps + x), v.hyps + x)
                     for x in v.cases)
        else:
            ok = prover.eq(v.code, v.spec, v.hyps)
        v.status = 'proved' if ok else 'unproved'
    except Timeout:
        v.status = 'timeout'
    except RecursionError:
        v.status = 'unproved'
    v.time = time.time() - t0
    return v.status == 'proved'
