"""Specifications.

define(name) introduces a specification function (a logical symbol with a defining equation); contract(...) attaches a
functional contract to a method of the library: every output (return value, reference parameters, option/flag members)
is equated with a term over the inputs.  Everything not listed in a contract is required to be unchanged (frame).
The texts follow the property statements in properties.jsonl, not the code.
"""
from . import terms as tm
from .terms import *
from .prover import anyval
from . import loops

G, P, TERM, PARMS, EXT = ('St', 'g_struct'), ('St', 'pole_struct'), ('St', 'term'), ('St', 'ami_parms'), ('St', 'ami_vars')
VI, VC, VR = vec('Int'), vec('Cx'), vec('Real')
GP, PA = vec(G), vec(P)                    # product of lines, list of poles
RI = vec(GP)                               # list of products
PI, SI = vec(PA), vec(VR)
RR, PP_, SS = vec(RI), vec(PI), vec(SI)    # all levels
SF = vec(VC)
TERMS = vec(TERM)
REF = pair_sort('Int', 'Int')
REFV = vec(REF)
RREF = vec(REFV)

DEFS = {}        # name -> (argsorts, ret sort, fn, doc)


class SpecFn:
    def __init__(self, name, args, ret, fn_, doc):
        self.name, self.args, self.ret, self.fn, self.doc = name, args, ret, fn_, doc

    def __call__(self, *a):
        assert len(a) == len(self.args), (self.name, len(a), len(self.args))
        for x, s in zip(a, self.args):
            assert x.sort == s, (self.name, sort_str(x.sort), sort_str(s))
        return app(self.name, a, self.ret)


def define(args, ret, opaque=False):
    def deco(f):
        s = SpecFn(f.__name__, args, ret, f, f.__doc__)
        DEFS[f.__name__] = s
        if not opaque:
            tm.APP[f.__name__] = f
        return s
    return deco


def derive_len(f, args, ret):
    """length of a result that is a map over an argument"""
    if ret[0] != 'Vec' or f.__name__ in ('otf_value',):
        return
    vs = [fresh('a', s) for s in args]
    t = f(*vs)
    if t.op == 'flat' and t.args[1].args[0].op == 'unit' or t.op == 'fold' and tm.keeps_length(t.args[1]):
        n = len_(t)
        tm.LEN[f.__name__] = lambda *xs: (subst(n, dict(zip(vs, xs))) if not any(x.loose for x in xs) else subst_open(n, vs, xs))


def subst_open(t, vs, xs):
    for v in vs:
        t = mklam(v, t)
    for x in reversed(xs):
        t = tm.inst_open(t, x)
    return t


n0, n1 = num(0), num(1)
r0, r1 = num(0, 'Real'), num(1, 'Real')
c0, c1 = num(0, 'Cx'), num(1, 'Cx')


def none_upto(n, f):
    return not_(ex_f(n, f))


def veq(a, b, f=lambda x, y: eq(x, y)):
    """same length and same entries"""
    return and_(eq(len_(a), len_(b)), none_upto(len_(a), lambda i: not_(f(at(a, i), at(b, i)))))


def iterate(n, state, step):
    """simultaneous recursion: state = [(sort-name, init)], step(i, *vars) -> next values; returns values after n steps"""
    vs = [fresh('S', i.sort) for i in state]
    k = fresh('nat:k', 'Int')
    nx = step(k, *vs)
    cl = loops.classify([(v, i, x) for v, i, x in zip(vs, state, nx)], k)
    return [cl[v.id](n) for v in vs]


def concat(n, f):
    return flat_f(n, f)


def when(c, e):
    """[e] if c else []"""
    return ite(c, unit(e), empty(vec(e.sort)))


# ------------------------------------------------------------------ C01 pole search

@define((P, P), 'Bool')
def pole_equiv(p, q):
    """same frequency list and same energy list"""
    return and_(veq(fld(p, 'eps_'), fld(q, 'eps_')), veq(fld(p, 'alpha_'), fld(q, 'alpha_')))


@define((G, G), 'Bool')
def g_equiv(p, q):
    return and_(veq(fld(p, 'eps_'), fld(q, 'eps_')), veq(fld(p, 'alpha_'), fld(q, 'alpha_')))


@define(('Int', 'Int', GP), P)
def pole_of_line(i, idx, R):
    """location at which line i vanishes: -coefficient times the remaining combination"""
    g = at(R, i)
    a = at(fld(g, 'alpha_'), idx)
    al = fld(g, 'alpha_')
    ep = fld(g, 'eps_')
    return mk(P,
              map_f(len_(ep), lambda j: neg(mul(a, at(ep, j)))),
              map_f(len_(al), lambda j: ite(eq(j, idx), n0, neg(mul(a, at(al, j))))),
              idx, n1, n0, unit(i), empty(VI))


@define((P,), 'Bool')
def pole_kept(p):
    """not a Matsubara pole: some energy content, or an even number of frequencies"""
    al, ep = fld(p, 'alpha_'), fld(p, 'eps_')
    nz = sum_f(len_(al), lambda i: ite(eq(at(al, i), n0), n0, n1))
    return or_(ex_f(len_(ep), lambda i: not_(eq(at(ep, i), n0))), eq(imod(nz, num(2)), n0))


@define((PA, 'Int', P, 'Bool'), PA)
def add_pole(s, i, p, drop):
    """record the location p of line i: raise the multiplicity of an equal location or append it"""
    same = lambda j: pole_equiv(at(s, j), p)
    j = ff_f(len_(s), same)
    q = at(s, j)
    q2 = setf(setf(q, 'multiplicity_', add(fld(q, 'multiplicity_'), n1)), 'which_g_', push(fld(q, 'which_g_'), i))
    return ite(ex_f(len_(s), same), upd(s, j, q2), ite(or_(not_(drop), pole_kept(p)), push(s, p), s))


@define(('Int', GP, 'Bool'), PA)
def find_poles(idx, R, drop):
    none = or_(eq(len_(R), n0), le(len_(fld(at(R, n0), 'alpha_')), idx))
    body = fold_f(len_(R), empty(PA), lambda i, s: ite(eq(at(fld(at(R, i), 'alpha_'), idx), n0), s,
                                                      add_pole(s, i, pole_of_line(i, idx, R), drop)))
    return ite(none, empty(PA), body)


# ------------------------------------------------------------------ C02 substitution

@define((G, P), G)
def update_G_pole(g, p):
    a = at(fld(g, 'alpha_'), fld(p, 'index_'))
    al, ep = fld(g, 'alpha_'), fld(g, 'eps_')
    return mk(G,
              map_f(len_(ep), lambda i: add(at(ep, i), mul(a, at(fld(p, 'eps_'), i)))),
              map_f(len_(al), lambda i: ite(eq(i, fld(p, 'index_')), n0, add(at(al, i), mul(a, at(fld(p, 'alpha_'), i))))),
              anyval('update_G_pole.stat', (g, p), 'Int'), fld(g, 'species_'),
              anyval('update_G_pole.eff_stat', (g, p), 'Int'), anyval('update_G_pole.pp', (g, p), 'Int'))


@define((P, P), P)
def update_Z_pole(q, p):
    a = at(fld(q, 'alpha_'), fld(p, 'index_'))
    al, ep = fld(q, 'alpha_'), fld(q, 'eps_')
    A = lambda f, s: anyval('update_Z_pole.' + f, (q, p), s)
    return mk(P,
              map_f(len_(ep), lambda i: add(at(ep, i), mul(a, at(fld(p, 'eps_'), i)))),
              map_f(len_(al), lambda i: ite(eq(i, fld(p, 'index_')), n0, add(at(al, i), mul(a, at(fld(p, 'alpha_'), i))))),
              A('index_', 'Int'), A('multiplicity_', 'Int'), A('der_', 'Int'), A('which_g_', VI), A('x_alpha_', VI))


# ------------------------------------------------------------------ C03 first-order residue

@define((GP, P), GP)
def simple_residue(g, p):
    return concat(len_(g), lambda i: ite(eq(i, at(fld(p, 'which_g_'), n0)), empty(GP), unit(update_G_pole(at(g, i), p))))


@define(('Int', GP, P), 'Real')
def get_simple_sign(idx, R, p):
    return toR(at(fld(at(R, at(fld(p, 'which_g_'), n0)), 'alpha_'), idx))


@define(('Int', GP), VR)
def find_signs(idx, R):
    a = lambda i: at(fld(at(R, i), 'alpha_'), idx)
    return concat(len_(R), lambda i: ite(eq(a(i), n0), empty(VR), unit(toR(a(i)))))


# ------------------------------------------------------------------ C04 higher-order residue

@define(('Int',), 'Int')
def factorial(n):
    return ite(or_(eq(n, n0), eq(n, n1)), n1, mul(n, factorial(sub(n, n1))))


@define((GP, P), GP)
def reduce_gprod(g, p):
    w = fld(p, 'which_g_')
    return concat(len_(g), lambda i: ite(ex_f(len_(w), lambda j: eq(at(w, j), i)), empty(GP), unit(at(g, i))))


@define((GP, P), 'Real')
def get_starting_sign(g, p):
    w = fld(p, 'which_g_')
    pr = prod_f(len_(w), lambda i: toR(at(fld(at(g, at(w, i)), 'alpha_'), fld(p, 'index_'))))
    return div(pr, toR(factorial(sub(fld(p, 'multiplicity_'), n1))))


@define((GP, 'Int'), GP)
def double_line(g, t):
    """g with line t repeated"""
    return concat(len_(g), lambda m: ite(eq(m, t), cat(GP, [unit(at(g, m)), unit(at(g, m))]), unit(at(g, m))))


def deriv_coeff(g, p, t):
    return at(fld(at(g, t), 'alpha_'), fld(p, 'index_'))


def raise_der(p):
    return setf(p, 'der_', add(fld(p, 'der_'), n1))


@define((GP, P), RI)
def derivative_products(g, p):
    return cat(RI, [unit(g), concat(len_(g), lambda t: ite(eq(deriv_coeff(g, p, t), n0), empty(RI), unit(double_line(g, t))))])


@define((GP, P), PA)
def derivative_poles(g, p):
    return cat(PA, [unit(raise_der(p)), concat(len_(g), lambda t: ite(eq(deriv_coeff(g, p, t), n0), empty(PA), unit(p)))])


@define((GP, P, 'Real'), VR)
def derivative_signs(g, p, s):
    return cat(VR, [unit(s), concat(len_(g), lambda t: ite(eq(deriv_coeff(g, p, t), n0), empty(VR),
                                                         unit(neg(mul(toR(deriv_coeff(g, p, t)), s)))))])


def _residue_state(g, p):
    n = sub(fld(p, 'multiplicity_'), n1)

    def step(k, R, Q, S):
        return (concat(len_(R), lambda i: derivative_products(at(R, i), at(Q, i))),
                concat(len_(R), lambda i: derivative_poles(at(R, i), at(Q, i))),
                concat(len_(R), lambda i: derivative_signs(at(R, i), at(Q, i), at(S, i))))
    n = nonneg(n)
    return iterate(n, [unit(reduce_gprod(g, p)), unit(p), unit(get_starting_sign(g, p))], step)


@define((RI, P), RI)
def substitute_all(R, p):
    return map_f(len_(R), lambda i: map_f(len_(at(R, i)), lambda j: update_G_pole(at(at(R, i), j), p)))


@define((GP, P), RI)
def general_residue_products(g, p):
    return substitute_all(_residue_state(g, p)[0], p)


@define((GP, P), PA)
def general_residue_poles(g, p):
    return _residue_state(g, p)[1]


@define((GP, P), VR)
def general_residue_signs(g, p):
    return _residue_state(g, p)[2]


@define((TERM, P), TERMS)
def term_derivative(t, p):
    """product rule on sign * prod f(p_i) * prod G_j"""
    pl, gl, s = fld(t, 'p_list'), fld(t, 'g_list'), fld(t, 'sign')
    return cat(TERMS, [
        map_f(len_(pl), lambda i: mk(TERM, s, upd(pl, i, raise_der(at(pl, i))), gl)),
        concat(len_(gl), lambda i: ite(eq(deriv_coeff(gl, p, i), n0), empty(TERMS),
                                       unit(mk(TERM, neg(mul(toR(deriv_coeff(gl, p, i)), s)), pl, double_line(gl, i)))))])


@define((TERM, P), TERMS)
def terms_general_residue(t, p):
    W = mk(TERM, mul(get_starting_sign(fld(t, 'g_list'), p), fld(t, 'sign')), unit(p), reduce_gprod(fld(t, 'g_list'), p))
    n = nonneg(sub(fld(p, 'multiplicity_'), n1))
    X, = iterate(n, [unit(W)], lambda k, s: (concat(len_(s), lambda i: term_derivative(at(s, i), p)),))
    return map_f(len_(X), lambda i: mk(TERM, fld(at(X, i), 'sign'), cat(PA, [fld(at(X, i), 'p_list'), fld(t, 'p_list')]),
                                       map_f(len_(fld(at(X, i), 'g_list')), lambda j: update_G_pole(at(fld(at(X, i), 'g_list'), j), p))))


# ------------------------------------------------------------------ C05 construction

def simple(p):
    return eq(fld(p, 'multiplicity_'), n1)


@define(('Int', RI, 'Bool'), RI)
def next_products(idx, R, drop):
    def of(j):
        ps = find_poles(idx, at(R, j), drop)
        return concat(len_(ps), lambda i: ite(simple(at(ps, i)), unit(simple_residue(at(R, j), at(ps, i))),
                                              general_residue_products(at(R, j), at(ps, i))))
    return concat(len_(R), of)


@define(('Int', RI, 'Bool'), PI)
def level_poles(idx, R, drop):
    def of(j):
        ps = find_poles(idx, at(R, j), drop)
        return unit(concat(len_(ps), lambda i: ite(simple(at(ps, i)), unit(at(ps, i)), general_residue_poles(at(R, j), at(ps, i)))))
    return concat(len_(R), of)


@define(('Int', RI, 'Bool'), SI)
def level_signs(idx, R, drop):
    def of(j):
        ps = find_poles(idx, at(R, j), drop)
        return unit(concat(len_(ps), lambda i: ite(simple(at(ps, i)), unit(get_simple_sign(idx, at(R, j), at(ps, i))),
                                                   general_residue_signs(at(R, j), at(ps, i)))))
    return concat(len_(R), of)


def _construct(n, R0, drop):
    R, Pa, Sa = iterate(nonneg(n), [unit(unit(R0)), empty(PP_), empty(SS)], lambda k, R, Pa, Sa: (
        push(R, next_products(k, at(R, k), drop)),
        push(Pa, level_poles(k, at(R, k), drop)),
        push(Sa, level_signs(k, at(R, k), drop))))
    return R, Pa, Sa


@define(('Int', GP, 'Bool'), RR)
def construct_R(n, R0, drop):
    return _construct(n, R0, drop)[0]


@define(('Int', GP, 'Bool'), PP_)
def construct_P(n, R0, drop):
    return _construct(n, R0, drop)[1]


@define(('Int', GP, 'Bool'), SS)
def construct_S(n, R0, drop):
    return _construct(n, R0, drop)[2]


@define(('Int', TERMS, 'Bool'), TERMS)
def integrate_step(idx, ts, drop):
    def of(t):
        t = at(ts, t)
        g = fld(t, 'g_list')
        ps = find_poles(idx, g, drop)

        def one(i):
            p = at(ps, i)
            new = mk(TERM, mul(fld(t, 'sign'), get_simple_sign(idx, g, p)), push(fld(t, 'p_list'), p), simple_residue(g, p))
            return ite(simple(p), unit(new), terms_general_residue(t, p))
        return concat(len_(ps), one)
    return concat(len_(ts), of)


@define(('Int', GP, 'Bool'), TERMS)
def construct_terms(n, R0, drop):
    start = mk(TERM, r1, empty(PA), R0)
    return fold_f(nonneg(n), unit(start), lambda k, s: integrate_step(k, s, drop))


# ------------------------------------------------------------------ C12 occupation of a pole, energies

@define((VI, VC), 'Cx')
def dot_cx(c, x):
    """sum of coefficient times value"""
    return sum_f(len_(c), lambda i: mul(cx(at(c, i)), at(x, i)))


def energy_of_pole(p, ext):
    return add(dot_cx(fld(p, 'eps_'), fld(ext, 'energy_')), dot_cx(fld(p, 'x_alpha_'), fld(ext, 'frequency_')))


BOSONIC_TYPES = (1, 2, 7, 8, 9, 12)   # Pi_phuu Pi_phud doubleocc Pi_ppuu Pi_ppud FORCE


def docc_case(p, parms, bext):
    last = sub(len_(fld(p, 'alpha_')), n1)
    return and_(or_(eq(fld(parms, 'TYPE_'), num(7)), bext), eq(fld(p, 'index_'), last))


@define((P, PARMS, 'Bool'), 'Int')
def fermionic_count(p, parms, bext):
    al = fld(p, 'alpha_')
    last = sub(len_(al), n1)
    inner = sum_f(last, lambda i: ite(eq(at(al, i), n0), n0, n1))
    ext_fermi = and_(*[not_(eq(fld(parms, 'TYPE_'), num(t))) for t in BOSONIC_TYPES])
    return add(inner, ite(and_(not_(eq(at(al, last), n0)), ext_fermi), n1, n0), ite(docc_case(p, parms, bext), n1, n0))


@define(('Int', 'Int'), 'Int', opaque=True)
def choose(n, k):
    """binomial coefficient"""


@define(('Int', 'Int'), 'Real')
def frk(r, k):
    """sum over m<=k of (k choose m) m^r (-1)^(k-m)"""
    return sum_f(add(k, n1), lambda m: mul(toR(choose(k, m)), powi(toR(m), r), toR(m1pow(sub(k, m)))))


def expc(z):
    return fn('exp', (z,), 'Cx')


@define(('Int', 'Real', 'Real', 'Cx'), 'Cx')
def fermi_bose(m, s, b, E):
    """m-th derivative of 1/(s exp(bE)+1)"""
    base = inv(add(mul(cx(s), expc(mul(cx(b), E))), c1))
    w = inv(add(cx(s), expc(neg(mul(cx(b), E)))))
    ser = sum_f(add(m, n1), lambda k: mul(cx(frk(m, k)), cx(powi(s, k)), cx(m1pow(add(k, n1))), base, powi(w, k)))
    return ite(eq(m, n0), base, neg(mul(ser, cx(powi(b, m)))))


def too_big(x, cut):
    return lt(cut, iabs(x))


def too_big_c(z, cut):
    return or_(too_big(real_(z), cut), too_big(imag_(z), cut))


@define(('Int', 'Real', 'Real', 'Cx', 'Real'), 'Bool')
def fermi_bose_ovf(m, s, b, E, cut):
    return and_(not_(eq(m, n0)), too_big_c(fermi_bose(m, s, b, E), cut))


def _fp(p, parms, ext, bext):
    E = energy_of_pole(p, ext)
    sig = toR(m1pow(fermionic_count(p, parms, bext)))
    reg = fld(parms, 'E_REG_')
    at_zero_bose = and_(eq(E, c0), eq(sig, num(-1, 'Real')))
    re = real_(E)
    away = ite(lt(r0, re), reg, ite(lt(re, r0), neg(reg), reg))
    Er = add(E, cx(ite(at_zero_bose, reg, away)))
    return E, sig, at_zero_bose, Er


@define((P, PARMS, EXT, 'Bool', 'Bool', 'Bool'), 'Cx')
def fermi_pole(p, parms, ext, bext, dropb, dropd):
    E, sig, zb, Er = _fp(p, parms, ext, bext)
    sg = ite(docc_case(p, parms, bext), num(-1, 'Cx'), c1)
    v = mul(sg, fermi_bose(fld(p, 'der_'), sig, fld(ext, 'BETA_'), Er))
    return ite(and_(zb, dropb), c0, ite(and_(dropd, not_(eq(fld(p, 'der_'), n0))), c0, v))


@define((P, PARMS, EXT, 'Bool', 'Bool', 'Bool', 'Real'), 'Bool')
def fermi_pole_ovf(p, parms, ext, bext, dropb, dropd, cut):
    E, sig, zb, Er = _fp(p, parms, ext, bext)
    dropped = or_(and_(zb, dropb), and_(dropd, not_(eq(fld(p, 'der_'), n0))))
    return and_(not_(dropped), fermi_bose_ovf(fld(p, 'der_'), sig, fld(ext, 'BETA_'), Er, cut))


# ------------------------------------------------------------------ C07 array evaluation

def denominator(g, ext):
    return add(dot_cx(fld(g, 'alpha_'), fld(ext, 'frequency_')), dot_cx(fld(g, 'eps_'), fld(ext, 'energy_')))


@define((GP, EXT), 'Cx')
def eval_gprod(g, ext):
    return mul(cx(fld(ext, 'prefactor')), prod_f(len_(g), lambda i: inv(denominator(at(g, i), ext))))


@define((PI, PARMS, EXT, 'Bool', 'Bool', 'Bool'), SF)
def fermi(Pi, parms, ext, b, db, dd):
    return map_f(len_(Pi), lambda i: map_f(len_(at(Pi, i)), lambda j: fermi_pole(at(at(Pi, i), j), parms, ext, b, db, dd)))


@define((PI, PARMS, EXT, 'Bool', 'Bool', 'Bool', 'Real'), 'Bool')
def fermi_ovf(Pi, parms, ext, b, db, dd, cut):
    return ex_f(len_(Pi), lambda i: ex_f(len_(at(Pi, i)), lambda j: fermi_pole_ovf(at(at(Pi, i), j), parms, ext, b, db, dd, cut)))


@define((SI, SF), SF)
def dot(S, F):
    return map_f(len_(S), lambda i: map_f(len_(at(S, i)), lambda j: mul(cx(at(at(S, i), j)), at(at(F, i), j))))


@define((SF, SF), SF)
def cross(L, R):
    row = at(L, n0)
    return unit(concat(len_(row), lambda i: map_f(len_(at(R, i)), lambda j: mul(at(row, i), at(at(R, i), j)))))


@define((SF, RI, EXT), 'Cx')
def star(K, R, ext):
    row = at(K, n0)
    return sum_f(len_(row), lambda i: mul(at(row, i), eval_gprod(at(R, i), ext)))


def star_req(K, R, ext, cut):
    row = at(K, n0)
    return ex_f(len_(row), lambda i: or_(too_big(real_(at(row, i)), cut), too_big_c(mul(at(row, i), eval_gprod(at(R, i), ext)), cut)))


@define((SF, RI, EXT, 'Real'), 'Bool', opaque=True)
def star_warn(K, R, ext, cut):
    """additional overflow heuristics of star: left open by the specification"""


@define((PARMS, PP_, SS, EXT, 'Bool', 'Bool', 'Bool', 'Int'), SF)
def level_coeffs(parms, Pa, Sa, ext, b, db, dd, i):
    """sign times occupation value at level i"""
    return dot(at(Sa, i), fermi(at(Pa, i), parms, ext, b, db, dd))


@define((PARMS, PP_, SS, EXT, 'Bool', 'Bool', 'Bool', 'Int'), SF)
def path_coeffs(parms, Pa, Sa, ext, b, db, dd, n):
    """coefficients of the products of level n (n>0): product along the path of sign times occupation"""
    return fold_f(sub(n, n1), level_coeffs(parms, Pa, Sa, ext, b, db, dd, n0),
                  lambda i, K: cross(K, level_coeffs(parms, Pa, Sa, ext, b, db, dd, add(i, n1))))


def empty_level(Sa, n):
    return ex_f(sub(n, n1), lambda i: eq(len_(at(Sa, add(i, n1))), n0))


@define((PARMS, RR, PP_, SS, EXT, 'Bool', 'Bool', 'Bool'), 'Cx')
def evaluate_spr(parms, R, Pa, Sa, ext, b, db, dd):
    n = fld(parms, 'N_INT_')
    return ite(eq(n, n0), eval_gprod(at(at(R, n0), n0), ext),
               ite(empty_level(Sa, n), c0, star(path_coeffs(parms, Pa, Sa, ext, b, db, dd, n), at(R, n), ext)))


def level_ovf_upto(parms, Pa, ext, b, db, dd, cut, n):
    return ex_f(n, lambda i: fermi_ovf(at(Pa, i), parms, ext, b, db, dd, cut))


def evaluate_spr_req(parms, R, Pa, Sa, ext, b, db, dd, cut):
    """what must raise the overflow flag"""
    n = fld(parms, 'N_INT_')
    first_empty = ff_f(sub(n, n1), lambda i: eq(len_(at(Sa, add(i, n1))), n0))
    upto = ite(empty_level(Sa, n), add(first_empty, num(2)), n)
    K = path_coeffs(parms, Pa, Sa, ext, b, db, dd, n)
    return and_(not_(eq(n, n0)), or_(level_ovf_upto(parms, Pa, ext, b, db, dd, cut, upto),
                                     and_(not_(empty_level(Sa, n)), star_req(K, at(R, n), ext, cut))))


@define((PARMS, RR, PP_, SS, EXT, 'Bool', 'Bool', 'Bool', 'Real'), 'Bool', opaque=True)
def evaluate_spr_flag(parms, R, Pa, Sa, ext, b, db, dd, cut):
    """overflow flag after a plain array evaluation (at least evaluate_spr_req; heuristics left open)"""


# ------------------------------------------------------------------ C08 term evaluation

@define((PA, PARMS, EXT, 'Bool', 'Bool', 'Bool'), 'Cx')
def eval_fprod(ps, parms, ext, b, db, dd):
    return prod_f(len_(ps), lambda i: fermi_pole(at(ps, i), parms, ext, b, db, dd))


@define((PA, PARMS, EXT, 'Bool', 'Bool', 'Bool', 'Real'), 'Bool')
def eval_fprod_ovf(ps, parms, ext, b, db, dd, cut):
    return ex_f(len_(ps), lambda i: fermi_pole_ovf(at(ps, i), parms, ext, b, db, dd, cut))


@define((TERM, PARMS, EXT, 'Bool', 'Bool', 'Bool'), 'Cx')
def evaluate_term(t, parms, ext, b, db, dd):
    return mul(cx(fld(t, 'sign')), eval_gprod(fld(t, 'g_list'), ext), eval_fprod(fld(t, 'p_list'), parms, ext, b, db, dd))


@define((TERM, PARMS, EXT, 'Bool', 'Bool', 'Bool', 'Real'), 'Bool', opaque=True)
def term_warn(t, parms, ext, b, db, dd, cut):
    """overflow heuristic of evaluate_term: left open by the specification"""


@define((TERMS, PARMS, EXT, 'Bool', 'Bool', 'Bool'), 'Cx')
def evaluate_terms(ts, parms, ext, b, db, dd):
    return sum_f(len_(ts), lambda i: evaluate_term(at(ts, i), parms, ext, b, db, dd))


# ------------------------------------------------------------------ C18 signed equality of lines

@define((G, G), 'Bool')
def g_struct_equiv(g, h):
    same = and_(eq(len_(fld(g, 'eps_')), len_(fld(h, 'eps_'))), eq(len_(fld(g, 'alpha_')), len_(fld(h, 'alpha_'))), eq(fld(g, 'species_'), fld(h, 'species_')))
    return and_(same, or_(coeffs_equal(g, h), coeffs_opposite(g, h)))


@define((G, G), 'Int')
def g_struct_equiv_sign(g, h):
    return ite(g_struct_equiv(g, h), ite(coeffs_equal(g, h), n1, num(-1)), n0)


def _coeffs(g, h, f):
    a, b = fld(g, 'eps_'), fld(h, 'eps_')
    c, d = fld(g, 'alpha_'), fld(h, 'alpha_')
    return and_(none_upto(len_(a), lambda i: not_(f(at(a, i), at(b, i)))), none_upto(len_(c), lambda i: not_(f(at(c, i), at(d, i)))))


def coeffs_equal(g, h):
    return _coeffs(g, h, eq)


def coeffs_opposite(g, h):
    return _coeffs(g, h, lambda x, y: eq(x, neg(y)))


@define((REFV, REFV), 'Bool')
def pair_v_equiv(a, b):
    """every line of a occurs in b and in no earlier place of a; equal lengths"""
    F = lambda v, i: fld(at(v, i), 'first')
    return and_(eq(len_(a), len_(b)), none_upto(len_(a), lambda i: or_(
        none_upto(len_(b), lambda j: eq(F(b, j), F(a, i))),
        ex_f(i, lambda k: eq(F(a, k), F(a, i))))))


def sign_product(a):
    return prod_f(len_(a), lambda i: fld(at(a, i), 'second'))


# ------------------------------------------------------------------ C09 factorisation

@define((GP, G), 'Int')
def first_equiv(u, g):
    """first entry of u equal to g up to a sign (length of u if there is none)"""
    return ff_f(len_(u), lambda m: g_struct_equiv(g, at(u, m)))


@define((GP, G), 'Bool')
def has_equiv(u, g):
    return ex_f(len_(u), lambda m: g_struct_equiv(g, at(u, m)))


@define((GP, GP), GP)
def add_lines(u, g):
    """unique lines after visiting the product g"""
    return fold_f(len_(g), u, lambda j, s: ite(has_equiv(s, at(g, j)), s, push(s, at(g, j))))


@define((GP, GP), REFV)
def product_refs(u, g):
    """references of the lines of g into the growing list of unique lines"""
    def ref(j):
        s = fold_f(j, u, lambda j2, s: ite(has_equiv(s, at(g, j2)), s, push(s, at(g, j2))))
        m = first_equiv(s, at(g, j))
        return ite(has_equiv(s, at(g, j)), pair(m, g_struct_equiv_sign(at(g, j), at(s, m))), pair(len_(s), n1))
    return map_f(len_(g), ref)


@define((RI,), GP)
def unique_lines(Rn):
    return unique_upto(Rn, len_(Rn))


def unique_upto(Rn, n):
    return fold_f(n, empty(GP), lambda i, u: add_lines(u, at(Rn, i)))


@define((RI,), RREF)
def all_refs(Rn):
    return map_f(len_(Rn), lambda i: product_refs(unique_upto(Rn, i), at(Rn, i)))


def mem(v, x):
    return ex_f(len_(v), lambda i: eq(at(v, i), x))


@define((RREF, VI, 'Int'), VI)
def mark_used(rr, used, i):
    """indices used after the group led by product i is formed"""
    cnt = nonneg(sub(sub(len_(rr), i), n1))
    return fold_f(cnt, push(used, i), lambda d, s: ite(and_(not_(mem(s, add(i, d, n1))), pair_v_equiv(at(rr, i), at(rr, add(i, d, n1)))),
                                                      push(s, add(i, d, n1)), s))


def used_upto(rr, n):
    return fold_f(n, empty(VI), lambda i, s: ite(mem(s, i), s, mark_used(rr, s, i)))


@define((RREF, VI, 'Int'), REFV)
def group_of(rr, used, i):
    """leader i with its sign, then every later unused product referring to the same lines with its sign"""
    cnt = nonneg(sub(sub(len_(rr), i), n1))
    before = lambda d: fold_f(d, push(used, i), lambda d2, s: ite(and_(not_(mem(s, add(i, d2, n1))), pair_v_equiv(at(rr, i), at(rr, add(i, d2, n1)))),
                                                                  push(s, add(i, d2, n1)), s))
    follower = lambda d: and_(not_(mem(before(d), add(i, d, n1))), pair_v_equiv(at(rr, i), at(rr, add(i, d, n1))))
    return cat(REFV, [unit(pair(i, sign_product(at(rr, i)))),
                      concat(cnt, lambda d: when(follower(d), pair(add(i, d, n1), sign_product(at(rr, add(i, d, n1))))))])


@define((RREF,), RREF)
def groups(rr):
    return concat(len_(rr), lambda i: ite(mem(used_upto(rr, i), i), empty(RREF), unit(group_of(rr, used_upto(rr, i), i))))


@define((RREF, RREF), RREF)
def leader_refs(rr, ev):
    """reference list of each group's leader, signs moved into the group"""
    lead = lambda i: at(rr, fld(at(at(ev, i), n0), 'first'))
    return map_f(len_(ev), lambda i: map_f(len_(lead(i)), lambda j: pair(fld(at(lead(i), j), 'first'), n1)))


# ------------------------------------------------------------------ C10 optimised evaluation

def unit_ext(ext):
    return setf(ext, 'prefactor', r1)


def line_value(g, ext):
    return eval_gprod(unit(g), unit_ext(ext))


@define((SF, GP, RREF, RREF, EXT), 'Cx')
def optimized_star(K, u, rr, ev, ext):
    row = at(K, n0)
    ksum = lambda i: sum_f(len_(at(ev, i)), lambda j: mul(at(row, fld(at(at(ev, i), j), 'first')), cx(fld(at(at(ev, i), j), 'second'))))
    return sum_f(len_(ev), lambda i: mul(ksum(i), cx(fld(ext, 'prefactor')), group_value(u, at(rr, i), ext)))


@define((GP, REFV, EXT), 'Cx')
def group_value(u, refs, ext):
    return prod_f(len_(refs), lambda j: line_value(at(u, fld(at(refs, j), 'first')), ext))


def optimized_star_req(K, u, rr, ev, ext, cut):
    row = at(K, n0)
    ksum = lambda i: sum_f(len_(at(ev, i)), lambda j: mul(at(row, fld(at(at(ev, i), j), 'first')), cx(fld(at(at(ev, i), j), 'second'))))
    return or_(ex_f(len_(u), lambda i: too_big_c(line_value(at(u, i), ext), cut)),
               ex_f(len_(ev), lambda i: too_big_c(mul(ksum(i), cx(fld(ext, 'prefactor')), group_value(u, at(rr, i), ext)), cut)))


def no_data(u, rr, ev):
    return or_(eq(len_(u), n0), eq(len_(rr), n0), eq(len_(ev), n0))


@define((PARMS, RR, PP_, SS, EXT, GP, RREF, RREF, 'Bool', 'Bool', 'Bool'), 'Cx')
def evaluate_spr_opt(parms, R, Pa, Sa, ext, u, rr, ev, b, db, dd):
    n = fld(parms, 'N_INT_')
    return ite(no_data(u, rr, ev), evaluate_spr(parms, R, Pa, Sa, ext, b, db, dd),
               ite(eq(n, n0), eval_gprod(at(at(R, n0), n0), ext),
                   optimized_star(path_coeffs(parms, Pa, Sa, ext, b, db, dd, n), u, rr, ev, ext)))


def term_coeff(t, parms, ext, b, db, dd):
    return mul(cx(fld(t, 'sign')), eval_fprod(fld(t, 'p_list'), parms, ext, b, db, dd))


@define((TERMS, PARMS, EXT, GP, RREF, RREF, 'Bool', 'Bool', 'Bool'), 'Cx')
def evaluate_terms_opt(ts, parms, ext, u, rr, ev, b, db, dd):
    ksum = lambda i: sum_f(len_(at(ev, i)), lambda j: mul(term_coeff(at(ts, fld(at(at(ev, i), j), 'first')), parms, ext, b, db, dd),
                                                         cx(fld(at(at(ev, i), j), 'second'))))
    return ite(no_data(u, rr, ev), evaluate_terms(ts, parms, ext, b, db, dd),
               sum_f(len_(ev), lambda i: mul(ksum(i), cx(fld(ext, 'prefactor')), group_value(u, at(rr, i), ext))))


def evaluate_terms_opt_req(ts, parms, ext, u, rr, ev, b, db, dd, cut):
    ksum = lambda i: sum_f(len_(at(ev, i)), lambda j: mul(term_coeff(at(ts, fld(at(at(ev, i), j), 'first')), parms, ext, b, db, dd),
                                                         cx(fld(at(at(ev, i), j), 'second'))))
    fov = ex_f(len_(ev), lambda i: ex_f(len_(at(ev, i)), lambda j: eval_fprod_ovf(
        fld(at(ts, fld(at(at(ev, i), j), 'first')), 'p_list'), parms, ext, b, db, dd, cut)))
    return or_(ex_f(len_(u), lambda i: too_big_c(line_value(at(u, i), ext), cut)), fov,
               ex_f(len_(ev), lambda i: too_big_c(mul(ksum(i), cx(fld(ext, 'prefactor')), group_value(u, at(rr, i), ext)), cut)))


# ------------------------------------------------------------------ C13 on-the-fly evaluation

def vanishing(g, ext):
    """nonzero energy combination of value exactly zero"""
    e = fld(g, 'eps_')
    return and_(ex_f(len_(e), lambda a: not_(eq(at(e, a), n0))), eq(dot_cx(e, fld(ext, 'energy_')), c0))


@define((RI, 'Int', EXT), vec(VI))
def level_triggers(Ri, i, ext):
    return concat(len_(Ri), lambda j: concat(len_(at(Ri, j)), lambda m: when(vanishing(at(at(Ri, j), m), ext), vlit('Int', [i, j, m]))))


def coinciding(g, h, ext):
    """different energy combinations of equal value"""
    a, b = fld(g, 'eps_'), fld(h, 'eps_')
    return and_(not_(veq(a, b)), eq(dot_cx(a, fld(ext, 'energy_')), dot_cx(b, fld(ext, 'energy_'))))


@define((RI, 'Int', EXT), vec(VI))
def level_pairs(Ri, i, ext):
    def of(j, m):
        g = at(Ri, j)
        return concat(nonneg(sub(sub(len_(g), m), n1)), lambda d: when(coinciding(at(g, m), at(g, add(m, n1, d)), ext), vlit('Int', [i, j, m, add(m, n1, d)])))
    return concat(len_(Ri), lambda j: concat(len_(at(Ri, j)), lambda m: of(j, m)))


def first_nonempty(R, f):
    """f(i) at the first level where it is not empty"""
    hit = lambda i: not_(eq(len_(f(i)), n0))
    k = ff_f(len_(R), hit)
    return ite(ex_f(len_(R), hit), f(k), empty(vec(VI)))


@define((RR, EXT), vec(VI))
def triggers(R, ext):
    return first_nonempty(R, lambda i: level_triggers(at(R, i), i, ext))


@define((RR, EXT), vec(VI))
def equal_pairs(R, ext):
    return first_nonempty(R, lambda i: level_pairs(at(R, i), i, ext))


@define((G,), G)
def zero_energy(g):
    return setf(g, 'eps_', map_f(len_(fld(g, 'eps_')), lambda i: n0))


def upd2(R, t, f):
    a, b, c = at(t, n0), at(t, n1), at(t, num(2))
    return upd(R, a, upd(at(R, a), b, upd(at(at(R, a), b), c, f(at(at(R, a), b)))))


@define((RR, vec(VI)), RR)
def zero_triggers(R, tr):
    return fold_f(len_(tr), R, lambda i, s: upd2(s, at(tr, i), lambda g: zero_energy(at(g, at(at(tr, i), num(2))))))


@define((RR, vec(VI)), RR)
def merge_pairs(R, pr):
    def step(i, s):
        t = at(pr, i)
        return upd2(s, t, lambda g: setf(at(g, at(t, num(2))), 'eps_', fld(at(g, at(t, num(3))), 'eps_')))
    return fold_f(len_(pr), R, step)


def rebuild_from(n, R, Pa, Sa, drop):
    """append levels by the construction step until n integrations are done"""
    s = sub(len_(R), n1)
    cnt = nonneg(sub(n, s))
    return iterate(cnt, [R, Pa, Sa], lambda k, R, Pa, Sa: (
        push(R, next_products(add(s, k), at(R, add(s, k)), drop)),
        push(Pa, level_poles(add(s, k), at(R, add(s, k)), drop)),
        push(Sa, level_signs(add(s, k), at(R, add(s, k)), drop))))


def otf_start(R, ext):
    t, q = triggers(R, ext), equal_pairs(R, ext)
    nt, nq = eq(len_(t), n0), eq(len_(q), n0)
    lt_, lq = at(at(t, n0), n0), at(at(q, n0), n0)
    L = ite(nq, lt_, ite(nt, lq, ite(lt(lq, lt_), lq, lt_)))
    return t, q, nt, nq, lt_, lq, L


def otf_state(parms, R, Pa, Sa, ext, drop):
    t, q, nt, nq, lt_, lq, L = otf_start(R, ext)
    R1 = slice_(R, n0, add(L, n1))
    R2 = ite(and_(not_(nt), eq(L, lt_)), zero_triggers(R1, t), R1)
    R3 = ite(and_(not_(nq), eq(L, lq)), merge_pairs(R2, q), R2)
    return rebuild_from(fld(parms, 'N_INT_'), R3, slice_(Pa, n0, L), slice_(Sa, n0, L), drop)


def otf_clean(R, ext):
    return and_(eq(len_(triggers(R, ext)), n0), eq(len_(equal_pairs(R, ext)), n0))


@define((PARMS, RR, PP_, SS, EXT, 'Bool', 'Bool', 'Bool', 'Bool'), 'Cx')
def otf_value(parms, R, Pa, Sa, ext, drop, b, db, dd):
    R4, P4, S4 = otf_state(parms, R, Pa, Sa, ext, drop)
    return ite(otf_clean(R, ext), evaluate_spr(parms, R, Pa, Sa, ext, b, db, dd),
               otf_value(parms, R4, P4, S4, ext, drop, b, db, dd))


@define((PARMS, RR, PP_, SS, EXT, 'Bool', 'Bool', 'Bool', 'Bool', 'Real'), 'Bool')
def otf_flag(parms, R, Pa, Sa, ext, drop, b, db, dd, cut):
    R4, P4, S4 = otf_state(parms, R, Pa, Sa, ext, drop)
    a = (parms, R, Pa, Sa, ext, b, db, dd, cut)
    return ite(otf_clean(R, ext), or_(evaluate_spr_req(*a), evaluate_spr_flag(*a)),
               otf_flag(parms, R4, P4, S4, ext, drop, b, db, dd, cut))


# ------------------------------------------------------------------ C17 derivative of a factorised solution

def last_coeff(u, rr, n, t):
    al = fld(at(u, fld(at(at(rr, n), t), 'first')), 'alpha_')
    return at(al, sub(len_(al), n1))


@define((GP, RREF), RREF)
def derivative_opt_refs(u, rr):
    def one(n, t):
        v = at(rr, n)
        e = at(v, t)
        e2 = pair(fld(e, 'first'), neg(mul(fld(e, 'second'), last_coeff(u, rr, n, t))))
        return concat(len_(v), lambda k: ite(eq(k, t), cat(REFV, [unit(e), unit(e2)]), unit(at(v, k))))
    return concat(len_(rr), lambda n: concat(len_(at(rr, n)), lambda t: ite(eq(last_coeff(u, rr, n, t), n0), empty(RREF), unit(one(n, t)))))


@define((GP, RREF, RREF), RREF)
def derivative_opt_groups(u, rr, ev):
    def one(n, t):
        v = at(ev, n)
        return map_f(len_(v), lambda m: pair(fld(at(v, m), 'first'), neg(mul(fld(at(v, m), 'second'), last_coeff(u, rr, n, t)))))
    return concat(len_(rr), lambda n: concat(len_(at(rr, n)), lambda t: ite(eq(last_coeff(u, rr, n, t), n0), empty(RREF), unit(one(n, t)))))


@define((TERMS, PARMS, EXT, 'Bool', 'Bool', 'Bool', 'Real'), 'Bool', opaque=True)
def evaluate_terms_flag(ts, parms, ext, b, db, dd, cut):
    """overflow flag after a plain term evaluation (at least what its contract requires; heuristics left open)"""


for _s in list(DEFS.values()):
    if _s.name in tm.APP:
        derive_len(_s.fn, _s.args, _s.ret)
