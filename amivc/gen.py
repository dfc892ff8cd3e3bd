"""Deterministic generation of well-formed concrete inputs for every function under contract."""
import random
from . import terms as tm
from . import ceval
from .terms import STRUCTS


def rec(name, **kw):
    return tuple(kw[f] if f in kw else default(s) for f, s in STRUCTS[name])


def default(s):
    if s == 'Int':
        return 0
    if s == 'Bool':
        return False
    if s == 'Real':
        return 0.0
    if s == 'Cx':
        return 0j
    if s[0] == 'Vec':
        return ()
    return tuple(default(fs) for f, fs in STRUCTS[s[1]])


def get(name, v, f):
    return v[[n for n, _ in STRUCTS[name]].index(f)]


def put(name, v, f, x):
    i = [n for n, _ in STRUCTS[name]].index(f)
    return v[:i] + (x,) + v[i + 1:]


class Gen:
    def __init__(self, seed, lits=(), big=False):
        self.r = random.Random(seed)
        self.lits = [x for x in lits if isinstance(x, int) and -40 <= x <= 40]
        self.flits = [x for x in lits if isinstance(x, float)]
        self.loose = False          # values of this call are badly conditioned
        self.big = big

    # ---------------------------------------------------------------- scalars
    def chance(self, p):
        return self.r.random() < p

    def coef(self):
        r = self.r.random()
        if r < 0.85:
            return self.r.choice((-1, 0, 1))
        if r < 0.97:
            return self.r.choice((-2, 2, 3, -3))
        return self.r.choice(self.lits or [4])

    def length(self, lo=0, hi=4):
        if self.lits and self.chance(0.03):
            c = [x for x in self.lits if lo <= x <= 12]
            if c:
                return self.r.choice(c)
        return self.r.randint(lo, hi)

    def count(self, hi=30):
        if self.lits and self.chance(0.2):
            c = [x + d for x in self.lits for d in (-1, 0, 1) if 0 <= x + d <= hi]
            if c:
                return self.r.choice(c)
        return self.r.randint(0, min(hi, 9)) if self.chance(0.7) else self.r.randint(0, hi)

    def dyadic(self):
        return self.r.choice((0, 0, 1, -1, 2, 0.5, -0.5, 0.25, -2, 3, 1.5, -0.75, 4.125, 7)) * 1.0

    def energy(self):
        re = self.dyadic()
        im = self.dyadic() if self.chance(0.2) else 0.0
        return complex(re, im)

    def freq(self):
        if self.chance(0.3):
            return complex(self.dyadic(), self.dyadic())
        return complex(0, self.r.choice((0, 1, 3, -1, 2, 5)) * 0.78125)

    def sign(self):
        return self.r.choice((1.0, -1.0, 1.0, -1.0, 0.5, 2.0, -1.5))

    # ---------------------------------------------------------------- structures
    def line(self, ne, na, species=None):
        k = self.r.random()
        if k < 0.35 and ne:
            e = [0] * ne
            e[self.r.randrange(ne)] = self.r.choice((1, 1, -1))
        elif k < 0.42:
            e = [0] * ne
        else:
            e = [self.coef() for _ in range(ne)]
        a = [self.coef() for _ in range(na)] if self.chance(0.93) else [0] * na
        return self.mkline(e, a, species)

    def mkline(self, e, a, species=None):
        if species is None:
            species = self.r.choice((0, 0, 0, 0, 1, 2)) if self.chance(0.4) else 0
        st = self.r.choice((0, 1))
        return rec('g_struct', eps_=tuple(e), alpha_=tuple(a), stat_=st, species_=species, eff_stat_=self.r.choice((0, 1)), pp=self.r.choice((-1, 0, 1)))

    def variant(self, g):
        """a line related to g: equal, opposite, or differing in one place"""
        e, a, sp = list(get('g_struct', g, 'eps_')), list(get('g_struct', g, 'alpha_')), get('g_struct', g, 'species_')
        k = self.r.random()
        if k < 0.35:
            pass
        elif k < 0.55:
            e, a = [-x for x in e], [-x for x in a]
        elif k < 0.65 and e:
            e = [-x for x in e]
        elif k < 0.7 and a:
            a = [-x for x in a]
        elif k < 0.8 and e:
            e[self.r.randrange(len(e))] = self.coef()
        elif k < 0.92 and a:
            a[self.r.randrange(len(a))] = self.coef()
        else:
            sp = self.r.choice((0, 1, 2))
        return self.mkline(e, a, sp)

    def product(self, ne, na, lo=0, hi=4, n=None):
        n = self.length(lo, hi) if n is None else n
        out = []
        for _ in range(n):
            if out and self.chance(0.4):
                out.append(self.variant(self.r.choice(out)))
            else:
                out.append(self.line(ne, na))
        return tuple(out)

    def products(self, ne, na, lo=0, hi=4, plo=0, phi=3):
        n = self.length(lo, hi)
        out = []
        for _ in range(n):
            if out and self.chance(0.45):
                p = [self.variant(g) if self.chance(0.4) else g for g in self.r.choice(out)]
                if self.chance(0.4):
                    self.r.shuffle(p)
                if p and self.chance(0.15):
                    p.append(self.r.choice(p))
                if p and self.chance(0.1):
                    p.pop()
                out.append(tuple(p))
            else:
                out.append(self.product(ne, na, plo, phi))
        return tuple(out)

    def dims(self):
        return self.length(0, 4) if self.chance(0.15) else self.r.randint(1, 4), self.r.randint(1, 4)

    def pole(self, ne, na, idx=None, ng=3):
        idx = self.r.randrange(na) if idx is None else idx
        al = [self.coef() for _ in range(na)]
        if self.chance(0.7):
            al[idx] = 0
        k = self.r.random()
        xa = [0] * na if k < 0.5 else [self.coef() for _ in range(na)] if k < 0.8 else []
        m = self.r.choice((1, 1, 2, 3, 4))
        w = sorted(self.r.sample(range(max(ng, 1)), min(m, max(ng, 1)))) if ng else []
        return rec('pole_struct', eps_=tuple(self.coef() for _ in range(ne)) if self.chance(0.9) else (0,) * ne, alpha_=tuple(al), index_=idx,
                   multiplicity_=m, der_=self.r.choice((0, 0, 0, 1, 1, 2, 3, 4)), which_g_=tuple(w), x_alpha_=tuple(xa))

    def pole_of(self, R, idx, ne, na):
        """a pole of the product if it has one"""
        ps = ceval.run('find_poles', idx, R, self.chance(0.3)) if R else ()
        if ps and self.chance(0.9):
            return self.r.choice(ps)
        return None

    def ext(self, ne, na):
        es = [self.energy() for _ in range(ne)]
        if es and self.chance(0.4):
            es[self.r.randrange(ne)] = self.r.choice(es)
        if es and self.chance(0.2):
            es[self.r.randrange(ne)] = -self.r.choice(es)
        return rec('ami_vars', energy_=tuple(es), frequency_=tuple(self.freq() for _ in range(na)), prefactor=self.r.choice((1.0, 1.0, -1.0, 2.5)),
                   BETA_=self.r.choice((1.0, 2.0, 0.5, 5.0, 10.0, 0.125)), gamma_=self.r.choice((0.0, 0.5)))

    def small_ext(self, ne, na, least):
        """now and then: energies of the size of a small constant of the source (thresholds)"""
        e = self.ext(ne, na)
        fl = [x for x in self.flits if least <= x < 0.01]
        if fl and self.chance(0.12):
            k = self.r.choice(fl) * self.r.choice((0.5, 0.25, 1.0, -0.5))
            self.loose = True
            e = put('ami_vars', e, 'energy_', tuple(complex(x.real * k, 0) for x in get('ami_vars', e, 'energy_')))
        return e

    def generic_ext(self, ne, na):
        """external values without coincidences"""
        es = tuple(complex(self.r.randint(-4000, 4000) / 1024.0, 0) for _ in range(ne))
        fs = tuple(complex(0, self.r.randint(-4000, 4000) / 512.0) for _ in range(na))
        return rec('ami_vars', energy_=es, frequency_=fs, prefactor=self.r.choice((1.0, -1.0, 2.5)), BETA_=self.r.choice((1.0, 2.0, 0.5)), gamma_=0.0)

    def parms(self, n, ne=1):
        t = self.r.randint(0, 13) if self.chance(0.7) else 0
        return rec('ami_parms', N_INT_=n, N_EXT_=self.r.choice((1, 1, 2, 0)), E_REG_=self.r.choice((0.0, 0.0, 0.125, 0.5, -0.25)),
                   tol_=self.r.choice((1e-12, 1e-6)), TYPE_=t, int_type_=self.r.randint(0, 2), dispersion_=self.r.randint(0, 1))

    def state(self):
        r = self.r
        return rec('AmiBase', exp_max_arg=500.0, drop_bosonic_diverge=self.chance(0.3), drop_der=self.chance(0.15), drop_matsubara_poles=self.chance(0.5),
                   zero_external_w=self.chance(0.2), overflow_detected=self.chance(0.4), verbose=self.chance(0.05),
                   precision_cutoff=r.choice((1e15, 1e15, 1e5, 100.0, 4.0, 0.5)), bosonic_external=self.chance(0.25), ext_freq_type=r.randint(0, 2))

    def integrand(self):
        """integrand and number of integrations"""
        na = self.r.choice((1, 2, 2, 3, 3, 4))
        ne = self.r.randint(1, 4)
        k = self.r.random()
        if k < 0.06:
            return self.product(ne, na, 0, 1), self.r.randint(0, na), ne, na
        n = self.r.randint(0, min(na, 3)) if self.chance(0.85) else na
        size = self.r.choice((1, 2, 3, 3, 4) if n < 3 else (2, 3, 4))
        if self.big and n < 3 and self.chance(0.3):
            size = 5
        R = self.product(ne, na, n=size)
        # keep sizes manageable and coefficients on integrated frequencies in {-1,0,1}
        out = []
        for g in R:
            a = tuple(max(-1, min(1, x)) if self.chance(0.97) else x for x in get('g_struct', g, 'alpha_'))
            out.append(put('g_struct', g, 'alpha_', a))
        return tuple(out), n, ne, na

    def solution(self, need=None):
        """integrand with its array solution (constructed by the specification)"""
        for _ in range(50):
            R0, n, ne, na = self.integrand()
            if need is not None and n < need:
                continue
            drop = self.chance(0.5)
            try:
                R = ceval.run('construct_R', n, R0, drop, budget=60000)
                if len(R[-1]) > (60 if self.big else 30) or max([len(x) for p in R for x in p] or [0]) > 9:
                    continue
                P = ceval.run('construct_P', n, R0, drop, budget=60000)
                S = ceval.run('construct_S', n, R0, drop, budget=60000)
            except ceval.Stop:
                continue
            self.strip = None
            return self.clean(R), self.cleanP(P), S, n, ne, na, R0, drop
        return ((((self.line(1, 1),),),), (), (), 0, 1, 1, (self.line(1, 1),), True)

    def clean(self, v):
        """replace results the specification leaves open by arbitrary values"""
        def go(x):
            if x is ceval.ANY:
                return self.r.choice((0, 1))
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        return go(v)

    cleanP = clean

    def terms(self):
        R0, n, ne, na = self.integrand()
        for _ in range(20):
            drop = self.chance(0.5)
            try:
                ts = ceval.run('construct_terms', n, R0, drop, budget=60000)
                if len(ts) <= (60 if self.big else 30):
                    return self.clean(ts), n, ne, na, R0
            except ceval.Stop:
                pass
            R0, n, ne, na = self.integrand()
        return (), 0, 1, 1, ()

    def term(self, ne, na, lo=0, hi=3):
        g = self.product(ne, na, lo, hi)
        return rec('term', sign=self.sign(), p_list=tuple(self.pole(ne, na) for _ in range(self.length(0, 3))), g_list=g)

    def refs(self, n, nu):
        return tuple((self.r.randrange(nu), self.r.choice((1, -1))) for _ in range(n)) if nu else ()

    def reflists(self, nu=3, lo=0, hi=4):
        out = []
        for _ in range(self.length(lo, hi)):
            if out and self.chance(0.5):
                v = [(a, self.r.choice((1, -1))) for a, b in self.r.choice(out)]
                self.r.shuffle(v)
                if v and self.chance(0.2):
                    v[0] = (self.r.randrange(nu), v[0][1])
                out.append(tuple(v))
            else:
                out.append(self.refs(self.length(0, 3), nu))
        return tuple(out)

    def factorised(self, Rn):
        u = ceval.run('unique_lines', Rn)
        rr = ceval.run('all_refs', Rn)
        ev = ceval.run('groups', rr)
        return u, ceval.run('leader_refs', rr, ev), ev

    def garbage(self, s, depth=0):
        """arbitrary earlier content of an output argument"""
        if s == 'Int':
            return self.r.randint(-3, 9)
        if s == 'Bool':
            return self.chance(0.5)
        if s == 'Real':
            return self.dyadic()
        if s == 'Cx':
            return self.energy()
        if s == ('St', 'g_struct'):
            return self.line(2, 2)
        if s == ('St', 'pole_struct'):
            return self.pole(2, 2)
        if s[0] == 'Vec':
            return tuple(self.garbage(s[1], depth + 1) for _ in range(self.r.choice((0, 0, 1, 2))))
        return tuple(self.garbage(fs, depth + 1) for f, fs in STRUCTS[s[1]])

    # ---------------------------------------------------------------- per function
    def args(self, label, sorts):
        """argument values of one call"""
        ceval.BUDGET[0] = 200000
        self.loose = False
        f = getattr(self, 'a_' + (label[:-3] if label.endswith('_mp') else label))
        v = list(f())
        for i, x in enumerate(v):
            if x is None:
                v[i] = self.garbage(sorts[i])
        return v

    def a_pole_equiv(self):
        ne, na = self.dims()
        g = self.line(ne, na)
        h = self.variant(g) if self.chance(0.8) else self.line(*self.dims())
        wh = lambda: tuple(sorted(self.r.sample(range(4), self.r.choice((1, 1, 2, 3)))))
        mk = lambda g, i, m, d, w: rec('pole_struct', eps_=get('g_struct', g, 'eps_'), alpha_=get('g_struct', g, 'alpha_'), index_=i,
                                       multiplicity_=m, der_=d, which_g_=w, x_alpha_=())
        i, m, d, w = self.r.randint(0, 2), self.r.randint(1, 3), self.r.randint(0, 2), wh()
        c = self.chance(0.4)        # agree in everything that must not matter
        p = mk(g, i, m, d, w)
        q = mk(h, i, m, d, w) if c else mk(h, self.r.randint(0, 2), self.r.randint(1, 3), self.r.randint(0, 2), wh())
        for f in ('eps_', 'alpha_'):
            if self.chance(0.06):
                q = put('pole_struct', q, f, get('pole_struct', q, f)[:-1])
            if self.chance(0.06):
                q = put('pole_struct', q, f, get('pole_struct', q, f) + (self.coef(),))
        return p, q

    def _two_lines(self):
        ne, na = self.dims()
        g = self.line(ne, na)
        h = self.variant(g) if self.chance(0.85) else self.line(ne, na)
        for f in ('eps_', 'alpha_'):
            if self.chance(0.05):
                h = put('g_struct', h, f, get('g_struct', h, f)[:-1])
            if self.chance(0.05):
                h = put('g_struct', h, f, get('g_struct', h, f) + (self.coef(),))
        return g, h

    def a_g_equiv(self):
        return self._two_lines()

    def a_g_struct_equiv(self):
        return self._two_lines() + (None,)

    def a_find_poles(self):
        ne, na = self.dims()
        idx = self.r.randrange(na) if self.chance(0.9) else na + self.r.randint(0, 1)
        return idx, self.product(ne, na, 0, 6)

    def a_update_G_pole(self):
        ne, na = self.dims()
        return self.line(ne, na), self.pole(ne, na)

    def a_update_Z_pole(self):
        ne, na = self.dims()
        return self.pole(ne, na), self.pole(ne, na)

    def _prod_pole(self, mult=None):
        for _ in range(30):
            ne, na = self.dims()
            R = self.product(ne, na, 1, 5)
            idx = self.r.randrange(na)
            p = self.pole_of(R, idx, ne, na)
            if p is not None and (mult is None or get('pole_struct', p, 'multiplicity_') >= mult):
                if self.chance(0.2):
                    p = put('pole_struct', p, 'der_', self.r.randint(0, 2))
                return R, p, idx, ne, na
        # repeated line
        ne, na = 2, 2
        g = self.mkline((1, 0), (1, 0))
        R = (g, self.line(ne, na), g, g)
        return R, ceval.run('find_poles', 0, R, False)[0], 0, ne, na

    def a_simple_residue(self):
        R, p, *_ = self._prod_pole()
        return R, p

    def a_get_simple_sign(self):
        R, p, idx, *_ = self._prod_pole()
        return idx, R, p

    def a_find_signs(self):
        ne, na = self.dims()
        return self.r.randrange(na), self.product(ne, na, 0, 5)

    def a_factorial(self):
        return (self.r.randint(0, 12),)

    def a_reduce_gprod(self):
        R, p, *_ = self._prod_pole()
        return R, p

    a_get_starting_sign = a_reduce_gprod

    def a_take_derivative_gprod(self):
        R, p, idx, ne, na = self._prod_pole()
        if self.chance(0.5):
            R = self.product(ne, na, 0, 5)
        return R, p, self.sign(), None, None, None

    def a_evaluate_general_residue(self):
        R, p, *_ = self._prod_pole(self.r.choice((1, 2, 2, 3)))
        return R, p, None, None, None

    def a_take_term_derivative(self):
        R, p, idx, ne, na = self._prod_pole()
        t = rec('term', sign=self.sign(), p_list=tuple(self.pole(ne, na) for _ in range(self.r.randint(0, 2))) + ((p,) if self.chance(0.7) else ()),
                g_list=R if self.chance(0.5) else self.product(ne, na, 0, 4))
        return t, p, None

    def a_terms_general_residue(self):
        R, p, idx, ne, na = self._prod_pole(self.r.choice((1, 2, 2, 3)))
        t = rec('term', sign=self.sign(), p_list=tuple(self.pole(ne, na) for _ in range(self.r.randint(0, 2))), g_list=R)
        return t, p, None

    def a_integrate_step(self):
        ne, na = self.dims()
        idx = self.r.randrange(na)
        ts = tuple(self.term(ne, na, 0, 4) for _ in range(self.length(0, 3)))
        return idx, ts, None

    def a_construct_terms(self):
        R0, n, ne, na = self.integrand()
        return n, R0, None

    def a_construct_terms_parms(self):
        R0, n, ne, na = self.integrand()
        return self.parms(n), R0, None

    def a_construct(self):
        R0, n, ne, na = self.integrand()
        return self.parms(n), R0, None, None, None

    def a_update_gprod_general(self):
        ne, na = self.dims()
        Rl = tuple(self.products(ne, na, 0, 3, 0, 4) for _ in range(self.r.randint(1, 3)))
        return self.r.randrange(na), self.r.randrange(len(Rl)), Rl, None, None

    def a_binomialCoeff(self):
        n = self.count(29)
        return n, self.r.randint(0, n)

    def a_frk(self):
        r = self.r.randint(0, 9)
        return r, self.r.randint(0, r + 2)

    def a_fermi_bose(self):
        E = complex(self.r.choice((0.5, -0.5, 1.0, -1.25, 0.125, 2.0, 3.5, -3.0, 0.25)), self.r.choice((0, 0, 0.25, -1.0)))
        if self.chance(0.08):
            E *= 40
        return self.r.choice((0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8)), self.r.choice((1.0, -1.0)), self.r.choice((1.0, 2.0, 0.5, 5.0, 0.125)), E

    def a_get_energy_from_pole(self):
        ne, na = self.dims()
        return self.pole(ne, na), self.ext(ne, na)

    def a_get_energy_from_g(self):
        ne, na = self.dims()
        return self.line(ne, na), self.ext(ne, na)

    def a_fermi_pole(self):
        ne, na = self.dims()
        return self.parms(1), self.pole(ne, na), self.small_ext(ne, na, 1e-12)

    def a_eval_gprod(self):
        ne, na = self.dims()
        return self.parms(1), self.product(ne, na, 0, 5), self.ext(ne, na)

    def a_fermi(self):
        ne, na = self.dims()
        return self.parms(1), tuple(tuple(self.pole(ne, na) for _ in range(self.length(0, 3))) for _ in range(self.length(0, 3))), self.ext(ne, na)

    def _sf(self, lens):
        return tuple(tuple(self.energy() for _ in range(n)) for n in lens)

    def tiny(self):
        """now and then a small factor, to be made up for elsewhere: small coefficients that matter"""
        return self.r.choice((2.0 ** -20, 2.0 ** -50, 2.0 ** -100, 2.0 ** -300)) if self.chance(0.1) else 1.0

    def a_dot(self):
        ls = [self.length(0, 4) for _ in range(self.length(0, 4))]
        k = self.tiny()
        return tuple(tuple(self.sign() / k for _ in range(n)) for n in ls), tuple(tuple(x * k for x in l) for l in self._sf(ls))

    def a_cross(self):
        n = self.length(1, 4)
        k = self.tiny()
        return tuple(tuple(x * k for x in l) for l in self._sf([n])), tuple(tuple(x / k for x in l) for l in self._sf([self.length(0, 3) for _ in range(n)]))

    def a_star(self):
        ne, na = self.dims()
        R = self.products(ne, na, 0, 4)
        K = [self.r.choice((self.energy(), self.energy() + 0.125, 100.25 + 1j, 0j)) for _ in R]
        e = self.ext(ne, na)
        k = self.tiny()
        K = [x * k for x in K]
        e = put('ami_vars', e, 'prefactor', get('ami_vars', e, 'prefactor') / k)
        return self.parms(1), (tuple(K),), R, e

    def _spr(self):
        R, P, S, n, ne, na, R0, drop = self.solution()
        ext = self.ext(ne, na) if self.chance(0.6) else self.generic_ext(ne, na)
        if n >= 1 and self.chance(0.3):
            m = self.r.randint(0, n)
            if m < n and m >= 1:
                return self.parms(m), R[:m + 1], P[:m], S[:m], ext
        return self.parms(n), R, P, S, ext

    def a_evaluate(self):
        return self._spr()

    def a_detect_otf_trigger(self):
        return self._spr()

    a_evaluate_otf = a_detect_otf_trigger

    def a_get_triggers(self):
        p, R, P, S, ext = self._spr()
        return p, R, P, S, self._thresholds(ext), None

    def _thresholds(self, ext):
        return self.small_ext(len(get('ami_vars', ext, 'energy_')), len(get('ami_vars', ext, 'frequency_')), 0) if self.chance(0.3) else ext

    def a_find_equal_values(self):
        p, R, P, S, ext = self._spr()
        return p, R, self._thresholds(ext), None

    def a_eval_fprod(self):
        ne, na = self.dims()
        return self.parms(1), tuple(self.pole(ne, na) for _ in range(self.length(0, 4))), self.ext(ne, na)

    def a_evaluate_term(self):
        ne, na = self.dims()
        t, e, k = self.term(ne, na, 0, 4), self.ext(ne, na), self.tiny()
        return self.parms(1), put('term', t, 'sign', get('term', t, 'sign') * k), put('ami_vars', e, 'prefactor', get('ami_vars', e, 'prefactor') / k)

    def a_evaluate_terms(self):
        if self.chance(0.5):
            ts, n, ne, na, R0 = self.terms()
            return self.parms(n), ts, self.ext(ne, na) if self.chance(0.5) else self.generic_ext(ne, na)
        ne, na = self.dims()
        return self.parms(1), tuple(self.term(ne, na) for _ in range(self.length(0, 4))), self.ext(ne, na)

    def a_pair_v_equiv(self):
        nu = self.r.randint(1, 4)
        a = self.refs(self.length(0, 4), nu)
        b = [(x, self.r.choice((1, -1))) for x, _ in a]
        self.r.shuffle(b)
        k = self.r.random()
        if k < 0.3 and b:
            b[self.r.randrange(len(b))] = (self.r.randrange(nu), 1)
        elif k < 0.36:
            b.append((self.r.randrange(nu), -1))
        elif k < 0.42 and b:
            b.pop()
        return a, tuple(b), None, None

    def a_reduce_rref(self):
        return self.reflists(self.r.randint(1, 3), 0, 6), None

    def a_factorize_Rn(self):
        if self.chance(0.4):
            return self.solution()[0][-1], None, None, None
        ne, na = self.dims()
        return self.products(ne, na, 0, 5), None, None, None

    def a_factorize_terms(self):
        R = self.a_factorize_Rn()[0]
        return tuple(rec('term', sign=self.sign(), p_list=(), g_list=g) for g in R), None, None, None

    def a_convert_terms_to_ri(self):
        return self.a_factorize_terms()[0], None

    def _fact(self, Rn):
        k = self.r.random()
        u, rr, ev = self.factorised(Rn)
        if k < 0.1:
            z = self.r.randint(0, 2)
            return ((), rr, ev) if z == 0 else (u, (), ev) if z == 1 else (u, rr, ())
        if k < 0.25 and u and Rn:
            ev = tuple(tuple((self.r.randrange(len(Rn)), self.r.choice((1, -1, 1, -1, 2, -3))) for _ in range(self.r.randint(0, 3))) for _ in range(self.r.randint(1, 3)))
            rr = tuple(self.refs(self.r.randint(0, 3), len(u)) for _ in ev)
        elif k < 0.45 and u:        # differentiated data: group factors other than signs
            rr, ev = ceval.run('derivative_opt_refs', u, rr), ceval.run('derivative_opt_groups', u, rr, ev)
        return u, rr, ev

    def a_optimized_star(self):
        ne, na = self.dims()
        R = self.products(ne, na, 1, 4)
        K = tuple(self.r.choice((self.energy(), 100.25 + 1j)) for _ in R)
        u, rr, ev = self._fact(R)
        if len(rr) != len(ev):
            u, rr, ev = self.factorised(R)
        e = self.ext(ne, na)
        k = self.tiny()
        e = put('ami_vars', e, 'prefactor', get('ami_vars', e, 'prefactor') / k)
        return self.parms(1), (tuple(x * k for x in K),), u, rr, ev, e

    def a_evaluate_opt(self):
        for _ in range(20):
            p, R, P, S, ext = self._spr()
            n = get('ami_parms', p, 'N_INT_')
            if len(R[-1]) or n == 0:
                break
        u, rr, ev = self._fact(R[n])
        return p, R, P, S, ext, u, rr, ev

    def a_evaluate_terms_opt(self):
        p, ts, ext = self.a_evaluate_terms()
        u, rr, ev = self._fact(tuple(get('term', t, 'g_list') for t in ts))
        return p, ts, ext, u, rr, ev

    def a_derivative_opt(self):
        ne, na = self.dims()
        R = self.products(ne, na, 0, 4)
        u, rr, ev = self.factorised(R)
        return u, rr, ev

