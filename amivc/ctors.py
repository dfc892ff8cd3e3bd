"""C20: what every constructor of the value containers must store.

`int`: the position of the argument stored in a member; a term: the documented default; members not listed are unspecified.
"""
from fractions import Fraction
from . import terms as tm
from .terms import *
from .specs import GP, PA, VI, VC
from .frontend import Unsupported, ctype
from .symex import Exec, Frame

R, I = 'Real', 'Int'
FERMI = 1


def arg(j):
    return ('arg', j)


def const(x, s):
    return num(Fraction(x), s)


G0 = {'stat_': const(FERMI, I), 'eff_stat_': const(FERMI, I), 'species_': const(0, I)}
P0 = {'multiplicity_': const(1, I), 'der_': const(0, I)}
Q0 = {'N_EXT_': const(1, I), 'tol_': const('1e-12', R), 'E_REG_': const(0, R)}
V0 = {'prefactor': const(1, R), 'BETA_': const(0, R), 'gamma_': const(0, R)}

TABLE = {
    ('ami_vars', ()): dict(V0, energy_=empty(VC), frequency_=empty(VC)),
    ('ami_vars', (VC, VC)): dict(V0, energy_=arg(0), frequency_=arg(1)),
    ('ami_vars', (VC, VC, R)): dict(V0, energy_=arg(0), frequency_=arg(1), BETA_=arg(2)),
    ('ami_vars', (VC, VC, R, R)): dict(V0, energy_=arg(0), frequency_=arg(1), BETA_=arg(2), prefactor=arg(3)),
    ('ami_parms', ()): Q0,
    ('ami_parms', (I, R)): dict(Q0, N_INT_=arg(0), E_REG_=arg(1), TYPE_=const(0, I), int_type_=const(0, I), dispersion_=const(0, I)),
    ('ami_parms', (I, R, I)): dict(Q0, N_INT_=arg(0), E_REG_=arg(1), TYPE_=arg(2)),
    ('ami_parms', (I, R, I, I, I)): dict(Q0, N_INT_=arg(0), E_REG_=arg(1), TYPE_=arg(2), int_type_=arg(3), dispersion_=arg(4)),
    ('g_struct', ()): dict(G0, eps_=empty(VI), alpha_=empty(VI)),
    ('g_struct', (VI, VI)): dict(G0, eps_=arg(0), alpha_=arg(1)),
    ('g_struct', (VI, VI, I)): dict(G0, eps_=arg(0), alpha_=arg(1), stat_=arg(2), eff_stat_=arg(2)),
    ('pole_struct', ()): dict(P0, eps_=empty(VI), alpha_=empty(VI), which_g_=empty(VI)),
    ('pole_struct', (VI, VI)): dict(P0, eps_=arg(0), alpha_=arg(1), which_g_=empty(VI)),
    ('term', ()): {'sign': const(1, R), 'p_list': empty(PA), 'g_list': empty(GP)},
    ('term', (R, PA, GP)): {'sign': arg(0), 'p_list': arg(1), 'g_list': arg(2)},
}

ENUM = {('ami_parms', (I, R, I)): (2,), ('ami_parms', (I, R, I, I, I)): (2, 3, 4), ('g_struct', (VI, VI, I)): (2,)}


def params(c):
    return [x for x in c.get('inner', []) if x['kind'] == 'ParmVarDecl']


def find(prog, ex, name, sorts):
    """-> (constructor node or None for the implicit one, its parameters beyond the given ones)"""
    for c in prog.records[name]['ctors']:
        ps = params(c)
        try:
            ss = tuple(ex.sort(p) for p in ps)
        except Unsupported:
            continue
        if ss[:len(sorts)] == tuple(sorts) and all(p.get('init') for p in ps[len(sorts):]) and not c.get('isImplicit'):
            if len(ss) == 1 and ss[0] == ('St', name):
                continue
            return c, ps
    if not sorts:
        return None, []
    raise Unsupported('no constructor %s%r' % (name, sorts))


def label(name, sorts):
    return '%s/%d' % (name, len(sorts))


def execute(prog, name, sorts):
    """-> (ex, argument terms, the constructed value)"""
    ex = Exec(prog, {})
    ex.used = set()
    rec = prog.records[name]
    c, ps = find(prog, ex, name, sorts)
    args = [var('a%d' % j, s) for j, s in enumerate(sorts)]
    if c is None:
        return ex, args, ex.default_struct(('St', name), None)
    return ex, args, ex.run_ctor(rec, name, c, args, {}, TRUE)


def obligations(prog, name, sorts):
    from .contracts import VC
    ex, args, v = execute(prog, name, sorts)
    out = []
    for f, want in TABLE[name, sorts].items():
        spec = args[want[1]] if isinstance(want, tuple) else want
        x = VC(label(name, sorts), f, fld(v, f), spec)
        out.append(x)
    return ex, out


def driver_entry(prog, name, sorts):
    """(label, record, parameter types, names) for the generated driver, or None"""
    ex = Exec(prog, {})
    c, ps = find(prog, ex, name, sorts)
    return label(name, sorts), name, [ctype(p) for p in ps[:len(sorts)]] if c is not None else [], []


def campaign(prog, drv, name, sorts, seed, n):
    """compares the compiled constructor on generated arguments and poisoned memory -> (runs, 0, failure)"""
    from .gen import Gen
    from .driver import Crash
    from .ceval import evaluate
    g = Gen(seed)
    lab = label(name, sorts)
    members = [f for f, _ in STRUCTS[name]]
    done = 0
    for i in range(n if sorts else 1):
        args = [g.garbage(s) for s in sorts]
        for j in ENUM.get((name, sorts), ()):
            args[j] = g.r.choice((0, 1))
        bad = None
        try:
            v = drv.construct(lab, args, sorts, name)
        except Crash as e:
            v = None
            bad = {'output': 'construction', 'expected': 'a value', 'got': 'crash: ' + str(e)}
        if v is not None:
            for f, want in TABLE[name, sorts].items():
                e = args[want[1]] if isinstance(want, tuple) else evaluate(want, {})
                got = v[members.index(f)]
                if plain(got) != plain(e) and not bad:
                    bad = {'output': f, 'expected': repr(e), 'got': repr(got)}
        done += 1
        if bad:
            bad.update(function=lab, arguments={'a%d' % j: repr(a) for j, a in enumerate(args)}, state={}, request=drv.last, constructor=[name, list(map(str, sorts))])
            return done, 0, bad
    return done, 0, None


def plain(v):
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    if isinstance(v, bool):
        return v
    if isinstance(v, complex):
        return (repr(v.real + 0.0), repr(v.imag + 0.0))
    return repr(float(v) + 0.0)
