"""Which obligations decide which property."""
from .terms import *
from . import terms as tm

CONSTRUCT = ['find_poles', 'pole_equiv', 'update_G_pole', 'simple_residue', 'get_simple_sign', 'factorial', 'reduce_gprod', 'get_starting_sign',
             'take_derivative_gprod', 'evaluate_general_residue', 'update_gprod_general', 'construct']
TERM_CONSTRUCT = ['take_term_derivative', 'terms_general_residue', 'integrate_step', 'construct_terms', 'construct_terms_parms']
OCC = ['fermi_bose', 'frk', 'binomialCoeff', 'fermi_pole', 'get_energy_from_pole']
PLAIN = ['fermi', 'dot', 'cross', 'star', 'eval_gprod', 'evaluate']
TPLAIN = ['eval_fprod', 'evaluate_term', 'evaluate_terms']
FACTOR = ['g_struct_equiv', 'pair_v_equiv', 'reduce_rref', 'factorize_Rn', 'convert_terms_to_ri', 'factorize_terms']
OPT = ['optimized_star', 'evaluate_opt', 'evaluate_terms_opt']
OTF = ['get_triggers', 'find_equal_values', 'detect_otf_trigger', 'evaluate_otf']
ALL = CONSTRUCT + TERM_CONSTRUCT + ['update_Z_pole', 'find_signs', 'g_equiv', 'get_energy_from_g'] + OCC + PLAIN + TPLAIN + FACTOR + OPT + OTF + ['derivative_opt']
FLAGGED = ['fermi_bose', 'fermi_pole', 'fermi', 'star', 'evaluate', 'eval_fprod', 'evaluate_term', 'evaluate_terms', 'optimized_star', 'evaluate_opt',
           'evaluate_terms_opt', 'detect_otf_trigger', 'evaluate_otf']
QUIET = ['dot', 'cross', 'eval_gprod', 'frk', 'binomialCoeff', 'get_energy_from_pole', 'get_energy_from_g', 'get_triggers', 'find_equal_values']

FLAG = 'overflow_detected'


def values(v):
    """outputs other than the overflow flag and the frame"""
    return v.kind == 'lemma' or v.kind == 'post' and not v.out.startswith(FLAG)


def flags(v):
    return v.kind == 'lemma' or v.out.startswith(FLAG)


def not_flags(v):
    return v.kind == 'lemma' or not v.out.startswith(FLAG)


def everything(v):
    return True


class Prop:
    def __init__(self, labels, select, **kw):
        self.labels, self.select = labels, select
        self.lemmas = kw.get('lemmas', ())
        self.project = kw.get('project')
        self.mode = kw.get('mode', 'contracts')
        self.defs = kw.get('defs', ())
        self.mask = kw.get('mask', 'values')        # outputs compared concretely
        self.note = kw.get('note', '')


def species(t, s):
    """the species labels in a value (None if it holds no lines)"""
    if s == ('St', 'g_struct'):
        return fld(t, 'species_')
    if s == ('St', 'term'):
        return species(fld(t, 'g_list'), dict(STRUCTS['term'])['g_list'])
    if isinstance(s, tuple) and s[0] == 'Vec':
        if holds_lines(s[1]):
            return map_f(len_(t), lambda i: species(at(t, i), s[1]))
    return None


def holds_lines(s):
    return s in (('St', 'g_struct'), ('St', 'term')) or isinstance(s, tuple) and s[0] == 'Vec' and holds_lines(s[1])


def species_value(v, s):
    from .terms import STRUCTS
    if s == ('St', 'g_struct'):
        return v[[n for n, _ in STRUCTS['g_struct']].index('species_')]
    if s == ('St', 'term'):
        k = [n for n, _ in STRUCTS['term']].index('g_list')
        return species_value(v[k], STRUCTS['term'][k][1])
    if isinstance(s, tuple) and s[0] == 'Vec' and holds_lines(s[1]):
        return tuple(species_value(x, s[1]) for x in v)
    return None


PROPS = {
    'C01': Prop(['find_poles', 'pole_equiv'], values, lemmas=('C01',)),
    'C02': Prop(['update_G_pole', 'update_Z_pole'], not_flags, lemmas=('C02',)),
    'C03': Prop(['simple_residue', 'get_simple_sign', 'find_signs', 'integrate_step', 'update_G_pole'], values, lemmas=('C03',)),
    'C04': Prop(['take_derivative_gprod', 'evaluate_general_residue', 'get_starting_sign', 'reduce_gprod', 'factorial', 'terms_general_residue',
                 'take_term_derivative', 'update_G_pole'], values, lemmas=('C04',)),
    'C05': Prop(CONSTRUCT, lambda v: values(v) or v.kind == 'pre', lemmas=('C05',)),
    'C06': Prop(CONSTRUCT + TERM_CONSTRUCT, lambda v: values(v) or v.kind == 'pre', lemmas=('C06',)),
    'C07': Prop(PLAIN, values),
    'C08': Prop(TPLAIN + ['eval_gprod'], values),
    'C09': Prop(FACTOR, values, lemmas=('C09',)),
    'C10': Prop(PLAIN + TPLAIN + FACTOR + OPT, values, lemmas=('C10',)),
    'C11': Prop(['fermi_bose', 'frk', 'binomialCoeff'], values, lemmas=('C11',)),
    'C12': Prop(['fermi_pole', 'get_energy_from_pole', 'get_energy_from_g'], values),
    'C13': Prop(OTF + ['update_gprod_general', 'evaluate'], not_flags),
    'C14': Prop(ALL, everything, mode='purity', mask='frame'),
    'C15': Prop(ALL, everything, mode='memory'),
    'C16': Prop(FLAGGED + QUIET, flags, mask='flags'),
    'C17': Prop(['derivative_opt'], not_flags, lemmas=('C17',)),
    'C18': Prop(['pole_equiv', 'g_equiv', 'g_struct_equiv', 'pair_v_equiv'], values, lemmas=('C18',)),
    'C19': Prop(PLAIN + TPLAIN + OPT + ['eval_gprod_mp', 'evaluate_term_mp'], everything, defs=('BOOST_MP',), mask='all'),
    'C20': Prop([], everything, mode='constructors'),
    'C21': Prop(['update_G_pole', 'simple_residue', 'reduce_gprod', 'take_derivative_gprod', 'evaluate_general_residue', 'take_term_derivative',
                 'terms_general_residue', 'update_gprod_general', 'construct', 'integrate_step', 'construct_terms', 'construct_terms_parms',
                 'convert_terms_to_ri', 'g_struct_equiv', 'factorize_Rn'], values, project=species),
}

# obligations the prover does not discharge on the reference tree: decided by a bounded comparison instead, never counted as proved
BOUNDED = {}

_Z = 'leaves the index of its result unset (deprecated, called by nothing); its accesses are proved'
BOUNDED_MEMORY = {'update_Z_pole.invariant of result': _Z, 'update_Z_pole.unset value in result': _Z}
