"""Lemmas over the contracts, beyond what the obligations of single functions say.

lean(FILE, specs, theorems): the named specification functions are translated from specs.py (lean.py), lean/FILE.lean is appended and Lean
checks it; each named theorem must rest on Lean's own axioms only.  These lemmas are about the specification functions, so no change to
/repo can falsify them; they connect the functional contracts to the wording of the property."""
import os, re, subprocess, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AXIOMS = {'propext', 'Classical.choice', 'choice', 'Quot.sound'}     # 'choice': the same, printed with Classical open

BOTH = ['construct_R', 'construct_P', 'construct_S', 'construct_terms', 'evaluate_spr', 'evaluate_terms']

LEAN = {
    'C01': (('C06', 'Line', 'Poles'), BOTH, {
        'Formats.search': 'every reported pole has multiplicity = number of its lines, order 0, and lists exactly lines that share its location; every dependent line with a kept location is listed; locations are distinct and ordered by first appearance',
        'Formats.search_outside': 'an empty product or an index beyond the frequency list gives no poles',
        'Formats.all_lines': 'a reported pole lists every dependent line with its location',
        'Formats.once': 'no line is listed twice',
        'Formats.lines_vanish': 'with coefficients 0, +1, -1 every listed line vanishes at the location, for all frequencies and energies, and the location does not involve the integrated frequency'}),
    'C02': (('C06', 'Line'), BOTH, {
        'Formats.substitution_value': 'for all frequencies and energies the substituted line equals the original one with the integrated frequency at the pole',
        'Formats.substitution_free': 'and keeps its size and no longer depends on that frequency'}),
    'C03': (('C06', 'Line', 'Poles', 'Residue'), BOTH, {
        'Formats.simple_residue_is_residue': 'prefactor times the product of the substituted other lines is the limit of (z - pole) times the product of all lines, for all frequencies and energies (coefficients 0, +1, -1; no other line vanishing at the pole)'}),
    'C04': (('C06', 'Line', 'Poles', 'Residue'), BOTH, {
        'Formats.pole_part': '(z - pole)^M times the product is (M-1)! times the starting sign times the product without the vanishing lines',
        'Formats.general_residue_is_derivative': 'the expansion sums to the (M-1)-th derivative at the pole of starting sign times occupation times remaining lines, for every M and every differentiable occupation',
        'Formats.terms_equal_arrays': 'the term format follows the same expansion'}),
    'C05': (('C06', 'C05'), BOTH, {
        'Formats.constructed_is_aligned': 'for every integrand and order: as many levels as integrations, one pole and sign list per product, one sign per pole, one product on the next level per pole'}),
    'C06': (('C06',), BOTH, {
        'Formats.terms_equal_arrays': 'the sum over the constructed terms equals the value of the constructed arrays, for every integrand, order and external values'}),
    'C09': (('C09',), ['unique_lines', 'all_refs', 'groups', 'leader_refs', 'optimized_star', 'star'], {
        'product_value': 'every product equals its sign times the product of the unique lines its references name',
        'groups_partition': 'every product belongs to exactly one group, once',
        'groups_good': 'a group consists of its leader and of products that refer to the same lines, each with its sign',
        'equiv_val': 'lines identified up to a sign have the same value up to that sign',
        'optimized_star_eq': 'the sum over groups equals the sum over products, for all coefficients and external values'}),
    'C10': (('C09', 'C10', 'C06', 'C05', 'C10b'), BOTH + ['unique_lines', 'all_refs', 'groups', 'leader_refs', 'optimized_star', 'star', 'evaluate_spr_opt', 'evaluate_terms_opt'], {
        'optimised_equals_plain': 'array format: optimised evaluation with the data of its own factorisation is plain evaluation, for every stored solution',
        'constructed_optimised_equals_plain': 'in particular for every constructed solution, for all integrands, orders, external values and settings',
        'optimised_terms_equal_plain': 'the same for the term format'}),
    'C11': (('C11',), ['frk', 'fermi_bose'], {
        'fermi_bose_is_derivative': 'the specified formula is the m-th derivative of 1/(s exp(bE)+1) in E, for every m, b and E away from the poles'}),
    'C17': (('C06', 'Line', 'Poles', 'Residue', 'C17'), BOTH + ['optimized_star', 'derivative_opt_refs', 'derivative_opt_groups'], {
        'Formats.derivative_opt_is_derivative': 'the value of the differentiated factorised solution is the derivative of its value in the last frequency, for all coefficients, lines, references and external values away from zeros of the lines'}),
    'C18': (('C06', 'Line', 'Poles', 'C18'), BOTH + ['g_equiv', 'g_struct_equiv', 'g_struct_equiv_sign', 'pair_v_equiv'], {
        'Formats.pole_equiv_iff': 'equality of poles: same frequency list, same energy list',
        'Formats.g_equiv_iff': 'equality of lines likewise',
        'Formats.signed_iff': 'signed comparison: +1, -1, 0 exactly when equal, opposite, neither; for lines not identically zero',
        'Formats.pair_perm': 'equivalent reference lists refer to the same lines equally often'}),
}


def stored():
    """the shape of a stored solution, as C15 proves it of construct and requires it of the evaluators"""
    from . import lean, memory as M, specs as S
    from .terms import and_
    return [lean.Extra('stored', ('Int', S.RR, S.PP_, S.SS), lambda n, R, P, Sg: and_(*M.solution(n, R, P, Sg)))]


EXTRA = {'C05': stored, 'C10': stored}


def text(name):
    from . import lean
    f, specs, thms = LEAN[name]
    body = ''.join(open(os.path.join(VERIF, 'lean', x + '.lean')).read() for x in f)
    return lean.generate(specs, EXTRA.get(name, lambda: ())()) + body + '\n' + ''.join('#print axioms %s\n' % t for t in thms)


def check(name, limit=400):
    """-> (theorems proved, output)"""
    d = tempfile.mkdtemp(prefix='amivc_lean_')
    try:
        p = os.path.join(d, name + '.lean')
        with open(p, 'w') as f:
            f.write(text(name))
        try:
            r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=limit)
        except (OSError, subprocess.TimeoutExpired) as e:
            return set(), repr(e)[:300]
        out = r.stdout + r.stderr
        good = set()
        for t in LEAN[name][2]:
            m = re.search(r"'(?:Ami\.)?%s' depends on axioms: \[([^\]]*)\]" % re.escape(t), out.replace('\n', ' '))
            none = re.search(r"'(?:Ami\.)?%s' does not depend on any axioms" % re.escape(t), out)
            if r.returncode == 0 and (none or m and {x.strip() for x in m.group(1).split(',')} <= AXIOMS):
                good.add(t)
        return good, out[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(chk, names):
    for n in names:
        t0 = time.time()
        good, out = check(n)
        for t, what in LEAN[n][2].items():
            chk.obls += 1
            chk.lemma_files.append({'lemma': 'lean/%s.lean: %s' % (LEAN[n][0][-1], t), 'says': what, 'checked': t in good})
            if t in good:
                chk.done += 1
                chk.by['lean'] += 1
            else:
                # about the contracts only: says nothing about the code, so it is reported but is no violation
                chk.notes.append('lemma %s was not checked in this run: %s' % (t, out))
        chk.solver_s += time.time() - t0
