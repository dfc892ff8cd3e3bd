"""writes MANIFEST.json from the table below"""
import json, sys
sys.path.insert(0, '/verif')
CLAIMED = {
 'C01': 'pole search', 'C02': 'residue substitution', 'C03': 'first-order residue', 'C04': 'higher-order residue', 'C05': 'array construction',
 'C06': 'term construction', 'C07': 'array evaluation', 'C08': 'term evaluation', 'C09': 'factorisation', 'C10': 'optimised evaluation',
 'C11': 'occupation functions', 'C12': 'occupation of a pole', 'C13': 'on-the-fly evaluation', 'C14': 'purity', 'C15': 'memory safety', 'C16': 'overflow flag', 'C17': 'derivative of a factorised solution',
 'C18': 'equality tests', 'C19': 'extended precision', 'C20': 'constructors', 'C21': 'species labels',
}
EXTRA = {
 'C15': 'Every index, iterator and size obligation plus type invariants (row lengths) of all functions; loop invariants inferred and proved. The functions '
        'are also run under AddressSanitizer/UBSan/_GLIBCXX_ASSERTIONS and with two fill patterns of unset storage. NOT proved: update_Z_pole, which leaves the '
        'index_ of its result unset (deprecated, called by nothing). ',
 'C19': 'The BOOST_MP configuration is parsed with the real boost headers; float128 is treated as an exact real, as double is. ',
}
from amivc.lemmas import LEAN
LEMMA = ('Lean checks on every run, over definitions generated from the specification functions: %s. ')
NOTE = ('Every obligation of the functions under contract is generated from the current source and must be discharged, for all inputs and all loop iterations; '
        'the same contracts are also compared with the compiled functions on generated inputs. Trusts the amivc symbolic execution, loop rules and term '
        'normaliser, clang\'s AST and z3. Reals are exact, ints mathematical, exp uninterpreted, 1/0 unspecified, printing dropped. ')
NA = {
 'C22': 'The Python module is pybind11 template glue around the same C++ calls: what it must guarantee (argument conversion, ownership, in-place update of opaque vectors) is decided inside pybind11 and CPython at run time, for which no deductive verifier here has a semantics; a contract could only restate the binding table. Not claimed.',
 'C23': 'Contracts here are over exact reals and complex numbers; a sound forward-error bound for cancellation-prone sums of poles, with exp uninterpreted, is outside every verifier available, and the property is false for ill-conditioned inputs by design (the library offers the overflow heuristic instead).',
}
def check(p):
    return {'property': p, 'quick_cmd': 'python3-vt -m amivc.check %s --tier quick' % p, 'thorough_cmd': 'python3-vt -m amivc.check %s --tier thorough' % p,
            'technique': 'contract-based deductive verification of the C++ source (symbolic execution to verification conditions, equational prover + z3)',
            'level': 'proof', 'level_note': (NOTE + EXTRA.get(p, '') + (LEMMA % '; '.join(LEAN[p][2].values()) if p in LEAN else '')).strip()}
if __name__ == '__main__':
    ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
    na = dict(NA)
    for i in ids:
        if i not in CLAIMED and i not in na:
            na[i] = 'check not built yet'
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; print(z3.get_version_string())" && clang++-18 --version && g++ --version',
         'checks': [check(p) for p in ids if p in CLAIMED], 'not_applicable': [{'property': p, 'reason': na[p]} for p in ids if p in na]}
    json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
    open('/verif/MANIFEST.json', 'a').write('\n')
