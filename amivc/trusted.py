"""What the results rest on (copied into every evidence file)."""

BASE = [
    'clang 18 front end (JSON AST of /repo/src, the text that is compiled)',
    'amivc symbolic execution: its semantics of the C++ constructs it accepts, of std::vector, std::pair, std::complex and the std algorithms used',
    'amivc term normalisation and loop rules (closed forms of inferred loop invariants)',
    'z3 4.x for the quantifier-free goals left after normalisation',
]

ASSUMPTIONS = [
    'double is treated as an exact real, complex<double> as a complex number; rounding is not modelled',
    'int, unsigned and size_t are treated as mathematical integers; overflow of int is not modelled (wrap-around of unsigned differences is an obligation of C15)',
    '1/0 is an unspecified value (inv(0)); formulas are compared as rational functions',
    'exp is an uninterpreted function in the contracts',
    'statements that only print are dropped from the extracted code',
    'recursion (factorial, detect_otf_trigger) is verified for partial correctness',
    'memory allocation does not fail; exceptions are not modelled',
]


def per_property(chk):
    out = []
    for l, f in chk.functions.items():
        if f['dropped_output_statements']:
            out.append('%s: %d output statements dropped by the extraction' % (l, f['dropped_output_statements']))
    for b in chk.bounded:
        out.append('bounded, not proved: %s (%s)' % (b.get('obligation') or b.get('function'), b['reason'][:200]))
    return out
