#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json
C='src/ami_base_construct.cpp'; H='src/ami_base.hpp'; E='src/ami_base_evaluate.cpp'
T='src/ami_base_terms.cpp'; TE='src/ami_base_terms_evaluate.cpp'; O='src/ami_base_optimize.cpp'; TO='src/ami_base_terms_optimize.cpp'
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
p('C01','Pole search finds exactly the zeros of the integrand, with multiplicity',
 'For every product of Green\'s functions and every integration frequency, the pole search reports each distinct location at which a factor depending on that frequency vanishes exactly once, in order of first appearance, with its multiplicity and the positions of all factors vanishing there, no derivative taken yet, and no dependence on the integrated frequency itself. The location is minus the frequency coefficient times the factor\'s remaining frequency and energy combination. Nothing is left out except, while dropping of Matsubara poles is on (the default), locations with no energy content and an odd number of frequencies; an index beyond the frequency list, or an empty product, yields no poles.',
 ['inputs'],'all products of any length, any coefficient vectors of equal length, all indices, both settings of the drop option',
 'Only the number of poles of one sixth-order integrand without repeated poles is tested; locations, attached factors, multiplicities > 1 and dropped poles never are.',
 [C],[('find_poles',C+':find_poles'),('pole_equiv',C+':pole_equiv')])
p('C02','Residue substitution removes the integrated frequency exactly',
 'Substituting a pole into a Green\'s function (or into another pole) gives a line of the same size with zero coefficient on the integrated frequency, whose every other frequency and energy coefficient is the original one plus the coefficient of the integrated frequency times the pole\'s. Hence for all numerical frequencies and energies the new denominator equals the old one evaluated with the integrated frequency at the pole. The inputs are not changed.',
 ['inputs'],'all lines, poles and indices of matching sizes, all numerical frequencies and energies',
 'The one substitution test discards its result; the numerical test sees it only through one fourth-order sum.',
 [C],[('update_G_pole',C+':update_G_pole'),('update_Z_pole',C+':update_Z_pole')])
p('C03','A first-order pole leaves every other line, with the right sign',
 'For a pole of multiplicity one the residue is the product, in the original order, of all lines other than the one the pole came from, each with the pole substituted. Its prefactor is the coefficient of the integrated frequency in the line the pole came from. In the term-by-term format the prefactor multiplies the incoming one and the pole is appended after the poles already collected.',
 ['inputs'],'all products, all poles attached to one of their lines, all incoming terms',
 'No test looks at a single residue, its order, its sign or the poles carried along.',
 [C,T],[('simple_residue',C+':simple_residue'),('get_simple_sign',C+':get_simple_sign'),('integrate_step',T+':integrate_step')])
p('C04','A higher-order pole yields the full product-rule derivative',
 'For a pole of multiplicity M the result is obtained by removing the M vanishing lines, starting from the product of their frequency coefficients divided by (M-1)! (times the incoming prefactor), differentiating M-1 times with respect to the integrated frequency, and only then substituting the pole. One differentiation of a term gives one term with the occupation derivative raised by one, plus one term per line depending on that frequency, with that line doubled and the sign multiplied by minus its coefficient, and the other lines untouched. Both storage formats follow this expansion, term for term.',
 ['inputs'],'all products, multiplicities and pole positions, with factorials representable in an int',
 'Two tests take a single derivative of a three-line product; repeated differentiation, signs, factorials and the term-by-term variant are not tested apart from one fourth-order sum with one double pole.',
 [C,T],[('take_derivative_gprod',C+':take_derivative_gprod'),('evaluate_general_residue',C+':evaluate_general_residue'),('get_starting_sign',C+':get_starting_sign'),('reduce_gprod',C+':reduce_gprod'),('factorial',C+':factorial'),('terms_general_residue',T+':terms_general_residue'),('take_term_derivative',T+':take_term_derivative')])
p('C05','Signs, poles and products stay aligned at every integration step',
 'Constructing with N integrations yields N+1 levels of products and N levels of signs and of poles; the first level is the integrand alone. At every level the sign and pole lists have one entry per incoming product, equal lengths, and in concatenated order correspond one to one to the products of the next level, produced pole by pole in the order of the pole search, by the first-order or higher-order residue rule according to multiplicity. Earlier contents of the output arrays do not matter.',
 ['inputs','histories'],'all integrands, numbers of integrations and earlier contents of the outputs',
 'Only the total number of final products of one integrand is compared with the term count.',
 [C],[('construct (arrays)',C+':construct'),('update_gprod_general',C+':update_gprod_general')],
 [('R_array','products per level',H+':R_t'),('P_array','poles per level',H+':P_t'),('S_array','signs per level',H+':S_t')])
p('C06','Term-by-term and array constructions describe the same sum',
 'For every integrand and number of integrations the term-by-term construction yields as many terms as the array construction has final products, in the same order, with identical lines. Each term\'s prefactor times the product of its occupation factors equals the coefficient the array evaluation attaches to that final product. Hence both formats evaluate to the same number for all external values.',
 ['inputs'],'all integrands, numbers of integrations, external values and parameters (real arithmetic)',
 'One integrand at one external point is compared.',
 [C,T,E,TE],[('construct (terms)',T+':construct'),('integrate_step',T+':integrate_step'),('terms_general_residue',T+':terms_general_residue'),('cross',E+':cross'),('evaluate (terms)',TE+':evaluate')])
p('C07','Array evaluation is the nested sum it documents',
 'Evaluating a stored solution with N>0 integrations gives the sum over final products of coefficient times product value, where a coefficient is the product along its path through the levels of sign times occupation value, and the path order is that of construction. With N=0 it is the value of the integrand. The value of a product is the overall prefactor times the product of 1/(frequency combination + energy combination); an empty level makes the result zero.',
 ['inputs'],'all stored solutions of consistent shape, all external values and parameters (real arithmetic)',
 'One stored solution is evaluated at one external point with prefactor 1.',
 [E],[('evaluate',E+':evaluate'),('star',E+':star'),('cross',E+':cross'),('dot',E+':dot'),('fermi',E+':fermi'),('eval_gprod',E+':eval_gprod')])
p('C08','Term evaluation sums prefactor, occupation factors and lines of every term',
 'Evaluating a term list gives the sum over all its terms of prefactor times the product of its occupation values times its product value (including the overall prefactor once per term). An empty list gives zero and a term without poles or lines contributes the empty product for them.',
 ['inputs'],'all term lists, all external values and parameters (real arithmetic)',
 'One list at one external point with prefactor 1 is evaluated.',
 [TE,E],[('evaluate (terms)',TE+':evaluate'),('evaluate_term',TE+':evaluate_term'),('eval_fprod',TE+':eval_fprod'),('eval_gprod',E+':eval_gprod')])
p('C09','Factorisation is lossless',
 'Factorising any list of products gives a list of unique lines, groups and per-group references such that every product of the list belongs to exactly one group, with a sign, and equals that sign times the product of the unique lines the group refers to. Two lines are identified only if they agree up to an overall sign and have the same species, and products with no lines keep their place. Results do not depend on the earlier contents of the outputs.',
 ['inputs','histories'],'all lists of products (including empty ones and repeated lines), all earlier contents of the outputs',
 'The factorised structures are built once and never inspected; the optimised values computed from them are discarded.',
 [O,TO],[('factorize_Rn',O+':factorize_Rn'),('reduce_rref',O+':reduce_rref'),('pair_v_equiv',O+':pair_v_equiv'),('g_struct_equiv',O+':g_struct_equiv'),('factorize_terms',TO+':factorize_terms')])
p('C10','Optimised evaluation equals plain evaluation',
 'For every solution, in either format, evaluating with the data from its own factorisation gives the same value as evaluating without it, for all external values including any overall prefactor. With other data, such as a differentiated factorisation, its value is the sum over groups of prefactor times the factor-weighted sum of the members' coefficients times the product of the unique lines referred to. Without factorisation data (any part empty) the optimised call returns the plain value.',
 ['inputs'],'all solutions and external values, any overall prefactor (real arithmetic)',
 'The test computes both optimised values and compares neither; prefactors other than 1 are never used.',
 [E,TE,O],[('evaluate (optimised arrays)',E+':evaluate'),('optimized_star',E+':optimized_star'),('evaluate (optimised terms)',TE+':evaluate')])
p('C11','Occupation functions and their derivatives are exact at every order',
 'For every order m, inverse temperature and energy, the occupation routine returns the m-th energy derivative of 1/(s*exp(beta*E)+1), s=+1 for Fermi and -1 for Bose, away from its poles. The combinatorial coefficients it uses are the alternating binomial sums, with exact binomial coefficients for every order whose intermediate integers fit.',
 ['inputs'],'all orders up to 29, both statistics, all complex energies and real inverse temperatures (exact real arithmetic)',
 'Orders 0, 1, 2 and 5 are tested at one energy.',
 [E],[('fermi_bose',E+':fermi_bose'),('frk',E+':frk'),('binomialCoeff',E+':binomialCoeff')])
p('C12','Each pole is evaluated with the right statistics, energy and options',
 'A pole\'s occupation value is the derivative of its recorded order at its energy combination (plus any spectral frequency shift), Bose when the pole holds an odd number of fermionic frequencies and Fermi otherwise; internal frequencies are fermionic and the last one counts unless the graph type makes the external line bosonic, and for double-occupancy or bosonic-external evaluations a pole of the last index gets one more and an overall minus sign. The regulator is added to a Bose pole at exactly zero energy and otherwise along the sign of the real energy. Dropping of derivatives or of Bose divergences gives zero exactly in those cases.',
 ['inputs','configurations'],'all poles, external values, graph types, regulators and option settings',
 'Only the default configuration with a zero regulator is exercised, at one point.',
 [E],[('fermi_pole',E+':fermi_pole'),('get_energy_from_pole',E+':get_energy_from_pole'),('get_energy_from_g',E+':get_energy_from_g')])
p('C13','On-the-fly evaluation only merges numerically coinciding lines',
 'On-the-fly evaluation returns the plain value whenever no line of the stored products has a nonzero energy combination that evaluates to exactly zero and no two lines of one product have different energy combinations of equal value. Otherwise it changes only lines at the earliest such level, replacing an energy combination by one of equal numerical value (zero for a vanishing one), rebuilds all later levels by the ordinary construction step and evaluates the rebuilt solution in the same way. The stored solution passed in is left unchanged.',
 ['inputs'],'all stored solutions and external values',
 'No test calls on-the-fly evaluation.',
 [E],[('evaluate_otf',E+':evaluate_otf'),('detect_otf_trigger',E+':detect_otf_trigger'),('get_triggers',E+':get_triggers'),('find_equal_values',E+':find_equal_values')])
p('C14','Calls neither change their inputs nor depend on earlier calls',
 'Construction, evaluation and factorisation leave every input (integrand, parameters, stored solution, factorised data, external values) and the option settings unchanged. Their results are a function of those inputs and settings alone: not of earlier calls on the same object, nor of what the output arguments held before. In particular repeating an evaluation gives the same value and the same overflow flag.',
 ['histories','inputs'],'all sequences of calls on one object, all inputs and earlier output contents',
 'Each test makes one call per fresh object.',
 [H,C,E,T,TE,O,TO],[('construct','src/*construct*.cpp, src/ami_base_terms.cpp'),('evaluate','src/*evaluate.cpp'),('factorize','src/*optimize.cpp')],
 [('overflow_detected','set during evaluation',H+':AmiBase')])
p('C15','No out-of-range access for any well-formed input',
 'For every integrand whose lines all carry equally many frequency and equally many energy coefficients, with no more integrations than frequencies, construction, evaluation with external lists of matching length, and factorisation never read or write outside a container, never read an unset value and never wrap an unsigned size. This includes empty products, levels without poles and poles of any multiplicity.',
 ['inputs'],'all well-formed integrands, solutions and external values',
 'Six integrands-worth of shapes are run, without sanitizers.',
 [C,E,T,TE,O,TO],[('all of the construction, evaluation and optimisation routines','src/*.cpp')])
p('C16','The overflow flag reports the latest evaluation only',
 'Every evaluation clears the overflow flag first, so that afterwards it depends on that evaluation alone. In array evaluation it is raised whenever an occupation derivative, a real coefficient part, or the real or imaginary part of a summand exceeds the configured cutoff in magnitude; in optimised evaluation whenever an occupation derivative, a unique line value or a summand does. Once raised it stays raised until the next evaluation.',
 ['histories','inputs'],'all sequences of evaluations, all solutions, external values and cutoffs',
 'The flag is never read by any test.',
 [E,TE],[('overflow_detected',E+':evaluate, star, optimized_star, fermi_bose'),('overflow_detected',TE+':evaluate, evaluate_term')],
 [('overflow_detected','flag',H+':AmiBase'),('precision_cutoff','threshold',H+':AmiBase')])
p('C17','Differentiating a factorised solution follows the product rule',
 'Differentiating a factorised solution with respect to the last frequency replaces every group by one group per referenced line depending on that frequency, in order, with that reference doubled and the group\'s member signs multiplied by minus the line\'s coefficient of that frequency. Lines not depending on it contribute nothing and the unique lines are unchanged.',
 ['inputs'],'all factorised solutions',
 'No test calls it.',
 [O],[('derivative_opt',O+':derivative_opt')])
p('C18','Equality tests between poles and between lines are exact',
 'Two poles (two lines) are reported equal exactly when their frequency lists and their energy lists have equal length and equal entries. The signed comparison of lines succeeds exactly when species agree and all coefficients agree or all are opposite, reporting +1 or -1 accordingly and 0 on failure (for lines not identically zero). Two reference lists are reported equivalent, in any order, only if they refer to the same lines equally often, and the reported signs are the products of their signs.',
 ['inputs'],'all pairs of poles, lines and reference lists',
 'Five pairs of poles are compared; signed comparison and reference lists never.',
 [C,O],[('pole_equiv',C+':pole_equiv'),('g_equiv',C+':g_equiv'),('g_struct_equiv',O+':g_struct_equiv'),('pair_v_equiv',O+':pair_v_equiv')])
p('C19','The multiprecision build computes the same formulas',
 'With extended precision compiled in, product values, term values and plain and optimised evaluations are the same mathematical functions of their inputs as in the standard build, differing only in rounding, and raise the overflow flag under the same conditions.',
 ['configurations','inputs'],'all solutions and external values, both build configurations (real arithmetic)',
 'The tests run with extended precision off; the code is only compiled.',
 [E,TE],[('eval_gprod_mp',E+':eval_gprod_mp'),('evaluate_term_mp',TE+':evaluate_term_mp'),('optimized_star (BOOST_MP)',E+':optimized_star'),('evaluate (terms, BOOST_MP)',TE+':evaluate')])
p('C20','Value containers keep what they are given',
 'Constructing external variables, parameters, lines, poles and terms stores every argument in its own place. What is not given takes the documented default: overall prefactor 1, inverse temperature 0, no spectral broadening, one external variable, Fermi statistics (effective statistics equal to statistics), species 0, multiplicity 1, no derivative, sign 1, matching tolerance 1e-12 and no regulator.',
 ['inputs'],'all arguments of all constructors',
 'The tests use a few constructors with one value each and never read fields back.',
 [H],[('constructors',H+':ami_vars, ami_parms, g_struct, pole_struct, term')])
p('C21','Species labels survive every Matsubara sum',
 'The species label of every line of the integrand is carried unchanged by every line derived from it through residues, derivatives and substitutions, in both storage formats, into the final expression. Factorisation never identifies lines of different species.',
 ['inputs'],'all integrands with arbitrary species labels',
 'No test sets a species label.',
 [H,C,T,O],[('update_G_pole',C+':update_G_pole'),('g_struct_equiv',O+':g_struct_equiv')])
p('C22','The Python module gives the same results as the C++ library',
 'Every construct, factorise and evaluate call made from Python returns exactly what the same call returns in C++, and output arguments are updated in place.',
 ['inputs'],'all inputs expressible in Python',
 'No test loads the Python module.',
 ['pyami_src/pyami_wrapper.cpp'],[('bindings','pyami_src/pyami_wrapper.cpp')])
p('C23','Evaluation is numerically accurate',
 'For every input whose exact value is representable, the floating-point result is within a small relative error of the exact value or the overflow flag is raised.',
 ['inputs'],'all inputs, in floating-point arithmetic',
 'One value is compared to 1e-11.',
 [E,TE],[('fermi_bose',E+':fermi_bose'),('eval_gprod',E+':eval_gprod')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
