#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = [observe]
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

U = 'vts/uni_vts.py'
prop('V01', 'The sign-determination decision procedure is exact',
 "For every system of univariate polynomial constraints with integer or rational coefficients, each of the form p<=0, p<0, p=0 or p!=0, virtual term substitution answers True if and only if some real number satisfies all the constraints at once. "
 "This includes constants, the zero polynomial, repeated and irrational roots, a polynomial listed several times or under several relations, coefficients of any size, and systems stated either as coefficient lists or as symbolic polynomials. "
 "The only excuse for not answering is the documented limit of five polynomials per sign table, which never applies when each polynomial has at most five distinct real roots.",
 ['inputs'], 'all finite systems of univariate constraints over the rationals (each polynomial with at most five distinct real roots)',
 'The verdict depends on the joint sign pattern of several polynomials around shared, repeated or nearly equal roots; the tests check a couple of dozen systems.',
 [U, 'vts/isym.py', 'vts/matrix_of_signs.py'],
 [('exact test points, points just right of a root, and minus infinity', U + ': internal_vts'),
  ('sign of a polynomial at an encoded root', U + ': evaluate_single_on_sign_assignment, e_close_evaluate_single_on_sign_assignment'),
  ('allowed signs per polynomial', U + ': sign_conditions_lookup'),
  ('symbolic entry point', 'vts/isym.py: vts')],
 'return value of internal_vts and isym.vts')
prop('V02', 'Plain term substitution is exact and agrees with sign determination',
 "For every system of univariate constraints p<=0, p<0, p=0, p!=0 with integer or rational coefficients, plain term substitution (evaluating the constraints at roots, infinitesimally right of roots and at minus infinity) answers True if and only if some real number satisfies all the constraints. "
 "Hence the two decision procedures never disagree on a system both of them answer.",
 ['inputs'], 'all finite systems of univariate constraints over the rationals',
 'No test exercises this procedure at all; its verdict depends on the joint sign pattern of all constraints around every root.',
 [U, 'vts/isym.py'],
 [('test points', U + ': internal_ts'), ('evaluation of all constraints at a point', U + ': evaluate, evaluate_poly'), ('symbolic entry point', 'vts/isym.py: ts')],
 'return value of internal_ts and isym.ts')
prop('V03', 'Tarski queries and Cauchy indices are exact counts',
 "For every non-zero polynomial p and every polynomial q, the Tarski query equals the number of distinct real roots of p where q is positive minus the number where q is negative. "
 "The Cauchy index of q/p equals the number of its jumps from minus to plus infinity minus the number of jumps from plus to minus infinity over the whole real line.",
 ['inputs'], 'all pairs of integer polynomials, p not zero, without padding zeros',
 'Sign bookkeeping in remainder sequences fails only for particular combinations of degree drops, leading-coefficient signs and common or repeated roots.',
 [U], [('remainder-sequence count', U + ': signed_remainder_cauchy_index'), ('query', U + ': tarski_query')],
 'return values')
prop('V04', 'Signed pseudo-remainders and remainder sequences keep their sign',
 "Pseudo-dividing f by a non-zero g yields a polynomial of smaller degree than g, without padding zeros, that is a positive multiple of the true remainder of f by g. "
 "The signed remainder sequence of p and q starts with p and q, each later member is a positive multiple of the negated remainder of the two before it, and it ends with a non-zero common divisor of p and q.",
 ['inputs'], 'all pairs of integer polynomials f and g # 0 without padding zeros',
 'The sign is lost only for some combinations of negative leading coefficients and numbers of reduction steps, and inner cancellations.',
 [U], [('pseudo-division', U + ': signed_pseudo_remainder'), ('sequence', U + ': signed_remainder_sequence')], 'return values')
prop('V05', 'Every real root is singled out by its derivative signs',
 "For every polynomial, the root descriptions made from the list of its distinct real roots contain each root exactly once, and every derivative sign recorded for a root is the sign that derivative really has there. "
 "Among the real roots of the polynomial, the recorded signs of a description are met by its own root and by no other.",
 ['inputs'], 'all non-constant integer polynomials and their real roots, including repeated ones',
 'Distinguishing roots needs nested derivatives only for particular multiplicity and sign patterns; tests use a handful of polynomials.',
 [U], [('grouping of roots by derivative signs', U + ': get_discri_der_signs'), ('root description', U + ': DiscDerSigns')],
 'point, all_polies and get_sign of each description')
prop('V06', 'Signs at a root and immediately to its right are exact',
 "Given a description of a real root of a polynomial, the sign computed for any other polynomial is its true sign at that root, and the sign computed for the neighbourhood is its true sign on a small open interval immediately to the right of that root (zero only for the zero polynomial). "
 "Both hold for every goal polynomial, including constants, multiples, factors, derivatives and the described polynomial itself.",
 ['inputs'], 'all non-constant polynomials, each of their real roots, and all goal polynomials, within the limit of five polynomials per sign table',
 'The sign is read off a linear system of Tarski queries; an indexing slip shows only for particular sign combinations.',
 [U, 'vts/matrix_of_signs.py'], [('linear system of Tarski queries', U + ': evaluate_single_on_sign_assignment, pick_sign_of_goal'),
  ('sign to the right by repeated derivation', U + ': e_close_evaluate_single_on_sign_assignment')], 'return values')
prop('V07', 'Coefficient-list arithmetic is exact',
 "On coefficient lists, multiplication, derivation and evaluation agree with polynomial arithmetic for every polynomial and every evaluation point, and leave their arguments unchanged. "
 "The product list of k polynomials contains, in lexicographic order of exponents with the first polynomial's exponent slowest, the 3^k products with exponents 0, 1 and 2.",
 ['inputs'], 'all integer polynomials of any degree, rational and algebraic evaluation points, up to five factors',
 'Convolution bounds and ordering slips show only for particular length combinations.',
 [U], [('product', U + ': multiply'), ('ordered products', U + ': make_product_list'), ('derivative', U + ': derivative'), ('evaluation', U + ': evaluate_poly')], 'return values')
M = 'vts/matrix_of_signs.py'
prop('V08', 'Sign matrices are right whatever the cache has been through',
 "For n from 1 to 5, every request for the matrix of signs of n polynomials returns the n-fold Kronecker power of the 3x3 base matrix, and every request for its inverse returns the exact inverse of that; other sizes are refused. "
 "This holds after every history of earlier requests, of new processes sharing the cache directory, and of processes that died at any point while filling the cache, and nobody ever obtains a partially written matrix.",
 ['histories', 'crash_points', 'schedules'], 'all interleavings of requests, process restarts and crashes during a cache write',
 'Tests never restart a process over an existing cache, let alone one left behind by a crash or being written concurrently.',
 [M], [('memory and disk lookup', M + ': new_get_matrix, new_get_matrix_inverse'), ('disk cache', M + ': write_to_cache, cache_hit, read_cache')],
 'returned matrices; files in ./cache')
I = 'vts/isym.py'
prop('V09', 'Symbolic polynomials convert without changing their meaning',
 "Every symbolic univariate polynomial with rational coefficients, however it is written and whatever its variable is called, converts to the integer coefficient list of a positive multiple of it (the least one clearing the denominators), constant term first and without padding zeros, the zero polynomial to the empty list; converting back gives that multiple as a polynomial in x. "
 "Expressions with several variables or with non-rational coefficients are refused rather than converted.",
 ['inputs'], 'all symbolic univariate polynomial expressions over the rationals',
 'Term ordering, missing powers, cancellation and common denominators interact; tests try a few polynomials.',
 [I], [('symbolic to coefficients', I + ': convert, convert_rationals_to_ints'), ('back', I + ': convert_back')], 'return values')
C = 'vts/checker.py'
prop('V10', 'Turning an implication into clauses preserves its validity',
 "For every implication from a conjunction of polynomial relations to a conjunction of polynomial relations, a real number falsifies the implication if and only if it satisfies all relations of one of the produced clauses; relations that are already decided count with their truth value, and only an implication left without hypothesis or without conclusion is refused. "
 "The produced clauses use no greater-than relations, negating a list of relations replaces each by its exact complement, and distributing a clause over the four relation kinds loses, invents or changes no relation (one that is of none of these kinds is refused, not dropped).",
 ['inputs'], 'all implications over relations <, <=, =, !=, >=, > between univariate polynomials',
 'Soundness is a statement about all assignments; a wrong complement or a lost relation needs particular relation mixes to show.',
 [C], [('clauses', C + ': vts_preformat'), ('complement', C + ': negate_relations'), ('orientation', C + ': rewrite_to_less'), ('distribution', C + ': make_relation_map')], 'return values')
G = 'vts/grf_parser.py'
prop('V11', 'Parsing keeps the meaning of formulas and does not depend on history',
 "Every term, relation and sequent of the input language, at any nesting depth and with any spacing, is parsed to an object whose value (for relations: operator, left and right value, in order) equals that of the text at every assignment of its variables, with exactly the relations of the text, in order, in the antecedent and the succedent. "
 "The result does not depend on what was parsed before, in particular not on the names of variables.",
 ['inputs', 'histories'], 'all texts of the input language and all sequences of parses in one process',
 'Grammar alternatives interact (minus signs, decimals, unary and binary operators) and the parser is module-global state; tests parse a few strings in isolation.',
 [G], [('numbers', G + ': doInt, doReal'), ('variables', G + ': doVariable'), ('terms', G + ': term'), ('relations', G + ': rln'), ('sequents', G + ': cmd')], 'parse results')
E = 'vts/examples_parser.py'
prop('V12', 'Loading examples preserves the problems, merged to one variable',
 "Merging the variables of a list of relations yields, in order, relations of the same kind with right-hand side zero in the single variable x, whose truth at every real value equals that of the original with all variables set to that value; already decided relations stay as they are. "
 "Reading a directory of problem files yields every sequent of every file, in order and under the file's name, and pickled examples read back equal to what was written.",
 ['inputs', 'histories'], 'all lists of relations; all directories of problem files',
 'The statement quantifies over all relations and values; nothing in the test suite touches this module.',
 [E], [('merging', E + ': make_univariate'), ('reading', E + ': parse_files_from_dir'), ('pickles', E + ': write_sympy_parseable_examples, unpickle_dirs, unpickle_dirs_gen')], 'return values')
prop('V13', 'The batch checker calls an implication true exactly when it is valid',
 "For every stored example it processes (an implication between polynomial relations in one variable; it stops after three files), the batch checker reports the formula value True if and only if every real number satisfies the implication, with either decision procedure, and lists precisely the examples it found false. "
 "One example's verdict does not depend on the other examples.",
 ['inputs', 'histories'], 'all collections of up to three files of stored examples within the limits of the decision procedures',
 'End-to-end soundness combines parsing, merging, clause distribution and two decision procedures; no test runs the pipeline.',
 [C, E, I, U], [('batch loop', C + ': check_examples'), ('clauses', C + ': vts_preformat, make_relation_map')], 'the "formula value" lines and the final result map on standard output')
prop('V14', 'The procedures are exact over irrational and infinitesimal coefficients',
 "The univariate procedures (virtual term substitution by sign determination, plain term substitution, Tarski queries, and the signs at and just right of a root) accept coefficients that are real closed field numbers, not only rationals. When coefficients involve sqrt(2), pi and infinitesimals the caller created earlier, the answers are exactly those of the ordered field of these numbers: a system of <=, <, =, != conditions is reported satisfiable if and only if some element of the field's real closure satisfies it; a Tarski query counts the roots exactly; every root is described once, with the correct signs at it and immediately to its right. "
 "In particular roots or coefficients that are infinitely close are never identified, and a nonzero infinitesimal never treated as zero.",
 ['inputs'], 'all polynomials over the ordered field generated by sqrt(2), pi and infinitesimals, of the degrees the procedures support',
 'Tolerances, decimal approximations and infinitesimals of the wrong size are invisible on the rational inputs of the tests.',
 [U], [('procedures', U + ': internal_vts, internal_ts'), ('counts', U + ': tarski_query'), ('signs near roots', U + ': evaluate_single_on_sign_assignment, e_close_evaluate_single_on_sign_assignment'), ('size of the step right of a root', U + ': internal_ts'), ('keys of polynomials', U + ': make_poly_hashabel')], 'return values')
CH = 'highschool_qe/cohenhorm.py'
prop('Q01', 'Cohen-Hormander elimination returns an equivalent condition',
 "For polynomials in one eliminated variable and parameters, the cases returned by the Cohen-Hormander procedure describe exactly the parameter values for which a real solution exists: for every real parameter value, some returned case has all its sign conditions met if and only if some real number makes all given polynomials negative, zero and positive as required. "
 "Without parameters, a case is returned if and only if the system is satisfiable.",
 ['inputs'], 'all systems of sign conditions with at least one polynomial of positive degree in the eliminated variable, and all parameter values',
 'There are no tests of this module that run; equivalence is a statement about all parameter values including those where leading coefficients vanish.',
 [CH, 'highschool_qe/sympywrapper.py'], [('procedure', CH + ': real_full'), ('table construction', CH + ': _real_table, extend_single_table'), ('case split', CH + ': expand_context'), ('condensing', CH + ': copy_table, table_map_back')], 'return value of real_full')
MU = 'highschool_qe/muchnik.py'
prop('Q02', "Muchnik's real elimination returns an equivalent condition",
 "For polynomials in one eliminated variable and at least one parameter, the cases returned by Muchnik's procedure over the reals describe exactly the parameter values for which a real solution exists: for every real parameter value, some returned case has all its sign conditions met if and only if some real number makes all given polynomials negative, zero and positive as required. "
 "The announced overall satisfiability is right for systems without parameters, and the formula printed as the answer is the disjunction of exactly the returned cases.",
 ['inputs'], 'all systems of sign conditions and all parameter values',
 'There are no tests of this module; equivalence is a statement about all parameter values including those where leading coefficients vanish.',
 [MU, 'highschool_qe/sympywrapper.py'], [('procedure', MU + ': real_full'), ('diagram extension', MU + ': real_extend'), ('closure', MU + ': muchnik_sequence')], 'return value and printed summary of real_full')
prop('Q03', "Muchnik's complex elimination returns an equivalent condition",
 "For polynomials in one eliminated variable and at least one parameter, the cases returned by Muchnik's procedure over the complex numbers describe exactly the parameter values for which a complex solution exists: for every parameter value, some returned case has all its zero and non-zero conditions met if and only if some complex number is a zero of all given equations and of none of the given inequations. "
 "The formula printed as the answer is the disjunction of exactly the returned cases.",
 ['inputs'], 'all systems of polynomial equations and inequations and all parameter values',
 'There are no tests of this module; multiplicities and vanishing leading coefficients matter only at special parameter values.',
 [MU], [('procedure', MU + ': complex_full'), ('root diagram extension', MU + ': complex_extend')], 'return value and printed formula of complex_full')
W = 'highschool_qe/cachedsympywrapper.py'
prop('Q04', 'The caching algebra answers like the uncached one, in any order',
 "Every operation of the caching algebra (leading term and coefficient, degree, division, pseudo-division, tail, derivative, variable test and sign) returns exactly what the plain algebra returns for the same arguments, after every sequence of earlier operations. "
 "The operations satisfy their algebraic laws: p equals leading term plus tail, the leading term is the leading coefficient times the variable to the degree, and pseudo-division by q satisfies c*p = quotient*q + remainder with c the leading coefficient of q to the power deg p - deg q + 1 and the remainder of lower degree than q.",
 ['inputs', 'histories'], 'all sequences of algebra operations on polynomials in several variables',
 'A cache key collision needs a particular earlier call; no test uses the cache.',
 [W, 'highschool_qe/sympywrapper.py'], [('lookup and store', W + ': _c_compute, _c_get, _c_put'), ('plain operations', 'highschool_qe/sympywrapper.py: SympyWrapper')], 'return values')
prop('Q05', 'A sign diagram for chosen signs is the true one wherever these signs occur',
 "For polynomials in one eliminated variable and parameters and every choice of signs for the conditions on the parameters (typed interactively, handed in, or all alike), partial elimination builds a diagram with a row for every given polynomial. "
 "At every parameter value at which the conditions have the chosen signs, the real diagram is the sequence of sign vectors the polynomials take from minus to plus infinity (each root and each open interval between neighbouring roots once, and the two infinities), and the complex one has one column per distinct complex root of the polynomials, in which exactly the polynomials with that root vanish. "
 "Signs that occur at some parameter value are never refused; typed answers other than the allowed signs are asked for again.",
 ['inputs', 'histories'], 'all lists of polynomials, all choices of signs, all sequences of typed answers',
 'Whether a diagram is right depends on roots the procedure never computes; no test builds a single diagram.',
 [MU], [('real diagram', MU + ': real_partial, real_extend'), ('root diagram', MU + ': complex_partial, complex_extend'), ('choice of signs', MU + ': r_assignment_*, c_assignment_*, _get_interactive_value'), ('polynomials needed', MU + ': muchnik_sequence')], 'the diagram returned by real_extend / complex_extend')
GS = 'GRF/grf.sage'; S2 = 'GRF/smt2.py'; LS = 'GRF/local_search.py'
prop('G01', 'The relevance filter keeps enough hypotheses and never invents refutations',
 "For every sequent of polynomial relations with rational coefficients, every random choice made while sampling and every sequence of interactive answers, the filtering loop ends, without an error, in one of two ways. "
 "Either it finishes, and then no open set of points satisfies all the used hypotheses and falsifies the goal (in one variable: no rational point does). "
 "Or it reports a counterexample, and then the reported point gives every variable a value, satisfies all hypotheses (used and hidden) and falsifies the goal. "
 "When it ends, every hypothesis is either used or hidden, exactly once, and a hypothesis promoted interactively is the one that was asked for.",
 ['inputs', 'histories'], 'all sequents, random seeds and sequences of interactive answers',
 'There are no runnable tests; whether enough hypotheses were kept is a statement about all points, and the loop state depends on the history of earlier rounds.',
 [GS, LS], [('loop', GS + ': RCF_GD_Decide.check'), ('promotion', GS + ': RCF_GD_Decide.promote_right, RCF_Goal.add_goal_hyp'), ('sampling near a bad point', LS + ': local_search_sampling')], 'outcome of check(), the hypotheses in hyps and goal.goal_hyps afterwards')
prop('G02', 'Relations and goals are evaluated exactly, also when simplified',
 "Evaluating a relation at a point gives its exact truth value there, or no value if the point leaves one of its variables open; negating it any number of times gives exactly the relation or its complement. "
 "A goal is true at a point if and only if its conclusion holds or one of the hypotheses added to it fails there, whichever hypotheses were added in whichever order and whether or not they are simplified modulo the equations among them. "
 "At a point that leaves variables open a goal is called true only if it is true however the point is completed.",
 ['inputs', 'histories'], 'all relations, goals, sequences of added hypotheses, and full or partial rational points',
 'There are no runnable tests; simplification interacts with the history of equations added before.',
 [GS], [('relations', GS + ': RCF_Atom.negate, RCF_Atom.eval_on_dict, RCF_Atom.quotient_ring_inject'), ('goals', GS + ': RCF_Goal.add_goal_hyp, RCF_Goal.eval_on_dict')], 'return values')
prop('G03', 'Reading formulas in prefix notation keeps their meaning',
 "Reading a text of relations in prefix notation (decimal numerals, ~ for negative ones, variables, + - * /, the six relation symbols, any spacing) yields exactly the relations it states, in order, with the same operator and with polynomials that are equal up to a positive factor. "
 "Distinct names stand for distinct variables and the same name for the same variable throughout, also across texts read one after the other.",
 ['inputs', 'histories'], 'all texts of the grammar and sequences of texts', 'No runnable tests; the polynomial ring grows while a text is read.',
 [S2], [('grammar', S2 + ': ParseSMT.__init__'), ('variables', S2 + ': SMTContext.get_ring_var')], 'return value of fmlsTokenList')
prop('G04', 'Sampling reaches every open cell',
 "For every set of polynomials with rational coefficients, the sample points computed give every variable a rational value and meet every open cell: each combination of strict signs the polynomials take on an open set of points is taken at one of the sample points.",
 ['inputs'], 'all finite sets of polynomials and random seeds',
 'No runnable tests; a cell is missed only for particular positions of roots, common or repeated factors, and elimination orders.',
 [GS], [('projection', GS + ': QE_Factory.projection_phase, bm_proj, filter_proj_set'), ('root isolation', GS + ': QE_Factory.iso_root_intvls'), ('sample points', GS + ': QE_Factory.sector_sps, lifting_phase')], 'return value of sample_pt_dicts')
prop('G05', 'Bad subsets are exact and the suggested hypotheses rule them all out lightest',
 "At a point where the goal is false, the bad subsets computed are sets of hypotheses that hold together at a sampled point where the goal is false; every such set is contained in one of them and there is at least one; a point where all hypotheses hold is reported as a counterexample; at a point where the goal is true there is nothing to rule out. "
 "The suggested hypotheses contain, for every bad subset, one outside it, and no other choice with that property weighs less.",
 ['inputs'], 'all hypotheses, goals, sampled points and collections of bad subsets',
 'No runnable tests; minimality is a statement about all subsets.',
 [GS], [('bad subsets', GS + ': RCF_GD_Decide.bad_subsets_on_dict'), ('suggestion', GS + ': RCF_GD_Decide.good_hyps, weight_hyps')], 'return values')
prop('G06', 'Hide lists name hypotheses of the sequent that are not needed',
 "For every problem text of sequents, run as a command text or from a file, the positions reported to hide exist in the antecedent and the succedent of the sequent as given, are distinct, never include the goal (the last succedent), and are reported under the name of that sequent; hiding them leaves no open set of points on which the remaining sequent is false. "
 "A reported counterexample falsifies the sequent. The numbers returned for a file are the lengths of the lists written. Earlier sequents of the same text do not affect later ones.",
 ['inputs', 'histories'], 'all problem texts of one or more sequents, and random seeds', 'No runnable tests; positions are computed after succedents have been negated and moved.',
 [S2, GS], [('sequents', S2 + ': SMTContext.perform_grf'), ('files', S2 + ': grf_on_file')], 'hiding_result, the result file and the return value')
prop('G07', 'The neighbourhood search proposes points that can matter and loses none',
 "For every sequent, every starting point, every random choice and whatever the numerical solver answers, the neighbourhood search comes back with the starting point itself, points around it in every variable, and points at or around (within 0.01 of) places the solver reached. "
 "Each of them assigns a value to exactly the variables of the starting point. Away from the start all of them falsify the main goal, and no place the solver reached at which the goal sequent fails is lost. "
 "The solver is called in chains that begin at the starting point and go on from where the solver got. Each time, it is sent where the polynomial of a withheld hypothesis has just crossed to the side of zero opposite to its sign there (either side, if it is zero there); that hypothesis is one that holds at the place the solver starts from whenever some withheld hypothesis does. "
 "With nothing withheld only the surroundings of the start are looked at. Searches on other problems before do not matter.",
 ['inputs', 'histories'], 'all sequents, starting points, solver answers, random seeds, and sequences of searches in one process', 'No test runs a search; what it returns depends on random choices, on the numerical solver and on state kept between searches.',
 [LS, GS], [('search', LS + ': local_search_sampling'), ('choice of a hypothesis', LS + ': choose_atom_true, choose_atom_random'), ('function handed to the solver', LS + ': get_num_flipping_func'), ('order of variables', LS + ': VarOrder')], 'points returned by RCF_GD_Decide.sample_points and calls of scipy.optimize.fsolve')

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
