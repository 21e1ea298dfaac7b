"""All contracts, lemma schemas and axioms, and which of them decide which property."""
from . import poly, tarski, system, dds, signmat, conv, sequent, cachealg, grammar
U = 'vts/uni_vts.py'
FILES = ['vts/uni_vts.py', 'vts/matrix_of_signs.py', 'vts/isym.py', 'vts/checker.py', 'vts/examples_parser.py']
POLY = [U + ':' + f for f in ('derivative', 'evaluate_poly', 'multiply', 'make_product_list')]
SREM = [U + ':' + f for f in ('signed_pseudo_remainder', 'signed_remainder_sequence')]
TAQ = SREM + [U + ':' + f for f in ('derivative', 'multiply', 'signed_remainder_cauchy_index', 'tarski_query')]
DDS = [U + ':DiscDerSigns.' + m for m in ('__init__', 'add_pos_poly', 'add_neg_poly', 'add_zer_poly', 'set_origin_poly', 'get_all_polies', 'get_sign')]
SIGN = TAQ + [U + ':make_product_list', U + ':make_poly_hashabel'] + DDS + [U + ':' + f for f in ('pick_sign_of_goal', 'evaluate_single_on_sign_assignment', 'e_close_evaluate_single_on_sign_assignment')]
SMAT = ['vts/matrix_of_signs.py:' + f for f in ('get_matrix', 'get_matrix_inverse', 'new_get_matrix', 'new_get_matrix_inverse')]
CONV = ['vts/isym.py:' + f for f in ('convert_rationals_to_ints', 'convert', 'convert_back')]
PROPS = {
    'C02': dict(functions=[U + ':' + f for f in ('evaluate_poly', 'evaluate', 'internal_ts')] + CONV[:2] + ['vts/isym.py:ts']),
    'C13': dict(functions=[U + ':' + f for f in ('make_poly_hashabel', 'sign_conditions_lookup')]),
    'C06': dict(functions=[U + ':' + f for f in ('make_poly_hashabel', 'derivative', 'evaluate_poly') ] + DDS + [U + ':get_discri_der_signs']),
    'C03': dict(functions=TAQ),
    'C04': dict(functions=SREM),
    'C08': dict(functions=POLY),
    'C05': dict(functions=SIGN + SMAT),
    'C07': dict(functions=SMAT),
    'C09': dict(functions=CONV + ['vts/isym.py:ts', 'vts/isym.py:vts']),
    'C10': dict(functions=['vts/checker.py:' + f for f in ('rewrite_to_less', 'negate_relations', 'vts_preformat', 'make_relation_map')]),
    'C11': dict(functions=['vts/examples_parser.py:make_univariate']),
    'C12': dict(files=[grammar.G], functions=[grammar.G + ':' + n for n in ('term', 'rln', 'cmd')]),
    'C16': dict(files=cachealg.FILES, n=90, functions=sorted(cachealg.contracts())),
    'C01': dict(functions=SIGN + SMAT + [U + ':' + f for f in ('sign_conditions_lookup', 'evaluate_on_sign_assignment', 'e_close_evaluate_on_sign_assignment', 'get_discri_der_signs', 'evaluate_poly', 'internal_vts')] + CONV[:2] + ['vts/isym.py:vts']),
}
POLYL, ALLL = ('RagPoly.lean',), ('RagPoly.lean', 'RagSigns.lean', 'RagCounts.lean', 'RagSturm.lean')
for _k, _l in (('C01', ALLL), ('C02', ('RagPoly.lean', 'RagSigns.lean')), ('C03', ALLL), ('C04', POLYL), ('C05', ALLL), ('C06', ('RagPoly.lean', 'RagSigns.lean')), ('C07', ('RagCounts.lean',)), ('C08', POLYL)):
    PROPS[_k]['lean'] = _l
# mathematical facts the solvers get as axioms -> the Lean theorem (lean/*.lean, checked on every run) that says the same.
# That the axiom and the theorem say the same is read off, not checked by a machine.
LEMMAS = {
    'poly.lem_ev_mul': 'RagPoly ev_mul: the value of a convolution is the product of the values',
    'poly.lem_tnz_mul': 'RagPoly tnz_mul: the leading coefficient of a convolution of non-zero trimmed lists is not zero',
    'tarski.lm_sr': 'RagPoly sr_base, sr_step0, sr_step: one division step with a positive multiplier keeps "congruent to a positive multiple modulo g"',
    'tarski.basics2': 'RagSturm isrs_len: a signed remainder sequence for p, q starts with p, q',
    'tarski.lem_cauchy (1)': 'RagSturm cauchy_index_of_chain: variations at -inf minus variations at +inf of a signed remainder sequence are the Cauchy index of q/p',
    'tarski.lem_cauchy (2)': "RagSturm cauchy_index_tarski: the Cauchy index of p'q/p is the sum of the signs of q over the distinct real roots of p",
    'system.ax_places': 'RagSigns right_sign, sign_neginf, ok_signs: signs just right of a number and at minus infinity',
    'system.ax_sat': 'RagSigns place_real, test_points: a system of sign conditions is satisfiable iff it holds at minus infinity, at a root of a <= or = polynomial or just right of a root of a < or /= polynomial',
    'dds.lem_thom': "RagSigns thom, thom_unfold: different roots of p differ in the sign of some derivative (Thom's lemma)",
    'dds.ax_count': 'RagCounts taq_products, sign_matrix_inverse, count_unique: inverse sign matrix times Tarski queries of the products = number of roots per sign vector; the count at a root separated from the others is 0 or 1 and tells the sign',
    'dds.ax_base / code of sign vectors': 'RagCounts code_sum, code_append (and the induction that bounds the code is discharged by z3 on every run)',
    'signmat: Kronecker powers of the base matrix': 'RagCounts kp_kron, KP_invertible',
}
def all_contracts():
    C = {}
    for m in (poly.contracts(), tarski.contracts2(), system.contracts(), dds.contracts(), signmat.contracts(), conv.contracts(), sequent.contracts(), cachealg.contracts(), grammar.contracts()): C.update(m)
    return C
def axioms():
    return poly.basics() + [poly.lem_ev_mul(), poly.lem_tnz_mul()] + poly.alltnz_def() + tarski.basics2() + tarski.lem_cauchy()
def lemmas(): return [poly.lm_evprod, tarski.lm_sr, tarski.lm_isrs]
def sums():
    d = {}
    d.update(poly.spec_sums()); d.update(tarski.spec_sums2()); d.update(dds.spec_sums3()); d.update(conv.spec_sums5()); d.update(sequent.spec_sums6())
    return d
def ext():
    d = poly.ext_pow()
    for m in (system.ext(), system.ext_str(), dds.ext3()): d.update(m)
    d.update(signmat.ext4(d)); d.update(conv.ext5()); d.update(sequent.ext6(dict(d))); d.update({k: v for k, v in cachealg.ext7().items() if k not in d})
    return d
def opts():
    d = dict(signmat.opts4(), ignored_globals={(U, 'log')})
    d['consts'] = dict(d.get('consts', {}), **sequent.consts())
    d['cellify'] = (cachealg.CW, cachealg.cellify)
    return d
TRUSTED = ['the verification condition generator pyded: its semantics of the Python 2 subset it accepts (anything else is rejected, not skipped), checked only by the bounded cross-check on the real interpreter',
    'z3, cvc5 (an obligation counts as discharged when one of them answers unsat) and the Lean kernel',
    'closed forms pyded uses for loops and comprehensions whose body has a recognised shape (map, filter, accumulation, search, zip, in-place update): each use is proved by induction on every run except those in coverage.loop_closed_forms.left_as_assumption; that the auxiliary functions they are written with exist (partial sums, first/last index, selected subsequence) is argued in DESIGN.md',
    'that the axioms of contracts/*.py say what the Lean theorems listed in LEMMAS say']
ASSUMPTIONS = ['coefficients are exact numbers (integers, rationals or z3rcf numbers), modelled as mathematical reals; no floats',
    'lists passed as polynomials are not shared with other arguments unless a contract says so; no other thread changes them',
    'z3rcf (MkRoots, MkInfinitesimal), sympy (Poly, Rational, lcm, Matrix, TensorProduct, inv), pyparsing, pickle and os behave as their assumed contracts say: per function under assumed_external',
    'recursion depth, memory and running time are not limited']
NA = {
    'C14': 'The equivalence rests on the correctness of recursive saturation over sign tables (sign-invariance of the derivative/remainder closure and the interpolation of roots between table columns), a theorem about the tree of all case splits over multivariate polynomials held in mutable blist containers and sympy objects; stating it needs quantified formulas over real-closed fields as specification objects, which the contracts of this framework (first-order obligations over coefficient lists) cannot express. The module also cannot be imported here: its container library blist is not installed.',
    'C15': 'As for C14: the postcondition is equivalence of a returned quantifier-free formula with an existential formula over all real or complex assignments, produced by a recursive closure over multivariate sympy polynomials; no first-order contract within reach of the verifier expresses it, and a bounded comparison on examples would be a different technique.',
}
