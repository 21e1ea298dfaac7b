import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
U="vts/uni_vts.py"; MS="vts/matrix_of_signs.py"; IS="vts/isym.py"; CH="vts/checker.py"; EP="vts/examples_parser.py"; GP="vts/grf_parser.py"
p("C01","Virtual term substitution decides satisfiability",
 "Given any finite lists of non-zero univariate polynomials required to be <= 0, < 0, = 0 and != 0, the virtual-term-substitution procedure, whenever it returns, returns true exactly when some real number meets all of the constraints at once. In particular no list is ignored, order and repetition of the constraints do not matter, and the case without constraints is satisfiable.",
 ["inputs"],"all finite systems of non-zero univariate polynomials with integer coefficients, of every degree and number of constraints",
 "The suite decides a few dozen fixed systems; the space of systems is infinite and a wrong strictness or a missing test point shows only for particular root configurations.",
 [U],[("internal_vts",U),("evaluate_on_sign_assignment / e_close_evaluate_on_sign_assignment",U),("sign_conditions_lookup",U)],obs=["internal_vts return value","isym.vts return value"])
p("C02","Term substitution decides satisfiability",
 "Given any finite lists of non-zero univariate polynomials required to be <= 0, < 0, = 0 and != 0, the term-substitution procedure, whenever it returns, returns true exactly when some real number meets all of the constraints; evaluating a system at a point fails exactly when at least one constraint is violated at that point.",
 ["inputs"],"all finite systems of non-zero univariate polynomials with integer coefficients; all evaluation points of the ordered field extension",
 "No stable test runs this procedure at all, and sampling cannot cover all systems.",
 [U,IS],[("internal_ts",U),("evaluate",U),("ts",IS)],obs=["internal_ts return value","evaluate: returns or raises ConditionExc"])
p("C03","Tarski query counts roots by the sign of the query polynomial",
 "For every non-constant polynomial p and every non-zero polynomial q, the Tarski query equals the number of distinct real roots of p at which q is positive minus the number at which q is negative. The Cauchy-index computation it rests on counts sign changes of the leading behaviour of a signed remainder sequence at minus and plus infinity and subtracts the second from the first.",
 ["inputs"],"all pairs of polynomials with integer coefficients (p of degree at least one, q non-zero, both without leading zero coefficients)",
 "Tests check a handful of pairs; errors in sign handling appear only for particular degrees, signs and gaps in the remainder sequence.",
 [U],[("tarski_query",U),("signed_remainder_cauchy_index",U),("signed_remainder_sequence",U)],obs=["tarski_query return value","signed_remainder_cauchy_index return value"])
p("C04","Signed remainder sequences are genuine signed remainder chains",
 "The signed pseudo remainder of f by g is congruent, modulo g, to a strictly positive multiple of f, has lower degree than g and no leading zero coefficient, and leaves its arguments unchanged; dividing a non-empty f by the empty polynomial is an error. The signed remainder sequence starts with its two arguments, every later element is minus the signed remainder of the two before it, and it stops exactly when the next remainder vanishes.",
 ["inputs"],"all coefficient lists f (leading zeros allowed) and all g without leading zeros; all pairs starting a sequence",
 "Tests compare a few concrete remainders; a sign or positivity error appears only for particular sign and degree combinations.",
 [U],[("signed_pseudo_remainder",U),("signed_remainder_sequence",U)],obs=["return values of both functions"])
p("C05","Signs at an algebraic root and just to its right are computed exactly",
 "For a root of a polynomial singled out by derivative signs, the computed sign of any other non-zero polynomial is its sign at that very root, and the computed 'just to the right' sign is the sign it takes on a sufficiently small open interval to the right of the root. The exact answers are obtained by inverting the sign matrix on a vector of Tarski queries, and an inconsistent count vector is rejected with an error rather than answered.",
 ["inputs"],"all polynomials, all discriminated roots with any number of discriminating derivatives, all goal polynomials, all count vectors",
 "Tests look at a few roots with at most two discriminating polynomials; the index arithmetic over 3^n sign combinations is not exercised in general.",
 [U,MS],[("evaluate_single_on_sign_assignment",U),("pick_sign_of_goal",U),("e_close_evaluate_single_on_sign_assignment",U)],obs=["return values or exceptions of these functions"])
p("C06","Derivative signs discriminate every root uniquely",
 "Given the distinct real roots of a polynomial, the discrimination returns exactly one descriptor per root, whose recorded derivatives and signs are true at that root, are pairwise different polynomials, and hold together at no other of the given roots. Descriptors report for each recorded polynomial the sign it was recorded with.",
 ["inputs"],"all polynomials and all non-empty or empty lists of their distinct real roots",
 "Tests check counts for a few polynomials; separation has to hold for every root configuration, including multiple roots and ties in the first derivatives.",
 [U],[("get_discri_der_signs",U),("DiscDerSigns",U)],
 state=[("all_polies / lookup of a descriptor","recorded discriminating polynomials and their signs","DiscDerSigns")],obs=["returned descriptors"])
p("C07","Sign matrices and inverses are right whatever the call and cache history",
 "For n = 1..5 the sign matrix is the n-fold Kronecker power of the base matrix and the inverse matrix is its exact inverse, no matter in which order they were requested before, whether they come from memory, from the on-disk cache or are computed afresh, and in which process the cache files were written, as long as the cache directory can be written and files in it are complete. Non-integer, non-positive and too large arguments are rejected with an error, except that an already stored matrix may be returned.",
 ["inputs","histories"],"all n, all sequences of earlier requests, all states of the in-memory tables and of the cache directory this code can have produced",
 "Tests fetch a few matrices in one process with one cache state; the guarantee is about every history of requests across processes.",
 [MS],[("new_get_matrix",MS),("new_get_matrix_inverse",MS),("get_matrix / get_matrix_inverse",MS),("write_to_cache / read_cache / cache_hit",MS)],
 state=[("in-memory lookup tables","n -> matrix",MS),("cache directory","file name -> pickled matrix",MS)],obs=["returned matrices","cache files"])
p("C08","Polynomial arithmetic on coefficient lists is exact",
 "Multiplication, differentiation and evaluation of coefficient lists agree with polynomial multiplication, formal differentiation and evaluation for all lists, and do not modify their arguments. The product list of n polynomials has exactly 3^n entries, in the documented lexicographic order of exponent tuples over {0,1,2}, each being the corresponding product of powers.",
 ["inputs"],"all coefficient lists of any length, all points, all lists of polynomials",
 "Tests multiply and differentiate a handful of short lists; the index arithmetic must be right for every pair of lengths.",
 [U],[("multiply",U),("derivative",U),("evaluate_poly",U),("make_product_list",U)],obs=["return values"])
p("C09","Conversion between symbolic and coefficient form preserves the constraint",
 "Converting a univariate polynomial with rational coefficients yields an integer list of length degree+1 (the empty list for zero) that is a strictly positive multiple of its coefficients in increasing order of power, so every sign condition is preserved; coefficients that are not rational are rejected with an error. Converting a coefficient list back yields the polynomial with exactly those coefficients, so back-and-forth conversion is the identity on integer lists without leading zero.",
 ["inputs"],"all univariate polynomials with rational coefficients; all integer coefficient lists",
 "Tests convert about eight polynomials; sign preservation and denominators clearing must hold for every one.",
 [IS],[("convert",IS),("convert_rationals_to_ints",IS),("convert_back",IS)],obs=["return values or exceptions"])
p("C10","Sequents are turned into refutation clauses without changing their meaning",
 "For an antecedent and a succedent of polynomial relations, some produced clause is satisfied by an assignment exactly when that assignment satisfies all antecedent relations and violates at least one succedent relation; no produced clause contains > or >=. A sequent with a side that is empty or consists of True only, or whose succedent contains False, may be refused with an error instead. Distributing a clause into the four constraint lists keeps every relation's left-hand side exactly once under its own kind, and a clause with a relation of another kind than <=, <, =, != (or a mere truth value) is rejected with an error.",
 ["inputs"],"all finite collections of relations (<=, <, =, !=, >=, >) and all assignments",
 "The test suite has no stable test for this translation, and it must preserve meaning for all assignments.",
 [CH],[("vts_preformat",CH),("rewrite_to_less",CH),("negate_relations",CH),("make_relation_map",CH)],obs=["returned clauses and maps"])
p("C11","Univariate rewriting keeps each relation's meaning on the diagonal",
 "Rewriting a list of relations to univariate form yields, in order, one relation of the same kind per input, with right-hand side zero, whose left-hand side at any value v equals the difference of the original sides with every variable set to v; where such a relation is evaluated to a truth value, that truth value is right for every v.",
 ["inputs"],"all lists of relations over any number of variables, all values",
 "No test covers the rewriting; it must hold for every relation and number of variables.",
 [EP],[("make_univariate",EP)],obs=["returned list"])
p("C12","Parsing a sequent yields the terms and relations it denotes",
 "For every well-formed term, relation or sequent of the input language, in prefix notation and with any white space (operands are separated by white space or parentheses, also from their operator, and the name of a sequent is not empty), the parser's result is the expression, relation or pair of relation lists that the text denotes: each operator symbol is read as its own operation with its operands in order (a relation between constants may be read as its truth value), integers have their exact value and sign, decimal fractions theirs up to floating point rounding, and variables keep their names.",
 ["inputs"],"all derivations of the grammar, of any nesting depth, all numerals and identifiers",
 "Tests parse a few dozen strings; the guarantee is over all nesting and operator combinations.",
 [GP],[("grammar productions and parse actions",GP)],obs=["parse results"])
p("C13","Sign conditions of repeated polynomials are intersected",
 "The table of admissible signs maps every constrained polynomial to exactly the signs that all of the constraints mentioning it admit together, and nothing else to any; two different polynomials with integer coefficients never share an entry.",
 ["inputs"],"all four constraint lists over polynomials with integer coefficients, with arbitrary repetition across lists",
 "Tests do not exercise the same polynomial under several kinds of constraint.",
 [U],[("sign_conditions_lookup",U),("make_poly_hashabel",U)],obs=["returned table"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
CW="highschool_qe/cachedsympywrapper.py"; SW="highschool_qe/sympywrapper.py"; HQ="highschool_qe/cohenhorm.py"; MU="highschool_qe/muchnik.py"; G="GRF/grf.sage"; LSr="GRF/local_search.py"
p("C14","Cohen-Hormander elimination is equivalent to the quantified formula",
 "For polynomials required to be negative, zero and positive in a variable, an assignment of the remaining variables satisfies one of the returned sign-condition triples exactly when some value of the eliminated variable meets all requirements.",
 ["inputs"],"all finite sets of polynomials over the rationals in any number of variables, all assignments",
 "The only test file needs a container library that is not installed and checks fixed examples.",
 [HQ],[("CohenHormander.real_full",HQ),("extend_single_table",HQ),("expand_context",HQ)],obs=["returned triples"])
p("C15","Muchnik elimination is equivalent to the quantified formula",
 "For every conjunction of sign conditions, the Muchnik procedures over the complex and the real numbers return sign conditions on the remaining variables that hold for an assignment exactly when the eliminated variable can be chosen to meet the conjunction.",
 ["inputs"],"all finite sets of polynomials over the rationals, all assignments",
 "There are no tests for these procedures that run here.",
 [MU],[("Muchniker.real_full / complex_full",MU)],obs=["returned conditions"])
p("C16","The caching algebra gives the same answers as the plain one",
 "Every polynomial operation of the caching algebra returns what the plain algebra returns for the same arguments, whatever operations were requested before and in whatever order; results of different operations or different arguments are never confused.",
 ["inputs","histories"],"all operations, all arguments, all histories of earlier calls",
 "No test calls the caching algebra; confusion of entries needs particular call histories.",
 [CW,SW],[("_c_compute / _c_get / _c_put",CW)],state=[("cache dictionary of an instance","operation and arguments -> result",CW)],obs=["return values"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
