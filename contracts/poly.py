"""Specification vocabulary and contracts for arithmetic on coefficient lists."""
import z3
from pyded.sym import *
from pyded.contract import Contract
from pyded.execu import powfn

U = 'vts/uni_vts.py'
P = z3.Const('P!spec', PL.sort); Q = z3.Const('Q!spec', PL.sort); R_ = z3.Const('R!spec', PL.sort)
X = z3.Const('X!spec', Real); K = z3.Const('K!spec', Int); I = z3.Const('I!spec', Int); J = z3.Const('J!spec', Int)
for c in (P, Q, X, K, I): SUBST[c.get_id()] = c
LL = z3.Const('LL!spec', PLL.sort)

plen, pat = PL.len, PL.at
llen, lat = PLL.len, PLL.at
def lastc(p): return pat(p, plen(p) - 1)

# value of x**i in the field the evaluation point lives in
rpow = z3.Function('rpow', Real, Int, Real)
EVs = z3.Function('EVsum', PL.sort, Real, Int, Real)      # partial sums of the evaluation
def EV(p, x): return EVs(p, x, plen(p))
CONV = z3.Function('CONV', PL.sort, PL.sort, Int, Int, Real)   # sum_{i<hi} p_i q_{k-i}
MUL = z3.Function('MUL', PL.sort, PL.sort, PL.sort)
DER = z3.Function('DER', PL.sort, PL.sort)
TAIL = z3.Function('TAIL', PLL.sort, PLL.sort)
EVPROD = z3.Function('EVPROD', PLL.sort, Int, Real, Real)   # value at x of the j-th product of powers
p3 = powfn(3)

def tnz(p): return z3.And(plen(p) >= 1, lastc(p) != 0)        # non-zero, no leading zero
def trimmed(p): return z3.Or(plen(p) == 0, z3.And(plen(p) >= 1, lastc(p) != 0))

def spec_sums():
    return {
        'EVsum': (EVs, [P, X], I, pat(P, I) * rpow(X, I)),
        'CONV': (CONV, [P, Q, K], I, z3.If(z3.And(K - I >= 0, K - I < plen(Q)), pat(P, I) * pat(Q, K - I), z3.RealVal(0))),
    }
def mullen(p, q):
    n = plen(p) + plen(q) - 1
    return z3.If(n > 0, n, z3.IntVal(0))
def basics():
    """definitions of the specification functions (not facts about the code)"""
    l = z3.Const('l!', PL.sort); ll = z3.Const('ll!', PLL.sort); p = z3.Const('p!', PL.sort); q = z3.Const('q!', PL.sort)
    k = z3.Int('k!'); x = z3.Const('x!', Real)
    A = z3.ForAll
    return [
        A([x], rpow(x, z3.IntVal(0)) == 1, patterns=[rpow(x, z3.IntVal(0))]),
        A([l], plen(l) >= 0, patterns=[plen(l)]), A([ll], llen(ll) >= 0, patterns=[llen(ll)]),
        A([p, q], plen(MUL(p, q)) == mullen(p, q), patterns=[MUL(p, q)]),
        A([p, q, k], z3.Implies(z3.And(k >= 0, k < mullen(p, q)), pat(MUL(p, q), k) == CONV(p, q, k, plen(p))), patterns=[pat(MUL(p, q), k)]),
        A([p], plen(DER(p)) == z3.If(plen(p) >= 1, plen(p) - 1, z3.IntVal(0)), patterns=[DER(p)]),
        A([p, k], z3.Implies(z3.And(k >= 0, k < plen(p) - 1), pat(DER(p), k) == pat(p, k + 1) * z3.ToReal(k + 1)), patterns=[pat(DER(p), k)]),
        A([ll], llen(TAIL(ll)) == z3.If(llen(ll) >= 1, llen(ll) - 1, z3.IntVal(0)), patterns=[TAIL(ll)]),
        A([ll, k], z3.Implies(z3.And(k >= 0, k < llen(ll) - 1), lat(TAIL(ll), k) == lat(ll, k + 1)), patterns=[lat(TAIL(ll), k)]),
    ]
def evprod_def(ll, j, x):
    """unfolding of EVPROD at ll"""
    n = llen(ll)
    w = p3(n - 1)
    h = EV(lat(ll, 0), x)
    rest = lambda j2: EVPROD(TAIL(ll), j2, x)
    return z3.And(
        z3.Implies(n == 0, EVPROD(ll, j, x) == 1),
        z3.Implies(n >= 1, EVPROD(ll, j, x) == z3.If(j < w, rest(j), z3.If(j < 2 * w, h * rest(j - w), h * h * rest(j - 2 * w)))))
def lm_evprod(pr, fs, hyps, goal):
    out = []; seen = set()
    from pyded.prover import walk, has_var
    for t in walk(fs):
        if z3.is_app(t) and t.decl().name() == 'EVPROD' and not has_var(t): out.append(evprod_def(*t.children()))
    return out
def lm_one(pr, fs, hyps, goal):
    return []

# lemmas proved in lean/ about these definitions
def lem_ev_mul():
    p = z3.Const('p!', PL.sort); q = z3.Const('q!', PL.sort); x = z3.Const('x!', Real)
    return z3.ForAll([p, q, x], EV(MUL(p, q), x) == EV(p, x) * EV(q, x), patterns=[EV(MUL(p, q), x)])
def lem_tnz_mul():
    """the leading coefficient of a product"""
    p = z3.Const('p!', PL.sort); q = z3.Const('q!', PL.sort)
    return z3.ForAll([p, q], z3.Implies(z3.And(tnz(p), tnz(q)), lastc(MUL(p, q)) != 0), patterns=[MUL(p, q)])
def ext_pow():
    def h(ex, st, x, y):
        y2 = zi(y)
        if y2.sort() != Int: return NotImplemented
        return rpow(zreal(znum(x)), y2)
    return {'Pow:*': h}

def contracts():
    C = {}
    def add(c): C[c.qual] = c
    add(Contract(U + ':derivative', ['poly'], 'poly', exact=lambda ex, p: DER(p), fresh=True,
        doc='returns the list of k*p[k] for k >= 1'))
    add(Contract(U + ':evaluate_poly', ['poly', 'num'], 'num', exact=lambda ex, p, x: EV(p, x),
        doc='returns sum of p[i]*x**i'))
    add(Contract(U + ':multiply', ['poly', 'poly'], 'poly', exact=lambda ex, p, q: MUL(p, q), fresh=True,
        doc='returns the convolution of the two lists'))
    x = z3.Const('x!', Real); j = z3.Int('j!')
    def mpl_post(ex, st, r, ll):
        ex.need_pow(3)
        return [('has 3^n entries', llen(r) == p3(llen(ll))),
                ('entry j is the product of powers given by the base-3 digits of j',
                 z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < llen(r)), EV(lat(r, j), x) == EVPROD(ll, j, x)), patterns=[EV(lat(r, j), x)])),
                ('products of non-zero trimmed polynomials are non-zero and trimmed',
                 z3.Implies(alltnz(ll), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < llen(r)), tnz(lat(r, j))), patterns=[lat(r, j)])))]
    add(Contract(U + ':make_product_list', ['polys'], 'polys', post=mpl_post, fresh=True, measure=lambda ex, ll: llen(ll),
        doc='the 3^n products of powers in lexicographic order of the exponents'))
    return C
ALLTNZ = z3.Function('ALLTNZ', PLL.sort, Bool)
def alltnz(ll): return ALLTNZ(ll)
def alltnz_def():
    ll = z3.Const('ll!', PLL.sort); k = z3.Int('k!')
    w = z3.Function('alltnz_w', PLL.sort, Int)
    return [z3.ForAll([ll, k], z3.Implies(z3.And(ALLTNZ(ll), k >= 0, k < llen(ll)), tnz(lat(ll, k))), patterns=[z3.MultiPattern(ALLTNZ(ll), lat(ll, k))]),
            z3.ForAll([ll], z3.Or(ALLTNZ(ll), z3.And(w(ll) >= 0, w(ll) < llen(ll), z3.Not(tnz(lat(ll, w(ll)))))), patterns=[ALLTNZ(ll)])]
