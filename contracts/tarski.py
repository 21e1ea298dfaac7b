"""Signed remainders, remainder sequences, Cauchy index and Tarski query."""
import z3
from pyded.sym import *
from pyded.contract import Contract
from pyded.prover import walk, has_var
from .poly import *

# SR(f, g, r): some positive multiple of f differs from r by a multiple of g
SR = z3.Function('SR', PL.sort, PL.sort, PL.sort, Bool)
# ISRS(s, p, q): s = [p, q, ...], each later element is minus a signed remainder of the two
# before it, all remainders but the one after the last are non-zero
ISRS = z3.Function('ISRS', PLL.sort, PL.sort, PL.sort, Bool)
TAQ = z3.Function('TAQ', PL.sort, PL.sort, Int)       # sum of sign q(x) over the distinct real roots x of p
CIX = z3.Function('CIX', PL.sort, PL.sort, Int)       # Cauchy index of q/p on the real line
VNEG = z3.Function('VNEG', PLL.sort, Int, Int)        # sign variations at minus infinity (partial sums)
VPOS = z3.Function('VPOS', PLL.sort, Int, Int)
S_ = z3.Const('S!spec', PLL.sort); SUBST[S_.get_id()] = S_
NEGP = z3.Function('NEGP', PL.sort, PL.sort)

def coefZ(p, k): return z3.If(z3.And(k >= 0, k < plen(p)), pat(p, k), z3.RealVal(0))
def neglead(p): return z3.If((plen(p) - 1) % 2 == 0, lastc(p), -lastc(p))
def spec_sums2():
    one, zero = z3.IntVal(1), z3.IntVal(0)
    return {
        'VNEG': (VNEG, [S_], I, z3.If(neglead(lat(S_, I)) * neglead(lat(S_, I + 1)) < 0, one, zero)),
        'VPOS': (VPOS, [S_], I, z3.If(lastc(lat(S_, I)) * lastc(lat(S_, I + 1)) < 0, one, zero)),
    }

def lm_sr(pr, fs, hyps, goal):
    """instances of the Lean lemmas sr_base and sr_step"""
    gts = {}; hts = {}
    for t in walk([goal]):
        if z3.is_app(t) and t.decl().name() == 'SR' and not has_var(t): gts[t.get_id()] = t
    for h in hyps:
        for t in walk([h]):
            if z3.is_app(t) and t.decl().name() == 'SR' and not has_var(t): hts[t.get_id()] = t
    out = []
    for t in gts.values():
        f, g, r = t.children()
        w = z3.Const('wsr!%d' % uid(), Int)
        out.append(z3.Or(t, coefZ(f, w) != coefZ(r, w)))
        lg, lf = lastc(g), lastc(f)
        d = plen(f) - plen(g)
        absg = z3.If(lg >= 0, lg, -lg); sf = z3.If(lg >= 0, lf, -lf)
        one, zero = z3.RealVal(1), z3.RealVal(0)
        tpl = [(one, zero), (absg, sf), (lg, lf), (-lg, -lf), (lg * lg, lf * lg)]
        for u in hts.values():
            h, g2, r2 = u.children()
            for a, b in tpl:
                w = z3.Const('wsr!%d' % uid(), Int)
                out.append(z3.Or(t, z3.Not(u), z3.Not(g == g2), z3.Not(r == r2), a <= 0, d < 0 if b is not zero else z3.BoolVal(False),
                    coefZ(h, w) != (a * coefZ(f, w) - b * coefZ(g, w - d) if b is not zero else coefZ(f, w))))
    return out
def lm_isrs(pr, fs, hyps, goal):
    """unfolding of ISRS at the sequences of the goal"""
    out = []
    for t in walk([goal]):
        if z3.is_app(t) and t.decl().name() == 'ISRS' and not has_var(t):
            s, p, q = t.children()
            n = llen(s)
            # introduction: two elements and a vanishing remainder
            nil = z3.Const('nil_L_Real', PL.sort)
            for e in walk(hyps):
                if z3.is_app(e) and e.decl().name() == 'SR' and not has_var(e):
                    f, g, r = e.children()
                    out.append(z3.Or(t, z3.Not(z3.And(n == 2, lat(s, 0) == p, lat(s, 1) == q, e, f == p, g == q, plen(r) == 0))))
                    for u in walk(hyps):
                        if z3.is_app(u) and u.decl().name() == 'ISRS' and not has_var(u):
                            s2, p2, q2 = u.children()
                            w = z3.Const('wis!%d' % uid(), Int); w2 = z3.Const('wis!%d' % uid(), Int)
                            out.append(z3.Or(t, z3.Not(z3.And(u, e, f == p, g == q, p2 == q, plen(r) >= 1, plen(q2) == plen(r))),
                                # q2 = -r
                                z3.And(w2 >= 0, w2 < plen(r), pat(q2, w2) != -pat(r, w2)),
                                # s = p : s2
                                n != llen(s2) + 1, lat(s, 0) != p, z3.And(w >= 0, w < llen(s2), lat(s, w + 1) != lat(s2, w))))
    return out
def basics2():
    s = z3.Const('s!', PLL.sort); p = z3.Const('p!', PL.sort); q = z3.Const('q!', PL.sort); k = z3.Int('k!')
    return [
        # consequences of the definition of ISRS (Lean: isrs_len, isrs_head)
        z3.ForAll([s, p, q], z3.Implies(ISRS(s, p, q), z3.And(llen(s) >= 2, lat(s, 0) == p, lat(s, 1) == q)), patterns=[ISRS(s, p, q)]),
    ]
def lem_cauchy():
    """Lean: cauchy_index_of_chain, cauchy_index_tarski"""
    s = z3.Const('s!', PLL.sort); p = z3.Const('p!', PL.sort); q = z3.Const('q!', PL.sort)
    return [
        z3.ForAll([s, p, q], z3.Implies(z3.And(ISRS(s, p, q), ALLTNZ(s)), VNEG(s, llen(s) - 1) - VPOS(s, llen(s) - 1) == CIX(p, q)), patterns=[ISRS(s, p, q)]),
        z3.ForAll([p, q], z3.Implies(z3.And(tnz(p), plen(p) >= 2, tnz(q)), CIX(p, MUL(DER(p), q)) == TAQ(p, q)), patterns=[CIX(p, MUL(DER(p), q))]),
    ]

def contracts2():
    C = {}
    def add(c): C[c.qual] = c
    def spr_post(ex, st, r, f, g):
        return [('congruent to a positive multiple of the dividend', SR(f, g, r)),
                ('lower degree than the divisor', z3.Implies(plen(g) >= 1, plen(r) < plen(g))),
                ('no leading zero', trimmed(r)),
                ('remainder of the empty list is empty', z3.Implies(plen(f) == 0, plen(r) == 0))]
    add(Contract(U + ':signed_pseudo_remainder', ['poly', 'poly'], 'poly',
        pre=lambda ex, f, g: [('divisor has no leading zero', trimmed(g))],
        raises={'Exception': lambda ex, f, g: z3.And(plen(f) >= 1, plen(g) == 0)}, post=spr_post, measure=lambda ex, f, g: plen(f)))
    add(Contract(U + ':signed_remainder_sequence', ['poly', 'poly'], 'polys', fresh=True, measure=lambda ex, p, q: plen(q),
        pre=lambda ex, p, q: [('arguments are non-zero and trimmed', z3.And(tnz(p), tnz(q)))],
        post=lambda ex, st, s, p, q: [('is a signed remainder sequence', ISRS(s, p, q)), ('its elements are non-zero and trimmed', ALLTNZ(s))]))
    add(Contract(U + ':signed_remainder_cauchy_index', ['poly', 'poly'], 'int',
        pre=lambda ex, p, q: [('arguments are trimmed, the first is not zero', z3.And(tnz(p), trimmed(q)))],
        post=lambda ex, st, r, p, q: [('is the Cauchy index', r == z3.If(plen(q) == 0, z3.IntVal(0), CIX(p, q)))]))
    add(Contract(U + ':tarski_query', ['poly', 'poly'], 'int',
        pre=lambda ex, p, q: [('first polynomial is not constant, second is not zero', z3.And(tnz(p), plen(p) >= 2, tnz(q)))],
        exact=lambda ex, p, q: TAQ(p, q)))
    return C
