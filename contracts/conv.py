"""Conversion between symbolic polynomials and coefficient lists. A sympy object (or a Python int) is a value of
sort Sym; what sympy's operations do is assumed (contracts of the dependency), in terms of the coefficients."""
import z3
from pyded.sym import *
from pyded.contract import Contract, named
from .poly import *
from .system import SAT, OK, KINDS, AT
F = 'vts/isym.py'
SY = obj_sort('Sym')
SL = seqsort(SY)
SYL = seqsort(SL.sort) if False else None
def fn(n, *s): return z3.Function(n, *s)
PYINT = fn('PYINT', SY, Bool)          # a Python integer
ISRAT = fn('ISRAT', SY, Bool)          # an instance of sympy.Rational
ISINT = fn('ISINTEGER', SY, Bool)      # an instance of sympy.Integer
VAL = fn('VAL', SY, Real)              # the value of a constant
NUM = fn('NUMER', SY, Int); DEN = fn('DENOM', SY, Int)
NMUL = fn('NMUL', SY, Int, SY)         # product with an integer
PYI = fn('PYI', Int, SY)               # the Python integer k
TOPY = fn('TOPY', SY, SY)              # int(c)
NSYM = fn('NSYM', SY, Int)
EXP = fn('EXPAND', SY, SY)
NT = fn('NT', SY, Int); TERM = fn('TERM', SY, Int, SY)
TC = fn('TC', SY, SY); TP = fn('TP', SY, Int)    # coefficient and power of a term
COEF = fn('COEF', SY, Int, Real); DEG = fn('DEG', SY, Int)
SEVs = fn('SEVsum', SY, Real, Int, Real)    # partial sums of the value at a number
def SEV(p, x): return SEVs(p, x, DEG(p) + 1)
LCM = fn('LCM', Int, Int, Int)
DVD = fn('DVD', Int, Int, Bool); DVK = fn('DVDK', Int, Int, Int)
MM = fn('MULT', SL.sort, Int)          # by what convert_rationals_to_ints multiplies
SCALE = fn('SCALE', SY, Int)
slen, sat = SL.len, SL.at
LIFT['Sym'] = lambda k: ObjT('Sym', PYI(zi(k)))
def number(t): return z3.Or(PYINT(t), ISRAT(t))
def zerop(p): return z3.And(DEG(p) == 0, COEF(p, z3.IntVal(0)) == 0)
def polyexpr(p): return z3.And(z3.Not(PYINT(p)))
def terms_rational(p):
    i = z3.Int('i!'); e = EXP(p)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NT(e)), ISRAT(TC(TERM(e, i)))), patterns=[TERM(e, i)])
SEEN = fn('SEEN', SY, Bool)            # sympy shows a rational univariate polynomial
SEENw = fn('SEEN_w', SY, Int)
def ax_numbers():
    t = z3.Const('t!', SY); k = z3.Int('k!'); m = z3.Int('m!'); a = z3.Int('a!'); b = z3.Int('b!')
    A = z3.ForAll
    return [
        A([t], z3.Implies(ISINT(t), ISRAT(t)), patterns=[ISINT(t)]),
        A([t], z3.Not(z3.And(PYINT(t), ISRAT(t))), patterns=[PYINT(t)]),
        A([t], z3.Implies(z3.Or(ISRAT(t), PYINT(t)), z3.And(DEN(t) >= 1, VAL(t) * z3.ToReal(DEN(t)) == z3.ToReal(NUM(t)), z3.Implies(PYINT(t), DEN(t) == 1))), patterns=[VAL(t)]),
        A([t], z3.Implies(ISRAT(t), DEN(t) >= 1), patterns=[ISRAT(t)]),
        A([t], z3.Implies(ISRAT(t), ISINT(t) == (DEN(t) == 1)), patterns=[ISINT(t)]),
        A([k], z3.And(PYINT(PYI(k)), VAL(PYI(k)) == z3.ToReal(k)), patterns=[PYI(k)]),
        # product of a number with an integer: same kind of number, reduced
        A([t, m], z3.Implies(number(t), z3.And(number(NMUL(t, m)), VAL(NMUL(t, m)) == VAL(t) * z3.ToReal(m))), patterns=[NMUL(t, m)]),
        A([t, m], z3.Implies(z3.And(ISRAT(t), DVD(DEN(t), m)), z3.Or(ISINT(NMUL(t, m)), PYINT(NMUL(t, m)))), patterns=[NMUL(t, m)]),
        A([t, m], z3.Implies(PYINT(t), z3.Or(ISINT(NMUL(t, m)), PYINT(NMUL(t, m)))), patterns=[NMUL(t, m)]),
        A([t], z3.Implies(z3.Or(ISINT(t), PYINT(t)), z3.And(PYINT(TOPY(t)), VAL(TOPY(t)) == VAL(t))), patterns=[TOPY(t)]),
        # least common multiples
        A([a, b], z3.Implies(z3.And(a >= 1, b >= 1), z3.And(LCM(a, b) >= 1, DVD(a, LCM(a, b)), DVD(b, LCM(a, b)), z3.Implies(z3.And(a == 1, b == 1), LCM(a, b) == 1))), patterns=[LCM(a, b)]),
        A([a, b, k], z3.Implies(z3.And(DVD(a, b), DVD(b, k)), DVD(a, k)), patterns=[z3.MultiPattern(DVD(a, b), DVD(b, k))]),
        A([a], DVD(a, a), patterns=[DVD(a, a)]),
        A([t], z3.Implies(z3.And(ISRAT(t), z3.IsInt(VAL(t))), DEN(t) == 1), patterns=[VAL(t)]),
    ]
def ax_sympy():
    """assumed of sympy"""
    p = z3.Const('p!', SY); i = z3.Int('i!'); j = z3.Int('j!'); k = z3.Int('k!'); x = z3.Const('x!', Real)
    A = z3.ForAll
    e = EXP(p); t = TERM(e, i)
    one = z3.Not(PYINT(p))
    return [
        A([p], z3.And(NSYM(p) >= 0, DEG(p) >= 0), patterns=[NSYM(p)]), A([p], DEG(p) >= 0, patterns=[DEG(p)]),
        A([p], z3.Implies(z3.Or(PYINT(p), ISRAT(p)), NSYM(p) == 0), patterns=[NSYM(p)]),
        # a constant
        A([p], z3.Implies(z3.Or(PYINT(p), ISRAT(p), NSYM(p) == 0), z3.And(DEG(p) == 0, COEF(p, z3.IntVal(0)) == VAL(p))), patterns=[DEG(p)]),
        A([p], z3.Implies(z3.Or(PYINT(p), ISRAT(p), NSYM(p) == 0), z3.And(DEG(p) == 0, COEF(p, z3.IntVal(0)) == VAL(p))), patterns=[NSYM(p)]),
        # expansion keeps the polynomial; a polynomial of positive degree or a non-constant one has a symbol
        A([p], z3.Implies(one, z3.And(z3.Not(PYINT(e)), DEG(e) == DEG(p))), patterns=[e]),
        A([p, k], z3.Implies(one, COEF(e, k) == COEF(p, k)), patterns=[COEF(e, k)]),
        A([p], z3.Implies(z3.And(one, NSYM(e) >= 1), z3.And(NT(e) >= 1, z3.Implies(NSYM(e) == 1, z3.And(DEG(p) >= 1, TP(TERM(e, z3.IntVal(0))) == DEG(p))))), patterns=[NT(e)]),
        A([p, i], z3.Implies(z3.And(one, NSYM(e) == 1, i >= 0, i < NT(e)), z3.And(TP(t) >= 0, TP(t) <= DEG(p), z3.Not(PYINT(TC(t))))), patterns=[t]),
        # terms of different powers: the coefficients
        A([p, i, k], z3.Implies(z3.And(one, NSYM(e) == 1, DISTP(e), i >= 0, i < NT(e), TP(t) == k), COEF(p, k) == VAL(TC(t))), patterns=[z3.MultiPattern(t, COEF(p, k))]),
        A([p, k], z3.Implies(z3.And(one, NSYM(e) == 1, k >= 0, COEF(p, k) != 0), z3.And(HASP(e, k) >= 0, HASP(e, k) < NT(e), TP(TERM(e, HASP(e, k))) == k)), patterns=[COEF(p, k), e] if False else [z3.MultiPattern(COEF(p, k), NT(e))]),
        # terms of the same power are kept apart only if a coefficient is not rational
        A([p], z3.Implies(z3.And(one, SEEN(p), NSYM(e) == 1), DISTP(e)), patterns=[SEEN(p)]),
        A([p, k], z3.Implies(z3.And(INTC(p), k >= 0), z3.IsInt(COEF(p, k))), patterns=[z3.MultiPattern(INTC(p), COEF(p, k))]),
        # what DISTP and SEEN say
        A([p, i, j], z3.Implies(z3.And(DISTP(p), i >= 0, i < j, j < NT(p)), TP(TERM(p, i)) != TP(TERM(p, j))), patterns=[z3.MultiPattern(DISTP(p), TERM(p, i), TERM(p, j))]),
        A([p], z3.Or(DISTP(p), z3.And(D1(p) >= 0, D1(p) < D2(p), D2(p) < NT(p), TP(TERM(p, D1(p))) == TP(TERM(p, D2(p))))), patterns=[DISTP(p)]),
        A([p, i], z3.Implies(z3.And(one, SEEN(p)), z3.And(NSYM(e) <= 1, z3.Implies(NSYM(e) == 0, ISRAT(e)), z3.Implies(z3.And(NSYM(e) == 1, i >= 0, i < NT(e)), ISRAT(TC(t))))), patterns=[z3.MultiPattern(SEEN(p), t)]),
        A([p], z3.Implies(z3.And(one, SEEN(p)), z3.And(NSYM(e) <= 1, z3.Implies(NSYM(e) == 0, ISRAT(e)))), patterns=[SEEN(p)]),
        A([p], z3.Or(SEEN(p), z3.And(one, z3.Or(NSYM(e) > 1, z3.And(NSYM(e) == 0, z3.Not(ISRAT(e))), z3.And(NSYM(e) == 1, SEENw(p) >= 0, SEENw(p) < NT(e), z3.Not(ISRAT(TC(TERM(e, SEENw(p)))))) ))), patterns=[SEEN(p)]),
    ]
INTC = fn('INTCOEF', SY, Bool)
DISTP = fn('DISTP', SY, Bool); D1 = fn('DISTP_i', SY, Int); D2 = fn('DISTP_j', SY, Int); HASP = fn('HASP', SY, Int, Int)
XV = z3.Const('x!value', Real)     # the value the symbol x is given
def sym(t): return ObjT('Sym', t)
def ext5():
    def mul(ex, st, a, b):
        if is_num(a): a, b = b, a
        b = zi(b)
        if b.sort() != Int: return NotImplemented
        return sym(NMUL(a.term, b))
    def isinst(ex, st, x, nm):
        if isinstance(x, ObjT) and x.cls == 'Sym':
            if nm == 'int': return PYINT(x.term)
            if nm == 'sympy.Rational': return ISRAT(x.term)
            if nm == 'sympy.Integer': return ISINT(x.term)
        if is_num(x) and nm in ('sympy.Rational', 'sympy.Integer'): return False
        return None
    def eq(ex, st, a, b):
        if is_num(a): a, b = b, a
        return z3.And(NSYM(a.term) == 0, VAL(a.term) == zreal(znum(b)))
    def toint(ex, st, a):
        return [(s, sym(TOPY(a.term)) if t else RaiseV(ExcV('TypeError'))) for s, t in ex.branch(st, z3.Or(ISINT(a.term), PYINT(a.term), ISRAT(a.term), NSYM(a.term) == 0))]
    def q(ex, st, a):
        ex.oblige(st, 'the denominator is asked of a rational', ISRAT(a.term), None, 'pre')
        return DEN(a.term)
    def need_expr(ex, st, a):
        ex.oblige(st, 'a method of a symbolic expression is not called on an int', z3.Not(PYINT(a.term)), None, 'pre')
    def free(ex, st, a):
        need_expr(ex, st, a)
        return SymSet(a.term)
    def expand(ex, st, a): need_expr(ex, st, a); return sym(EXP(a.term))
    def terms(ex, st, a):
        t = a.term
        need_expr(ex, st, a)
        if not (z3.is_app(t) and t.decl().name() == 'EXPAND'): raise Unsupported('terms of an expression that was not expanded')
        return ex.alloc(st, Seq(NT(t), lambda i: sym(TERM(t, zi(i)))))
    def leadterm(ex, st, a, x):
        t = a.term
        if not (z3.is_app(t) and t.decl().name() == 'TERM'): raise Unsupported('leadterm of something other than a term')
        if not isinstance(x, Symb) or not x.of.eq(t.arg(0)): 
            if not isinstance(x, Symb): raise Unsupported('leadterm with respect to something else')
        ex.oblige(st, 'terms are taken of a polynomial in one symbol', NSYM(t.arg(0)) == 1, None, 'pre')
        return Tup([sym(TC(t)), TP(t)])
    def lcm(ex, st, a, b):
        a, b = zi(a), zi(b)
        if a.sort() != Int or b.sort() != Int: return NotImplemented
        return LCM(a, b)
    def slen_(ex, st, v): return NSYM(v.of)
    def pop(ex, st, v): return Symb(v.of)
    def var(ex, st, nm):
        if nm != 'x': raise Unsupported('variable %r' % (nm,))
        return XV
    return {'Mult:Sym,Int': mul, 'Mult:Int,Sym': mul, 'isinstance:Sym': isinst, 'Eq:Sym,Int': eq, 'Eq:Int,Sym': eq, 'int:Sym': toint,
            'attr:Sym.q': q, 'attr:Sym.free_symbols': free, 'meth:Sym.expand': expand, 'meth:Sym.as_ordered_terms': terms, 'meth:Sym.leadterm': leadterm,
            'sympy.lcm': lcm, 'len:SymSet': slen_, 'meth:SymSet.pop': pop, 'sympy.var': var, 'sympy.Symbol': var, 'sympy.symbols': var}
class SymSet(V):
    extcls = 'SymSet'
    def __init__(self, of): self.of = of
class Symb(V):
    def __init__(self, of, i=None):
        self.of = of
        self.term = z3.Function('SYMAT', SY, Int, SY)(of, zi(0 if i is None else i))
from pyded.execu import RaiseV

def coefs_term(ex, st, v, oblige=None):
    """the coefficient list as a list of reals; every entry has to be a Python integer"""
    q = ex.seq(st, v)
    if q.reif is not None and q.reif.sort() == PL.sort: return q.reif
    if isinstance(q.n, int) and q.n == 0: return ex.nil(PL)
    def val(i):
        e = q.get(i)
        if isinstance(e, ObjT) and e.cls == 'Sym': return VAL(e.term)
        if is_num(e): return zreal(znum(e))
        raise Unsupported('coefficient kind')
    if oblige:
        J = z3.Int('J!int')
        def ok(i):
            e = q.get(i)
            if isinstance(e, ObjT): return PYINT(e.term)
            e = znum(e)
            return z3.BoolVal(e.sort() == Int)
        ex.oblige(st, oblige + ': the coefficients are Python integers', z3.And(*[ok(i) for i in range(q.n)]) if isinstance(q.n, int) else z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(q.n)), ok(J))), None, 'post')
    if q.items is not None: return ex.listterm(st, LV(seq_items([val(i) for i in range(len(q.items))])), PL)
    return ex.listterm(st, LV(Seq(q.n, val)), PL)
def witnesses(ex, st, v):
    """by which integers the elements of the result were multiplied"""
    from pyded.prover import walk
    q = ex.seq(st, v)
    J = subst_const('J', Int)
    ts = [ex.term(q.get(i)) for i in range(q.n)] if isinstance(q.n, int) else [ex.term(q.get(J))]
    if q.reif is not None: ts.append(q.reif)
    out = []
    for f in walk(ts):
        if z3.is_app(f) and f.decl().name() == 'NMUL' and not free_in_any(f.arg(1), J): out.append(f.arg(1))
        if z3.is_app(f) and f.decl().name() == 'R2I' : out.append(MM(f.arg(0)))
    seen, r = set(), []
    for x in out + [z3.IntVal(1)]:
        if x.get_id() not in seen: seen.add(x.get_id()); r.append(x)
    return r
def free_in_any(e, J):
    from pyded.execu import free_in
    return free_in(e, J)
R2I = fn('R2I', SL.sort, PL.sort)      # what convert_rationals_to_ints returns
CONVL = fn('CONVERT', SY, PL.sort)     # what convert returns
class R2IC(Contract):
    """convert_rationals_to_ints"""
    def call(self, ex, st, args, line):
        L = sl_term(ex, st, args[0])
        k = z3.Int('k!')
        for s, t in ex.branch(st, allnum(L)):
            if not t: yield s, RaiseV(ExcV('Exception')); continue
            r = R2I(L)
            ex.assume(s, z3.And(plen(r) == slen(L), MM(L) >= 1))
            ex.assume(s, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < slen(L)), z3.And(pat(r, k) == VAL(sat(L, k)) * z3.ToReal(MM(L)), z3.IsInt(pat(r, k)))), patterns=[pat(r, k)]))
            ex.assume(s, z3.Implies(allint(L), MM(L) == 1))
            yield s, ex.alloc(s, seq_term(r))
    def check_result(self, ex, s, v, A, nm, pre_st):
        L = A[0]; k = z3.Int('k!')
        if not ex.islist(v): ex.oblige(s, '%s returns a list' % nm, z3.BoolVal(False), None, 'post'); return
        r = coefs_term(ex, s, v, nm)
        ex.oblige(s, '%s: a list of the same length' % nm, plen(r) == slen(L), None, 'post')
        ws = witnesses(ex, s, v)
        K = ex.fresh('k', Int)
        f = lambda m: z3.And(m >= 1, z3.Implies(z3.And(K >= 0, K < slen(L)), pat(r, K) == VAL(sat(L, K)) * z3.ToReal(m)), z3.Implies(allint(L), m == 1))
        if len(ws) == 1: g = f(ws[0])
        else: g = f(ws[0])      # the first multiplier found; 1 only if there is none
        ex.oblige(s, '%s: the entries times a positive integer, which is 1 if they are integers' % nm, g, None, 'post')
        self.raise_free(ex, s, nm, L)
    def raise_free(self, ex, s, nm, L):
        ex.oblige(s, '%s returns only if all entries are rational' % nm, allnum(L), None, 'post')
def allnum(L): return ALLNUM(L)
def allint(L): return ALLINT(L)
ALLNUM = fn('ALLNUM', SL.sort, Bool); ALLNUMw = fn('ALLNUM_w', SL.sort, Int)
ALLINT = fn('ALLINT', SL.sort, Bool); ALLINTw = fn('ALLINT_w', SL.sort, Int)
def ax_lists():
    L = z3.Const('L!', SL.sort); k = z3.Int('k!')
    A = z3.ForAll
    out = [A([L], slen(L) >= 0, patterns=[slen(L)])]
    for f, w, ok in ((ALLNUM, ALLNUMw, number), (ALLINT, ALLINTw, lambda t: z3.Or(PYINT(t), z3.And(ISRAT(t), DEN(t) == 1)))):
        out += [A([L, k], z3.Implies(z3.And(f(L), k >= 0, k < slen(L)), ok(sat(L, k))), patterns=[z3.MultiPattern(f(L), sat(L, k))]),
                A([L], z3.Or(f(L), z3.And(w(L) >= 0, w(L) < slen(L), z3.Not(ok(sat(L, w(L)))))), patterns=[f(L)])]
    return out
def ax_mark():
    """no content: terms worth looking at"""
    p = z3.Const('p!', SY); L = z3.Const('L!', SL.sort)
    MARK = fn('MARK', SY, Bool)
    return [z3.ForAll([p, L], MARK(sat(L, TP(TERM(EXP(p), SEENw(p))))), patterns=[z3.MultiPattern(SEENw(p), ALLNUM(L))]),
            z3.ForAll([p, L], z3.Implies(z3.And(INTC(p), ALLINTw(L) >= 0), z3.IsInt(COEF(p, ALLINTw(L)))), patterns=[z3.MultiPattern(INTC(p), ALLINTw(L))])]
def sl_term(ex, st, v):
    q = ex.seq(st, v)
    if q.items is not None:
        v = LV(seq_items([LIFT['Sym'](x) if is_num(x) else x for x in q.items]))
    return ex.listterm(st, v, SL)
SLK = (lambda ex, st, nm: wrap(z3.Const(nm, SL.sort)), lambda ex, st, v: sl_term(ex, st, v), None)
def lcm_invariants(ex, st):
    j = z3.Int('j!')
    def elem(q, i):
        """is there a denominator, and which (the list holds the numbers, or their denominators)"""
        e = q.get(i)
        if is_num(e) and zi(e).sort() == Int: return z3.BoolVal(True), zi(e)
        if not isinstance(e, ObjT) or e.cls != 'Sym': raise Unsupported('kind')
        return ISRAT(e.term), DEN(e.term)
    def divides(acc, q, t):
        if acc.sort() != Int: return None
        r, d = elem(q, j)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < t, r), DVD(d, acc)))
    def one(acc, q, t):
        if acc.sort() != Int: return None
        r, d = elem(q, j)
        return z3.Or(acc == 1, z3.Exists([j], z3.And(j >= 0, j < t, r, d != 1)))
    return [('the multiplier is positive', lambda acc, q, t: acc >= 1 if acc.sort() == Int else None),
            ('every denominator so far divides the multiplier', divides),
            ('the multiplier is one while the denominators are', one)]
def ax_convert():
    """the postcondition of convert, proved of its body below"""
    p = z3.Const('p!', SY); k = z3.Int('k!'); r = CONVL(p)
    return [z3.ForAll([p], z3.Implies(SEEN(p), z3.And(SCALE(p) >= 1, plen(r) == z3.If(zerop(p), z3.IntVal(0), DEG(p) + 1))), patterns=[r]),
            z3.ForAll([p, k], z3.Implies(z3.And(SEEN(p), k >= 0, k < plen(r)), pat(r, k) == COEF(p, k) * z3.ToReal(SCALE(p))), patterns=[pat(r, k)])]
class ConvC(Contract):
    """convert: the result is CONVERT(p), with the properties ax_convert states"""
    def call(self, ex, st, args, line):
        p = args[0]
        if is_num(p): p = LIFT['Sym'](p)
        p = p.term; k = z3.Int('k!'); r = CONVL(p)
        for s, t in ex.branch(st, SEEN(p)):
            if not t: yield s, RaiseV(ExcV('Exception')); continue
            yield s, ex.alloc(s, seq_term(r))
    def check_result(self, ex, s, v, A, nm, pre_st):
        p = A[0]
        if not ex.islist(v): ex.oblige(s, '%s returns a list' % nm, z3.BoolVal(False), None, 'post'); return
        r = coefs_term(ex, s, v, nm)
        ex.oblige(s, '%s: as long as the degree says, empty for zero' % nm, plen(r) == z3.If(zerop(p), z3.IntVal(0), DEG(p) + 1), None, 'post')
        m = witnesses(ex, s, v)[0]
        K = ex.fresh('k', Int)
        ex.oblige(s, '%s: the coefficients in order times a positive integer' % nm, z3.And(m >= 1, z3.Implies(z3.And(K >= 0, K < plen(r)), pat(r, K) == COEF(p, K) * z3.ToReal(m))), None, 'post')
        J = z3.Int('j!')
        ex.oblige(s, '%s: the multiplier is one for integer coefficients' % nm, z3.Implies(z3.And(INTC(p)), m == 1), None, 'post')
# ------------------------------------------------------- the two procedures --
SATS = fn('SATS', SL.sort, SL.sort, SL.sort, SL.sort, Bool); SATSx = fn('SATSx', SL.sort, SL.sort, SL.sort, SL.sort, Real)
SATx = fn('SATx', PLL.sort, PLL.sort, PLL.sort, PLL.sort, Real)
OKS = {k: fn('OKS' + k, SL.sort, Real, Bool) for k in KINDS}; OKSw = {k: fn('OKS%s_w' % k, SL.sort, Real, Int) for k in KINDS}
def sats(A, x): return z3.And(*[OKS[k](l, x) for k, l in zip(KINDS, A)])
def scaled(p):
    x = z3.Const('x!', Real)
    return z3.ForAll([x], EV(CONVL(p), x) == z3.ToReal(SCALE(p)) * SEV(p, x), patterns=[EV(CONVL(p), x)])
def lem_scale():
    """sum of multiples, by induction on the number of terms"""
    r = z3.Const('r!', PL.sort); p = z3.Const('p!', SY); x = z3.Const('x!', Real); m = z3.Real('m!'); t = z3.Int('t!')
    ev = lambda n: EVs(r, x, n); sv = lambda n: SEVs(p, x, n)
    d = z3.And(ev(z3.IntVal(0)) == 0, sv(z3.IntVal(0)) == 0)
    u = z3.And(ev(t + 1) == ev(t) + pat(r, t) * rpow(x, t), sv(t + 1) == sv(t) + COEF(p, t) * rpow(x, t))
    return [('sums of multiples, no terms', z3.ForAll([r, p, x, m], z3.Implies(d, ev(z3.IntVal(0)) == m * sv(z3.IntVal(0))))),
            ('sums of multiples, one more term', z3.ForAll([r, p, x, m, t], z3.Implies(z3.And(u, ev(t) == m * sv(t), pat(r, t) == COEF(p, t) * m), ev(t + 1) == m * sv(t + 1)))),
            ('a positive multiple has the same sign', z3.ForAll([x, m], z3.Implies(m >= 1, z3.And((m * x > 0) == (x > 0), (m * x < 0) == (x < 0)))))]
def ax_ts():
    from .system import VS, AT, satp, ax_places, sgn, okc
    A = z3.ForAll
    a = z3.Const('a!', SL.sort); x = z3.Const('x!', Real); k = z3.Int('k!'); p = z3.Const('p!', SY)
    AA = [z3.Const('a%s!' % kd, SL.sort) for kd in KINDS]; L = [z3.Const('l%s!' % kd, PLL.sort) for kd in KINDS]
    out = [A([a], slen(a) >= 0, patterns=[slen(a)])]
    for kd in KINDS:
        f, w = OKS[kd], OKSw[kd]
        out += [A([a, x, k], z3.Implies(z3.And(f(a, x), k >= 0, k < slen(a)), okc(kd, sgn(SEV(sat(a, k), x)))), patterns=[z3.MultiPattern(f(a, x), sat(a, k))]),
                A([a, x], z3.Or(f(a, x), z3.And(w(a, x) >= 0, w(a, x) < slen(a), z3.Not(okc(kd, sgn(SEV(sat(a, w(a, x)), x)))))), patterns=[f(a, x)])]
    out += [A(AA + [x], z3.Implies(sats(AA, x), SATS(*AA)), patterns=[z3.MultiPattern(SATS(*AA), *[OKS[kd](l, x) for kd, l in zip(KINDS, AA)])]),
            A(AA, z3.Implies(SATS(*AA), sats(AA, SATSx(*AA))), patterns=[SATS(*AA)]),
            # what a satisfiable system is
            A(L + [x], z3.Implies(satp(L, AT(x)), SAT(*L)), patterns=[z3.MultiPattern(SAT(*L), *[OK[kd](l, AT(x)) for kd, l in zip(KINDS, L)])]),
            A(L, z3.Implies(SAT(*L), satp(L, AT(SATx(*L)))), patterns=[SAT(*L)]),
            A([p], z3.Implies(z3.And(NZ(p)), z3.And(z3.Not(zerop(p)), COEF(p, DEG(p)) != 0, DEG(p) >= 0)), patterns=[NZ(p)]),
            A([p, x], z3.Implies(z3.And(SEEN(p), NZ(p)), sgn(EV(CONVL(p), x)) == sgn(SEV(p, x))), patterns=[EV(CONVL(p), x)])]
    return basics() + alltnz_def() + ax_places() + ax_convert() + out
def ts_asserts(ex, t, *A):
    x = z3.Const('x!', Real)
    if t.sort() != PLL.sort or not t.decl().name().startswith('lst!'): return []
    from pyded.prover import walk
    used = {c.get_id() for d in ex.defs for cs in [list(walk([d]))] if any(c.eq(t) for c in cs) for c in cs}
    out = []
    for kd, a in zip(KINDS, A):
        if a.get_id() in used:
            out += [z3.ForAll([x], OK[kd](t, AT(x)) == OKS[kd](a, x), patterns=[p]) for p in (OK[kd](t, AT(x)), OKS[kd](a, x))]
    return out
NZ = fn('NONZERO', SY, Bool)
def nz_list(ex, *A):
    i = z3.Int('i!')
    return [('the polynomials are non-zero', z3.And(*[z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < slen(a)), NZ(sat(a, i))), patterns=[sat(a, i)]) for a in A]))]
def bad(ex, *A):
    i = z3.Int('i!')
    return z3.Or(*[z3.Exists([i], z3.And(i >= 0, i < slen(a), z3.Not(SEEN(sat(a, i))))) for a in A])
def axioms(): return basics() + ax_numbers() + ax_sympy() + ax_lists() + ax_mark()
def contracts():
    C = {}
    def add(c): C[c.qual] = c
    add(R2IC(F + ':convert_rationals_to_ints', [SLK], None, axioms=axioms, raises={'Exception': lambda ex, L: z3.Not(allnum(L))}, public=False, invariants=lcm_invariants,
        doc='multiplies a list of rationals by a positive integer that makes them integers'))
    add(ConvC(F + ':convert', ['obj:Sym'], None, axioms=axioms, raises={'Exception': lambda ex, p: z3.Not(SEEN(p))}, invariants=lcm_invariants,
        doc='coefficient list of a polynomial, up to a positive factor'))
    for nm in ('ts', 'vts'):
        add(Contract(F + ':' + nm, [SLK] * 4, 'bool', pre=nz_list, exact=lambda ex, *A: SATS(*A), axioms=ax_ts, asserts=ts_asserts, proves=lambda: [(n, f, []) for n, f in lem_scale()],
            may={'Exception': lambda ex, *A, nm=nm: z3.BoolVal(True) if nm == 'vts' else bad(ex, *A)}, advances=nm == 'vts',
            doc='true exactly when some real number meets all constraints; an error only if a polynomial is not rational, or too large for vts'))
    add(Contract(F + ':convert_back', ['poly'], 'num', exact=lambda ex, p: EV(p, XV), doc='the polynomial with these coefficients'))
    return C

def spec_sums5():
    p = z3.Const('SP!spec', SY); SUBST[p.get_id()] = p
    return {'SEVsum': (SEVs, [p, X], I, COEF(p, I) * rpow(X, I))}
