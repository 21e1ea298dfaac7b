"""Relations between expressions: sequents, clauses, the four lists, univariate rewriting. What sympy's relation
classes do is assumed (contracts of the dependency), in terms of the truth of a relation under an assignment."""
import z3
from pyded.sym import *
from pyded.contract import Contract
from pyded.execu import RaiseV
from .poly import *
from .conv import SY, PYI, PYINT, NMUL, EXP, NSYM, SymSet, Symb, sym, fn, LIFT
F = 'vts/checker.py'; FE = 'vts/examples_parser.py'
RL = obj_sort('Rel'); RS = seqsort(RL); RSS = seqsort(RS.sort); SL = seqsort(SY)
rlen, rat = RS.len, RS.at
KN = ('Le', 'Lt', 'Eq', 'Ne', 'Gt', 'Ge', 'True', 'False', 'Other')
RK, _ks = z3.EnumSort('RelKind', ['K' + k for k in KN]); K = dict(zip(KN, _ks))
SIX = KN[:6]
ENV = z3.DeclareSort('ENV')
MEV = fn('MEV', SY, ENV, Real)         # value of an expression under an assignment
KIND = fn('KIND', RL, RK); LHS = fn('LHS', RL, SY); RHS = fn('RHS', RL, SY)
HOLDS = fn('HOLDS', RL, ENV, Bool)
MK = fn('MK', RK, SY, SY, RL)
NEG = fn('SNEG', SY, SY); SSUB = fn('SSUB', SY, SY, SY); SADD = fn('SADD', SY, SY, SY)
ALLH = fn('ALLH', RS.sort, ENV, Bool); ALLHw = fn('ALLH_w', RS.sort, ENV, Int)
ANYH = fn('ANYH', RS.sort, ENV, Bool); ANYHw = fn('ANYH_w', RS.sort, ENV, Int)
ANYC = fn('ANYC', RSS.sort, ENV, Bool); ANYCw = fn('ANYC_w', RSS.sort, ENV, Int)
CNT = {k: fn('CNT' + k, RS.sort, Int, Int) for k in ('Le', 'Lt', 'Eq', 'Ne')}
XOF = fn('XOF', ENV, Real); DIAG = fn('DIAG', Real, ENV); SUBX = fn('SUBX', SY, SY); VARX = z3.Const('VARX', SY); SYMAT = fn('SYMAT', SY, Int, SY)
ALIAS = {'Le': 'LessThan', 'Lt': 'StrictLessThan', 'Eq': 'Equality', 'Ne': 'Unequality', 'Gt': 'StrictGreaterThan', 'Ge': 'GreaterThan'}
class RelCls(ClsV):
    def __init__(self, k): ClsV.__init__(self, 'sympy.' + ALIAS[k]); self.k = k
CLS = {k: RelCls(k) for k in SIX}
def consts():
    d = {}
    for k in SIX:
        for pre in ('sympy.', 'sympy.relational.', 'sympy.core.relational.', 'sympy.core.'):
            d[pre + k] = d[pre + ALIAS[k]] = CLS[k]
    return d
def rel(k, a, b): return {'Le': a <= b, 'Lt': a < b, 'Eq': a == b, 'Ne': a != b, 'Gt': a > b, 'Ge': a >= b}[k]
def six(k): return z3.Or(*[k == K[x] for x in SIX])
def ax_rel():
    r = z3.Const('r!', RL); a = z3.Const('a!', SY); b = z3.Const('b!', SY); e = z3.Const('e!', ENV); k = z3.Const('k!', RK); n = z3.Int('n!'); v = z3.Const('v!', Real); i = z3.Int('i!')
    L = z3.Const('L!', RS.sort); C = z3.Const('C!', RSS.sort)
    A = z3.ForAll
    m = MK(k, a, b)
    out = [A([r, e], z3.And(*[z3.Implies(KIND(r) == K[x], HOLDS(r, e) == rel(x, MEV(LHS(r), e), MEV(RHS(r), e))) for x in SIX] +
                      [z3.Implies(KIND(r) == K['True'], HOLDS(r, e)), z3.Implies(KIND(r) == K['False'], z3.Not(HOLDS(r, e)))]), patterns=[HOLDS(r, e)]),
           A([r], z3.Implies(six(KIND(r)), z3.And(z3.Not(PYINT(LHS(r))), z3.Not(PYINT(RHS(r))))), patterns=[KIND(r)]),
           # building a relation: of that kind with these sides, or what it evaluates to
           A([k, a, b, e], z3.And(*[z3.Implies(k == K[x], HOLDS(m, e) == rel(x, MEV(a, e), MEV(b, e))) for x in SIX]), patterns=[HOLDS(m, e)]),
           A([k, a, b], z3.Or(z3.And(KIND(m) == k, MEQ(LHS(m), a), MEQ(RHS(m), b)), KIND(m) == K['True'], KIND(m) == K['False']), patterns=[m]),
           A([a, b, e], z3.Implies(MEQ(a, b), MEV(a, e) == MEV(b, e)), patterns=[z3.MultiPattern(MEQ(a, b), MEV(a, e))]),
           A([a, e], MEV(NEG(a), e) == -MEV(a, e), patterns=[MEV(NEG(a), e)]), A([a, b, e], MEV(SSUB(a, b), e) == MEV(a, e) - MEV(b, e), patterns=[MEV(SSUB(a, b), e)]),
           A([a, b, e], MEV(SADD(a, b), e) == MEV(a, e) + MEV(b, e), patterns=[MEV(SADD(a, b), e)]),
           A([a, n, e], MEV(NMUL(a, n), e) == MEV(a, e) * z3.ToReal(n), patterns=[MEV(NMUL(a, n), e)]), A([n, e], MEV(PYI(n), e) == z3.ToReal(n), patterns=[MEV(PYI(n), e)]),
           A([n], PYINT(PYI(n)), patterns=[PYI(n)]), A([a], z3.And(z3.Not(PYINT(NEG(a)))), patterns=[NEG(a)]), A([a, b], z3.Implies(z3.Or(z3.Not(PYINT(a)), z3.Not(PYINT(b))), z3.Not(PYINT(SSUB(a, b)))), patterns=[SSUB(a, b)]),
           A([a, b], z3.Implies(z3.Or(z3.Not(PYINT(a)), z3.Not(PYINT(b))), z3.Not(PYINT(SADD(a, b)))), patterns=[SADD(a, b)]),
           A([a], NSYM(a) >= 0, patterns=[NSYM(a)]), A([L], rlen(L) >= 0, patterns=[rlen(L)]),
           A([a, e], MEV(EXP(a), e) == MEV(a, e), patterns=[MEV(EXP(a), e)]), A([a], z3.Implies(z3.Not(PYINT(a)), z3.Not(PYINT(EXP(a)))), patterns=[EXP(a)]),
           A([a, e], MEV(SUBX(a), e) == MEV(a, DIAG(XOF(e))), patterns=[MEV(SUBX(a), e)]), A([v], XOF(DIAG(v)) == v, patterns=[DIAG(v)]), A([a], z3.Not(PYINT(SUBX(a))), patterns=[SUBX(a)]),
           # an expression in no variable but x
           A([a, e], z3.Implies(z3.And(NSYM(a) == 0), MEV(a, e) == MEV(a, DIAG(XOF(e)))), patterns=[z3.MultiPattern(NSYM(a), MEV(a, e))]),
           # all relations of a clause; some clause
           A([L, e, i], z3.Implies(z3.And(ALLH(L, e), i >= 0, i < rlen(L)), HOLDS(rat(L, i), e)), patterns=[z3.MultiPattern(ALLH(L, e), rat(L, i))]),
           A([L, e], z3.Or(ALLH(L, e), z3.And(ALLHw(L, e) >= 0, ALLHw(L, e) < rlen(L), z3.Not(HOLDS(rat(L, ALLHw(L, e)), e)))), patterns=[ALLH(L, e)]),
           A([L, e, i], z3.Implies(z3.And(HOLDS(rat(L, i), e), i >= 0, i < rlen(L)), ANYH(L, e)), patterns=[z3.MultiPattern(ANYH(L, e), rat(L, i))]),
           A([L, e], z3.Implies(ANYH(L, e), z3.And(ANYHw(L, e) >= 0, ANYHw(L, e) < rlen(L), HOLDS(rat(L, ANYHw(L, e)), e))), patterns=[ANYH(L, e)]),
           A([C, e, i], z3.Implies(z3.And(ALLH(RSS.at(C, i), e), i >= 0, i < RSS.len(C)), ANYC(C, e)), patterns=[z3.MultiPattern(ANYC(C, e), RSS.at(C, i))]),
           A([C, e], z3.Implies(ANYC(C, e), z3.And(ANYCw(C, e) >= 0, ANYCw(C, e) < RSS.len(C), ALLH(RSS.at(C, ANYCw(C, e)), e))), patterns=[ANYC(C, e)]),
           # a set: its elements in some order
           A([L, i], z3.Implies(z3.And(i >= 0, i < rlen(SETL(L))), z3.And(SETF(L, i) >= 0, SETF(L, i) < rlen(L), rat(SETL(L), i) == rat(L, SETF(L, i)))), patterns=[rat(SETL(L), i)]),
           A([L, i], z3.Implies(z3.And(i >= 0, i < rlen(L)), z3.And(SETP(L, i) >= 0, SETP(L, i) < rlen(SETL(L)), rat(SETL(L), SETP(L, i)) == rat(L, i))), patterns=[SETP(L, i)]),
           A([L, e], ALLH(SETL(L), e) == ALLH(L, e), patterns=[ALLH(SETL(L), e)]),
           A([L], z3.And(rlen(SETL(L)) >= 0, rlen(SETL(L)) <= rlen(L), (rlen(SETL(L)) == 0) == (rlen(L) == 0)), patterns=[SETL(L)])]
    return out
MEQ = fn('MEQ', SY, SY, Bool)          # the same expression, sympified
SETL = fn('SETL', RS.sort, RS.sort); SETF = fn('SETL_from', RS.sort, Int, Int); SETP = fn('SETL_pos', RS.sort, Int, Int)
def ax_marks():
    """no content: terms worth looking at"""
    L = z3.Const('L!', RS.sort); M = z3.Const('M!', RS.sort); C = z3.Const('C!', RSS.sort); e = z3.Const('e!', ENV)
    m1 = fn('MARKR', RL, Bool); m2 = fn('MARKRS', RS.sort, Bool)
    return [z3.ForAll([L, M, e], m1(rat(L, ALLHw(M, e))), patterns=[z3.MultiPattern(ALLHw(M, e), ALLH(L, e))]),
            z3.ForAll([C, M, e], m1(rat(M, ANYCw(C, e))), patterns=[z3.MultiPattern(ANYCw(C, e), ANYH(M, e))]),
            z3.ForAll([L, e], m1(rat(L, rlen(L) - 1)), patterns=[ALLH(L, e)]),
            z3.ForAll([C, M, e], m2(RSS.at(C, ANYHw(M, e))), patterns=[z3.MultiPattern(ANYHw(M, e), ANYC(C, e))])]
def tosym(x):
    if is_num(x): return LIFT['Sym'](x)
    if isinstance(x, Symb): return sym(x.term)
    if not isinstance(x, ObjT) or x.cls != 'Sym': raise Unsupported('not an expression')
    return x
def rl(t): return ObjT('Rel', t)
def ext6(prev):
    def mk(k):
        def h(ex, st, a, b=0): return rl(MK(k, tosym(a).term, tosym(b).term))
        return h
    def isinst(ex, st, x, nm):
        if isinstance(x, ObjT) and x.cls == 'Rel':
            for k in SIX:
                if nm == 'sympy.' + ALIAS[k]: return KIND(x.term) == K[k]
            if nm in ('sympy.Rel', 'sympy.relational.Relational', 'sympy.core.relational.Relational'): return six(KIND(x.term))
            if nm == 'bool': raise Unsupported('Python and sympy truth values are not told apart')
        return None
    def attr(f):
        def h(ex, st, r):
            return [(s, sym(f(r.term)) if t else RaiseV(ExcV('AttributeError'))) for s, t in ex.branch(st, six(KIND(r.term)))]
        return h
    def eqk(ex, st, a, b):
        if isinstance(a, RelCls): a, b = b, a
        return a == K[b.k]
    def eqb(ex, st, a, b):
        if isinstance(a, bool): a, b = b, a
        return KIND(a.term) == K['True' if b else 'False']
    def bin_(f):
        def h(ex, st, a, b): return sym(f(tosym(a).term, tosym(b).term))
        return h
    def set_(ex, st, q):
        t = ex.listterm(st, LV(q), RS)
        return LV(seq_term(SETL(t)))
    def subs(ex, st, e, *a):
        t = e.term
        if len(a) == 1:
            if isinstance(a[0], DRef): raise Unsupported('subs with a dict')
            q = ex.seq(st, a[0])
            if isinstance(q.n, int) and q.n == 0: return e
            def pair(i):
                p = q.get(i)
                if not isinstance(p, Tup) or len(p.items) != 2: raise Unsupported('subs with something else')
                return tosym(p.items[0]).term, tosym(p.items[1]).term
            J = ex.fresh('j', Int); I = z3.Int('i!sub')
            if isinstance(q.n, int): raise Unsupported('subs of named variables')
            s, v = pair(J)
            ex.oblige(st, 'every variable is replaced by x', z3.Implies(z3.And(J >= 0, J < zi(q.n)), v == VARX), None, 'pre')
            ex.oblige(st, 'each variable of the expression is replaced', z3.And(zi(q.n) == NSYM(t), z3.Implies(z3.And(J >= 0, J < NSYM(t)), s == SYMAT(t, J))), None, 'pre')
            return sym(SUBX(t))
        raise Unsupported('subs')
    def itersyms(ex, st, v): return Seq(NSYM(v.of), lambda i: Symb(v.of, zi(i)))
    def var(ex, st, nm):
        if nm != 'x': raise Unsupported('variable %r' % (nm,))
        return sym(VARX)
    def var2(ex, st, nm): return var(ex, st, nm) if ex.curfn.startswith((F, FE)) else prev['sympy.var'](ex, st, nm)
    def mul(ex, st, a, b):
        r = prev['Mult:Sym,Int'](ex, st, a, b)
        return r
    d = {'new:sympy.' + ALIAS[k]: mk(K[k]) for k in SIX}
    d.update({'call:RelKind': lambda ex, st, k, a, b=0: rl(MK(k, tosym(a).term, tosym(b).term)),
              'isinstance:Rel': isinst, 'attr:Rel.lhs': attr(LHS), 'attr:Rel.rhs': attr(RHS), 'attr:Rel.__class__': lambda ex, st, r: KIND(r.term), 'attr:Rel.func': lambda ex, st, r: KIND(r.term), 'type:Rel': lambda ex, st, r: KIND(r.term),
              'keyeq:RelKind': lambda ex, k, x: (k == K[x.k]) if isinstance(x, RelCls) else None,
              'Eq:RelKind,RelCls': eqk, 'Eq:RelCls,RelKind': eqk, 'Is:RelKind,RelCls': eqk, 'Is:RelCls,RelKind': eqk, 'Eq:Rel,Bool': eqb, 'Eq:Bool,Rel': eqb,
              'neg:Sym': lambda ex, st, a: sym(NEG(a.term)), 'Sub:Sym,Sym': bin_(SSUB), 'Sub:Sym,Int': bin_(SSUB), 'Sub:Int,Sym': bin_(SSUB), 'Add:Sym,Sym': bin_(SADD), 'Add:Sym,Int': bin_(SADD), 'Add:Int,Sym': bin_(SADD),
              'builtin:set': set_, 'meth:Sym.subs': subs, 'iterseq:SymSet': itersyms, 'sympy.var': var2, 'sympy.Symbol': var2, 'sympy.symbols': var2})
    return d
RLK = (lambda ex, st, nm: wrap(z3.Const(nm, RS.sort)), lambda ex, st, v: ex.listterm(st, v, RS), lambda ex, st: wrap(ex.fresh('res', RS.sort)))
RSK = (None, lambda ex, st, v: ex.listterm(st, v, RSS), lambda ex, st: wrap(ex.fresh('res', RSS.sort)))
def fe(body):
    """for an assignment that nothing is known about"""
    e = z3.Const('E!', ENV)
    return z3.ForAll([e], body(e))
def pointwise(neg):
    def post(ex, s, r, L):
        e = z3.Const('e!', ENV); i = z3.Int('i!')
        h = HOLDS(rat(L, i), e)
        out = [('as many relations', rlen(r) == rlen(L)),
               ('each relation is %s' % ('negated' if neg else 'equivalent'), z3.ForAll([i, e], z3.Implies(z3.And(i >= 0, i < rlen(L)), HOLDS(rat(r, i), e) == (z3.Not(h) if neg else h)), patterns=[HOLDS(rat(r, i), e)]))]
        all_, any_ = ALLH(L, e), ANYH(L, e)
        out += [('some of them hold exactly when %s' % ('not all of the given do' if neg else 'some of the given do'), z3.ForAll([e], ANYH(r, e) == (z3.Not(all_) if neg else any_), patterns=[ANYH(r, e)])),
                ] + ([] if neg else [('all of them hold exactly when all of the given do', z3.ForAll([e], ALLH(r, e) == all_, patterns=[ALLH(r, e)]))])
        out.append(('relations or truth values', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rlen(L)), KIND(rat(r, i)) != K['Other']), patterns=[rat(r, i)])))
        if not neg: out.append(('no > and no >=', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rlen(L)), z3.And(KIND(rat(r, i)) != K['Gt'], KIND(rat(r, i)) != K['Ge'])), patterns=[rat(r, i)])))
        return out
    return post
def some_odd(ex, L):
    i = z3.Int('i!')
    return z3.Exists([i], z3.And(i >= 0, i < rlen(L), z3.Not(six(KIND(rat(L, i))))))
def pre_rel(ex, *Ls):
    i = z3.Int('i!')
    return [('relations or truth values', z3.And(*[z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rlen(L)), KIND(rat(L, i)) != K['Other']), patterns=[rat(L, i)]) for L in Ls]))]
def post_clauses(ex, s, r, a, c):
    i = z3.Int('i!'); j = z3.Int('j!'); e = z3.Const('e!', ENV)
    return [('no clause contains > or >=', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < RSS.len(r), j >= 0, j < rlen(RSS.at(r, i))), z3.And(KIND(rat(RSS.at(r, i), j)) != K['Gt'], KIND(rat(RSS.at(r, i), j)) != K['Ge'])))),
            ('some clause holds exactly when the antecedent holds and the succedent fails', z3.ForAll([e], ANYC(r, e) == z3.And(ALLH(a, e), z3.Not(ALLH(c, e))), patterns=[ANYC(r, e)]))]
def alltrue(L):
    i = z3.Int('i!')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rlen(L)), KIND(rat(L, i)) == K['True']))
def somefalse(L):
    i = z3.Int('i!')
    return z3.Exists([i], z3.And(i >= 0, i < rlen(L), KIND(rat(L, i)) == K['False']))
def clause_asserts(ex, t, a, c):
    if t.sort() == RSS.sort and t.decl().name().startswith('lst!'):
        from pyded.prover import walk
        e = z3.Const('e!', ENV)
        cs = []
        for d in ex.defs:
            xs = list(walk([d]))
            if any(z3.is_app(x) and x.decl().range() == RS.sort and x.decl().name().startswith('lst!') and x.num_args() for x in xs) or any(x.eq(t) for x in xs):
                for x in xs:
                    if z3.is_const(x) and x.sort() == RS.sort and x.decl().name().startswith('res!') and not any(x.eq(y) for y in cs): cs.append(x)
        return [z3.ForAll([e], ANYC(t, e) == z3.And(ALLH(x, e), ANYH(y, e)), patterns=[ANYC(t, e)]) for x in cs for y in cs if not x.eq(y)]
    if t.sort() == RS.sort and not t.eq(a) and not t.eq(c):
        from pyded.prover import walk
        e = z3.Const('e!', ENV)
        if t.decl().name().startswith('lst!'):
            used = {x.get_id() for d in ex.defs for cs in [list(walk([d]))] if any(x.eq(t) for x in cs) for x in cs}
            return [f for L in (a, c) if L.get_id() in used for f in (z3.ForAll([e], ALLH(t, e) == ALLH(L, e), patterns=[ALLH(t, e)]),)]
    return []
class MapC(Contract):
    def check_result(self, ex, s, v, A, nm, pre_st):
        L = A[0]
        if not isinstance(v, DRef): ex.oblige(s, '%s returns a map' % nm, z3.BoolVal(False), None, 'post'); return
        for key, k in (('le', 'Le'), ('lt', 'Lt'), ('eq', 'Eq'), ('ne', 'Ne')):
            for s2, l in ex.dict_get(s, v, key):
                if isinstance(l, RaiseV): ex.oblige(s2, '%s: the map has a list for %s' % (nm, key), z3.BoolVal(False), None, 'post'); continue
                t = ex.listterm(s2, l, SL)
                I = ex.fresh('i', Int)
                ex.oblige(s2, '%s: as many polynomials under %s as relations of that kind' % (nm, key), SL.len(t) == CNT[k](L, rlen(L)), None, 'post')
                ex.oblige(s2, '%s: each relation of that kind is under %s once' % (nm, key), z3.Implies(z3.And(I >= 0, I < rlen(L), KIND(rat(L, I)) == K[k]), SL.at(t, CNT[k](L, I)) == LHS(rat(L, I))), None, 'post')
        d = s.heap[v.addr]
        ex.oblige(s, '%s: the map has these four keys' % nm, z3.BoolVal(d.conc is not None and len(d.conc) == 4), None, 'post')
    def call(self, ex, st, args, line): raise Unsupported('call of make_relation_map')
def spec_sums6():
    L = z3.Const('RL!spec', RS.sort); SUBST[L.get_id()] = L
    return {'CNT' + k: (CNT[k], [L], I, z3.If(KIND(rat(L, I)) == K[k], z3.IntVal(1), z3.IntVal(0))) for k in CNT}
def unknown_kind(ex, L):
    i = z3.Int('i!')
    return z3.Exists([i], z3.And(i >= 0, i < rlen(L), z3.And(*[KIND(rat(L, i)) != K[k] for k in CNT])))
def post_uni(ex, s, r, L):
    e = z3.Const('e!', ENV); i = z3.Int('i!')
    dom = z3.And(i >= 0, i < rlen(L)); o, n = rat(L, i), rat(r, i)
    def val(e): return MEV(LHS(o), DIAG(XOF(e))) - MEV(RHS(o), DIAG(XOF(e)))
    return [('one relation per relation', rlen(r) == rlen(L)),
            ('of the same kind, or a truth value', z3.ForAll([i], z3.Implies(dom, z3.Or(KIND(n) == KIND(o), KIND(n) == K['True'], KIND(n) == K['False'])), patterns=[n])),
            ('true exactly when the original is on the diagonal', z3.ForAll([i, e], z3.Implies(dom, HOLDS(n, e) == z3.Or(*[z3.And(KIND(o) == K[k], rel(k, val(e), z3.RealVal(0))) for k in SIX])), patterns=[HOLDS(n, e)])),
            ('its left side is the difference on the diagonal, its right side is zero', z3.ForAll([i, e], z3.Implies(z3.And(dom, KIND(n) == KIND(o)), z3.And(MEV(LHS(n), e) == val(e), MEV(RHS(n), e) == 0)), patterns=[MEV(LHS(n), e)]))]
def pre_six(ex, L):
    i = z3.Int('i!')
    return [('relations', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rlen(L)), six(KIND(rat(L, i)))), patterns=[rat(L, i)]))]
def contracts():
    C = {}
    def add(c): C[c.qual] = c
    ax = lambda: basics() + ax_rel()
    add(Contract(F + ':rewrite_to_less', [RLK], RLK, pre=pre_rel, post=pointwise(False), axioms=ax, public=False, doc='the same relations without > and >='))
    add(Contract(F + ':negate_relations', [RLK], RLK, pre=pre_rel, post=pointwise(True), raises={'KeyError': some_odd}, axioms=ax, public=False, doc='the negated relations'))
    add(Contract(F + ':vts_preformat', [RLK, RLK], RSK, pre=pre_rel, post=post_clauses, axioms=lambda: ax() + ax_marks(), asserts=clause_asserts,
        may={'KeyError': lambda ex, a, c: somefalse(c), 'Exception': lambda ex, a, c: z3.Or(alltrue(a), alltrue(c))}, doc='clauses whose disjunction says that the sequent fails'))
    add(MapC(F + ':make_relation_map', [RLK], 'any', axioms=ax, raises={'Exception': unknown_kind}, cuts=lambda ex, L: [CNT[k](L, rlen(L)) for k in CNT], doc='the four constraint lists of a clause'))
    add(Contract(FE + ':make_univariate', [RLK], RLK, pre=pre_six, post=post_uni, axioms=ax, doc='relations on the diagonal'))
    return C
