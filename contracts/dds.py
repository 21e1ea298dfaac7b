"""Derivative-sign descriptors, discrimination of roots, the sign of a polynomial at a described root,
and virtual term substitution."""
import z3
from pyded.sym import *
from pyded.contract import Contract, named
from pyded.execu import DictC, FieldMap, State, FnV, S2
from pyded.prover import walk, has_var
from .poly import *
from .tarski import TAQ, neglead
from .system import (sgn, MEM, MEMI, KEY, KINV, PKEY, ax_key, AT, RT, NI, VS, SAT, ROOTS, ax_places, ax_roots, ax_sat,
                     SDARG, SD, SDH, SDA, PT, satp, KINDS)
CLS = 'DiscDerSigns'
O = obj_sort(CLS)
DL = seqsort(O)
dlen, dat = DL.len, DL.at
SGL = seqsort(Int)
slen, sat_ = SGL.len, SGL.at
R_all = z3.Function('R_all', O, PLL.sort)      # fields of an object when it comes out of a call
R_sgs = z3.Function('R_sgs', O, SGL.sort)
R_org = z3.Function('R_org', O, PL.sort)
POINT = z3.Function('POINT', O, Real)          # the root an object describes (set once, at construction)
BIRTH = z3.Function('birth_' + CLS, O, Int)
PAPP = z3.Function('PAPP', PLL.sort, PL.sort, PLL.sort)
SAPP = z3.Function('SAPP', SGL.sort, Int, SGL.sort)
RECOK = z3.Function('RECOK', PLL.sort, SGL.sort, Real, Int, Bool)
SEP = z3.Function('SEP', PLL.sort, SGL.sort, Real, Bool)
SEPALL = z3.Function('SEPALL', PL.sort, PLL.sort, SGL.sort, Real, Bool)
THOM = z3.Function('THOM', PL.sort, Real, Real, Bool)
HASPT = z3.Function('HASPT', DL.sort, Real, Bool)
HASW = z3.Function('HASPT_w', DL.sort, Real, Int)
PNIL, SNIL = z3.Const('nil_' + PLL.sort.name(), PLL.sort), z3.Const('nil_' + SGL.sort.name(), SGL.sort)

def ax_dds():
    ll = z3.Const('ll!', PLL.sort); sg = z3.Const('sg!', SGL.sort); p = z3.Const('p!', PL.sort); s = z3.Int('s!')
    k = z3.Int('k!'); k2 = z3.Int('k2!'); n = z3.Int('n!'); x = z3.Const('x!', Real); y = z3.Const('y!', Real); d = z3.Const('d!', DL.sort)
    A, And, Imp = z3.ForAll, z3.And, z3.Implies
    W = z3.Function('RECOK_w', PLL.sort, SGL.sort, Real, Int, Int); W2 = z3.Function('RECOK_w2', PLL.sort, SGL.sort, Real, Int, Int)
    w, w2 = W(ll, sg, x, n), W2(ll, sg, x, n)
    SW = z3.Function('SEP_w', PLL.sort, SGL.sort, Real, Int)
    def rec1(k): return And(tnz(lat(ll, k)), plen(lat(ll, k)) < n, sat_(sg, k) == sgn(EV(lat(ll, k), x)))
    SAW = z3.Function('SEPALL_w', PL.sort, PLL.sort, SGL.sort, Real, Real)
    return [
        A([sg], slen(sg) >= 0, patterns=[slen(sg)]), A([d], dlen(d) >= 0, patterns=[dlen(d)]),
        llen(PNIL) == 0, slen(SNIL) == 0,
        A([ll, p], And(llen(PAPP(ll, p)) == llen(ll) + 1, lat(PAPP(ll, p), llen(ll)) == p), patterns=[PAPP(ll, p)]),
        A([ll, p, k], Imp(And(k >= 0, k < llen(ll)), lat(PAPP(ll, p), k) == lat(ll, k)), patterns=[lat(PAPP(ll, p), k)]),
        A([sg, s], And(slen(SAPP(sg, s)) == slen(sg) + 1, sat_(SAPP(sg, s), slen(sg)) == s), patterns=[SAPP(sg, s)]),
        A([sg, s, k], Imp(And(k >= 0, k < slen(sg)), sat_(SAPP(sg, s), k) == sat_(sg, k)), patterns=[sat_(SAPP(sg, s), k)]),
        # RECOK: what is recorded is true at x, of degree below n - 1, non-zero, pairwise different
        A([ll, sg, x, n], Imp(RECOK(ll, sg, x, n), And(llen(ll) == slen(sg), llen(ll) <= z3.If(n >= 1, n - 1, z3.IntVal(0)))), patterns=[RECOK(ll, sg, x, n)]),
        A([ll, sg, x, n, k], Imp(And(RECOK(ll, sg, x, n), k >= 0, k < llen(ll)), rec1(k)), patterns=[z3.MultiPattern(RECOK(ll, sg, x, n), lat(ll, k))]),
        A([ll, sg, x, n, k, k2], Imp(And(RECOK(ll, sg, x, n), k >= 0, k < k2, k2 < llen(ll)), lat(ll, k) != lat(ll, k2)), patterns=[z3.MultiPattern(RECOK(ll, sg, x, n), lat(ll, k), lat(ll, k2))]),
        A([ll, sg, x, n], z3.Or(RECOK(ll, sg, x, n), llen(ll) != slen(sg), llen(ll) > z3.If(n >= 1, n - 1, z3.IntVal(0)),
            And(w >= 0, w < llen(ll), z3.Not(rec1(w))),
            And(w >= 0, w < w2, w2 < llen(ll), lat(ll, w) == lat(ll, w2))), patterns=[RECOK(ll, sg, x, n)]),
        # SEP: some recorded sign is wrong at y
        A([ll, sg, y], Imp(SEP(ll, sg, y), And(SW(ll, sg, y) >= 0, SW(ll, sg, y) < llen(ll), sat_(sg, SW(ll, sg, y)) != sgn(EV(lat(ll, SW(ll, sg, y)), y)))), patterns=[SEP(ll, sg, y)]),
        A([ll, sg, y, k], z3.Or(SEP(ll, sg, y), k < 0, k >= llen(ll), sat_(sg, k) == sgn(EV(lat(ll, k), y))), patterns=[z3.MultiPattern(SEP(ll, sg, y), lat(ll, k))]),
        # SEPALL: wrong at every root of p but x
        A([p, ll, sg, x, y], Imp(And(SEPALL(p, ll, sg, x), EV(p, y) == 0, y != x), SEP(ll, sg, y)), patterns=[z3.MultiPattern(SEPALL(p, ll, sg, x), SEP(ll, sg, y))]),
        A([p, ll, sg, x], z3.Or(SEPALL(p, ll, sg, x), And(EV(p, SAW(p, ll, sg, x)) == 0, SAW(p, ll, sg, x) != x, z3.Not(SEP(ll, sg, SAW(p, ll, sg, x))))), patterns=[SEPALL(p, ll, sg, x)]),
        # THOM: some derivative of p (of order at least one) has different signs at x and y
        A([p, x, y], Imp(THOM(p, x, y), And(plen(p) >= 2, z3.Or(sgn(EV(DER(p), x)) != sgn(EV(DER(p), y)), THOM(DER(p), x, y)))), patterns=[THOM(p, x, y)]),
        # HASPT: some object of the list describes x
        A([d, x], Imp(HASPT(d, x), And(HASW(d, x) >= 0, HASW(d, x) < dlen(d), POINT(dat(d, HASW(d, x))) == x)), patterns=[HASPT(d, x)]),
        A([d, x, k], z3.Or(HASPT(d, x), k < 0, k >= dlen(d), POINT(dat(d, k)) != x), patterns=[z3.MultiPattern(HASPT(d, x), dat(d, k))]),
    ]
def lem_thom():
    """Lean: thom (two different roots of p differ in the sign of some derivative)"""
    p = z3.Const('p!', PL.sort); x = z3.Const('x!', Real); y = z3.Const('y!', Real)
    return [z3.ForAll([p, x, y], z3.Implies(z3.And(tnz(p), x != y, EV(p, x) == 0, EV(p, y) == 0), THOM(p, x, y)), patterns=[THOM(p, x, y)])]
def lem_rec():
    """consequences of the definitions, proved on every run (see get_discri_der_signs)"""
    ll = z3.Const('ll!', PLL.sort); sg = z3.Const('sg!', SGL.sort); p = z3.Const('p!', PL.sort); s = z3.Int('s!'); x = z3.Const('x!', Real); y = z3.Const('y!', Real)
    n = z3.Int('n!'); m = z3.Int('m!')
    A, And, Imp = z3.ForAll, z3.And, z3.Implies
    r = RECOK(PAPP(ll, p), SAPP(sg, s), x, m)
    return [('a wrong sign stays wrong when one more is recorded', A([ll, sg, p, s, y], Imp(And(llen(ll) == slen(sg), SEP(ll, sg, y)), SEP(PAPP(ll, p), SAPP(sg, s), y)), patterns=[SEP(PAPP(ll, p), SAPP(sg, s), y)])),
        ('recording a true sign of a polynomial of higher degree', A([ll, sg, p, s, x, n, m], Imp(And(RECOK(ll, sg, x, n), tnz(p), n <= plen(p), plen(p) < m, s == sgn(EV(p, x))), r), patterns=[z3.MultiPattern(r, RECOK(ll, sg, x, n))])),
        ('a higher bound on the degrees', A([ll, sg, x, n, m], Imp(And(RECOK(ll, sg, x, n), n <= m), RECOK(ll, sg, x, m)), patterns=[z3.MultiPattern(RECOK(ll, sg, x, n), RECOK(ll, sg, x, m))])),
        lem_dertnz()]
def lem_dertnz():
    p = z3.Const('p!', PL.sort)
    return ('the derivative of a non-constant polynomial is not zero', z3.ForAll([p], z3.Implies(z3.And(tnz(p), plen(p) >= 2), lastc(DER(p)) != 0), patterns=[DER(p)]))
# ------------------------------------------------------------------ objects --
def setup_heap(ex, st, *a):
    for f, R in (('@all', R_all), ('@sgs', R_sgs), ('origin', R_org)):
        st.heap.setdefault(('F', CLS, f), FieldMap(lambda t, R=R: wrap(R(t))))
    st.heap.setdefault(('F', CLS, 'point'), FieldMap(lambda t: POINT(t)))
def fld(ex, st, o, f):
    v = ex.field(st, o if isinstance(o, ObjT) else ObjT(CLS, o), f)
    return ex.resolve(st, ex.term(v))
class Method(Contract):
    """a method of DiscDerSigns. The abstract state of an object is the list of recorded polynomials and the
    parallel list of their signs; the representation is found by running the constructor and get_all_polies"""
    def __init__(self, name, params, spec, **kw):
        Contract.__init__(self, U + ':%s.%s' % (CLS, name), ['any'] + params, axioms=lambda: basics() + ax_key() + ax_dds(), **kw)
        self.name, self.spec = name, spec
    def call(self, ex, st, args, line):
        o = args[0]
        if not isinstance(o, ObjT) or o.cls != CLS: raise Unsupported('%s expected' % CLS)
        A = [self.totermv(ex, st, k, v) for k, v in zip(self.params[1:], args[1:])]
        setup_heap(ex, st)
        for r in self.spec(self, ex, st, o, A, line): yield r
    def run(self, ex, st, o, name, args):
        m = ex.method(CLS, name)
        if m is None: raise Unsupported('%s has no %s' % (CLS, name))
        mod, node, cname = m
        fid = ex.newframe(st, None, mod, name)
        f = FnV(node, None, '%s:%s.%s' % (mod, cname, name), mod, cls=cname, selfv=o)
        outs = []
        for k, a, x in ex.bind(st, f, args, {}, fid):
            if k == 'raise': outs.append((k, a, x)); continue
            outs += ex.block(node['body'], a, fid)
        return outs
    def fields(self, st): return {k[2]: k for k in st.heap if isinstance(k, tuple) and k[0] == 'F' and k[1] == CLS}
    def rep(self, ex):
        """fields that hold the list and the dict, from the constructor"""
        st = State(); o = ObjT(CLS, z3.Const('o!rep', O))
        outs = self.run(ex, st, o, '__init__', [z3.Const('pt!rep', Real)])
        if len(outs) != 1 or outs[0][0] == 'raise': raise Unsupported('the constructor of %s' % CLS)
        s = outs[0][1]
        lists, dicts, points, other = [], [], [], []
        for f in self.fields(s):
            v = ex.field(s, o, f)
            if isinstance(v, LV): lists.append(f)
            elif isinstance(v, DRef): dicts.append(f)
            elif is_z3(v) and v.eq(z3.Const('pt!rep', Real)): points.append(f)
            else: other.append(f)
        # which list get_all_polies returns (the field itself or a copy of it)
        for f in lists: s.heap[('F', CLS, f)] = FieldMap(lambda t, f=f: wrap(z3.Function('rep_' + f, O, PLL.sort)(t)))
        r = self.run(ex, s, o, 'get_all_polies', [])
        if len(r) != 1 or r[0][0] != 'return' or not ex.islist(r[0][2]): raise Unsupported('get_all_polies does not return a list')
        q = ex.listterm(r[0][1], r[0][2], PLL)
        fa = [f for f in lists if q.eq(z3.Function('rep_' + f, O, PLL.sort)(o.term))]
        if len(fa) != 1: raise Unsupported('get_all_polies does not return a field')
        if len(dicts) != 1 or other or points != ['point']: raise Unsupported('representation of %s' % CLS)
        return fa[0], dicts[0], [f for f in lists if f != fa[0]]
    def repdict(self, ex, A, SG):
        return DictC(has=lambda k: MEM(A, KINV(k)), get=lambda k: sat_(SG, MEMI(A, KINV(k))), ksort=PKEY)
    def repstate(self, ex, st, o, A, SG, rep):
        fa, fd, fo = rep
        ex.need_mem(PLL, MEM)
        ad = 'd%d' % uid(); st.heap[ad] = self.repdict(ex, A, SG)
        other = z3.Function('other_dict', O, O)
        st.heap[('F', CLS, fa)] = FieldMap(lambda t: wrap(A) if t.eq(o.term) else wrap(R_all(t)))
        st.heap[('F', CLS, fd)] = FieldMap(lambda t: DRef(ad))
        for f in fo: st.heap[('F', CLS, f)] = FieldMap(lambda t, f=f: wrap(z3.Function('rep_' + f, O, PLL.sort)(t)))
        st.heap[('F', CLS, 'point')] = FieldMap(lambda t: POINT(t))
        st.heap[('F', CLS, 'origin')] = FieldMap(lambda t: wrap(R_org(t)))
        return ad
    def verify(self, ex, node, mod):
        ex.curfn = self.qual
        st = State()
        ex.preload(st)
        o = ObjT(CLS, z3.Const('self', O))
        vals = [self.symbolic(ex, st, k, 'arg%d' % i) for i, k in enumerate(self.params[1:])]
        T = [self.totermv(ex, st, k, v) for k, v in zip(self.params[1:], vals)]
        nm = self.qual.split(':')[1]
        rep = self.rep(ex)
        fa, fd, fo = rep
        A, SG = z3.Const('all', PLL.sort), z3.Const('sgs', SGL.sort)
        ex.assume(st, llen(A) == slen(SG))
        init = self.name == '__init__'
        if not init: ad = self.repstate(ex, st, o, A, SG, rep)
        else: ad = None
        pre = self.pre(ex, A, SG, *T) if self.pre else []
        for n, f in named(pre, 'precondition'): ex.assume(st, f)
        st0 = st.fork(); ex.entry = (st0, T)
        ex.stack.append(self.qual)
        try: outs = self.run(ex, st, o, self.name, vals)
        finally: ex.stack.pop()
        A1, SG1 = self.post_state(A, SG, T)
        for k, s, x in outs:
            if k == 'raise':
                ex.oblige(s, '%s raises nothing when used as documented' % nm, z3.BoolVal(False), None, 'raise'); continue
            v = x if k == 'return' else None
            # the object after the call
            al = ex.field(s, o, fa); dd = ex.field(s, o, fd)
            if not isinstance(al, LV) or not isinstance(dd, DRef): raise Unsupported('representation of %s' % CLS)
            if init and (dd.addr in st0.heap or dd.addr in s.frozen): raise Unsupported('the table of signs is shared')
            if not init and dd.addr != ad: raise Unsupported('the table of signs is replaced')
            J = z3.Int('j!'); K = z3.Const('q!', PL.sort)
            ex.oblige(s, '%s: number of recorded polynomials' % nm, zi(al.seq.n) == llen(A1), None, 'post')
            if not (isinstance(al.seq.n, int) and al.seq.n == 0):
                ex.oblige(s, '%s: recorded polynomials' % nm, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < llen(A1)), ex.listterm(s, al.seq.get(J), PL) == lat(A1, J))), None, 'post')
            c = s.heap[dd.addr]
            if init:
                ex.oblige(s, '%s: no sign is recorded' % nm, z3.BoolVal(c.conc == []), None, 'post')
            else:
                if c.conc is not None: raise Unsupported('table of signs')
                ex.oblige(s, '%s: signs are recorded for the recorded polynomials' % nm, z3.ForAll([K], zbool(c.has(KEY(K))) == MEM(A1, K)), None, 'post')
                g = c.get(KEY(K))
                if not is_num(g): raise Unsupported('table of signs')
                ex.oblige(s, '%s: recorded signs' % nm, z3.ForAll([K], z3.Implies(MEM(A1, K), zi(g) == sat_(SG1, MEMI(A1, K)))), None, 'post')
            # everything else is as it was
            pt = ex.field(s, o, 'point')
            ex.oblige(s, '%s: the point' % nm, zreal(znum(pt)) == (T[0] if init else POINT(o.term)), None, 'post')
            if not init:
                o2 = z3.Const('o2', O)
                org = ex.term(ex.field(s, o, 'origin'))
                ex.oblige(s, '%s: the origin' % nm, org == (T[0] if self.name == 'set_origin_poly' else R_org(o.term)), None, 'post')
                for f in (fa, 'origin', 'point'):
                    a, b = ex.field(s, ObjT(CLS, o2), f), ex.field(st0, ObjT(CLS, o2), f)
                    ex.oblige(s, '%s changes no other object (%s)' % (nm, f), z3.Implies(o2 != o.term, ex.term(a) == ex.term(b)), None, 'post')
                extra = set(self.fields(s)) - {fa, fd, 'point', 'origin'} - set(fo)
                if extra: raise Unsupported('new fields %s' % sorted(extra))
            self.check_value(ex, s, v, A, SG, T, nm, o, fa)
        return st0, T, outs
    def post_state(self, A, SG, T): return (PNIL, SNIL) if self.name == '__init__' else (A, SG)
    def check_value(self, ex, s, v, A, SG, T, nm, o, fa):
        if v is not None: ex.oblige(s, '%s returns nothing' % nm, z3.BoolVal(False), None, 'post')
class Init(Method):
    def __init__(self): Method.__init__(self, '__init__', ['num'], None)
    def call(self, ex, st, args, line):
        o = args[0]; setup_heap(ex, st)
        ex.assume(st, POINT(o.term) == self.totermv(ex, st, 'num', args[1]))
        ex.setfield(st, o, '@all', wrap(PNIL)); ex.setfield(st, o, '@sgs', wrap(SNIL))
        yield st, None
class Add(Method):
    def __init__(self, which, sign):
        self.sign = sign
        Method.__init__(self, 'add_%s_poly' % which, ['poly'], None, pre=lambda ex, A, SG, p: [('not recorded yet', z3.Not(MEM(A, p)))])
    def call(self, ex, st, args, line):
        o = args[0]; setup_heap(ex, st); ex.need_mem(PLL, MEM)
        p = self.totermv(ex, st, 'poly', args[1])
        A, SG = fld(ex, st, o, '@all'), fld(ex, st, o, '@sgs')
        ex.oblige(st, 'call of %s: the polynomial is not recorded yet' % self.name, z3.Not(MEM(A, p)), line, 'pre')
        ex.setfield(st, o, '@all', wrap(PAPP(A, p))); ex.setfield(st, o, '@sgs', wrap(SAPP(SG, z3.IntVal(self.sign))))
        yield st, None
    def post_state(self, A, SG, T): return PAPP(A, T[0]), SAPP(SG, z3.IntVal(self.sign))
class SetOrigin(Method):
    def __init__(self): Method.__init__(self, 'set_origin_poly', ['poly'], None)
    def call(self, ex, st, args, line):
        setup_heap(ex, st)
        ex.setfield(st, args[0], 'origin', wrap(self.totermv(ex, st, 'poly', args[1])))
        yield st, None
class GetAll(Method):
    def __init__(self): Method.__init__(self, 'get_all_polies', [], None)
    def call(self, ex, st, args, line):
        setup_heap(ex, st)
        yield st, wrap(fld(ex, st, args[0], '@all'))
    def check_value(self, ex, s, v, A, SG, T, nm, o, fa):
        if not ex.islist(v): raise Unsupported('get_all_polies does not return a list')
        ex.oblige(s, '%s returns the recorded polynomials' % nm, ex.listterm(s, v, PLL) == A, None, 'post')
class GetSign(Method):
    def __init__(self): Method.__init__(self, 'get_sign', ['poly'], None, pre=lambda ex, A, SG, p: [('is recorded', MEM(A, p))])
    def call(self, ex, st, args, line):
        setup_heap(ex, st); ex.need_mem(PLL, MEM)
        p = self.totermv(ex, st, 'poly', args[1])
        A, SG = fld(ex, st, args[0], '@all'), fld(ex, st, args[0], '@sgs')
        ex.oblige(st, 'call of get_sign: the polynomial is recorded', MEM(A, p), line, 'pre')
        yield st, sat_(SG, MEMI(A, p))
    def check_value(self, ex, s, v, A, SG, T, nm, o, fa):
        if not is_num(v): ex.oblige(s, '%s returns a sign' % nm, z3.BoolVal(False), None, 'post'); return
        ex.oblige(s, '%s returns the recorded sign' % nm, zi(v) == sat_(SG, MEMI(A, T[0])), None, 'post')
# ------------------------------------------------------------ discrimination --
DDL = (lambda ex, st, name: wrap(z3.Const(name, DL.sort)), lambda ex, st, v: ex.listterm(st, v, DL), lambda ex, st: wrap(ex.fresh('dds', DL.sort)))
def gd_pre(ex, r, p):
    j = z3.Int('j!'); k = z3.Int('k!')
    rng = z3.And(j >= 0, j < plen(r), k >= 0, k < plen(r), j != k)
    return [('the polynomial is non-zero and trimmed', tnz(p)),
            ('the roots are pairwise different', z3.ForAll([j, k], z3.Implies(rng, pat(r, j) != pat(r, k)), patterns=[z3.MultiPattern(pat(r, j), pat(r, k))])),
            ('derivatives tell the roots apart', z3.ForAll([j, k], z3.Implies(rng, THOM(p, pat(r, j), pat(r, k))), patterns=[z3.MultiPattern(pat(r, j), pat(r, k))]))]
def gd_parts(ex, st, Ds, r, p):
    """what is ensured, for a list of descriptors given as the concatenation of Ds"""
    setup_heap(ex, st)
    i = z3.Int('i!'); i2 = z3.Int('i2!'); j = z3.Int('j!'); A, And, Imp = z3.ForAll, z3.And, z3.Implies
    rp = z3.Function('mem_' + PL.sort.name(), PL.sort, Real, Bool); ex.need_mem(PL, rp)
    rj = And(j >= 0, j < plen(r))
    out = [('every root has a descriptor', A([j], Imp(rj, z3.Or(*[HASPT(D, pat(r, j)) for D in Ds])), patterns=[pat(r, j)]))]
    for c, D in enumerate(Ds):
        al, sg = fld(ex, st, dat(D, i), '@all'), fld(ex, st, dat(D, i), '@sgs')
        ri = And(i >= 0, i < dlen(D))
        inr = zbool(S(ri))
        al, sg = [z3.simplify(z3.substitute(x, (inr, z3.BoolVal(True)))) for x in (al, sg)]
        out += [('every descriptor is of one of the roots', A([i], Imp(ri, rp(r, POINT(dat(D, i)))), patterns=[dat(D, i)])),
            ('no root has two descriptors', A([i, i2], Imp(And(ri, i2 >= 0, i2 < dlen(D), i != i2), And(dat(D, i) != dat(D, i2), POINT(dat(D, i)) != POINT(dat(D, i2)))), patterns=[z3.MultiPattern(dat(D, i), dat(D, i2))])),
            ('descriptors are new objects', A([i], Imp(ri, And(BIRTH(dat(D, i)) >= st.was, BIRTH(dat(D, i)) < st.now)), patterns=[dat(D, i)])),
            ('recorded signs are true, of lower derivatives, each recorded once', A([i], Imp(ri, RECOK(al, sg, POINT(dat(D, i)), plen(p))), patterns=[dat(D, i)])),
            ('some recorded sign is wrong at every other root', A([i, j], Imp(And(ri, rj, pat(r, j) != POINT(dat(D, i))), SEP(al, sg, pat(r, j))), patterns=[z3.MultiPattern(dat(D, i), pat(r, j))]))]
        for D2 in Ds[:c]:
            out.append(('no root has two descriptors', A([i, i2], Imp(And(ri, i2 >= 0, i2 < dlen(D2)), And(dat(D, i) != dat(D2, i2), POINT(dat(D, i)) != POINT(dat(D2, i2)))))))
    return out
def gd_post(ex, st, D, r, p): return gd_parts(ex, st, [D], r, p)
class Discri(Contract):
    def check_result(self, ex, s, v, A, nm, pre_st):
        if not ex.islist(v):
            ex.oblige(s, '%s returns a list' % nm, z3.BoolVal(False), None, 'post'); return
        q = ex.seq(s, v)
        Ds = [ex.listterm(s, LV(x), DL) for x in (q.parts or [q]) if not (isinstance(x.n, int) and x.n == 0)]
        s.was = pre_st.now
        for n, f in gd_parts(ex, s, Ds, *A): ex.oblige(s, '%s: %s' % (nm, n), f, None, 'post')
ax_gd0 = lambda: basics() + ax_dds()
ax_gd = lambda: ax_gd0() + [f for _, f in lem_rec()]

# ------------------------------------------------------- sign at a described root --
COL = obj_sort('Column'); SIM = obj_sort('SignInverse')
CLEN = z3.Function('CLEN', COL, Int); CAT = z3.Function('CAT', COL, Int, Real)
SINV = z3.Function('SINV', Int, SIM)             # inverse of the n-fold Kronecker power of the base sign matrix
MULC = z3.Function('MULC', SIM, COL, COL)
TAQP = z3.Function('TAQP', PL.sort, PLL.sort, Int, Int)     # sum over the roots of p of the sign of the j-th product
TCOL = z3.Function('TCOL', COL, PL.sort, PLL.sort, Bool)    # the column holds TAQP(p, ll, j) for all j
NCNT = z3.Function('NCNT', PL.sort, PLL.sort, Int, Int)     # number of roots of p where ll has the sign vector coded i
BASE = z3.Function('BASE', SGL.sort, Int, Int, Int)
SG_ = z3.Const('SG!spec', SGL.sort); N_ = z3.Const('N!spec', Int)
for c in (SG_, N_): SUBST[c.get_id()] = c
def dig(s): return z3.If(s == 0, z3.IntVal(0), z3.If(s == 1, z3.IntVal(1), z3.IntVal(2)))
def spec_sums3(): return {'BASE': (BASE, [SG_, N_], I, dig(sat_(SG_, I)) * p3(N_ - 1 - I))}
def pow3():
    k = z3.Int('k!pow')
    return [p3(z3.IntVal(0)) == 1, z3.ForAll([k], z3.Implies(k >= 1, z3.And(p3(k) == 3 * p3(k - 1), p3(k - 1) >= 1)), patterns=[p3(k)]),
            z3.ForAll([k], z3.Implies(k >= 0, p3(k) >= 1), patterns=[p3(k)])]
def base_bound(sg, n, h): return z3.Implies(z3.And(h >= 0, h <= n), z3.And(BASE(sg, n, h) >= 0, BASE(sg, n, h) + p3(n - h) <= p3(n)))
def base_scale(sg, n, h): return z3.Implies(z3.And(h >= 0, h <= n - 1), BASE(sg, n, h) == 3 * BASE(sg, n - 1, h))
def lem_base():
    sg = z3.Const('sg!', SGL.sort); n = z3.Int('n!'); h = z3.Int('h!')
    step = BASE(sg, n, h + 1) == BASE(sg, n, h) + dig(sat_(sg, h)) * p3(n - 1 - h)
    return [('codes of sign vectors are in range (start of the induction)', z3.ForAll([sg, n], z3.Implies(BASE(sg, n, z3.IntVal(0)) == 0, base_bound(sg, n, z3.IntVal(0)))), pow3()),
            ('codes of sign vectors are in range (step of the induction)', z3.ForAll([sg, n, h], z3.Implies(z3.And(h >= 0, h + 1 <= n, p3(n - h) == 3 * p3(n - 1 - h), step, base_bound(sg, n, h)), base_bound(sg, n, h + 1))), pow3()),
            ('one more digit multiplies the code by three (start of the induction)', z3.ForAll([sg, n], z3.Implies(z3.And(BASE(sg, n, z3.IntVal(0)) == 0, BASE(sg, n - 1, z3.IntVal(0)) == 0), base_scale(sg, n, z3.IntVal(0)))), pow3()),
            ('one more digit multiplies the code by three (step of the induction)', z3.ForAll([sg, n, h], z3.Implies(z3.And(h >= 0, h + 1 <= n - 1, p3(n - 1 - h) == 3 * p3(n - 2 - h), step,
                BASE(sg, n - 1, h + 1) == BASE(sg, n - 1, h) + dig(sat_(sg, h)) * p3(n - 2 - h), base_scale(sg, n, h)), base_scale(sg, n, h + 1))), pow3())]
def ax_base():
    sg = z3.Const('sg!', SGL.sort); n = z3.Int('n!'); h = z3.Int('h!')
    return [z3.ForAll([sg, n, h], base_bound(sg, n, h), patterns=[BASE(sg, n, h)])]
def ax_count():
    """Lean: taq_products, sign_matrix_inverse, count_unique"""
    p = z3.Const('p!', PL.sort); q = z3.Const('q!', PL.sort); ll = z3.Const('ll!', PLL.sort); j = z3.Int('j!'); c = z3.Const('c!', COL); x = z3.Const('x!', Real)
    sg = z3.Const('sg!', SGL.sort); s = z3.Int('s!'); n = z3.Int('n!'); al = z3.Const('al!', PLL.sort)
    A, And, Imp = z3.ForAll, z3.And, z3.Implies
    XW = z3.Function('TAQP_x', PL.sort, PL.sort, PLL.sort, Int, Real); xw = XW(p, q, ll, j)
    CW = z3.Function('TCOL_w', COL, PL.sort, PLL.sort, Int); cw = CW(c, p, ll)
    out = [A([p, q, ll, j], z3.Or(EV(q, xw) != EVPROD(ll, j, xw), TAQ(p, q) == TAQP(p, ll, j)), patterns=[z3.MultiPattern(TAQ(p, q), TAQP(p, ll, j))]),
        A([c, p, ll], z3.Or(TCOL(c, p, ll), CLEN(c) != p3(llen(ll)), And(cw >= 0, cw < CLEN(c), CAT(c, cw) != z3.ToReal(TAQP(p, ll, cw)))), patterns=[TCOL(c, p, ll)]),
        A([c, p, ll, j], Imp(And(TCOL(c, p, ll), llen(ll) >= 1, tnz(p), plen(p) >= 2, j >= 0, j < p3(llen(ll))), And(CLEN(MULC(SINV(llen(ll)), c)) == CLEN(c), CAT(MULC(SINV(llen(ll)), c), j) == z3.ToReal(NCNT(p, ll, j)))),
            patterns=[z3.MultiPattern(TCOL(c, p, ll), CAT(MULC(SINV(llen(ll)), c), j))]),
        A([c, p, ll], Imp(TCOL(c, p, ll), And(CLEN(c) == p3(llen(ll)), CLEN(MULC(SINV(llen(ll)), c)) == CLEN(c))), patterns=[TCOL(c, p, ll)])]
    lq = lat(ll, llen(al)); code = lambda o: BASE(sg, llen(ll), llen(ll) - 1) + o
    cnt = lambda s: z3.If(sgn(EV(lq, x)) == s, z3.IntVal(1), z3.IntVal(0))
    out.append(A([c, p, ll, al, sg, x, n], Imp(And(TCOL(c, p, ll), ll == PAPP(al, lq), tnz(p), plen(p) >= 2, EV(p, x) == 0, RECOK(al, sg, x, n), SEPALL(p, al, sg, x)),
        And(*[NCNT(p, ll, code(o)) == cnt(s) for s, o in ((0, 0), (1, 1), (-1, 2))])), patterns=[z3.MultiPattern(TCOL(c, p, ll), SEPALL(p, al, sg, x), RECOK(al, sg, x, n))]))
    return out
def ext3():
    def getitem(ex, st, c, i):
        i2 = zi(i)
        if i2.sort() != Int: return NotImplemented
        ex.oblige(st, 'index into the column is in range', z3.And(i2 >= 0, i2 < CLEN(c.term)), None, 'pre')
        return CAT(c.term, i2)
    def getitem2(ex, st, c, t):
        if isinstance(t, Tup) and len(t.items) == 2 and t.items[1] == 0: return getitem(ex, st, c, t.items[0])
        return NotImplemented
    def matrix(ex, st, rows):
        q = ex.seq(st, rows)
        J = z3.Int('j!m')
        row = ex.seq(st, q.get(J))
        if concrete(row.n) != 1: raise Unsupported('matrix with more than one column')
        c = ex.fresh('col', COL)
        ex.assume(st, CLEN(c) == zi(q.n))
        ex.assume(st, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(q.n)), CAT(c, J) == zreal(znum(row.get(0)))), patterns=[CAT(c, J)]))
        return ObjT('Column', c)
    def mul(ex, st, m, c): return ObjT('Column', MULC(m.term, c.term))
    return {'getitem:Column,Int': getitem, 'getitem:Column,Tup': getitem2, 'sympy.Matrix': matrix, 'Mult:SignInverse,Column': mul,
            'meth:Column.col': lambda ex, st, c, i: c if i == 0 else NotImplemented, 'len:Column': lambda ex, st, c: CLEN(c.term)}
DOBJ = (lambda ex, st, name: ObjT(CLS, z3.Const(name, O)), lambda ex, st, v: Contract.totermv(None, ex, st, 'obj:' + CLS, v), None)
def dd(ex, d, f, st=None):
    """field of the argument object on entry / at a call"""
    return fld(ex, st if st is not None else ex.entry[0], d, f)
class WithObj(Contract):
    """contract about a descriptor: its recorded polynomials, signs and origin are extra logical arguments"""
    def call(self, ex, st, args, line):
        setup_heap(ex, st)
        self.cur = st
        for r in Contract.call(self, ex, st, args, line): yield r
    def totermv(self, ex, st, kind, v):
        if kind == 'dds':
            if not isinstance(v, ObjT) or v.cls != CLS: raise Unsupported('%s expected' % CLS)
            setup_heap(ex, st)
            o = v.term
            return Desc(o, fld(ex, st, v, '@all'), fld(ex, st, v, '@sgs'), fld(ex, st, v, 'origin'))
        return Contract.totermv(self, ex, st, kind, v)
    def symbolic(self, ex, st, kind, name):
        if kind == 'dds':
            setup_heap(ex, st); return ObjT(CLS, z3.Const(name, O))
        return Contract.symbolic(self, ex, st, kind, name)
class Desc:
    def __init__(self, o, al, sg, org): self.o, self.all, self.sgs, self.org, self.x = o, al, sg, org, POINT(o)
def pick_good(ll, d, c):
    n = llen(ll); b = BASE(d.sgs, n, n - 1)
    v = [CAT(c, b + k) for k in range(3)]
    bad = [z3.And(x != 0, x != 1) for x in v]
    one = [x == 1 for x in v]
    return z3.And(z3.Not(z3.Or(*bad)), z3.Or(*one), *[z3.Not(z3.And(one[a], one[b])) for a in range(3) for b in range(a)]), v
def pick_pre(ex, ll, d, c):
    k = z3.Int('k!')
    ex.need_pow(3)
    return [('the polynomials are the recorded ones and the goal', z3.And(llen(ll) == llen(d.all) + 1, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < llen(d.all)), lat(ll, k) == lat(d.all, k)), patterns=[lat(ll, k)]))),
            ('what is recorded is true at the root', RECOK(d.all, d.sgs, d.x, plen(d.org))),
            ('one count per sign vector', CLEN(c) == p3(llen(ll)))]
def desc_ok(d):
    return [('the origin is not constant', z3.And(tnz(d.org), plen(d.org) >= 2)), ('the point is a root of the origin', EV(d.org, d.x) == 0),
            ('what is recorded is true at the root', RECOK(d.all, d.sgs, d.x, plen(d.org))),
            ('some recorded sign is wrong at every other root of the origin', SEPALL(d.org, d.all, d.sgs, d.x))]
def single_asserts(ex, t, d, q):
    if t.sort() == PLL.sort and '!' in t.decl().name() and not t.decl().name().startswith('res!'): return [t == PAPP(d.all, q)]
    if t.sort() == COL and '!' in t.decl().name(): return [TCOL(t, d.org, PAPP(d.all, q))]
ADMALL = z3.Function('ADMALL', PLL.sort, SD, PT, Bool)      # the table admits the signs of all polynomials at the place
SDALL = z3.Function('SDALL', SD, PLL.sort, Bool)
SMALL = z3.Function('SMALL', PLL.sort, Bool)                # all of degree at most four
def admv(sd, p, s): return z3.If(s == 0, SDA[0](sd, p), z3.If(s == 1, SDA[1](sd, p), z3.And(s == -1, SDA[-1](sd, p))))
def ax_adm():
    ll = z3.Const('ll!', PLL.sort); sd = z3.Const('sd!', SD); pt = z3.Const('pt!', PT); k = z3.Int('k!')
    W = z3.Function('ADMALL_w', PLL.sort, SD, PT, Int); W2 = z3.Function('SDALL_w', SD, PLL.sort, Int); W3 = z3.Function('SMALL_w', PLL.sort, Int)
    w, w2, w3 = W(ll, sd, pt), W2(sd, ll), W3(ll)
    A, And, Imp = z3.ForAll, z3.And, z3.Implies
    rng = lambda k: And(k >= 0, k < llen(ll))
    return [A([ll, sd, pt, k], Imp(And(ADMALL(ll, sd, pt), rng(k)), admv(sd, lat(ll, k), VS(lat(ll, k), pt))), patterns=[z3.MultiPattern(ADMALL(ll, sd, pt), lat(ll, k))]),
        A([ll, sd, pt], z3.Or(ADMALL(ll, sd, pt), And(rng(w), z3.Not(admv(sd, lat(ll, w), VS(lat(ll, w), pt))))), patterns=[ADMALL(ll, sd, pt)]),
        A([ll, sd, k], Imp(And(SDALL(sd, ll), rng(k)), SDH(sd, lat(ll, k))), patterns=[z3.MultiPattern(SDALL(sd, ll), lat(ll, k))]),
        A([ll, sd], z3.Or(SDALL(sd, ll), And(rng(w2), z3.Not(SDH(sd, lat(ll, w2))))), patterns=[SDALL(sd, ll)]),
        A([ll, k], Imp(And(SMALL(ll), rng(k)), plen(lat(ll, k)) <= 5), patterns=[z3.MultiPattern(SMALL(ll), lat(ll, k))]),
        A([ll], z3.Or(SMALL(ll), And(rng(w3), plen(lat(ll, w3)) > 5)), patterns=[SMALL(ll)])]
ax_close = lambda: basics() + ax_dds() + ax_places() + [lem_dertnz()[1]]
ax_on = lambda: basics() + alltnz_def() + ax_key() + ax_dds() + ax_places() + ax_adm()
ax_vts = lambda: basics() + alltnz_def() + ax_key() + ax_dds() + ax_places() + ax_adm() + ax_roots() + ax_sat() + lem_thom() + ax_allof()
ALLOF = z3.Function('ALLOF', PLL.sort, PLL.sort, PLL.sort, PLL.sort, PLL.sort, Bool)   # the first list has the elements of the others
def ax_allof():
    t = z3.Const('t!', PLL.sort); L = [z3.Const('l%s!' % k, PLL.sort) for k in KINDS]; k = z3.Int('k!')
    A, And, Imp, Or = z3.ForAll, z3.And, z3.Implies, z3.Or
    a = ALLOF(t, *L)
    ws = [z3.Function('ALLOF_w%d' % i, *([PLL.sort] * 5 + [Int]))(t, *L) for i in range(5)]
    out = [A([t] + L + [k], Imp(And(a, k >= 0, k < llen(t)), Or(*[MEM(l, lat(t, k)) for l in L])), patterns=[z3.MultiPattern(a, lat(t, k))])]
    for l in L: out.append(A([t] + L + [k], Imp(And(a, k >= 0, k < llen(l)), MEM(t, lat(l, k))), patterns=[z3.MultiPattern(a, lat(l, k))]))
    out.append(A([t] + L, Or(a, And(ws[4] >= 0, ws[4] < llen(t), *[z3.Not(MEM(l, lat(t, ws[4]))) for l in L]), *[And(w >= 0, w < llen(l), z3.Not(MEM(t, lat(l, w)))) for w, l in zip(ws, L)]), patterns=[a]))
    return out
def vts_asserts(ex, t, *L):
    nm = t.decl().name()
    if '!' not in nm: return None
    if t.sort() == PLL.sort and not nm.startswith('res!'): return [ALLOF(t, *L)]
    if t.sort() == SD:
        l2 = z3.Const('t!', PLL.sort); pt = z3.Const('pt!', PT)
        return [z3.ForAll([l2, pt], z3.Implies(ALLOF(l2, *L), ADMALL(l2, t, pt) == satp(L, pt)), patterns=[z3.MultiPattern(ALLOF(l2, *L), ADMALL(l2, t, pt))])]
def vts_hints(ex, terms, *L):
    sds = [t for t in terms if z3.is_const(t) and t.sort() == SD]
    i = z3.Int('i!'); j = z3.Int('j!')
    out = []
    for t in terms:
        if z3.is_app(t) and t.decl().name() == 'ALLOF' and not has_var(t):
            for sd in sds: out += [ADMALL(t.arg(0), sd, NI), z3.Not(ADMALL(t.arg(0), sd, NI))]
    for k, l, mk in zip(KINDS, L, (AT, RT, AT, RT)):
        r = ROOTS(lat(l, i))
        out.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < llen(l), j >= 0, j < plen(r)), z3.Not(satp(L, mk(pat(r, j))))), patterns=[z3.MultiPattern(lat(l, i), pat(r, j))]))
    return out
SINVK = (None, lambda ex, st, v: Contract.totermv(None, ex, st, 'obj:SignInverse', v), None)
ax_single = lambda: basics() + alltnz_def() + ax_dds() + ax_base() + ax_count()
ax_pick = lambda: basics() + ax_dds() + ax_base()

def contracts():
    C = {}
    def add(c): C[c.qual] = c
    add(Init())
    for w, s in (('pos', 1), ('neg', -1), ('zer', 0)): add(Add(w, s))
    add(SetOrigin()); add(GetAll()); add(GetSign())
    add(Discri(U + ':get_discri_der_signs', ['poly', 'poly'], DDL, pre=gd_pre, post=gd_post, setup=setup_heap, advances=True,
        measure=lambda ex, r, p: plen(p), axioms=ax_gd, proves=lambda: [(n, f, ax_gd0()) for n, f in lem_rec()]))
    add(WithObj(U + ':pick_sign_of_goal', ['polys', 'dds', 'obj:Column'], 'int', pre=pick_pre, axioms=ax_pick, public=False,
        raises={'Exception': lambda ex, ll, d, c: z3.Not(pick_good(ll, d, c)[0])},
        exact=lambda ex, ll, d, c: z3.If(pick_good(ll, d, c)[1][0] == 1, z3.IntVal(0), z3.If(pick_good(ll, d, c)[1][1] == 1, z3.IntVal(1), z3.IntVal(-1))),
        proves=lem_base, cuts=lambda ex, ll, d, c: [BASE(d.sgs, llen(ll), llen(ll) - 1), (BASE(d.sgs, llen(ll) - 1, llen(ll) - 1), [base_scale(d.sgs, llen(ll), llen(ll) - 1)])]))
    big = lambda d: llen(d.all) > 4
    add(WithObj(U + ':evaluate_single_on_sign_assignment', ['dds', 'poly'], 'int', pre=lambda ex, d, q: desc_ok(d) + [('the polynomial is non-zero and trimmed', tnz(q))],
        raises={'Exception': lambda ex, d, q: z3.And(big(d), q != d.org)}, exact=lambda ex, d, q: sgn(EV(q, d.x)), axioms=ax_single, asserts=single_asserts))
    eclose = lambda ex, d, q: z3.If(plen(q) == 0, z3.IntVal(0), VS(q, RT(d.x)))
    add(WithObj(U + ':e_close_evaluate_single_on_sign_assignment', ['dds', 'poly'], 'int', pre=lambda ex, d, q: desc_ok(d) + [('the polynomial has no leading zero', trimmed(q))],
        raises={'Exception': lambda ex, d, q: z3.And(big(d), plen(q) >= 1)}, exact=eclose, measure=lambda ex, d, q: plen(q), axioms=ax_close))
    on_pre = lambda ex, d, ll, sd: desc_ok(d) + [('polynomials are non-zero and trimmed', ALLTNZ(ll)), ('all polynomials are in the table', SDALL(sd, ll))]
    for nm, mk in (('evaluate_on_sign_assignment', AT), ('e_close_evaluate_on_sign_assignment', RT)):
        add(WithObj(U + ':' + nm, ['dds', 'polys', SDARG], 'bool', pre=on_pre, may={'Exception': lambda ex, d, ll, sd: big(d)},
            exact=lambda ex, d, ll, sd, mk=mk: ADMALL(ll, sd, mk(d.x)), axioms=ax_on))
    good = lambda ex, *L: [('polynomials are non-zero and trimmed', z3.And(*[ALLTNZ(l) for l in L]))]
    add(Contract(U + ':internal_vts', ['polys'] * 4, 'bool', pre=good, exact=lambda ex, *L: SAT(*L), setup=setup_heap, axioms=ax_vts, advances=True,
        may={'Exception': lambda ex, *L: z3.Not(z3.And(*[SMALL(l) for l in L]))}, asserts=vts_asserts, hints=vts_hints))
    return C
