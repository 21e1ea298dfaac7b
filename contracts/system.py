"""Sign conditions of a system at a place, satisfiability, term substitution and the sign table."""
import z3
from pyded.sym import *
from pyded.contract import Contract
from pyded.execu import DictC
from .poly import *
from .tarski import neglead

PT = z3.DeclareSort('PT')                 # a place on the line
AT = z3.Function('AT', Real, PT)          # the number x
RT = z3.Function('RT', Real, PT)          # just right of x
NI = z3.Const('NI', PT)                   # towards minus infinity
VS = z3.Function('VS', PL.sort, PT, Int)  # sign of a polynomial at a place
SAT = z3.Function('SAT', PLL.sort, PLL.sort, PLL.sort, PLL.sort, Bool)
ROOTS = z3.Function('ROOTS', PL.sort, PL.sort)
PTR = z3.Function('PTR', Real, Real)      # x + eps
PNI = z3.Const('PNI', Real)               # -1/eps
KINDS = ('le', 'lt', 'eq', 'ne')
OK = {k: z3.Function('OK' + k, PLL.sort, PT, Bool) for k in KINDS}
OKw = {k: z3.Function('OK%s_w' % k, PLL.sort, PT, Int) for k in KINDS}
def sgn(x): return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))
def okc(k, s): return {'le': s <= 0, 'lt': s < 0, 'eq': s == 0, 'ne': s != 0}[k]
def satp(L, pt): return z3.And(*[OK[k](l, pt) for k, l in zip(KINDS, L)])

MEM = z3.Function('mem_' + PLL.sort.name(), PLL.sort, PL.sort, Bool)
MEMI = z3.Function('memidx_' + PLL.sort.name(), PLL.sort, PL.sort, Int)
def ax_places():
    p = z3.Const('p!', PL.sort); x = z3.Const('x!', Real); ll = z3.Const('ll!', PLL.sort); pt = z3.Const('pt!', PT); k = z3.Int('k!')
    A = z3.ForAll
    out = [A([p, pt], z3.And(VS(p, pt) >= -1, VS(p, pt) <= 1), patterns=[VS(p, pt)]),
           A([p, x], VS(p, AT(x)) == sgn(EV(p, x)), patterns=[VS(p, AT(x))]),
           A([p], z3.Implies(tnz(p), VS(p, NI) == sgn(neglead(p))), patterns=[VS(p, NI)]),
           # sign just to the right: the first derivative that does not vanish decides (Lean: right_sign)
           A([p, x], z3.Implies(tnz(p), VS(p, RT(x)) == z3.If(EV(p, x) != 0, sgn(EV(p, x)), VS(DER(p), RT(x)))), patterns=[VS(p, RT(x))]),
           ]
    for kd in KINDS:
        f, w = OK[kd], OKw[kd]
        out += [A([ll, pt, k], z3.Implies(z3.And(f(ll, pt), k >= 0, k < llen(ll)), okc(kd, VS(lat(ll, k), pt))), patterns=[z3.MultiPattern(f(ll, pt), lat(ll, k))]),
                A([ll, pt], z3.Or(f(ll, pt), z3.And(w(ll, pt) >= 0, w(ll, pt) < llen(ll), z3.Not(okc(kd, VS(lat(ll, w(ll, pt)), pt))))), patterns=[f(ll, pt)])]
    return out
def ax_roots():
    """assumed of z3rcf.MkRoots: the distinct real roots of a non-zero polynomial"""
    p = z3.Const('p!', PL.sort); x = z3.Const('x!', Real); k = z3.Int('k!'); k2 = z3.Int('k2!')
    RI = z3.Function('ROOTIDX', PL.sort, Real, Int)
    A = z3.ForAll
    return [A([p, k], z3.Implies(z3.And(tnz(p), k >= 0, k < plen(ROOTS(p))), z3.And(EV(p, pat(ROOTS(p), k)) == 0, RI(p, pat(ROOTS(p), k)) == k)), patterns=[pat(ROOTS(p), k)]),
            A([p, x], z3.Implies(z3.And(tnz(p), EV(p, x) == 0), z3.And(RI(p, x) >= 0, RI(p, x) < plen(ROOTS(p)), pat(ROOTS(p), RI(p, x)) == x)), patterns=[RI(p, x)]),
            A([p], z3.Implies(z3.And(tnz(p), plen(p) <= 1), plen(ROOTS(p)) == 0), patterns=[ROOTS(p)])]
def ax_sat():
    """Lean: test_points"""
    L = [z3.Const('l%s!' % k, PLL.sort) for k in KINDS]; pt = z3.Const('pt!', PT)
    le, lt, eq, ne = L
    wi = {k: z3.Function('tp_%s_i' % k, PLL.sort, PLL.sort, PLL.sort, PLL.sort, Int)(*L) for k in KINDS}
    wj = {k: z3.Function('tp_%s_j' % k, PLL.sort, PLL.sort, PLL.sort, PLL.sort, Int)(*L) for k in KINDS}
    def via(k, l, mk):
        r = ROOTS(lat(l, wi[k]))
        return z3.And(wi[k] >= 0, wi[k] < llen(l), wj[k] >= 0, wj[k] < plen(r), satp(L, mk(pat(r, wj[k]))))
    good = z3.And(*[ALLTNZ(l) for l in L])
    return [z3.ForAll(L + [pt], z3.Implies(z3.And(good, satp(L, pt)), SAT(*L)), patterns=[z3.MultiPattern(SAT(*L), OK['le'](le, pt), OK['lt'](lt, pt), OK['eq'](eq, pt), OK['ne'](ne, pt))]),
            z3.ForAll(L, z3.Implies(z3.And(good, SAT(*L)), z3.Or(satp(L, NI), via('le', le, AT), via('eq', eq, AT), via('lt', lt, RT), via('ne', ne, RT))), patterns=[SAT(*L)])]
# ------------------------------------------------------ externals of z3rcf --
EPS = obj_sort('Eps'); INFP = obj_sort('Inf')
def ext():
    def mkroots(ex, st, p):
        t = ex.listterm(st, p, PL)
        ex.oblige(st, 'roots are asked of a non-zero polynomial', tnz(t), None, 'pre')
        return ex.alloc(st, seq_term(ROOTS(t)))
    def mkinf(ex, st, *a):
        """eps is positive and smaller than any number the system distinguishes: signs at x+eps and -1/eps
        of the polynomials of the system are those just right of x and at minus infinity"""
        L = ex.entry[1]
        p = z3.Const('p!', PL.sort); x = z3.Const('x!', Real); k = z3.Int('k!')
        for l in L:
            ex.assume(st, z3.ForAll([x, k], z3.Implies(z3.And(k >= 0, k < llen(l)), VS(lat(l, k), AT(PTR(x))) == VS(lat(l, k), RT(x))), patterns=[z3.MultiPattern(lat(l, k), PTR(x))]))
            ex.assume(st, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < llen(l)), VS(lat(l, k), AT(PNI)) == VS(lat(l, k), NI)), patterns=[lat(l, k)]))
        return ObjT('Eps', z3.Const('eps', EPS))
    def add(ex, st, a, b):
        if isinstance(a, ObjT): a, b = b, a
        return PTR(zreal(znum(a)))
    def div(ex, st, a, b):
        if a == -1: return PNI
        if a == 1: return ObjT('Inf', z3.Const('inf', INFP))
        return NotImplemented
    return {'z3rcf.MkRoots': mkroots, 'z3rcf.MkInfinitesimal': mkinf,
            'Add:Real,Eps': add, 'Add:Eps,Real': add, 'Add:Int,Eps': add, 'Add:Eps,Int': add, 'Div:Int,Eps': div,
            'neg:Inf': lambda ex, st, a: PNI, 'Mult:Int,Inf': lambda ex, st, a, b: PNI if a == -1 else NotImplemented}

# --------------------------------------------------------------- sign table --
PKEY = obj_sort('PolyKey')
KEY = z3.Function('KEY', PL.sort, PKEY)
KINV = z3.Function('KINV', PKEY, PL.sort)
STRS = z3.DeclareSort('Str'); STR = z3.Function('STR', Real, STRS); UNSTR = z3.Function('UNSTR', STRS, Real)
STRL = z3.Function('STRL', PL.sort, STRS); UNSTRL = z3.Function('UNSTRL', STRS, PL.sort)
def ax_key():
    p = z3.Const('p!', PL.sort); x = z3.Const('x!', Real)
    return [z3.ForAll([p], KINV(KEY(p)) == p, patterns=[KEY(p)]),
            z3.ForAll([x], UNSTR(STR(x)) == x, patterns=[STR(x)]), z3.ForAll([p], UNSTRL(STRL(p)) == p, patterns=[STRL(p)])]
class KeyContract(Contract):
    """the function maps different polynomials to different keys"""
    def verify(self, ex, node, mod):
        from pyded.execu import State, FnV
        st = State(); ex.curfn = self.qual
        ps = [z3.Const('hash.p', PL.sort), z3.Const('hash.q', PL.sort)]
        ex.entry = (st.fork(), ps)
        outs = [('next', st, [])]
        ex.stack.append(self.qual)
        try:
            for p in ps:
                nx = []
                for k, s, acc in outs:
                    fid = ex.newframe(s, None, mod, self.qual)
                    for kk, a, x in ex.bind(s, FnV(node, None, self.qual, mod), [wrap(p)], {}, fid):
                        for k2, s2, v in ex.block(node['body'], a, fid):
                            if k2 != 'return':
                                ex.oblige(s2, 'the key function returns a key', z3.BoolVal(False)); continue
                            nx.append(('next', s2, acc + [v]))
                outs = nx
        finally: ex.stack.pop()
        for k, s, (a, b) in outs:
            ka, kb = ex.key(s, a), ex.key(s, b)
            if not is_z3(ka) or not is_z3(kb) or ka.sort() != kb.sort(): raise Unsupported('key of an unknown kind')
            ex.oblige(s, 'different polynomials have different keys', z3.Implies(ka == kb, ps[0] == ps[1]), None, 'post')
        return st, ps, [('return', s, None) for _, s, _ in outs]
def ext_str():
    def s(ex, st, v):
        if is_num(v) and is_z3(znum(v)) and not isinstance(v, int): return STR(zreal(znum(v)))
        if ex.islist(v):
            try: return STRL(ex.listterm(st, v, PL))
            except Unsupported: return None
        return None
    return {'builtin:str': s}
# the table as a value: admissible signs per polynomial
SD = z3.DeclareSort('SignDict')
SDH = z3.Function('SDhas', SD, PL.sort, Bool)
SDA = {e: z3.Function('SDadm_' + {-1: 'm', 0: 'z', 1: 'p'}[e], SD, PL.sort, Bool) for e in (-1, 0, 1)}
def sddict(ex, st, t):
    d = DictC(has=lambda k: SDH(t, KINV(k)), get=lambda k: SetV({e: SDA[e](t, KINV(k)) for e in (-1, 0, 1)}), ksort=PKEY)
    d.origin = t
    ad = 'd%d' % uid(); st.heap[ad] = d; st.frozen.add(ad)
    return DRef(ad)
def sd_sym(ex, st, name): return sddict(ex, st, z3.Const(name, SD))
def sd_new(ex, st): return sddict(ex, st, ex.fresh('sd', SD))
def sd_term(ex, st, v):
    if not isinstance(v, DRef): raise Unsupported('a dict is expected')
    return st.heap[v.addr]
def sd_term_in(ex, st, v):
    c = sd_term(ex, st, v)
    if c.origin is None: raise Unsupported('a sign table is expected')
    return c.origin
SDRES = (sd_sym, sd_term, sd_new)
SDARG = (sd_sym, sd_term_in, sd_new)
def adm(L, p, e):
    le, lt, eq, ne = [MEM(l, p) for l in L]
    return {-1: z3.Not(eq), 0: z3.And(z3.Not(lt), z3.Not(ne)), 1: z3.And(z3.Not(le), z3.Not(lt), z3.Not(eq))}[e]
def scl_post(ex, st, c, *L):
    p = z3.Const('p!', PL.sort)
    from pyded.sym import PLL
    ex.need_mem(PLL, MEM)
    key = KEY(p)
    if c.conc is not None:
        if c.conc: raise Unsupported('sign table kind')
        return [('only an empty system has an empty table', z3.And(*[llen(l) == 0 for l in L]))]
    has = c.has(key)
    got = c.get(key)
    anyl = z3.Or(*[MEM(l, p) for l in L])
    pats = dict(patterns=[SDH(c.origin, p)]) if c.origin is not None else {}
    out = [('has an entry for exactly the constrained polynomials', z3.ForAll([p], has == anyl, **pats))]
    if not isinstance(got, SetV): raise Unsupported('sign table entries are expected to be sets')
    extra = [k for k, m in got.mem.items() if k not in (-1, 0, 1)]
    for e in (-1, 0, 1):
        pats = dict(patterns=[SDA[e](c.origin, p)]) if c.origin is not None else {}
        out.append(('admits %d exactly when all constraints on the polynomial do' % e, z3.ForAll([p], z3.Implies(anyl, zbool(got.mem.get(e, False)) == adm(L, p, e)), **pats)))
    for k in extra: out.append(('admits signs only', z3.ForAll([p], z3.Implies(anyl, z3.Not(zbool(got.mem[k]))))))
    return out

def contracts():
    C = {}
    def add(c): C[c.qual] = c
    polys4 = ['polys'] * 4
    good = lambda ex, *L: [('polynomials are non-zero and trimmed', z3.And(*[ALLTNZ(l) for l in L]))]
    ax_sys = lambda: basics() + alltnz_def() + ax_places() + ax_roots() + ax_sat()
    add(Contract(U + ':evaluate', ['num'] + polys4, 'none', raises={'ConditionExc': lambda ex, x, *L: z3.Not(satp(L, AT(x)))},
        axioms=lambda: basics() + ax_places()))
    add(Contract(U + ':internal_ts', polys4, 'bool', pre=good, exact=lambda ex, *L: SAT(*L), axioms=ax_sys))
    add(KeyContract(U + ':make_poly_hashabel', ['poly'], 'obj:PolyKey', exact=lambda ex, p: KEY(p), public=False,
        axioms=lambda: basics() + ax_key()))
    add(Contract(U + ':sign_conditions_lookup', polys4, SDRES, post=scl_post, axioms=lambda: basics() + ax_key()))
    return C
