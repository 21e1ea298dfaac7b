"""Exact summaries of loops with any number of iterations.

The body is executed once for a generic iteration I, with every location the
loop changes replaced by an unknown. The effect of one iteration on each
location is then classified; each class has a closed form at every index:
  last value      v := e(I)                 v_t = e(t-1)
  conditional     if c(I): v := e(I)        v_t = e(last index below t with c)
  accumulation    v := v + d(I)             v_t = v_0 + sum of d below t
  append          l := l ++ [e(I)]          mapped sequence
  filtered append if c(I): l := l ++ [e]    selected subsequence
  pointwise add   l[k(I)] += d(I)           l_t[j] = l_0[j] + sum of d where k = j
  store           l[I + a] := e(I), m[k(I)] := e(I), o(I).f := e(I)
A loop that leaves early is split into 'left at the first index where the exit
condition holds' and 'ran to the end'. Anything else is outside the subset."""
import z3
from .sym import *
from .sym import obj_sort
from .execu import (State, RaiseV, HavocRead, S2, forall, mkfun, has_quant, free_in, FieldMap, DictC, znum2, Obl)

class CF:
    """closed form: at(t) -> value of the location before iteration t"""
    def __init__(self, at, H=None, hseq=None, names=()):
        self.at, self.H, self.hseq, self.names = at, H, hseq, set(names)

def prev(t): return S(zi(t) - 1)

def summarise(ex, st, q, step, infinite):
    I = subst_const('I', Int)
    n = q.n
    ex.idx.append(I)
    try:
        return _summarise(ex, st, q, step, infinite, I, n)
    finally:
        ex.idx.pop()

def _summarise(ex, st, q, step, infinite, I, n):
    forms = {}          # loc -> CF (known closed form, used as the entry value)
    hav = {}            # loc -> dict(kind, H, hseq, names)
    banned = set()      # locs whose last-value guess failed
    locs0 = dict(ex.locs(st))
    kept = []
    fmark = len(ex.formobls)
    for attempt in range(14):
        mark = len(ex.obls); dmark = len(ex.defs)
        del ex.formobls[fmark:]
        s0 = st.fork()
        rng = [I >= 0] if infinite else [I >= 0, I < zi(n)]
        s0.conds += rng
        nb = len(s0.conds); nf = len(s0.facts)
        for loc, cf in forms.items(): ex.setloc(s0, loc, cf.at(I))
        for loc, h in hav.items(): ex.setloc(s0, loc, h['val'])
        entry = {loc: ex.getloc(s0, loc) for loc in set(locs0) | set(forms) | set(hav)}
        frozen0 = set(s0.frozen)
        try:
            outs = list(step(s0, q.get(I)))
        except HavocRead as e:
            raise Unsupported('loop-carried value of a kind that cannot be summarised: %s' % (e.loc,))
        # locations changed by the body
        changed = {}
        for k, s, x in outs:
            for loc, v in ex.locs(s):
                if loc[0] == 'v' and loc[1] not in st.frames: continue
                if loc[0] == 'h' and loc not in locs0 and not isinstance(loc[1], tuple): continue
                old = entry.get(loc, Undef)
                if not ex.locsame(old, v): changed.setdefault(loc, []).append((k, s, v))
        new = [l for l in changed if l not in forms and l not in hav]
        nexts = [(s, nb) for k, s, x in outs if k in ('next', 'continue')]
        if new:
            del ex.obls[mark:]
            for loc in new:
                guess_or_havoc(ex, st, loc, outs, entry, I, forms, hav, banned, nb, changed)
            continue
        # verify the guesses (last-value forms)
        bad = []
        for loc, cf in forms.items():
            if cf.kind == 'last':
                for s, _ in nexts:
                    v = ex.getloc(s, loc)
                    if not val_same(v, cf.elem): bad.append(loc); break
        names = set()
        for h in hav.values(): names |= h['names']
        if bad:
            del ex.obls[mark:]
            for loc in bad:
                del forms[loc]; banned.add(loc)
                hav[loc] = make_havoc(ex, st, loc, [ex.getloc(s, loc) for s, _ in nexts])
            continue
        # classify the unknown locations
        progress = False
        pend = [l for l in hav]
        for loc in pend:
            cf = classify(ex, st, loc, hav[loc], nexts, nb, I, names, n, infinite)
            if cf is not None:
                forms[loc] = cf; del hav[loc]
                progress = True
        if progress:
            # the closed forms use unknowns introduced in this attempt: keep what is known about them
            kept += [f for f in collect_facts(outs, nb, nf) if not mentions(f, names)]
            del ex.obls[mark:]
            continue
        inv = getattr(ex.contracts.get(ex.curfn), 'invariants', None)
        if inv is not None and not infinite:
            done = False
            for loc in [l for l in hav if is_z3(hav[l]['H']) and hav[l]['kind'] in ('num', 'any', 'bool')]:
                cf = invariant_form(ex, st, loc, hav[loc], nexts, nb, nf, I, names, n, q, inv)
                if cf is not None: forms[loc] = cf; del hav[loc]; done = True
            if done:
                del ex.obls[mark:]
                continue
        dead = [l for l in hav if l[0] == 'v' and not isinstance(ex.getloc(st, l), Ref)]
        if dead:
            # no closed form: the variable may not be read any more unless it is set again
            for loc in dead:
                p = HavocAny(loc)
                cf = CF(lambda t, p=p: p); cf.kind = 'poison'
                forms[loc] = cf; del hav[loc]
            del ex.obls[mark:]
            continue
        fl = [l for l in hav if hav[l]['kind'] == 'field']
        if fl:
            # no closed form: any value before each iteration and after the loop
            for loc in fl:
                forms[loc] = unknown_field(ex, st, loc, nexts); del hav[loc]
            del ex.obls[mark:]
            continue
        if hav:
            raise Unsupported('loop changes %s in a way that cannot be summarised' % ', '.join(str(l[-1]) for l in hav))
        break
    else:
        raise Unsupported('loop summary did not converge')
    return finish(ex, st, q, outs, forms, I, n, infinite, nb, nf, mark, kept)

def val_same(a, b):
    if same(a, b): return True
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return S(a == b) is True
    if isinstance(a, LV) and isinstance(b, LV):
        if a.seq.items is None and b.seq.items is None:
            J = subst_const('J', Int)
            try:
                return S(zi(a.seq.n) == zi(b.seq.n)) is True and val_same(a.seq.get(J), b.seq.get(J))
            except Exception: return False
    return False

def set_names(h):
    return h

def make_havoc(ex, st, loc, newvals):
    v0 = ex.getloc(st, loc)
    nm = str(loc[-1]).replace('!', '_') if not isinstance(loc[-1], tuple) else '_'.join(map(str, loc[-1]))
    if isinstance(v0, Seq):
        H = subst_const('HN_' + nm, Int)
        # kind of the elements, from what is stored
        hname = 'HG_%s!%d' % (nm, uid())
        # a list whose length no iteration changes
        fixedn = bool(newvals) and all(isinstance(v, Seq) and S(zi(v.n) == zi(v0.n)) is True for v in newvals)
        s = Seq(v0.n if fixedn else H, None)
        es = elem_sort(ex, v0, newvals)
        if es is not None:
            f = z3.Function(hname, Int, es)
            s._get = lambda i: wrap(f(zi(i)))
        else:
            def bad(i): raise Unsupported('reading a list that the loop is building')
            s._get = bad
        s.havoc = hname
        return {'kind': 'seq', 'val': s, 'names': {H.decl().name(), hname}, 'H': H, 'fixedn': fixedn}
    if isinstance(v0, DictC):
        return dict_havoc(ex, st, loc, v0, nm)
    if isinstance(v0, FieldMap) or (v0 is Undef and loc[0] == 'h' and isinstance(loc[1], tuple)):
        return field_havoc(ex, st, loc, v0, nm)
    vals = [v0] + [v for v in newvals]
    if all(is_bool(v) for v in vals):
        H = subst_const('H_' + nm, Bool)
        return {'kind': 'bool', 'val': H, 'H': H, 'names': {H.decl().name()}}
    if all(is_num(v) for v in vals):
        real = any(isinstance(v, Fraction) or (is_z3(v) and v.sort() == Real) for v in vals)
        H = subst_const('H_' + nm, Real if real else Int)
        return {'kind': 'num', 'val': H, 'H': H, 'names': {H.decl().name()}}
    if all(is_z3(v) for v in vals) and len({v.sort().name() for v in vals}) == 1:
        H = subst_const('H_' + nm, vals[0].sort())
        return {'kind': 'any', 'val': H, 'H': H, 'names': {H.decl().name()}}
    hn = HavocAny(loc)
    return {'kind': 'any', 'val': hn, 'H': None, 'names': set()}

def elem_sort(ex, v0, newvals):
    for v in [v0] + list(newvals):
        if not isinstance(v, Seq): continue
        c = None
        if v.items is not None: c = v.items
        elif v.tail: c = v.tail
        if c:
            e = c[0]
            try: t = ex.term(e)
            except Exception: return None
            return Real if t.sort() == Int else t.sort()
        if v.items is None and v.tail is None:
            try:
                t = ex.term(v.get(subst_const('J', Int)))
                return Real if t.sort() == Int and v.reif is not None else t.sort()
            except Exception: pass
    return None

def dict_havoc(ex, st, loc, v0, nm):
    ks = v0.ksort
    d = DictC(has=lambda k: z3.Function('HD_%s' % nm, k.sort(), Bool)(k), get=None, ksort=ks)
    u = uid()
    hname = 'HDh_%s!%d' % (nm, u); gname = 'HDg_%s!%d' % (nm, u)
    d.has = lambda k: z3.Function(hname, k.sort(), Bool)(k)
    shape = {}
    def get(k):
        # sets over a concrete universe are the only dict values that loops read back
        def m(e): return z3.Function('%s_%s' % (gname, str(e).replace('-', 'm')), k.sort(), Bool)(k)
        return SetV({e: m(e) for e in (-1, 0, 1)})
    d.get = get
    d.havoc = hname
    return {'kind': 'dict', 'val': d, 'H': None, 'names': {hname} | {'%s_%s' % (gname, str(e).replace('-', 'm')) for e in (-1, 0, 1)}, 'gname': gname}

def field_havoc(ex, st, loc, v0, nm):
    fm = FieldMap(None)
    hname = 'HF_%s!%d' % (nm, uid())
    def get(t):
        if isinstance(v0, FieldMap):
            try: o = v0.get(t)
            except Exception: o = Undef
        else: o = Undef
        if o is Undef: return HavocAny(loc)
        f = ex.term(o).sort()
        if f == Int and False: f = Real
        return wrap(z3.Function(hname, t.sort(), f)(t))
    fm.get = get
    fm.havoc = hname
    return {'kind': 'field', 'val': fm, 'H': None, 'names': {hname}}

def unknown_field(ex, st, loc, nexts):
    v0 = ex.getloc(st, loc)
    hname = 'UF_%s!%d' % ('_'.join(map(str, loc[-1])), uid())
    idx = list(ex.idx[:-1])
    def at(t):
        def get(o):
            if not isinstance(v0, FieldMap): return HavocAny(loc)
            w = v0.get(o)
            if w is Undef: return HavocAny(loc)
            r = ex.term(w).sort()
            f = z3.Function(hname, *[i.sort() for i in idx], Int, o.sort(), r)
            return wrap(f(*(idx + [zi(t), o])))
        return FieldMap(get)
    cf = CF(at); cf.kind = 'unknown'
    return cf
def guess_or_havoc(ex, st, loc, outs, entry, I, forms, hav, banned, nb, changed):
    nx = [(s, ex.getloc(s, loc)) for k, s, x in outs if k in ('next', 'continue')]
    v0 = ex.getloc(st, loc)
    vals = [v for _, v in nx]
    if loc not in banned and vals and not isinstance(vals[0], (Seq, FieldMap, DictC)) and loc != ('now',):
        e = vals[0]
        if all(val_same(e, v) for v in vals[1:]):
            def at(t, e=e, v0=v0):
                pv = subst(e, [(I, zi(prev(t)))])
                if v0 is Undef: return pv
                if isinstance(t, int): return v0 if t == 0 else pv
                return merge(S(zi(t) == 0), v0, pv)
            cf = CF(at); cf.kind = 'last'; cf.elem = e
            forms[loc] = cf
            return
    if not vals:
        # changed only on paths that leave the loop
        cf = CF(lambda t, v0=v0: v0); cf.kind = 'const'
        forms[loc] = cf
        return
    hav[loc] = make_havoc(ex, st, loc, vals)

def guard(s, nb):
    cs = s.conds[nb:]
    return z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True))

def pathmerge(items):
    """[(guard, value)] exhaustive -> merged value"""
    r = None
    for g, v in reversed(items):
        r = v if r is None else merge(S2(g), v, r)
    return r

def classify(ex, st, loc, h, nexts, nb, I, names, n, infinite):
    v0 = ex.getloc(st, loc)
    if h['kind'] == 'any' or h['kind'] == 'bool' or h['kind'] == 'num':
        # conditional last value
        keep, sets = [], []
        for s, _ in nexts:
            v = ex.getloc(s, loc); g = guard(s, nb)
            if mentions(g, names): sets = None; break
            if v is h['val'] or same(v, h['val']): keep.append(g)
            else:
                if val_mentions(v, names): sets = None; break
                sets.append((g, v))
        if sets is not None and sets:
            if not keep:
                e = pathmerge(sets)
                def at(t):
                    pv = subst(e, [(I, zi(prev(t)))])
                    if v0 is Undef: return pv
                    return merge(S(zi(t) == 0), v0, pv)
                cf = CF(at); cf.kind = 'lastm'
                return cf
            c = S2(z3.Or(*[g for g, _ in sets]))
            e = pathmerge(sets)
            ps = [p for p in free_subst(c) if not p.eq(I)]
            dn = 'LASTIDX!%d' % uid()
            L = z3.Function(dn, *[p.sort() for p in ps], Int, Int)
            T = subst_const('T', Int); J = subst_const('J', Int)
            lt = L(*(ps + [T]))
            ex.defs.append(forall(ps + [T], z3.Implies(T >= 0, z3.And(lt >= -1, lt < T, z3.Implies(lt >= 0, z3.substitute(c, (I, lt))))), [lt]))
            cj = z3.substitute(c, (I, J))
            ex.defs.append(forall(ps + [T, J], z3.Implies(z3.And(J > lt, J < T, J >= 0), z3.Not(cj)), None))
            def at(t):
                l = L(*(ps + [zi(t)]))
                pv = subst(e, [(I, l)])
                if v0 is Undef: return pv
                return merge(l < 0, v0, pv)
            cf = CF(at); cf.kind = 'cond'
            return cf
    if h['kind'] == 'num':
        H = h['val']; items = []
        for s, _ in nexts:
            v = ex.getloc(s, loc)
            if not is_num(v): return None
            a, b = znum2(v, H)
            items.append((guard(s, nb), z3.simplify(a - b, som=True)))
        if all(d.eq(items[0][1]) for _, d in items): items = [(z3.BoolVal(True), items[0][1])]     # the same on every path
        if any(mentions(d, names) or mentions(g, names) for g, d in items):
            return recurrence_form(ex, st, loc, H, nexts, nb, I, names, n, v0)
        items = [(g, concrete(d)) for g, d in items]
        d = znum(pathmerge(items))
        if H.sort() == Real: d = zreal(d)
        def at(t):
            sm = ex.mksum(d, I, t) if not at.memo else at.memo(t)
            if not at.memo and is_z3(sm) and sm.decl().name() in ex.sums:
                decl, ps = ex.sums[sm.decl().name()][:2]
                at.memo = lambda t: decl(*(ps + [zi(t)]))
            a, b = znum2(v0, sm)
            return S(a + b)
        at.memo = None
        cf = CF(at); cf.kind = 'sum'
        return cf
    if h['kind'] == 'seq':
        hs = h['val']; items = []; adds = []; stores = []
        if h.get('fixedn') and any(S(zi(ex.getloc(s, loc).n) == zi(hs.n)) is not True for s, _ in nexts): return None
        for s, _ in nexts:
            v = ex.getloc(s, loc); g = guard(s, nb)
            if mentions(g, names): return None
            if v is hs:
                for l in (items, adds, stores):
                    if l is not None: l.append((g, []))
                continue
            isapp = v.base is hs and not any(val_mentions(x, names) for x in v.tail)
            isadd = bool(v.adds and v.adds[0] is hs and not any(val_mentions(a, names) or val_mentions(b, names) for a, b in v.adds[1]))
            isst = bool(v.stores and v.stores[0] is hs and not any(val_mentions(a, names) or val_mentions(b, names) for a, b in v.stores[1]))
            items = items + [(g, v.tail)] if isapp and items is not None else None
            adds = adds + [(g, v.adds[1])] if isadd and adds is not None else None
            stores = stores + [(g, v.stores[1])] if isst and stores is not None else None
            if items is not None or adds is not None or stores is not None: continue
            return pointwise_form(ex, st, loc, h, nexts, nb, I, names, v0)
        if items is not None and any(t for _, t in items):
            return append_form(ex, st, v0, items, I, n, infinite, [f for f in collect_facts([('next', s, None) for s, _ in nexts], nb, len(st.facts)) if not mentions(f, names)])
        if adds and any(t for _, t in adds):
            base = v0
            def at(t):
                def get(k):
                    J = subst_const('J', Int)
                    tot = None
                    for g, us in adds:
                        for (idx, d) in us:
                            b = z3.If(z3.And(g, zi(idx) == J), zreal(d) if True else d, z3.RealVal(0))
                            tot = b if tot is None else tot + b
                    key = 'b'
                    if key not in at.cache:
                        at.cache[key] = (J, ex.mksum(tot, I, z3.IntVal(0)))
                        J0, sm0 = at.cache[key]
                    J0, sm0 = at.cache[key]
                    decl, ps = ex.sums[sm0.decl().name()][:2]
                    args = [zi(k) if p.eq(J0) else p for p in ps]
                    sm = decl(*(args + [zi(t)]))
                    a, b = znum2(base.get(k), sm)
                    return S(a + b)
                return Seq(base.n, get)
            at.cache = {}
            cf = CF(at); cf.kind = 'adds'
            return cf
        if stores and any(t for _, t in stores):
            # l[I + a] := e(I) on every path
            offs = None; el = []
            r = indexed_form(ex, st, stores, I, v0, n, [f for f in collect_facts([('next', s, None) for s, _ in nexts], nb, len(st.facts)) if not mentions(f, names)])
            if r is not None: return r
            for g, us in stores:
                if len(us) != 1: return None
                idx, val = us[0]
                o = S(zi(idx) - I)
                if is_z3(o) and free_in(o, I): return None
                if offs is None: offs = o
                elif not (offs == o if isinstance(o, int) else (is_z3(offs) and o.eq(offs))): return None
                el.append((g, val))
            e = pathmerge(el)
            base = v0
            def at(t):
                def get(k):
                    j = S(zi(k) - zi(offs))
                    pv = subst(e, [(I, zi(j))])
                    return merge(S(z3.And(zi(j) >= 0, zi(j) < zi(t))), pv, base.get(k))
                return Seq(base.n, get)
            cf = CF(at); cf.kind = 'stores'
            return cf
        return None
    if h['kind'] == 'dict':
        return dict_form(ex, st, loc, h, nexts, nb, I, names, n, v0)
    if h['kind'] == 'field':
        return field_form(ex, st, loc, h, nexts, nb, I, names, n, v0)
    return None

def indexed_form(ex, st, stores, I, v0, n, facts):
    """l[k(I)] := e(I), perhaps only if g(I): the entry at j is e at the last index below t that stores at j"""
    if any(len(us) > 1 for _, us in stores): return None
    idx = [zi(us[0][0]) for _, us in stores if us]
    if any(not k.eq(idx[0]) for k in idx[1:]):
        # an index from the end and one from the front: only one of them may be possible
        stores = [(g, us) for g, us in stores if not ex.entails(st, facts + [I >= 0, I < zi(n)], z3.Not(g))]
        idx = [zi(us[0][0]) for _, us in stores if us]
        if not idx: return None
    if any(not k.eq(idx[0]) for k in idx[1:]): return None
    o = S(idx[0] - I)
    every = all(us for _, us in stores)
    if every and not (is_z3(o) and free_in(o, I)): return None        # consecutive indices: the closed form below
    c = S2(z3.Or(*[g for g, us in stores if us])) if not every else z3.BoolVal(True)
    e = pathmerge([(g, us[0][1]) for g, us in stores if us])
    keyat = lambda t: z3.substitute(idx[0], (I, zi(t)))
    cat = lambda t: z3.substitute(zbool(c), (I, zi(t)))
    ps = []
    for x in [idx[0], zbool(c)]:
        ps += [p for p in free_subst(x) if not p.eq(I) and not any(p.eq(r) for r in ps)]
    W = z3.Function('LIDX!%d' % uid(), *[p.sort() for p in ps], Int, Int, Int)
    K = subst_const('K', Int); T = subst_const('T', Int); J = subst_const('J', Int)
    w = lambda k, t: W(*(ps + [zi(k), zi(t)]))
    ex.defs.append(forall(ps + [K, T], z3.Implies(T >= 0, z3.And(w(K, T) >= -1, w(K, T) < T, z3.Implies(w(K, T) >= 0, z3.And(cat(w(K, T)), keyat(w(K, T)) == K)))), [w(K, T)]))
    ex.defs.append(forall(ps + [J, T], z3.Implies(z3.And(J >= 0, J < T, cat(J)), w(keyat(J), T) >= J), [w(keyat(J), T)]))
    def at(t):
        return Seq(v0.n, lambda k: merge(w(k, t) >= 0, subst(e, [(I, w(k, t))]), v0.get(k)))
    cf = CF(at); cf.kind = 'indexed'
    return cf
def pointwise_form(ex, st, loc, h, nexts, nb, I, names, v0):
    """every entry k of the list gets d(k, I) added"""
    hs = h['val']; J = subst_const('J', Int); items = []
    for s, _ in nexts:
        v = ex.getloc(s, loc); g = guard(s, nb)
        if not isinstance(v, Seq) or mentions(g, names): return None
        if v is hs: items.append((g, z3.RealVal(0))); continue
        if S(zi(v.n) == zi(hs.n)) is not True: return None
        try: a, b = znum2(v.get(J), hs.get(J))
        except Exception: return None
        d = z3.simplify(zreal(a) - zreal(b), som=True)
        if mentions(d, names): return None
        items.append((g, d))
    sm = ex.mksum(znum(pathmerge(items)), I, z3.IntVal(0))
    if sm.decl().name() not in ex.sums: return None
    decl, ps = ex.sums[sm.decl().name()][:2]
    def at(t):
        def get(k):
            a, b = znum2(v0.get(k), decl(*([zi(k) if p.eq(J) else p for p in ps] + [zi(t)])))
            return S(a + b)
        return Seq(v0.n, get)
    cf = CF(at); cf.kind = 'pointwise'
    return cf
def recurrence_form(ex, st, loc, H, nexts, nb, I, names, n, v0):
    """v := a*v + d(I) with a fixed: v_t = a^t*v_0 + sum of a^(t-1-j)*d(j), or the same sum in reverse order"""
    items = []; fac = None
    for s, _ in nexts:
        v = ex.getloc(s, loc); g = guard(s, nb)
        if mentions(g, names): return None
        v, b = znum2(v, H)
        zero, one, two = (z3.RealVal(x) if v.sort() == Real else z3.IntVal(x) for x in (0, 1, 2))
        Hs = H if H.sort() == v.sort() else None
        if Hs is None: return None
        at0 = z3.simplify(z3.substitute(v, (H, zero)), som=True)
        a = z3.simplify(z3.substitute(v, (H, one)) - at0, som=True)
        if mentions(at0, names) or mentions(a, names) or free_in(a, I): return None
        if not z3.is_true(z3.simplify(z3.simplify(v - a * H - at0, som=True) == zero)): return None
        if fac is None: fac = a
        elif not fac.eq(a): return None
        items.append((g, at0))
    if fac is None: return None
    d = znum(pathmerge(items))
    if v.sort() == Real: d = zreal(d)
    if d.sort() != v.sort(): return None
    from .execu import powfn
    if v.sort() == Real:
        h = ex.ext.get('Pow:*')
        if h is None: return None
        pw = lambda e: h(ex, st, fac, e)
    elif z3.is_int_value(fac) and fac.as_long() >= 2:
        ex.need_pow(fac.as_long()); f = powfn(fac.as_long()); pw = lambda e: f(zi(e))
    else: return None
    z0 = znum2(v0, H)[0]
    iszero = lambda x: z3.is_rational_value(x) and x.as_fraction() == 0 or z3.is_int_value(x) and x.as_long() == 0
    T = subst_const('T', Int); J = subst_const('J', Int)
    sm = None
    if not iszero(z3.simplify(d)):
        from .prover import walk
        back = any(z3.is_app(e) and e.decl().name().startswith('at_L_') and free_in(e.arg(1), I) and z3.is_int_value(z3.simplify(z3.substitute(e.arg(1), (I, I + 1)) - e.arg(1))) and z3.simplify(z3.substitute(e.arg(1), (I, I + 1)) - e.arg(1)).as_long() < 0 for e in walk([d]))
        body = (pw(J) * z3.substitute(d, (I, T - 1 - J)) if back else pw(T - 1 - J) * z3.substitute(d, (I, J)))
        sm = ex.mksum(z3.simplify(body), J, T)
    def at(t):
        r = []
        z = zi(t)
        if not iszero(z0): r.append(pw(z) if z3.simplify(z0 == 1) is not None and z3.is_true(z3.simplify(z0 == 1)) else pw(z) * z0)
        if sm is not None: r.append(z3.substitute(sm, (T, z)))
        if not r: return v0
        return S(r[0] if len(r) == 1 else r[0] + r[1])
    cf = CF(at); cf.kind = 'recurrence'
    return cf
def one_atom(c):
    """an equivalent single atom of c (or its negation), if there is one"""
    atoms = []; seen = set(); todo = [c]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE): todo += x.children()
        elif z3.is_bool(x): atoms.append(x)
    if len(atoms) < 2: return c
    atoms.sort(key=lambda a: len(str(a)))
    for a in atoms:
        for b in (a, z3.Not(a)):
            s = limited(300); s.add(c != b)
            if s.check() == z3.unsat: return b
    return c
def append_form(ex, st, v0, items, I, n, infinite, facts):
    lens = {len(t) for _, t in items}
    if lens == {0, 1} and not infinite:
        c = S2(z3.Or(*[g for g, t in items if t]))
        if ex.entails(st, facts + [I >= 0, I < zi(n)], c):
            items = [(g, t) for g, t in items if t]; lens = {1}
        elif ex.entails(st, facts + [I >= 0, I < zi(n)], z3.Not(c), 300):
            items = [(g, t) for g, t in items if not t]; lens = {0}
    if len(lens) == 1:
        m = lens.pop()
        els = [pathmerge([(g, t[j]) for g, t in items]) for j in range(m)]
        def at(t):
            def get(k):
                if m == 1: return subst(els[0], [(I, zi(k))])
                r = None
                kk = zi(k)
                for j in range(m - 1, -1, -1):
                    v = subst(els[j], [(I, kk / m)])
                    r = v if r is None else merge(S(kk % m == j), v, r)
                return r
            mapped = Seq(S(zi(t) * m), get)
            return seq_concat(v0, mapped) if not (isinstance(v0.n, int) and v0.n == 0) else mapped
        memo = {}
        def at2(t):
            k = t if isinstance(t, int) else ('z', t.get_id())
            if k not in memo: memo[k] = (t, at(t))
            return memo[k][1]
        cf = CF(at2); cf.kind = 'map'
        return cf
    if lens <= {0, 1}:
        c = S2(z3.Or(*[g for g, t in items if t]))
        e = pathmerge([(g, t[0]) for g, t in items if t])
        c = one_atom(c)
        body = z3.If(c, z3.IntVal(1), z3.IntVal(0))
        cnt0 = ex.mksum(body, I, z3.IntVal(0))
        cdecl, cps = ex.sums[cnt0.decl().name()][:2]
        cnt = lambda t: cdecl(*(cps + [zi(t)]))
        ps = cps
        sn = 'SEL!%d' % uid()
        SEL = z3.Function(sn, *[p.sort() for p in ps], Int, Int)
        sel = lambda j: SEL(*(ps + [zi(j)]))
        T = subst_const('T', Int); J = subst_const('J', Int)
        # the J-th selected index: definable for every J below the count at T
        sj = sel(J)
        ci = lambda x: z3.substitute(c, (I, zi(x)))
        ex.defs.append(forall(ps + [J, T], z3.Implies(z3.And(J >= 0, J < cnt(T), T >= 0),
            z3.And(sj >= 0, sj < T, ci(sj), cnt(sj) == J)), [sj, cnt(T)]))
        ex.defs.append(forall(ps + [J], z3.Implies(z3.And(J >= 0, ci(J)), sel(cnt(J)) == J), [cnt(J)]))
        # counts: bounded and monotone
        ex.defs.append(forall(ps + [T], z3.Implies(T >= 0, z3.And(cnt(T) >= 0, cnt(T) <= T)), [cnt(T)]))
        ex.defs.append(forall(ps + [J, T], z3.Implies(z3.And(J >= 0, J < T, ci(J)), cnt(J) < cnt(T)), [cnt(J), cnt(T)]))
        ex.defs.append(forall(ps + [J, T], z3.Implies(z3.And(J >= 0, J < T, z3.Not(ci(J))), cnt(T) < T), [cnt(J), cnt(T)]))
        ex.filters = getattr(ex, 'filters', [])
        ex.filters.append((cdecl, ps, I, c, SEL))
        for f in ex.filters[:-1] if len(ex.filters) <= 3 else (): pair_filters(ex, f, ex.filters[-1])
        memo = {}
        def at(t):
            k = t if isinstance(t, int) else ('z', t.get_id())
            if k not in memo:
                sq = Seq(cnt(t), lambda k: subst(e, [(I, sel(k))]))
                sq.filt = (c, I, cnt, e, t)
                memo[k] = (t, seq_concat(v0, sq) if not (isinstance(v0.n, int) and v0.n == 0) else sq)
            return memo[k][1]
        cf = CF(at); cf.kind = 'filter'
        return cf
    return None

def dict_form(ex, st, loc, h, nexts, nb, I, names, n, v0):
    """m[key(I)] := value, where the value is independent of the dict, or is the
    old entry intersected with a set that is independent of the dict"""
    hd = h['val']
    stores = []
    for s, _ in nexts:
        v = ex.getloc(s, loc); g = guard(s, nb)
        # guards may ask whether the key is present (no KeyError); drop those facts
        cs = [c for c in s.conds[nb:] if not mentions(c, names)]
        dropped = [c for c in s.conds[nb:] if mentions(c, names)]
        g = z3.And(*cs) if cs else z3.BoolVal(True)
        if v is hd: stores.append((g, None, dropped)); continue
        if not v.stores or v.stores[0] is not hd or not v.stores[1] or any(not k.eq(v.stores[1][0][0]) for k, _ in v.stores[1]): return None
        stores.append((g, v.stores[1][-1], dropped))
    if any(us is None for _, us, _ in stores): 
        return None
    key = None
    for g, (k, v), dr in stores:
        if mentions(k, names): return None
        if key is None: key = k
        elif not key.eq(k): return None
    keyat = lambda t: z3.substitute(key, (I, zi(t)))
    ks = key.sort()
    # index of an iteration below T that stores at K, or -1
    ps = [p for p in free_subst(key) if not p.eq(I)]
    W = z3.Function('DIDX!%d' % uid(), *[p.sort() for p in ps], ks, Int, Int)
    K = subst_const('K', ks); T = subst_const('T', Int); J = subst_const('J', Int)
    w = lambda k, t: W(*(ps + [k, zi(t)]))
    ex.defs.append(forall(ps + [K, T], z3.And(w(K, T) >= -1, z3.Implies(w(K, T) >= 0, z3.And(w(K, T) < T, keyat(w(K, T)) == K))), [w(K, T)]))
    ex.defs.append(forall(ps + [J, T], z3.Implies(z3.And(J >= 0, J < T), w(keyat(J), T) >= J), [w(keyat(J), T)]))
    plain = all(not val_mentions(v, names) for _, (k, v), _ in stores)
    if plain and all(not dr for _, _, dr in stores):
        e = pathmerge([(g, v) for g, (k, v), _ in stores])
        if v0.conc is not None and not v0.conc:
            has0 = lambda k: z3.BoolVal(False); get0 = lambda k: Undef
        elif v0.sym: has0, get0 = v0.has, v0.get
        else: return None
        def at(t):
            def has(k): return S2(z3.Or(w(k, t) >= 0, has0(k)))
            def get(k):
                pv = subst(e, [(I, w(k, t))])
                o = get0(k)
                return pv if o is Undef else merge(w(k, t) >= 0, pv, o)
            d = DictC(has=has, get=get, ksort=ks)
            if v0.conc is not None and not v0.conc and not ps: d.size = dict_size(ex, keyat, t)
            return d
        cf = CF(at); cf.kind = 'dict'
        return cf
    # conjunctive update of set-valued entries, possibly with a default for absent keys
    if v0.conc is not None and not v0.conc:
        has0 = lambda k: z3.BoolVal(False); get0 = lambda k: Undef
    elif v0.sym: has0, get0 = v0.has, v0.get
    else: return None
    hk = hd.has(key)
    cur = hd.get(key)
    masks = None; dflt = None
    for g, (k, v), dr in stores:
        if not isinstance(v, SetV) or (stores[0][0] is not g and not z3.simplify(g).eq(z3.simplify(stores[0][0]))): return None
        pos = [c for c in dr if z3.simplify(c).eq(z3.simplify(hk))]; neg = [c for c in dr if z3.simplify(c).eq(z3.simplify(z3.Not(hk)))]
        if len(pos) + len(neg) != len(dr): return None
        if neg:
            if any(mentions(zbool(v.mem.get(e, False)), names) or free_in(zbool(v.mem.get(e, False)), I) for e in (-1, 0, 1)): return None
            if dflt is not None: return None
            dflt = {e: z3.simplify(zbool(v.mem.get(e, False))) for e in (-1, 0, 1)}
            continue
        if masks is not None: return None
        masks = {}
        for e in (-1, 0, 1):
            m = zbool(v.mem.get(e, False))
            c = zbool(cur.mem[e])
            if m.eq(c): masks[e] = z3.BoolVal(True)
            elif z3.is_false(m): masks[e] = z3.BoolVal(False)
            else:
                m1 = z3.simplify(z3.substitute(m, (c, z3.BoolVal(True))))
                m0 = z3.simplify(z3.substitute(m, (c, z3.BoolVal(False))))
                if mentions(m1, names) or not z3.is_false(m0): return None
                masks[e] = m1
    if masks is None or any(free_in(m, I) for m in masks.values()): return None
    if dflt is not None and any(not z3.is_true(z3.simplify(z3.Implies(dflt[e], masks[e]))) for e in (-1, 0, 1)): return None
    if dflt is not None:
        # an absent key gets the default; afterwards intersecting changes nothing
        def at(t):
            def get(k):
                o = get0(k)
                D = SetV({e: S(dflt[e]) for e in (-1, 0, 1)})
                if o is Undef: return D
                if not isinstance(o, SetV): raise Unsupported('dict entry kind')
                h0 = zbool(has0(k))
                return SetV({e: S(z3.If(h0, z3.And(zbool(o.mem.get(e, False)), z3.Or(w(k, t) < 0, masks[e])), dflt[e])) for e in (-1, 0, 1)})
            return DictC(has=lambda k: S2(z3.Or(has0(k), w(k, t) >= 0)), get=get, ksort=ks)
        cf = CF(at); cf.kind = 'dictand'
        return cf
    if not v0.sym: return None
    def at(t):
        def get(k):
            o = v0.get(k)
            if not isinstance(o, SetV): raise Unsupported('dict entry kind')
            return SetV({e: S(z3.And(zbool(o.mem.get(e, False)), z3.Or(w(k, t) < 0, masks[e]))) for e in (-1, 0, 1)})
        return DictC(has=lambda k: S2(z3.Or(v0.has(k), w(k, t) >= 0)), get=get, ksort=ks)
    cf = CF(at); cf.kind = 'dictand'
    return cf

def dict_size(ex, keyat, t):
    """number of different keys among those of the iterations below t: as many as iterations exactly when no two agree"""
    t = zi(t)
    if any(not x.eq(t) for x in free_subst(t)): return None
    n, a, b = ex.fresh('size', Int), ex.fresh('i', Int), ex.fresh('j', Int)
    x, y = z3.Int('x!sz'), z3.Int('y!sz')
    ex.defs.append(z3.Implies(t >= 0, z3.And(n >= 0, n <= t, z3.Implies(t > 0, n >= 1))))
    ex.defs.append(z3.Or(n >= t, z3.And(a >= 0, a < b, b < t, keyat(a) == keyat(b))))
    kx, ky = keyat(x), keyat(y)
    ex.defs.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y, y < t, kx == ky), n < t), patterns=[z3.MultiPattern(kx, ky)] if free_in(kx, x) and z3.is_app(kx) and kx.decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
    return n
def invariant_form(ex, st, loc, h, nexts, nb, nf, I, names, n, q, inv):
    """a scalar without a closed form: the invariants of the contract that hold at the start and are kept
    by every iteration are known of its value at any time"""
    v0 = ex.getloc(st, loc); H = h['H']
    if not is_z3(znum(v0) if is_num(v0) else v0): return None
    z0 = znum(v0) if is_num(v0) else v0
    if z0.sort() != H.sort(): return None
    cands = []
    for nm, f in inv(ex, st):
        try: cands.append((nm, f, f(z0, q, z3.IntVal(0)), f(H, q, I), None))
        except (Unsupported, z3.Z3Exception): continue
    cands = [c for c in cands if c[2] is not None and c[3] is not None]
    good = [c for c in cands if ex.entails(st, [], c[2], 3000)]
    while True:
        bad = []
        for c in good:
            for s, _ in nexts:
                v = ex.getloc(s, loc)
                v = znum(v) if is_num(v) else v
                if not is_z3(v) or v.sort() != H.sort(): bad.append(c); break
                goal = c[1](v, q, I + 1)
                if not ex.entails(s, [g[3] for g in good], goal, 6000): bad.append(c); break
        if not bad: break
        good = [c for c in good if c not in bad]
    if not good: return None
    outer = [x for x in ex.idx if not x.eq(I)]
    F = z3.Function('INV_%s!%d' % (str(loc[-1]), uid()), *([x.sort() for x in outer] + [Int, H.sort()]))
    T = subst_const('T', Int)
    at = lambda t: F(*(outer + [zi(t)]))
    for c in good:
        ex.defs.append(forall(outer + [T], z3.Implies(z3.And(T >= 0, T <= zi(n)), c[1](at(T), q, T)), [at(T)]))
        ex.invs = getattr(ex, 'invs', []) + [(str(loc[-1]), c[0])]
        # recorded as obligations of the function (the start, and each path through the body)
        ex.keepobls.append(Obl('loop invariant on entry: ' + c[0], ex.hyps(st), c[2], ex.curfn, None, 'inv', [i for i in ex.idx if not i.eq(I)]))
        for s, _ in nexts:
            v = ex.getloc(s, loc); v = znum(v) if is_num(v) else v
            ex.keepobls.append(Obl('loop invariant kept: ' + c[0], ex.hyps(s) + [g[3] for g in good], c[1](v, q, I + 1), ex.curfn, None, 'inv', ex.idx))
    def val(t):
        if isinstance(t, int) and t == 0: return v0
        return at(t)
    cf = CF(val); cf.kind = 'inv'
    return cf
def pair_filters(ex, f, g):
    """two selections from the same indices: how their sizes relate"""
    (d1, ps1, I1, c1, _), (d2, ps2, I2, c2, _) = f, g
    if ps1 or ps2: return
    T, J = z3.Int('T!pf'), z3.Int('J!pf')
    k = uid()
    w1, w2 = z3.Function('both!%d' % k, Int, Int), z3.Function('none!%d' % k, Int, Int)
    p = lambda x: z3.substitute(c1, (I1, x)); q = lambda x: z3.substitute(c2, (I2, x))
    n1, n2 = d1(T), d2(T)
    over = z3.And(w1(T) >= 0, w1(T) < T, p(w1(T)), q(w1(T)))
    miss = z3.And(w2(T) >= 0, w2(T) < T, z3.Not(p(w2(T))), z3.Not(q(w2(T))))
    ex.defs.append(forall([T], z3.Implies(T >= 0, z3.And(z3.Or(over, n1 + n2 <= T), z3.Or(miss, n1 + n2 >= T))), [n1, n2]))
    from .prover import walk
    seen = set()
    for x in walk([p(J), q(J)]):
        if z3.is_app(x) and x.num_args() == 2 and x.decl().name().startswith('at_L_') and x.arg(1).eq(J) and not free_in(x.arg(0), J) and x.get_id() not in seen:
            seen.add(x.get_id())
            ex.defs.append(forall([T, J], z3.Implies(z3.And(J >= 0, J < T, z3.Not(p(J)), z3.Not(q(J))), z3.Or(over, n1 + n2 < T)), [n1, n2, x]))
def field_form(ex, st, loc, h, nexts, nb, I, names, n, v0):
    """o(I).f := e(I), where e may use the old value of the same object's field;
    the objects have to be pairwise different (obligation)"""
    hf = h['val']
    cls = loc[1][1]
    items = []; obj = None
    for s, _ in nexts:
        v = ex.getloc(s, loc); g = guard(s, nb)
        if v is hf: items.append((g, None)); continue
        cur = v; val = None
        while cur is not hf:
            stt = getattr(cur, 'store', None)
            if stt is None: return None
            t, x, old = stt
            if obj is None: obj = t
            elif not obj.eq(t): return None
            if val is None: val = x
            cur = old
        if cur is None: return None
        items.append((g, val))
    if obj is None or mentions(obj, names): return None
    objat = lambda t: z3.substitute(obj, (I, zi(t)))
    # replace the unknown old value of this object's field by its initial value
    def init(t):
        if isinstance(v0, FieldMap): return v0.get(t)
        return Undef
    o0 = init(obj)
    try: hv = hf.get(obj)
    except Exception: hv = None
    pairs = []
    if hv is not None and not isinstance(hv, HavocAny) and o0 is not Undef:
        pairs = [(ex.term(hv), ex.term(o0))]
    res = []
    for g, val in items:
        if val is None: val = hv if (hv is not None and not isinstance(hv, HavocAny)) else Undef
        g = z3.substitute(g, *pairs) if pairs else g
        v2 = subst(val, pairs) if pairs else val
        if mentions(g, names) or val_mentions(v2, names): return None
        res.append((g, v2))
    e = pathmerge(res)
    J = subst_const('J', Int); J2 = subst_const('J', Int)
    ex.oblige(st, 'objects updated by a loop are pairwise different', z3.ForAll([J, J2], z3.Implies(
        z3.And(J >= 0, J < J2, J2 < zi(n)), objat(J) != objat(J2))), None, 'loop')
    ps = [p for p in free_subst(obj) if not p.eq(I)]
    W = z3.Function('OIDX!%d' % uid(), *[p.sort() for p in ps], obj.sort(), Int)
    w = lambda o: W(*(ps + [o]))
    ex.defs.append(forall(ps + [J], z3.Implies(z3.And(J >= 0, J < zi(n)), w(objat(J)) == J), [objat(J)]) if not has_quant(objat(J)) else z3.BoolVal(True))
    def home(o):
        """the list of new objects that o is taken from"""
        if z3.is_app(o) and o.decl().name().startswith('at_L_') and o.arg(0).decl().name() in ex.freshlists: return o.arg(0)
        return None
    ho = home(obj)
    direct = ho is not None and z3.is_app(obj) and obj.arg(1).eq(I) and not free_in(ho, I)
    def at(t):
        def get(o):
            h2 = home(o)
            if ho is not None and h2 is not None and h2.decl().name() != ho.decl().name(): return init(o)
            if direct and h2 is not None and h2.eq(ho):
                i = o.arg(1)
                old = init(o); nv = subst(e, [(I, i)])
                return nv if old is Undef else merge(S(z3.And(i >= 0, i < zi(t))), nv, old)
            mem = z3.And(w(o) >= 0, w(o) < zi(t), objat(w(o)) == o)
            nv = subst(e, [(I, w(o))])
            old = init(o)
            if old is Undef: return nv
            return merge(mem, nv, old)
        return FieldMap(get)
    cf = CF(at); cf.kind = 'field'
    return cf

# ---------------------------------------------------------------- finishing --
def closed_exit(ex, st, exitc, I, n):
    """first index in [0, n) with the exit condition, when that is 'I >= K' for some K"""
    from .prover import walk
    cands = []
    for e in walk([exitc]):
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and e.arg(0).sort() == Int and free_in(e, I):
            d = z3.simplify(e.arg(0) - e.arg(1), som=True)
            c0 = z3.simplify(z3.substitute(d, (I, z3.IntVal(0))))
            c1 = z3.simplify(z3.substitute(d, (I, z3.IntVal(1))) - c0)
            if z3.is_int_value(c1) and abs(c1.as_long()) == 1:
                z = z3.simplify(-c0 * c1.as_long())
                cands += [z3.simplify(z + 1), z, z3.simplify(z - 1)]
    lens = [t for t in walk([exitc, zi(n)] + list(st.conds)) if z3.is_app(t) and t.decl().name().startswith('len_L_')]
    for c in cands[:9]:
        s = limited(500)
        s.add(*[f for f in st.conds if not has_quant(f)])
        s.add(*[t >= 0 for t in lens if not any(z3.is_var(x) for x in walk([t]))])
        s.add(I >= 0, I < zi(n), z3.Not(exitc == (I >= c)))
        if s.check() == z3.unsat:
            return zmin(zmax(c, 0), n)
    return None
def collect_facts(outs, nb, nf):
    facts = []; seen = set()
    for k, s, x in outs:
        for cs, f in s.facts[nf:]:
            rel = [c for c in cs[nb:]]
            key = (f.get_id(), tuple(c.get_id() for c in rel))
            if key in seen: continue
            seen.add(key)
            g = S2(z3.Implies(z3.And(*rel), f)) if rel else f
            if not z3.is_true(g): facts.append(g)
    return facts
def eqval(ex, a, b, loc):
    """formula: the two values are the same (None if that cannot be said)"""
    if a is b: return z3.BoolVal(True)
    if isinstance(a, Un) or isinstance(b, Un):
        cs = []
        for g, x in (a.alts if isinstance(a, Un) else [(z3.BoolVal(True), a)]):
            for h, y in (b.alts if isinstance(b, Un) else [(z3.BoolVal(True), b)]):
                e = z3.BoolVal(False) if isinstance(x, HavocAny) != isinstance(y, HavocAny) else eqval(ex, x, y, loc)
                if e is None: return None
                cs.append(z3.Implies(z3.And(g, h), e))
        return z3.And(*cs)
    if same(a, b) or (isinstance(a, HavocAny) and isinstance(b, HavocAny)): return z3.BoolVal(True)
    if is_bool(a) and is_bool(b): return zbool(a) == zbool(b)
    if is_num(a) and is_num(b):
        x, y = znum2(a, b)
        return x == y
    if is_z3(a) and is_z3(b) and a.sort() == b.sort(): return a == b
    if isinstance(a, (LV, TupSeq, SetSeq)) and type(a) is type(b): return eqval(ex, a.seq, b.seq, loc)
    if isinstance(a, Tup) and isinstance(b, Tup): a, b = seq_items(a.items), seq_items(b.items)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if isinstance(a.n, int) and a.n == 0 and isinstance(b.n, int): return z3.BoolVal(b.n == 0)
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items): return z3.BoolVal(False)
            cs = [eqval(ex, x, y, loc) for x, y in zip(a.items, b.items)]
            return None if any(c is None for c in cs) else z3.And(*cs) if cs else z3.BoolVal(True)
        ln = zi(a.n) == zi(b.n)
        if S(zi(b.n) <= 0) is True: return ln
        K = z3.Int('K!%d' % uid())
        e = eqval(ex, a.get(K), b.get(K), loc)
        return None if e is None else z3.And(ln, z3.Implies(z3.And(K >= 0, K < zi(a.n), K < zi(b.n)), e))
    if isinstance(a, SetV) and isinstance(b, SetV):
        return z3.And(*[zbool(a.mem.get(k, False)) == zbool(b.mem.get(k, False)) for k in set(a.mem) | set(b.mem)])
    if isinstance(a, DictC) and isinstance(b, DictC):
        ks = a.ksort if a.ksort is not None else b.ksort
        if ks is None: return None
        K = z3.Const('K!%d' % uid(), ks)
        def view(d):
            if d.conc is None: return d.has(K), d.get(K)
            if d.conc: return None, None
            return z3.BoolVal(False), Undef
        (h1, g1), (h2, g2) = view(a), view(b)
        if h1 is None or h2 is None: return None
        same_keys = zbool(h1) == zbool(h2)
        if g1 is Undef or g2 is Undef: return same_keys if (g1 is Undef) == (g2 is Undef) else z3.And(same_keys, z3.Not(zbool(h1)))
        e = eqval(ex, g1, g2, loc)
        return None if e is None else z3.And(same_keys, z3.Implies(zbool(h1), e))
    if isinstance(a, FieldMap) and isinstance(b, FieldMap) and isinstance(loc[-1], tuple):
        try: K = z3.Const('K!%d' % uid(), obj_sort(loc[-1][1]))
        except Exception: return None
        x, y = a.get(K), b.get(K)
        if x is Undef and y is Undef: return z3.BoolVal(True)
        if x is Undef or y is Undef: return None
        return eqval(ex, x, y, loc)
    if isinstance(a, ClsV) and isinstance(b, ClsV): return z3.BoolVal(False)      # two different classes
    if isinstance(a, Ref) and isinstance(b, Ref): return z3.BoolVal(True) if loc[0] == 'v' else None   # made in the loop: cannot be read after it
    if isinstance(a, V) and type(a) is type(b) and getattr(a, 'extcls', None) and set(vars(a)) == set(vars(b)):
        cs = [eqval(ex, x, vars(b)[k], loc) if isinstance(x, V) or is_z3(x) else z3.BoolVal(x == vars(b)[k]) for k, x in vars(a).items()]
        return None if any(c is None for c in cs) else z3.And(*cs)
    try:
        x, y = ex.term(a), ex.term(b)
        return x == y if x.sort() == y.sort() else None
    except Exception: return None

def induction(ex, st, outs, forms, I, n, infinite):
    """obligations that the closed forms are what the iterations do: the form before the first iteration is the
    value on entry, and running the body on the form at I gives the form at I + 1"""
    for loc, cf in forms.items():
        if cf.kind in ('const', 'poison', 'unknown', 'inv'): continue      # nothing is claimed, or it has obligations of its own
        nm = 'closed form (%s) of %s' % (cf.kind, loc[-1] if not isinstance(loc[-1], tuple) else '.'.join(map(str, loc[-1])))
        T = z3.Int('T!%d' % uid())
        todo = []
        try:
            v0 = ex.getloc(st, loc)
            if v0 is not Undef and not isinstance(v0, HavocAny): todo.append((nm + ' on entry', ex.hyps(st) + [T == 0], lambda: eqval(ex, cf.at(T), v0, loc)))
            for k, s, x in outs:
                if k in ('next', 'continue'): todo.append((nm + ' kept', ex.hyps(s), lambda s=s: eqval(ex, ex.getloc(s, loc), cf.at(S(I + 1)), loc)))
        except Exception: todo = [(nm, [], lambda: None)]
        for name, hy, mk in todo:
            try: g = mk()
            except Exception: g = None
            ex.formobls.append(Obl(name, hy, g, ex.curfn, getattr(ex, 'curline', None), 'form', ex.idx))

def finish(ex, st, q, outs, forms, I, n, infinite, nb, nf, mark, kept):
    if not ex.noforms: induction(ex, st, outs, forms, I, n, infinite)
    rng = (lambda j: [zi(j) >= 0]) if infinite else (lambda j: [zi(j) >= 0, zi(j) < zi(n)])
    nexts = [s for k, s, x in outs if k in ('next', 'continue')]
    exits = [(k, s, x) for k, s, x in outs if k not in ('next', 'continue')]
    # facts established in every executed iteration
    facts = kept + collect_facts(outs, nb, nf)
    ex.idx.pop()
    try:
        out = []
        gx = [guard(s, nb) for k, s, x in exits]
        exitc = S2(z3.Or(*gx)) if gx else z3.BoolVal(False)
        nextc = S2(z3.Or(*[guard(s, nb) for s in nexts])) if nexts else z3.BoolVal(False)
        closed = False
        def below(t):
            """what the executed iterations before t established"""
            J = z3.Int('j!%d' % uid())
            r = z3.And(*(rng(J) + ([J < zi(t)] if t is not n else [])))
            res = []
            for f in facts + ([S2(z3.Not(exitc))] if exits and not closed else []):
                if not free_in(f, I): res.append(S2(z3.Implies(zi(t) > 0, f)))
                else: res.append(z3.ForAll([J], z3.Implies(r, z3.substitute(f, (I, J)))))
            return res
        # the first index at which the loop is left (n if it never is)
        common = [] if infinite or not is_z3(n) or nonneg(n) else [n >= 0]
        kk = closed_exit(ex, st, exitc, I, n) if exits and not infinite else None
        if kk is not None:
            closed = True
            common += below(kk) if facts else []
        elif exits:
            kk = ex.fresh('k', Int)
            common.append(kk >= 0)
            if not infinite: common += [kk <= zi(n), S2(z3.Implies(kk < zi(n), z3.substitute(exitc, (I, kk))))]
            common += below(kk)
        else: common += below(n)
        # (a) ran to the end
        if not infinite:
            s = st.fork()
            for f in common: ex.assume(s, f)
            if exits: s.conds.append(kk == zi(n))
            for loc, cf in forms.items(): ex.setloc(s, loc, cf.at(kk if exits and ex.idx else n))
            if ex.feasible(s): out.append(('done', s, None))
        # (b) left early
        for (k, s1, x) in exits:
            s = st.fork()
            for f in common: ex.assume(s, f)
            if not infinite: s.conds.append(kk < zi(n))
            pairs = [(I, kk)]
            # the path that leaves
            for c in s1.conds[nb:]: s.conds.append(S2(z3.substitute(c, *pairs)))
            for cs, f in s1.facts[nf:]:
                s.facts.append((tuple(s.conds), S2(z3.substitute(f, *pairs))))
            for loc, cf in forms.items(): ex.setloc(s, loc, cf.at(kk))
            # effects of the leaving iteration, including newly created cells
            for loc, v in ex.locs(s1):
                if loc[0] == 'v' and loc[1] not in st.frames:
                    continue
                cur = ex.getloc(s, loc)
                if loc in forms:
                    ent = forms[loc].at(I)
                    if ex.locsame(v, ent) or (isinstance(v, Seq) and v is ent): continue
                elif loc[0] == 'h' and loc in dict(ex.locs(st)) : continue
                elif loc[0] == 'v' and ex.locsame(v, ex.getloc(st, loc)): continue
                elif loc == ('now',) : continue
                if isinstance(v, Seq): ex.setloc(s, loc, subst_seq(v, pairs))
                elif isinstance(v, FieldMap):
                    old = v
                    def mk(old):
                        def get(t):
                            C = subst_const('C', t.sort())
                            return subst(subst(old.get(C), pairs), [(C, t)])
                        return FieldMap(get)
                    ex.setloc(s, loc, mk(old))
                elif isinstance(v, DictC):
                    if v.conc is not None:
                        ex.setloc(s, loc, DictC(conc=[(kx, subst(vx, pairs)) for kx, vx in v.conc]))
                    else:
                        def mkd(old):
                            def wr(f):
                                def g(t):
                                    C = subst_const('C', t.sort())
                                    return subst(subst(f(C), pairs), [(C, t)])
                                return g
                            return DictC(has=wr(old.has), get=wr(old.get), ksort=old.ksort)
                        ex.setloc(s, loc, mkd(v))
                else: ex.setloc(s, loc, subst(v, pairs))
            for fr in s1.frames:
                if fr not in s.frames: s.frames[fr] = {a: (subst(b, pairs) if not a.startswith('__') else b) for a, b in s1.frames[fr].items()}
            s.frozen |= s1.frozen
            if not ex.feasible(s): continue
            xv = subst(x, pairs) if not isinstance(x, ExcV) else x
            out.append(('broke' if k == 'break' else k, s, xv))
    finally:
        ex.idx.append(I)
    return out
