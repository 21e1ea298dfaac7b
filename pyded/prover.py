"""Discharging obligations. Each obligation is closed by z3 (cvc5 as a second
back end) after adding ground instances of lemmas about finite sums, list
extensionality and the lemma schemas registered with the contracts."""
import z3, time, os, subprocess, tempfile
from .sym import *
from .execu import has_quant, free_in, forall

class Result:
    def __init__(self, obl, status, backend, secs, model=None, why=''):
        self.obl, self.status, self.backend, self.secs, self.model, self.why = obl, status, backend, secs, model, why

def walk(exprs):
    """all subterms without free de Bruijn variables"""
    seen = set(); out = []
    st = list(exprs)
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(e):
            st.append(e.body()); continue
        out.append(e)
        st.extend(e.children())
    return out
_varcache = {}
def has_var(e):
    k = e.get_id()
    if k in _varcache and _varcache[k][0].eq(e): return _varcache[k][1]
    if z3.is_var(e): r = True
    elif z3.is_quantifier(e): r = True
    else: r = any(has_var(c) for c in e.children())
    _varcache[k] = (e, r)
    return r

def skolemise(goal, hyps):
    """split a goal into quantifier-free-ish subgoals: [(hyps, goal)]"""
    if z3.is_and(goal):
        r = []
        for c in goal.children(): r += skolemise(c, hyps)
        return r
    if z3.is_implies(goal):
        return skolemise(goal.arg(1), hyps + [goal.arg(0)])
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [z3.Const('sk_%s!%d' % (goal.var_name(i), uid()), goal.var_sort(i)) for i in range(goal.num_vars())]
        return skolemise(z3.substitute_vars(goal.body(), *reversed(cs)), hyps)
    if z3.is_or(goal) and any(z3.is_quantifier(c) for c in goal.children()):
        cs = goal.children()
        q = [c for c in cs if z3.is_quantifier(c)][0]
        rest = [z3.Not(c) for c in cs if c is not q]
        if q.is_forall(): return skolemise(q, hyps + rest)
    if z3.is_eq(goal) and seq_of_sort(goal.arg(0).sort()) is not None and not goal.arg(0).eq(goal.arg(1)):
        a, b = goal.children()
        ss = seq_of_sort(a.sort())
        k = z3.Const('sk_k!%d' % uid(), Int)
        el = ss.at(a, k) == ss.at(b, k)
        return [(hyps, ss.len(a) == ss.len(b))] + skolemise(el, hyps + [ss.len(a) == ss.len(b), k >= 0, k < ss.len(a)])
    if z3.is_eq(goal) and goal.arg(0).sort() == Bool and (has_quant(goal)):
        a, b = goal.children()
        return skolemise(z3.Implies(a, b), hyps) + skolemise(z3.Implies(b, a), hyps)
    return [(hyps, goal)]

def match(pat, t, sub):
    if z3.is_var(pat):
        i = z3.get_var_index(pat)
        if i in sub: return sub if sub[i].eq(t) else None
        if pat.sort() != t.sort(): return None
        d = dict(sub); d[i] = t
        return d
    if z3.is_quantifier(pat) or not z3.is_app(t): return None
    if pat.num_args() == 0: return sub if pat.eq(t) else None
    if not pat.decl().eq(t.decl()) or pat.num_args() != t.num_args(): return None
    for a, b in zip(pat.children(), t.children()):
        sub = match(a, b, sub)
        if sub is None: return None
    return sub

def ematch(axs, fs, seen, limit=400):
    """instances of universally quantified axioms (with patterns) at the ground terms of fs"""
    heads = {}
    for t in walk(fs):
        if z3.is_app(t) and t.num_args() > 0 and not has_var(t):
            heads.setdefault(t.decl().name(), []).append(t)
    out = []
    for q in axs:
        if not (z3.is_quantifier(q) and q.is_forall()) or q.num_patterns() == 0: continue
        for pi in range(q.num_patterns()):
            subs = [{}]
            for ptn in q.pattern(pi).children():
                nx = []
                for sb in subs:
                    for t in heads.get(ptn.decl().name(), ()):
                        m = match(ptn, t, sb)
                        if m is not None: nx.append(m)
                        if len(nx) > 300: break
                subs = nx
            for sb in subs:
                n = q.num_vars()
                if len(sb) != n: continue
                ts = [sb[i] for i in range(n)]
                key = (q.get_id(),) + tuple(t.get_id() for t in ts)
                if key in seen: continue
                seen[key] = (q, ts)
                out.append(z3.substitute_vars(q.body(), *ts))
                if len(out) > limit: return out
    return out

class Prover:
    def __init__(self, ex, lemmas=(), axioms=(), timeout=8, cvc5=True):
        self.ex, self.lemmas, self.axioms = ex, list(lemmas), list(axioms)
        self.timeout = timeout
        self.use_cvc5 = cvc5
        self.debug = bool(os.environ.get('PROVER_DEBUG'))
        self.maxsums = 14
        self.isolated = False
        self.hints = None
        self.scale = 1
        self.deadline = time.time() + 1e6
    def xdefs(self): return [] if self.isolated else self.ex.defs
    # ---- sums
    def sumterm(self, t):
        return self.ex.sums.get(t.decl().name()) if z3.is_app(t) and t.num_args() > 0 else None
    def body(self, t, i):
        decl, ps, I, body = self.ex.sums[t.decl().name()]
        args = t.children()
        return z3.simplify(z3.substitute(body, *(list(zip(ps, args[:-1])) + [(I, zi(i))])))
    def F(self, t, i):
        hi = t.children()[-1]
        b = self.body(t, i)
        zero = z3.IntVal(0) if b.sort() == Int else z3.RealVal(0)
        return z3.If(z3.And(zi(i) >= 0, zi(i) < hi), b, zero)
    def deltas(self, t):
        """candidate single indices: solutions of equations in I inside the body"""
        decl, ps, I, body = self.ex.sums[t.decl().name()]
        res = []
        for e in walk([body]):
            if z3.is_eq(e) and e.arg(0).sort() == Int and free_in(e, I):
                d = z3.simplify(e.arg(0) - e.arg(1), som=True)
                c0 = z3.simplify(z3.substitute(d, (I, z3.IntVal(0))))
                c1 = z3.simplify(z3.substitute(d, (I, z3.IntVal(1))) - c0)
                if z3.is_int_value(c1) and abs(c1.as_long()) == 1:
                    sol = z3.simplify(-c0 * c1.as_long())
                    args = t.children()
                    res.append(z3.simplify(z3.substitute(sol, *list(zip(ps, args[:-1])))))
        out = []
        for r in res:
            if not any(r.eq(o) for o in out): out.append(r)
        return out[:3]
    def is_count(self, t):
        decl, ps, I, body = self.ex.sums[t.decl().name()]
        return z3.is_app_of(body, z3.Z3_OP_ITE) and all(z3.is_int_value(x) and x.as_long() in (0, 1) for x in body.children()[1:])
    def sum_lemmas(self, fs, rounds=3, rnd0=0):
        out = []; done = self.sumdone; pairs = set(); sums = self.sumall; idxs = []
        frontier = list(fs)
        for rnd in range(rounds):
            new = []
            for t in walk(frontier):
                if self.sumterm(t) is not None and not has_var(t) and t.get_id() not in done:
                    done[t.get_id()] = t; new.append(t)
            if not new or len(sums) > self.maxsums: break
            new = new[:self.maxsums]
            add = []
            for t in new:
                hi = t.children()[-1]
                zero = z3.IntVal(0) if t.sort() == Int else z3.RealVal(0)
                add.append(z3.Implies(hi <= 0, t == zero))
                s = z3.Const('sx!%d' % uid(), Int); idxs.append(s)
                add.append(z3.Or(t == zero, z3.And(s >= 0, s < hi, self.body(t, s) != zero)))
                if self.is_count(t):
                    add.append(z3.And(z3.Implies(hi >= 0, z3.And(t >= 0, t <= hi))))
                    s1 = z3.Const('s1!%d' % uid(), Int); idxs.append(s1)
                    add.append(z3.Or(hi < 0, t == hi, z3.And(s1 >= 0, s1 < hi, self.body(t, s1) != 1)))
                for d in self.deltas(t):
                    s2 = z3.Const('sd!%d' % uid(), Int); idxs += [s2, d]
                    add.append(z3.Or(t == self.F(t, d), z3.And(s2 != d, s2 >= 0, s2 < hi, self.body(t, s2) != zero)))
                if z3.is_int_value(hi) and 0 < hi.as_long() <= 4:
                    add.append(t == z3.Sum(*[self.body(t, j) for j in range(hi.as_long())]))
                elif rnd0 == 0:
                    decl = t.decl()
                    p = decl(*(t.children()[:-1] + [z3.simplify(hi - 1)]))
                    add.append(z3.Implies(hi > 0, t == p + self.body(t, z3.simplify(hi - 1))))
                    add.append(z3.Implies(hi <= 1, p == zero))
                    done.setdefault(p.get_id(), p)
            allp = [(a, b) for a in new for b in sums + new]
            for a, b in allp:
                if a.eq(b) or a.sort() != b.sort(): continue
                key = tuple(sorted((a.get_id(), b.get_id())))
                if key in pairs: continue
                pairs.add(key)
                s = z3.Const('sc!%d' % uid(), Int); idxs.append(s)
                add.append(z3.Or(a == b, self.F(a, s) != self.F(b, s)))
            sums += new
            out += add
            frontier = add
        return out, idxs
    # ---- list extensionality
    def ext_lemmas(self, fs, cap=9):
        by = {}
        for t in walk(fs):
            if z3.is_app(t) and not has_var(t):
                ss = seq_of_sort(t.sort())
                if ss is not None and not z3.is_app_of(t, z3.Z3_OP_ITE):
                    by.setdefault(t.sort().name(), {})[t.get_id()] = t
        out = []
        for k, m in by.items():
            ts = list(m.values())[:cap]
            ss = _ss(k)
            for i in range(len(ts)):
                for j in range(i):
                    a, b = ts[i], ts[j]
                    w = z3.Const('dx!%d' % uid(), Int)
                    out.append(z3.Or(a == b, ss.len(a) != ss.len(b), z3.And(w >= 0, w < ss.len(a), ss.at(a, w) != ss.at(b, w))))
        return out
    # ---- arithmetic-only universal facts: instantiate at index terms
    def inst_facts(self, hyps, idxs, fs, cap=14):
        qs = [h for h in hyps if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == Int]
        terms = {}
        for i in idxs: terms[i.get_id()] = i
        for t in walk(fs):
            if has_var(t): continue
            if z3.is_app(t) and t.sort() == Int and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                terms[t.get_id()] = t
            if z3.is_app(t) and t.decl().name().startswith('at_L_'):
                terms[t.arg(1).get_id()] = t.arg(1)
            if z3.is_app(t) and t.sort() == Int and t.decl().name().startswith('k!'):
                terms[t.get_id()] = t
        ts = list(terms.values())[:cap * 3]
        out = []
        for q in qs:
            for t in ts:
                out.append(z3.substitute_vars(q.body(), t))
        return out
    # ---- main
    def prove(self, obl):
        t0 = time.time()
        if z3.is_true(obl.goal): return Result(obl, 'proved', 'simplifier', 0.0)
        subs = skolemise(obl.goal, list(obl.hyps))
        backend = set()
        for hyps, goal in subs:
            r = None
            if self.hints is not None and obl.kind == 'post':
                r = self.prove1(hyps, goal, levels=[0])
                if r[0] != 'proved': hyps, r = hyps + self.with_hints(hyps, goal), None
            if r is None: r = self.prove1(hyps, goal)
            backend.add(r[1])
            if r[0] != 'proved':
                return Result(obl, r[0], r[1], time.time() - t0, r[2], r[3])
        return Result(obl, 'proved', '+'.join(sorted(backend)), time.time() - t0)
    def relevant(self, hyps, goal):
        """drop hypotheses about unknowns that have nothing to do with the goal"""
        cache = {}
        def syms(f):
            out = set(); seen = set(); st = [f]
            while st:
                e = st.pop()
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                if z3.is_quantifier(e): st.append(e.body()); continue
                if z3.is_app(e):
                    nm = e.decl().name()
                    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in nm: out.add(nm)
                    st.extend(e.children())
            return out
        defs = [(d, syms(d)) for d in self.xdefs()]
        sb = {n: syms(b[3]) | {n} for n, b in self.ex.sums.items()}
        hs = [(h, syms(h)) for h in hyps]
        reach = syms(goal)
        for h, s in hs:
            if not z3.is_quantifier(h): reach |= s
        ch = True
        while ch:
            ch = False
            n0 = len(reach)
            for n, s in sb.items():
                if n in reach: reach |= s
            for d, s in defs:
                if s & reach: reach |= s
            for h, s in hs:
                if s & reach: reach |= s
            ch = len(reach) != n0
        return [h for h, s in hs if not s or s & reach]
    def query(self, hyps, goal, level):
        base = list(hyps) + [z3.Not(goal)]
        fs = list(base)
        idxs = []
        extra = []
        # lemma schemas may introduce sums, so they come first
        for lm in self.lemmas:
            new = lm(self, fs + extra, hyps, goal)
            extra += new
        if level >= 1:
            axs = self.xdefs() + self.axioms + list(hyps)
            seen = {}
            self.sumdone = {}
            self.sumall = []
            cur = fs + extra
            for rnd in range(2 if level == 1 else 3):
                inst = []
                for _ in range(2):
                    ni = ematch(axs, cur + inst, seen)
                    inst += ni
                    if not ni: break
                extra += inst
                ls, ix = self.sum_lemmas(cur + inst, rounds=1, rnd0=rnd)
                idxs += ix
                extra += ls
                cur = ls
                if not ls: break
            extra += self.ext_lemmas(fs + extra, cap=6 if level == 1 else 9)
            extra += self.inst_facts(hyps, idxs, fs + extra)
        return base + extra
    def ground_defs(self): return []
    def ground_sums(self, fs):
        out = []
        for t in walk(fs):
            if self.sumterm(t) is not None and not has_var(t): out.append(t)
        return out
    def tactics(self, hyps, goal, depth):
        """proved equalities between sums, and filters that keep everything"""
        facts = []
        axs = self.xdefs() + self.axioms + [h for h in hyps if z3.is_quantifier(h)]
        seen = {}
        inst = []
        for _ in range(2): inst += ematch(axs, [goal] + hyps + inst, seen)
        sums = self.ground_sums([goal] + hyps + inst)
        code = [t for t in sums if t.decl().name().startswith('SUM!')]
        spec = [t for t in sums if not t.decl().name().startswith('SUM!')]
        if len(code) * len(spec) <= 16:
            for a in code:
                for b in spec:
                    if a.sort() != b.sort(): continue
                    s = z3.Const('sp!%d' % uid(), Int)
                    if self.quick(hyps + facts, self.F(a, s) == self.F(b, s), depth):
                        facts.append(a == b)
                        break
        return facts, inst
    def with_hints(self, hyps, goal):
        out = []
        for f in self.hints(walk(list(hyps) + [goal])):
            t0 = time.time()
            ok = self.quick(hyps + out, f, 0)
            if self.debug: print('    hint', ok, '%.1f' % (time.time() - t0), ' '.join(str(f).split())[:200], flush=True)
            if ok: out.append(f)
        return out
    def intermediate(self, obls, propose):
        """intermediate assertions about a constant: proved once from the hypotheses that all obligations mentioning
        it share, then available to all of them (an equation for the constant replaces it)"""
        done = set()
        while True:
            where = {}
            for o in obls:
                for t in {t.get_id(): t for t in walk([o.goal] + list(o.hyps))}.values():
                    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.get_id() not in done: where.setdefault(t.get_id(), (t, []))[1].append(o)
            work = [(t, os_, fs) for t, os_, fs in ((t, os_, propose(t)) for t, os_ in where.values()) if fs]
            done |= set(where)
            if not work: return
            for t, os_, fs in work:
                for f in fs:
                    common = set.intersection(*[{h.get_id() for h in o.hyps} for o in os_])
                    hyps = [h for h in os_[0].hyps if h.get_id() in common]
                    ok = self.quick(hyps, f, -1)
                    if self.debug: print('    intermediate', t, ok, ' '.join(str(f).split())[:200])
                    if not ok: continue
                    if z3.is_eq(f) and f.arg(0).eq(t):
                        for o in os_: o.goal = z3.substitute(o.goal, (t, f.arg(1))); o.hyps = [z3.substitute(h, (t, f.arg(1))) for h in o.hyps]
                        break
                    for o in os_: o.hyps = list(o.hyps) + [f]
    def samesums(self, cands):
        """sums of the code whose terms are those of a specification sum, whatever the number of terms"""
        for nm, (decl, ps, I, body) in list(self.ex.sums.items()):
            if not nm.startswith('SUM!') or ps: continue
            i = z3.Int('ss!%d' % uid())
            for b in cands:
                if isinstance(b, tuple): b = b[0]
                if b.sort() != decl.range(): continue
                x = z3.substitute(body, (I, i))
                s = z3.Solver(); s.set('timeout', 500)
                s.add(i >= 0, x != self.body(b, i))
                if s.check() == z3.unsat:
                    g = b.decl()(*(b.children()[:-1] + [i]))
                    for p in (decl(i), g): self.ex.defs.append(z3.ForAll([i], z3.Implies(i >= 0, decl(i) == g), patterns=[p]))
                    break
    def cut(self, obls, cands):
        """prove once that a sum of the code equals a specification sum, from the hypotheses that all
        obligations mentioning it share, and replace it in them"""
        where = {}
        for o in obls:
            for t in {t.get_id(): t for t in self.ground_sums([o.goal] + list(o.hyps))}.values():
                if t.decl().name().startswith('SUM!'): where.setdefault(t.get_id(), (t, []))[1].append(o)
        for t, os_ in where.values():
            common = set.intersection(*[{h.get_id() for h in o.hyps} for o in os_])
            hyps = [h for h in os_[0].hyps if h.get_id() in common]
            for b in cands:
                b, more = b if isinstance(b, tuple) else (b, [])
                if b.sort() != t.sort(): continue
                ha, hb = t.children()[-1], b.children()[-1]
                s = z3.Const('sp!%d' % uid(), Int)
                if self.quick(hyps, ha == hb, 0) and self.quick(hyps + [s >= 0, s < hb], self.body(t, s) == self.body(b, s), -1):
                    for o in os_:
                        o.goal = z3.substitute(o.goal, (t, b)); o.hyps = [z3.substitute(h, (t, b)) for h in o.hyps] + more
                    break
    def quick(self, hyps, goal, depth):
        for h, g in skolemise(goal, hyps):
            if depth <= 0 and any(has_quant(x) for x in h):
                # without quantifiers, but with what is known at the indices the goal is about
                ks = {t.get_id(): t for t in walk([g]) if z3.is_const(t) and t.sort() == Int and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name()}.values()
                ins = [z3.substitute_vars(q.body(), k) for q in h if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == Int for k in ks]
                flat = []
                for x in h: flat += x.children() if z3.is_and(x) else [x]
                ins += [z3.substitute_vars(q.body(), k) for q in flat if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == Int for k in ks]
                fs = [x for x in flat + ins if not has_quant(x)] + [z3.Not(g)]
                fs += [x for x in ematch(self.xdefs() + self.axioms, fs, {}) if not has_quant(x)]
                if self.solve(fs, 'z3', 1, 'flat')[0] == z3.unsat: continue
            r = self.prove1(h, g, depth + 1)
            if r[0] != 'proved': return False
        return True
    def focus(self, hyps, goal):
        """the hypotheses closest to the goal, by shared unknowns; growing sets"""
        def syms(f):
            return {t.decl().name() for t in walk([f]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name()}
        hs = [(h, syms(h)) for h in hyps]
        R = syms(goal); n0 = -1
        for _ in range(3):
            sel = [h for h, s in hs if s <= R]
            if len(sel) != n0 and 2 * len(sel) < len(hyps): yield sel
            n0 = len(sel)
            R = R.union(*[s for h, s in hs if s & R])
    def prove1(self, hyps, goal, depth=0, levels=None):
        last = None
        if depth == 0 and len(hyps) > 30:
            for sel in self.focus(hyps, goal):
                r, s = self.solve(sel + [z3.Not(goal)] + self.xdefs() + self.axioms, 'z3', 0.5, 'focus')
                if r == z3.unsat: return ('proved', 'z3', None, '')
        hyps = self.relevant(hyps, goal)
        levels = levels or ([0, 1, 2] if depth == 0 else [0, 1])
        tried = False
        for lv in levels:
            if lv >= 1 and depth < 1 and not tried:
                tried = True
                facts, inst = self.tactics(hyps, goal, depth)
                if facts:
                    hyps = hyps + facts
                    fs = hyps + [z3.Not(goal)] + inst + self.xdefs() + self.axioms
                    r, s = self.solve(fs, 'z3', 3, 'tac')
                    if r == z3.unsat: return ('proved', 'z3', None, '')
            fs = self.query(hyps, goal, lv)
            full = fs + self.xdefs() + self.axioms
            to = self.timeout if depth == 0 else 2
            modes = ([('z3', 1)] if depth else [('z3', 1), ('z3/7', 1), ('z3/23', 1)]) if lv == 0 else ([('qf', to / 2), ('z3', to), ('z3-mbqi-off', to)] if depth == 0 else [('qf', to / 2), ('z3', to)])
            for mode, to in modes:
                fml = [f for f in full if not has_quant(f)] if mode == 'qf' else full
                r, s = self.solve(fml, mode, to, lv)
                if r == z3.unsat: return ('proved', 'z3', None, '')
                if mode != 'qf' or depth: last = (r, s, mode)
                if r == z3.sat and (mode != 'qf' or depth): break
            if r == z3.sat and depth: break
            if lv == 2 and last[0] == z3.unknown and self.use_cvc5:
                r = cvc5_check(full, self.timeout * 2 * self.scale)
                if r == 'unsat': return ('proved', 'cvc5', None, '')
        r, s, mode = last
        if r == z3.sat: return ('failed', mode, s.model(), 'counter-model')
        return ('unknown', mode, None, s.reason_unknown())
    def solve(self, fml, mode, to, tag):
        s = z3.Solver()
        to = min(to * self.scale, max(0.05, self.deadline - time.time()))
        s.set('timeout', int(to * 1000))
        if mode == 'z3-mbqi-off': s.set('smt.mbqi', False)
        if '/' in mode: s.set('random_seed', int(mode.split('/')[1]))
        for f in fml: s.add(f)
        t0 = time.time()
        r = s.check()
        if self.debug: print('      lv', tag, mode, r, '%.2f' % (time.time() - t0), len(fml))
        return r, s

def _ss(name):
    from . import sym
    return sym._by_sort[name]

def cvc5_check(fs, to):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(to * 1000), f.name], capture_output=True, timeout=to + 5)
        return r.stdout.decode().strip().split('\n')[0]
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)
