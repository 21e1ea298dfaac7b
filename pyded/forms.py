"""The closed forms that loops.py gives to what a loop changes, proved by induction over the iterations. These
obligations are reported; a form that no solver settles in time stays an assumption and is listed as one."""
import time
import z3
from .prover import walk, ematch
from .sym import *

def unroll(ex, fs, done):
    """S(t+1) = S(t) + body(t) and S(0) = 0, at the places that are mentioned"""
    out = []
    for e in walk(fs):
        if not (z3.is_app(e) and e.decl().name() in ex.sums): continue
        decl, ps, I, body = ex.sums[e.decl().name()]
        t = e.arg(e.num_args() - 1)
        if e.get_id() in done: continue
        done[e.get_id()] = e
        args = e.children()[:-1]
        at = lambda x: decl(*(args + [x]))
        b = lambda x: z3.substitute(body, *([(p, a) for p, a in zip(ps, args)] + [(I, x)]))
        out.append(z3.Implies(t <= 0, e == (0 if body.sort() == Int else z3.RealVal(0))))
        prev = z3.simplify(t - 1)
        out.append(z3.Implies(t >= 1, e == at(prev) + b(prev)))
    return out
def canonical(ex, nm, memo):
    """sums with the same body (up to the names of their parameters) are the same sum: the first of them"""
    if nm in memo: return memo[nm]
    decl, ps, I, body = ex.sums[nm]
    memo[nm] = nm
    sub = list(dict.fromkeys(e.decl().name() for e in walk([body]) if z3.is_app(e) and e.decl().name() in ex.sums and e.decl().name() != nm))
    b = z3.substitute(body, *([(p, z3.Const('cp!%d' % i, p.sort())) for i, p in enumerate(ps)] + [(I, z3.Const('cI!', I.sort()))]))
    for _ in range(4):
        pairs = []
        for e in walk([b]):
            if z3.is_app(e) and e.decl().name() in sub:
                r = canonical(ex, e.decl().name(), memo)
                if r != e.decl().name(): pairs.append((e, ex.sums[r][0](*e.children())))
        if not pairs: break
        b = z3.substitute(b, *pairs)
    b = z3.simplify(b)
    for (q, k) in memo.get('', []):
        if q[0].eq(b) and q[1] == [p.sort() for p in ps] : memo[nm] = k; return k
    memo.setdefault('', []).append(((b, [p.sort() for p in ps]), nm))
    return nm
def same_sums(ex, fs, memo):
    out = []
    for e in walk(fs):
        if z3.is_app(e) and e.decl().name() in ex.sums and not has_free_var(e):
            r = canonical(ex, e.decl().name(), memo)
            if r != e.decl().name(): out.append(e == ex.sums[r][0](*e.children()))
    return out
def has_free_var(f):
    return any(z3.is_var(x) for x in walk([f]))
def quick(ex, o, memo, ms):
    """without the definitions: unroll the sums at the places that are mentioned"""
    un = [f for f in unroll(ex, [z3.Not(o.goal)], {}) if not has_free_var(f)]
    s = z3.Solver(); s.set('timeout', ms)
    for f in [f for f in o.hyps if not any(z3.is_quantifier(x) for x in walk([f]))] + un + same_sums(ex, un + [o.goal], memo) + [z3.Not(o.goal)]: s.add(f)
    return s.check() == z3.unsat
def prove(ex, o, axioms, ms, memo):
    base = list(o.hyps) + [z3.Not(o.goal)]
    done = {}
    for lvl in range(3):
        fs = list(base)
        if lvl:
            new = [f for f in unroll(ex, fs, done if lvl == 1 else {}) if not has_free_var(f)]
            if lvl == 2: new += [f for f in unroll(ex, fs + new, {}) if not has_free_var(f)]
            fs += new + same_sums(ex, fs + new, memo)
        s = z3.Solver(); s.set('timeout', ms if lvl else ms // 4)
        for f in fs + list(ex.defs) + (list(axioms) if lvl == 2 else []): s.add(f)
        if s.check() == z3.unsat: return True
    return False
def discharge(ex, axioms, deadline, ms=2500):
    t0 = time.time(); seen = set(); todo = []; memo = {}; openf = []
    for o in ex.formobls:
        key = (o.name, o.goal.get_id() if o.goal is not None else None, tuple(h.get_id() for h in o.hyps))
        if key in seen: continue
        seen.add(key); todo.append(o)
    def work(os):
        rest = [o for o in os if o.goal is None or time.time() > deadline or not quick(ex, o, memo, ms // 2)]
        return [o.name for o in rest if o.goal is None or time.time() > deadline or not prove(ex, o, axioms, ms, memo)]
    n = 3 if len(todo) > 24 else 1
    if n == 1: openf = work(todo)
    else:
        import multiprocessing as mp
        ctx = mp.get_context('fork'); ps = []
        for w in range(n):
            r, wr = ctx.Pipe(False)
            def go(w=w, wr=wr):
                try: wr.send(work(todo[w::n]))
                except Exception as e: wr.send(['not finished: %r' % e])
                wr.close()
            p = ctx.Process(target=go); p.start(); wr.close(); ps.append((p, r, w))
        for p, r, w in ps:
            try: openf += r.recv()
            except EOFError: openf += [o.name for o in todo[w::n]]
            p.join()
    return dict(total=len(todo), proved=len(todo) - len(openf), open=openf, secs=round(time.time() - t0, 1))
