"""Verify one function against its contract (runs in its own process)."""
import time, traceback, sys, os, json
def verify(qual, trees, budget=400):
    sys.setrecursionlimit(20000)
    import z3
    from . import execu, prover, forms
    from contracts import registry as reg
    t0 = time.time()
    out = dict(function=qual, obligations=[], status='accepted', why='', vacuous=None)
    C = reg.all_contracts()
    path, name = qual.split(':')
    try:
        ex = execu.Exec(trees, C, reg.ext(), reg.opts())
        ex.sums.update(reg.sums())
        c = C[qual]
        ax = c.axioms() if getattr(c, 'axioms', None) else reg.axioms()
        ex.axioms = ax
        node = find(ex, path, name) if not getattr(c, 'module', False) else ({'args': {'args': []}} if path in ex.mods else None)
        if node is None:
            out.update(status='absent', why='no function %s in %s' % (name, path)); return out
        if node.get('decorator_list'): raise execu.Unsupported('%s is decorated' % name)
        npos = len(node['args']['args']); ndef = len(node['args'].get('defaults') or [])
        if not (npos - ndef <= c.arity <= npos) and not node['args'].get('vararg'):
            out.update(status='absent', why='%s takes %d arguments now' % (name, npos)); return out
        pre_st, A, outs = c.verify(ex, node, path)
        ex.obls = ex.keepobls + ex.obls
        esc = execu.escaped(ex.obls)
        if esc:
            if os.environ.get('PYDED_DEBUG'): print('ESCAPED', esc[0].name, esc[0].line, esc[1], str(esc[2])[:600])
            raise execu.Unsupported('verifier error: an index is used outside its loop')
        out['vcgen_s'] = time.time() - t0
        pr = prover.Prover(ex, lemmas=reg.lemmas() + list(c.lemmas), axioms=ax)
        pr.deadline = t0 + budget
        if c.asserts: pr.intermediate(ex.obls, lambda t: c.asserts(ex, t, *A))
        if c.cuts: pr.samesums(c.cuts(ex, *A)); pr.cut(ex.obls, c.cuts(ex, *A))
        if c.hints: pr.hints = lambda terms: c.hints(ex, terms, *A)
        out['obligations'] = discharge(ex, pr, ex.obls, t0 + budget)
        for n, f, base in (c.proves() if c.proves else []):
            pl = prover.Prover(ex, lemmas=[], axioms=base); pl.isolated = True
            d = one(pl, execu.Obl('lemma: ' + n, [], f, qual, None, 'lemma'), t0 + budget)
            out['obligations'].append(d)
        # what the solvers did not settle is tried once more with more time, as long as that can still help
        pr.scale = 4
        for rnd in range(8):
            un = [i for i, o in enumerate(out['obligations'][:len(ex.obls)]) if o['status'] != 'proved' and o['why'] != 'skipped']
            if not un or any(out['obligations'][i]['status'] == 'failed' for i in un): break
            stuck = False
            for i in un:
                d = one(pr, ex.obls[i], t0 + budget)
                if d['status'] != 'proved': stuck = True; break
                d['retried'] = True; out['obligations'][i] = d
            if stuck: break
            rest = [i for i, o in enumerate(out['obligations'][:len(ex.obls)]) if o['why'] == 'skipped']
            if not rest: break
            for i, d in zip(rest, discharge(ex, pr, [ex.obls[i] for i in rest], t0 + budget)): out['obligations'][i] = d
        bad = [o for o in out['obligations'] if o['status'] != 'proved']
        if bad: out.update(status='rejected', why='; '.join('%s: %s' % (o['status'], o['name']) for o in bad[:5]))
        elif not ex.obls: out.update(status='rejected', why='no obligation was generated')
        else:
            # vacuity guard: the assumptions on some returning path are not refutable
            vac = True; n = 0
            for k, s, x in outs:
                if k not in ('return', 'next'): continue
                n += 1
                if n > 6: break
                so = z3.Solver(); so.set('timeout', 1500)
                for f in ex.hyps(s) + ex.defs + list(ax): so.add(f)
                if so.check() != z3.unsat: vac = False; break
            out['vacuous'] = vac
            out['forms'] = forms.discharge(ex, ax, min(t0 + budget, time.time() + (60 if len(ex.formobls) > 300 else 25)))
            if vac and n: out.update(status='rejected', why='the assumptions of every returning path are contradictory')
        out['uses'] = sorted(ex.used_contracts); out['inlined'] = sorted(str(x) for x in ex.inlined)
        out['external'] = sorted(str(x) for x in ex.used_ext); out['dropped'] = sorted(str(x) for x in ex.dropped)
    except execu.Unsupported as e:
        out.update(status='unsupported', why='%s (line %s)' % (e, getattr(e, 'line', None)))
    except RecursionError as e:
        out.update(status='unsupported', why='recursion too deep in the verifier')
    except Exception as e:
        out.update(status='unsupported', why='verifier error: %r' % e, tb=traceback.format_exc()[-1500:])
    out['secs'] = time.time() - t0
    return out
def one(pr, o, deadline):
    if time.time() > deadline:
        return dict(name=o.name, line=o.line, status='unknown', backend='-', secs=0, why='time budget')
    r = pr.prove(o)
    d = dict(name=o.name, line=o.line, status=r.status, backend=r.backend, secs=round(r.secs, 3), why=str(r.why)[:200])
    if r.status != 'proved':
        d['goal'] = str(o.goal)[:1500]; d['model'] = str(r.model)[:3000] if r.model is not None else None
    return d
def discharge(ex, pr, obls, deadline):
    """obligations are independent; many of them are spread over forked processes"""
    todo = [i for i, o in enumerate(obls)]
    n = int(os.environ.get('PYDED_JOBS', '3'))
    ctr = [0]
    skip = lambda o: dict(name=o.name, line=o.line, status='unknown', backend='-', secs=0, why='skipped')
    def seq(o):
        if ctr[0] >= 3: return skip(o)
        d = one(pr, o, deadline)
        if d['status'] != 'proved': ctr[0] += 1
        return d
    if len(todo) < 12 or n <= 1: return [seq(o) for o in obls]
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    nxt = ctx.Value('i', 0); nbad = ctx.Value('i', 0)
    pipes = []
    for w in range(n):
        r, wr = ctx.Pipe(False)
        def work(wr=wr):
            import z3
            res = []
            while True:
                with nxt.get_lock():
                    i = nxt.value; nxt.value += 1
                if i >= len(obls): break
                if nbad.value >= 4: res.append((i, skip(obls[i]))); continue
                try:
                    d = one(pr, obls[i], deadline); res.append((i, d))
                    if d['status'] != 'proved': nbad.value += 1
                except Exception as e: res.append((i, dict(name=obls[i].name, line=obls[i].line, status='unknown', backend='-', secs=0, why='verifier error %r' % e)))
            wr.send(res); wr.close()
        p = ctx.Process(target=work); p.start(); wr.close(); pipes.append((p, r))
    got = {}
    for p, r in pipes:
        try: got.update(dict(r.recv()))
        except EOFError: pass
        p.join()
    return [got[i] if i in got else one(pr, obls[i], deadline) for i in range(len(obls))]
def find(ex, path, name):
    m = ex.mods.get(path)
    if m is None: return None
    if '.' in name:
        cls, meth = name.split('.')
        k = m.names.get(cls)
        if k is None or k[0] != 'cls': return None
        r = None
        for s in k[1]['body']:
            if s['_'] == 'FunctionDef' and s['name'] == meth: r = s
        return r
    k = m.names.get(name)
    return k[1] if k is not None and k[0] == 'fn' else None
if __name__ == '__main__':
    req = json.load(open(sys.argv[1]))
    r = verify(req['qual'], req['trees'], req.get('budget', 400))
    json.dump(r, open(sys.argv[2], 'w'), default=str)
