"""Search for a failing input of a property on the real code."""
import json, time, os
from . import cases, cases2, cases3, cases4, cases5, batch
FILES = ['vts/uni_vts.py', 'vts/matrix_of_signs.py', 'vts/isym.py', 'vts/checker.py', 'vts/examples_parser.py', 'vts/grf_parser.py', 'highschool_qe/cachedsympywrapper.py', 'highschool_qe/sympywrapper.py']
def build(pid, seed, n, extra=(), grow=0, skip=()):
    R = cases.Rng(seed * 1000003 + int(pid[1:]))
    R.grow = grow
    R.consts = cases.mine_consts(FILES)
    cs = [{'op': c[0], 'args': c[1]} for c in extra]
    for op, args in cases.GEN[pid](R, n): cs.append({'op': op, 'args': args})
    seen = set(skip); out = []
    for c in cs:
        k = json.dumps(c)
        if k not in seen: seen.add(k); out.append(c)
    return out
def search(pid, seed=1, n=150, timeout=300, workers=2, extra=(), grow=0, skip=None):
    cs = build(pid, seed, n, extra, grow, skip or ())
    if grow:      # the fixed cases were run before: keep a mixture of the others
        import random
        random.Random(seed).shuffle(cs)
    if skip is not None: skip.update(json.dumps(c) for c in cs)
    t = time.time()
    rs = batch.run(cs, timeout=timeout, workers=workers)
    ran = 0; fails = []
    for c, r in zip(cs, rs):
        if r is None: continue
        ran += 1
        try: w = cases.CHECK[c['op']](c['args'], r)
        except Exception as e: w = 'result of an unexpected shape (%r): %r' % (e, r)
        if w: fails.append({'op': c['op'], 'args': c['args'], 'wrong': w, 'result': r})
    if fails:
        fails.sort(key=lambda f: (bool(f['result'].get('hang') or f['result'].get('died')), len(json.dumps(f['args']))))
    return dict(cases=len(cs), ran=ran, fails=fails, secs=time.time() - t, samples=cs[:2] + cs[-2:], stderr=batch.run.stderr[-800:] if ran == 0 else '')
if __name__ == '__main__':
    import sys
    for pid in sys.argv[1:]:
        s = search(pid); f = s.pop('fails'); print(pid, {k: s[k] for k in ('cases', 'ran', 'secs', 'stderr')}, len(f)); 
        for x in f[:3]: print('   ', x['op'], json.dumps(x['args'])[:300], x['wrong'][:300])
