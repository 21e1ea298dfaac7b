#!/usr/bin/env python3-vt
"""Decide one property: verify every contract it rests on against the current source of
/repo, and look for a failing input on the real code. Exit 0 or 1, nothing else."""
import sys, os, json, time, signal, subprocess, tempfile, shutil, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
from concurrent.futures import ThreadPoolExecutor

def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from pyded import frontend
    from contracts import registry as reg
    from replay import search
    P = reg.PROPS[pid]
    scratch = tempfile.mkdtemp(prefix='vcheck_')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    rep = {}
    def do_search(skip):
        try: rep.update(search.search(pid, seed, skip=skip, n=P.get('n', 150) * (1 if tier == 'quick' else 12), timeout=P.get('timeout', 240) if tier == 'quick' else 1500, workers=2 if tier == 'quick' else 4))
        except Exception as e: rep.update(error=repr(e), cases=0, ran=0, fails=[], secs=0, samples=[])
    known = load_known(pid)
    stop_at = [None]     # once a failing input is known, the verifier only gets a little longer to name the failed obligation
    early = []; verified = threading.Event()
    def definite(): return any(not f['result'].get('hang') and not f['result'].get('died') and not any(matches(x, f) for x in known) for f in rep.get('fails', []))
    def search_thread():
        skip = set()
        do_search(skip)
        # an obligation failed and no failing input is known: look at more and larger ones
        rounds = 0; more = None
        while not definite():
            if not early:
                if verified.is_set(): break
                time.sleep(0.2); continue
            if more is None: more = time.time() + P.get('more', 220)
            left = min(more, t0 + 760) - time.time()
            if left < 25: break
            rounds += 1
            try: r = search.search(pid, seed + 7919 * rounds, n=P.get('n', 150) * 4, timeout=min(left, 110), workers=4, grow=1 + rounds, skip=skip)
            except Exception: break
            for k in ('cases', 'ran', 'secs'): rep[k] = rep.get(k, 0) + r[k]
            rep['fails'] = rep.get('fails', []) + r['fails']; rep['rounds'] = rounds
            if not r['cases']: break
        if definite(): stop_at[0] = time.time() + 45
    th = threading.Thread(target=search_thread); th.start()
    results = []; lean = []
    try:
        ok = True
        try: trees = frontend.load(P.get('files', reg.FILES))
        except Exception as e:
            trees = None; results.append(dict(function='(front end)', status='unsupported', why=str(e)[:800], obligations=[], secs=0))
        if trees is not None:
            C0 = reg.all_contracts()
            def one(q):
                r = one1(q)
                if r['status'] not in ('accepted', 'stopped') and not (r['status'] == 'absent' and q in C0 and not C0[q].public): early.append(q)
                return r
            def one1(q):
                a = os.path.join(scratch, q.replace('/', '_').replace(':', '-') + '.req'); b = a + '.out'
                budget = max(20, min(P.get('budget', 240), 560 - (time.time() - t0))) if tier == 'quick' else 3 * P.get('budget', 240)
                json.dump(dict(qual=q, trees=trees, budget=budget), open(a, 'w'))
                try:
                    p = subprocess.Popen([sys.executable, '-m', 'pyded.runner', a, b], env=env, cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                    end = time.time() + budget + 60
                    while p.poll() is None:
                        time.sleep(0.1)
                        if time.time() > min(end, stop_at[0] or end):
                            os.killpg(p.pid, signal.SIGKILL); p.wait()
                            if stop_at[0]: return dict(function=q, status='stopped', why='not finished when a failing input was found', obligations=[], secs=0)
                            raise Exception('out of time')
                    return json.load(open(b))
                except Exception as e:
                    return dict(function=q, status='unsupported', why='verifier did not finish: %r' % e, obligations=[], secs=0)
            with ThreadPoolExecutor(6) as tp:
                lf = tp.submit(run_lean, P.get('lean', ()))
                results = list(tp.map(one, P['functions']))
                lean = lf.result()
        if any(r['status'] not in ('accepted', 'stopped') and not (r['status'] == 'absent') for r in results): early.append('')
        verified.set()
        th.join()
    finally:
        verified.set()
        shutil.rmtree(scratch, ignore_errors=True)
    # ------------------------------------------------------------- verdict --
    C = reg.all_contracts()
    rejected = []
    for r in results:
        if r['status'] == 'accepted' or r['status'] == 'stopped': continue
        if r['status'] == 'absent' and r['function'] in C and not C[r['function']].public: continue
        rejected.append(r)
    for l in lean:
        if not l['ok']: rejected.append(dict(function='lean:' + l['file'], status='rejected', why=l['out'][-600:], obligations=[], secs=l['secs']))
    fails = []; unsure = lambda f: bool(f['result'].get('hang') or f['result'].get('died'))
    for f in sorted(rep.get('fails', []), key=unsure):
        if unsure(f):       # run alone once more, unless there is a plainer failing input
            from replay import batch, cases
            left = min(150, t0 + 860 - time.time())
            if fails or left < 30: break
            r2 = batch.run([{'op': f['op'], 'args': f['args']}], timeout=left, hang=min(90, left))[0]
            w = cases.CHECK[f['op']](f['args'], r2) if r2 is not None else None
            if not w: continue
            f['result'] = r2; f['wrong'] = w
        k = [x for x in known if matches(x, f)]
        if k: print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what'])); continue
        fails.append(f)
        if len(fails) >= 5: break
    obl = [o for r in results for o in r['obligations']]
    proved = [o for o in obl if o['status'] == 'proved']
    viol = bool(fails) or bool(rejected)
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=round(time.time() - t0, 2), violations=int(viol),
        coverage=dict(obligations=len(obl), discharged=len(proved),
            checker_cmd='python3-vt check.py %s' % pid,
            trusted_base=P.get('trusted', []) + reg.TRUSTED,
            functions_under_contract=[dict(function=r['function'], status=r['status'], why=r.get('why', ''), obligations=len(r['obligations']), secs=round(r.get('secs', 0), 2),
                uses_contracts_of=r.get('uses', []), inlined=r.get('inlined', []), assumed_external=r.get('external', []), dropped_by_extraction=r.get('dropped', []), vacuous=r.get('vacuous')) for r in results],
            back_ends=count([o['backend'] for o in obl]), solver_s=round(sum(o['secs'] for o in obl), 2),
            lean=lean,
            loop_closed_forms=dict(induction_obligations=sum(r['forms']['total'] for r in results if r.get('forms')), proved=sum(r['forms']['proved'] for r in results if r.get('forms')),
                left_as_assumption=['%s (%d)' % kv for kv in sorted(count(['%s: %s' % (r['function'], x) for r in results if r.get('forms') for x in r['forms']['open']]).items())], note='that the closed form used for a loop is its value on entry and is kept by the body; not counted above'),
            bounded_cross_check=dict(label='bounded, not counted as proof', evaluations=rep.get('ran', 0), generated=rep.get('cases', 0), failing=len(rep.get('fails', [])), secs=round(rep.get('secs', 0), 1),
                samples=rep.get('samples', [])[:4], error=rep.get('error', ''))),
        assumptions=P.get('assumptions', []) + reg.ASSUMPTIONS)
    if P.get('level', 'proof') == 'other': ev['coverage']['explanation'] = P.get('explanation', '')
    os.makedirs('evidence', exist_ok=True)
    json.dump(ev, open('evidence/%s.json' % pid, 'w'), indent=1, default=str)
    for r in results: print('%-60s %-11s %3d obligations %6.1fs %s' % (r['function'], r['status'], len(r['obligations']), r.get('secs', 0), r.get('why', '')[:150]))
    fo = [r['forms'] for r in results if r.get('forms')]
    if fo: print('closed forms of loops: %d of %d induction obligations proved' % (sum(f['proved'] for f in fo), sum(f['total'] for f in fo)))
    for l in lean: print('lean %-55s %-11s %6.1fs' % (l['file'], 'accepted' if l['ok'] else 'REJECTED', l['secs']))
    print('cross-check on the real code: %d of %d cases, %d failing, %.1fs %s' % (rep.get('ran', 0), rep.get('cases', 0), len(rep.get('fails', [])), rep.get('secs', 0), rep.get('error', '')))
    if not viol:
        print('OK property=%s: %d obligations discharged' % (pid, len(proved))); return 0
    path = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
    json.dump(dict(property=pid, failing_inputs=fails, failed_obligations=[dict(function=r['function'], status=r['status'], why=r.get('why'), tb=r.get('tb'),
        obligations=[o for o in r['obligations'] if o['status'] != 'proved']) for r in rejected],
        how_to_replay='python3-vt replay.py %s' % path), open(path, 'w'), indent=1, default=str)
    for r in rejected: print('failed: %s %s: %s' % (r['function'], r['status'], r.get('why', '')[:400]))
    for f in fails[:3]: print('failing input: %s%s: %s' % (f['op'], json.dumps(f['args'])[:600], f['wrong'][:400]))
    print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if fails else ' no-failing-input-found'))
    return 1

def count(xs):
    d = {}
    for x in xs: d[x] = d.get(x, 0) + 1
    return d
def run_lean(files):
    """compile the Lean files in order (later ones may import earlier ones); every theorem must be proved from Lean's own axioms"""
    import tempfile, shutil, re
    out = []; d = tempfile.mkdtemp(prefix='raglean')
    env = dict(os.environ); env['LEAN_PATH'] = d + (':' + env['LEAN_PATH'] if env.get('LEAN_PATH') else '')
    try:
        for f in files:
            t = time.time()
            try:
                p = subprocess.run(['lean', '-o', os.path.join(d, f[:-5] + '.olean'), f], cwd=os.path.join(HERE, 'lean'), env=env, capture_output=True, timeout=400)
                txt = (p.stdout + p.stderr).decode('utf8', 'replace')
                ax = re.findall(r"'([^']*)' depends on axioms: \[([^\]]*)\]", txt)
                own = all(set(x.strip() for x in l.split(',')) <= {'propext', 'Classical.choice', 'Quot.sound'} for _, l in ax)
                out.append(dict(file=f, ok=p.returncode == 0 and 'sorry' not in txt and own, theorems=[n for n, _ in ax], out='' if p.returncode == 0 and own else txt[-800:], secs=round(time.time() - t, 1)))
            except Exception as e:
                out.append(dict(file=f, ok=False, theorems=[], out=repr(e), secs=round(time.time() - t, 1)))
    finally: shutil.rmtree(d, ignore_errors=True)
    return out
def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known': out.append(d)
    return out
def matches(k, f): return k.get('op') == f['op'] and k.get('args') == f['args']

if __name__ == '__main__':
    pid = sys.argv[1]
    try: rc = main(pid)
    except BaseException as e:
        import traceback; traceback.print_exc()
        path = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump(dict(property=pid, error=traceback.format_exc()), open(path, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)); rc = 1
    sys.stdout.flush()
    os._exit(rc)
