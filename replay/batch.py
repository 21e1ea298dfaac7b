"""Run cases on the real code under Jython, in scratch directories, in parallel."""
import os, json, subprocess, tempfile, shutil, time, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
def run(cases, timeout=240, workers=1, hang=40):
    """-> list of results (dict with ok / exc / hang) in the order of the cases"""
    res = [None] * len(cases)
    if not cases: return res
    parts = [list(range(k, len(cases), workers)) for k in range(workers)]
    parts = [p for p in parts if p]
    procs = []
    deadline = time.time() + timeout
    base = tempfile.mkdtemp(prefix='vreplay')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JYTHONPATH='/opt/py2/lib:%s/vts:%s/highschool_qe' % (REPO, REPO), JAVA_OPTS='-Xmx2g')
    def launch(k, start):
        d = os.path.join(base, 'w%d' % k); os.makedirs(d, exist_ok=True)
        return subprocess.Popen(['/opt/py2/bin/jython', os.path.join(HERE, 'jy.py'), os.path.join(base, 'c%d' % k), os.path.join(base, 'r%d' % k), REPO, str(start)],
            cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(base, 'e%d' % k), 'ab'), start_new_session=True)
    def count(k):
        try: return sum(1 for _ in open(os.path.join(base, 'r%d' % k)))
        except OSError: return 0
    err = ''
    try:
        st = []
        for k, p in enumerate(parts):
            with open(os.path.join(base, 'c%d' % k), 'w') as f:
                for i in p: f.write(json.dumps(cases[i]) + '\n')
            st.append(dict(k=k, proc=launch(k, 0), n=0, t=time.time(), hung=set(), restarts=0))
        live = list(st)
        while live and time.time() < deadline:
            time.sleep(0.1)
            for s in list(live):
                n = count(s['k'])
                if n != s['n']: s['n'] = n; s['t'] = time.time()
                if s['proc'].poll() is not None:
                    n = count(s['k'])
                    if n >= len(parts[s['k']]): live.remove(s); continue
                    # died in the middle of a case
                    s['restarts'] += 1
                    if s['restarts'] > 3: live.remove(s); continue
                    with open(os.path.join(base, 'r%d' % s['k']), 'a') as f: f.write(json.dumps({'i': n, 'died': True}) + '\n')
                    s['proc'] = launch(s['k'], n + 1); s['t'] = time.time(); s['n'] = n + 1
                elif time.time() - s['t'] > hang + (20 if s['n'] == 0 else 0):
                    os.killpg(s['proc'].pid, signal.SIGKILL); s['proc'].wait()
                    n = count(s['k'])
                    s['restarts'] += 1
                    with open(os.path.join(base, 'r%d' % s['k']), 'a') as f: f.write(json.dumps({'i': n, 'hang': True}) + '\n')
                    if s['restarts'] > 2: live.remove(s); continue
                    s['proc'] = launch(s['k'], n + 1); s['t'] = time.time(); s['n'] = n + 1
        for s in st:
            if s['proc'].poll() is None:
                os.killpg(s['proc'].pid, signal.SIGKILL); s['proc'].wait()
        for k, p in enumerate(parts):
            try:
                for line in open(os.path.join(base, 'r%d' % k)):
                    try: r = json.loads(line)
                    except ValueError: continue
                    if r['i'] < len(p): res[p[r['i']]] = r
            except OSError: pass
            try: err += open(os.path.join(base, 'e%d' % k)).read()[-1500:]
            except OSError: pass
    finally:
        shutil.rmtree(base, ignore_errors=True)
    run.stderr = err
    return res
run.stderr = ''
