"""trybugs.py [ids]: run each planted bug's own check on a scratch copy of /repo and say what it reported."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i; m = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='tb_')
    try:
        shutil.copytree('/repo', t + '/r', symlinks=True)
        r = subprocess.run(['git', '-C', t + '/r', 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode: print(i, 'patch does not apply', r.stderr[:200]); continue
        p = subprocess.run(['python3-vt', V + '/check.py', m['property']], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=t + '/r'))
        v = [l for l in p.stdout.splitlines() if l.startswith(('VIOLATION', 'OK property'))]
        ex = [l for l in p.stdout.splitlines() if l.startswith(('failing input', 'failed:'))]
        print('%-22s %s rc=%d %s\n      %s' % (i, m['property'], p.returncode, (v or ['?'])[0], ' | '.join(x[:150] for x in ex[:3])), flush=True)
    finally: shutil.rmtree(t, ignore_errors=True)
