"""Re-run what a check reported: python3-vt replay.py evidence/replay_<id>.json [function ...]
Failing inputs are run again on the real code under the repository's interpreter and judged again;
for failed obligations without an input the functions are verified again and the verifier's answer is printed.
Exit status: 1 when something still fails."""
import json, sys, os
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from replay import batch, cases, cases2, cases3, cases4, cases5
def main(path):
    d = json.load(open(path)); bad = 0
    fs = d.get('failing_inputs', [])
    rs = batch.run([{'op': f['op'], 'args': f['args']} for f in fs], timeout=300, hang=90)
    for f, r in zip(fs, rs):
        w = 'no result' if r is None else cases.CHECK[f['op']](f['args'], r)
        bad += bool(w)
        print('%s %s%s\n   result: %s\n   %s' % ('FAILS ' if w else 'passes', f['op'], json.dumps(f['args'])[:2000], json.dumps(r)[:1000], w or ''))
    for o in d.get('failed_obligations', []):
        print('obligation of %s: %s %s' % (o['function'], o['status'], o.get('why') or ''))
        for x in o.get('obligations', []): print('   ', json.dumps(x)[:1500])
        if not o['function'].startswith(('lean:', '(')):
            from pyded import frontend
            from contracts import registry as reg
            import subprocess, tempfile
            t = tempfile.mkdtemp(prefix='vreplay'); a, b = t + '/a', t + '/b'
            json.dump(dict(qual=o['function'], trees=frontend.load(reg.PROPS[d['property']].get('files', reg.FILES)), budget=240), open(a, 'w'))
            subprocess.run([sys.executable, '-m', 'pyded.runner', a, b], cwd=HERE)
            r = json.load(open(b)); print('    verified again: %s %s' % (r['status'], r.get('why', '')[:600])); bad += r['status'] not in ('accepted', 'absent')
            for p in (a, b): os.remove(p)
            os.rmdir(t)
    return int(bool(bad))
if __name__ == '__main__':
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    sys.exit(main(sys.argv[1]))
