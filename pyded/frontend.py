"""Read the current source in /repo with the parser of the runtime (Jython)."""
import json, os, subprocess, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
JYTHON = '/opt/py2/bin/jython'

def jython_env(extra_path=()):
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['JYTHONPATH'] = ':'.join(['/opt/py2/lib', os.path.join(REPO, 'vts')] + list(extra_path))
    return env

def load(files):
    """files: paths relative to the repository. Returns {path: json tree}."""
    paths = [os.path.join(REPO, f) for f in files]
    d = tempfile.mkdtemp(prefix='pyded_')
    try:
        r = subprocess.run([JYTHON, os.path.join(HERE, 'astdump.py')] + paths, cwd=d,
                           env=jython_env(), capture_output=True, timeout=120)
        if r.returncode != 0:
            raise RuntimeError('front end failed: ' + r.stderr.decode('utf8', 'replace')[-2000:])
        t = json.loads(r.stdout.decode('utf8'))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {f: t[p] for f, p in zip(files, paths)}
