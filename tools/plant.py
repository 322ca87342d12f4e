"""plant.py DEFS.py [ids]: makes seeded/<id>/ from definitions and confirms each in a scratch copy of /repo (build, tests, demo
without and with the change), then runs this property's check on the changed copy.  DEFS: BUGS = [dict(id, prop, file, edits=[(old,
new)], needs, breaks, demo)].  Plants that do not confirm are removed.  --check only re-runs the checks of existing plants."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=dict(os.environ, **(env or {})))
def copy():
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp'); r = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', r], check=True); sh('git checkout -q -- .', r); return d, r
def make(b):
    d, r = copy()
    try:
        for f, old, new in [(e if len(e) == 3 else (b['file'],) + tuple(e)) for e in b['edits']]:
            p = os.path.join(r, 'src/niapy', f); s = open(p).read()
            if s.count(old) != 1: return 'edit matches %d times: %s' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', r).stdout
        out = os.path.join(V, 'seeded', b['id']); os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(SH); os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(b['demo'].lstrip())
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally: shutil.rmtree(d)
def confirm(i):
    """-> None or what is wrong"""
    d, r = copy(); s = os.path.join(V, 'seeded', i)
    try:
        env = {'PYTHONPATH': r + '/src', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1'}
        q = sh('bash %s/demo.sh' % s, r)
        if q.returncode: return 'demo fails on the unchanged tree: ' + (q.stdout + q.stderr)[-600:]
        q = sh('git apply %s/patch.diff' % s, r)
        if q.returncode: return 'patch does not apply: ' + q.stderr
        q = sh('bash %s/demo.sh' % s, r)
        if not q.returncode: return 'demo passes with the change'
        q = sh('/opt/venv/bin/python -m pytest -q tests -p no:cacheprovider -p no:randomly -n 4 --dist loadfile --timeout=60 2>&1 | tail -5', r, env)
        if '713 passed' not in q.stdout or 'failed' in q.stdout: return 'tests: ' + q.stdout[-500:]
    finally: shutil.rmtree(d)
def check(i, tier='quick'):
    d, r = copy(); s = os.path.join(V, 'seeded', i); prop = json.load(open(s + '/meta.json'))['property']
    try:
        sh('git apply %s/patch.diff' % s, r)
        v = os.path.join(d, 'verif'); shutil.copytree(V, v, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence'))
        q = sh('python3-vt check.py %s %s' % (prop, tier), v, {'VERIF_REPO': r, 'VERIF_SEED': '1', 'VERIF_TIER': tier}, 2000)
        vs = [l for l in q.stdout.splitlines() if l.startswith('VIOLATION')]
        return q.returncode, len(vs), [l.split('replay=')[-1][-90:] for l in vs[:2]], q.stderr[-300:] if q.returncode not in (0, 1) else ''
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    a = sys.argv[1:]; only_check = '--check' in a; nocheck = '--nocheck' in a; a = [x for x in a if not x.startswith('--')]
    if only_check: ids = a or sorted(os.listdir(os.path.join(V, 'seeded')))
    else:
        g = {}; exec(open(a[0]).read(), g); ids = []
        todo = [b for b in g['BUGS'] if not a[1:] or b['id'] in a[1:]]
        def one(b):
            e = make(b) or confirm(b['id'])
            if e: shutil.rmtree(os.path.join(V, 'seeded', b['id']), ignore_errors=True); print('REJECTED %s: %s' % (b['id'], e), flush=True)
            else: ids.append(b['id']); print('confirmed', b['id'], flush=True)
        with ThreadPoolExecutor(3) as ex: list(ex.map(one, todo))
    if nocheck: sys.exit()
    for i in ids: print(i, *check(i), flush=True)
