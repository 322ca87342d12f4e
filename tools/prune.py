"""tools/prune.py OUT NAMES: drop families of stored loop invariants no proved property of the class needs (faster, steadier proofs).
Writes OUT/<Class>.json for tools/baseline.py."""
import sys, os, json, re, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *
from lib import alg_check as A
from vc import src, driver
def fam(c): return re.match(r'[^:.]*(\.(pre|suf|all))?', c).group(0)
def one(a):
    name, out = a
    sys.setrecursionlimit(10000)
    base = json.load(open(os.path.join(VERIF, 'baseline', 'algorithms.json')))[name]
    want = {k for k in base['proved'] if k != 'P15'}
    inv = json.load(open(os.path.join(VERIF, 'invariants', name + '.json')))
    cls = [c for c in src.all_algorithm_classes() if c.name == name][0]
    def run(i):
        r = driver.verify_class(cls, budget=600, hints=i)
        return r, all(A.proved(r, k) for k in want)
    r, ok = run(inv)
    t0 = r['wall']
    if not ok: return '%s: not proved as it stands' % name
    best = r
    gone = []
    fams = {}
    for cs in inv.values():
        for c in cs: fams[fam(c)] = fams.get(fam(c), 0) + 1
    def step(cut, label):
        nonlocal inv, best
        i = {k: [c for c in cs if not cut(c)] for k, cs in inv.items()}
        if i == inv: return
        r, ok = run(i)
        if ok and r['wall'] < best['wall'] * 1.1 + 0.5: inv, best = i, r; gone.append(label)
    step(lambda c: 'self.' in c and c.startswith('best'), 'best*self.')
    for f in sorted(fams, key=lambda f: -fams[f]): step(lambda c: fam(c) == f, f)
    best['invariants'] = inv
    json.dump(best, open(os.path.join(out, name + '.json'), 'w'), default=str)
    return '%s: %.1f s -> %.1f s, dropped %s' % (name, t0, best['wall'], ' '.join(gone))
if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0': os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    with mp.Pool(int(os.environ.get('NP', '7')), maxtasksperchild=1) as p:
        for x in p.imap_unordered(one, [(n, sys.argv[1]) for n in sys.argv[2:]], chunksize=1): print(x, flush=True)
