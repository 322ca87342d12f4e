"""tools/baseline.py DIR [names]: take inference results (DIR/<Class>.json), store their invariants, re-verify with them and
record which properties are proved for which class on the unchanged tree (baseline/algorithms.json)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *
from lib import alg_check as A
from vc import src
def fps(res):
    f = os.path.join(VERIF, 'baseline', 'functions.json')
    d = json.load(open(f)) if os.path.exists(f) else {}
    d.update(src.fingerprints({q for r in res.values() for q in r.get('inlined') or []}))
    json.dump(d, open(f, 'w'), indent=0, sort_keys=True)
def main():
    if os.environ.get('PYTHONHASHSEED') != '0': os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    d = sys.argv[1]; only = sys.argv[2:]
    if d == 'P15': return progress()
    bf = os.path.join(VERIF, 'baseline', 'algorithms.json')
    base = json.load(open(bf)) if os.path.exists(bf) else {}
    names = [c.name for c in src.all_algorithm_classes()]
    for n in list(base):
        if n not in names: del base[n]
    jobs, full = [], {}
    for n in names:
        base.setdefault(n, {'proved': [], 'full_s': 60, 'hint_s': 0})
        if only and n not in only: continue
        f = os.path.join(d, n + '.json')
        if not os.path.exists(f): continue
        r = json.load(open(f))
        if r.get('error'): 
            if os.path.exists(os.path.join(VERIF, 'invariants', n + '.json')): print('kept old invariants of', n)
            continue
        full[n] = r
        jobs.append((n, r['invariants'], 300))
    res = A.run_pool(jobs, 1500); fps(res); fps(full)
    for n, inv, _ in jobs:
        r = res[n]
        p = [k for k in A.KINDS if k != 'P15' and A.proved(r, k)] + [k for k in base[n]['proved'] if k == 'P15']
        old = set(base[n]['proved'])
        base[n] = {'proved': p, 'full_s': round(full[n]['wall'], 1), 'hint_s': round(r['wall'], 1)}
        if p:
            json.dump(inv, open(os.path.join(VERIF, 'invariants', n + '.json'), 'w'), indent=0, sort_keys=True, default=str)
        pf = [k for k in A.KINDS if k != 'P15' and A.proved(full[n], k)]
        print('%-45s full %s hinted %s %.1fs %s %s' % (n, ''.join(k[-1] for k in pf), ''.join(k[-1] for k in p), r['wall'], r.get('error') or '', 'LOST %s' % (old - set(p)) if old - set(p) else ''))
    json.dump(base, open(bf, 'w'), indent=1, sort_keys=True)
def progress():
    bf = os.path.join(VERIF, 'baseline', 'algorithms.json'); base = json.load(open(bf))
    names = [c.name for c in src.all_algorithm_classes()]
    res = A.run_pool([(n, None, 300, True) for n in names], 1500); fps(res)
    for n in names:
        b = base.setdefault(n, {'proved': [], 'full_s': 60, 'hint_s': 0}); was = 'P15' in b['proved']
        b['proved'] = [k for k in b['proved'] if k != 'P15'] + (['P15'] if A.proved(res[n], 'P15') else [])
        if not A.proved(res[n], 'P15'): print(n, 'LOST' if was else '', (res[n].get('error') or '')[:120], [o[1:] for o in A.failing(res[n], 'P15')][:2])
    json.dump(base, open(bf, 'w'), indent=1, sort_keys=True)
if __name__ == '__main__': main()
