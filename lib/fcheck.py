"""Checks whose contracts are stated function by function (specs/c_<pid>.py) and verified by fv/.  Every contract has a
concrete counterpart in replay/<pid>.py: it cross-checks the verifier's models and finds the input of a violated contract."""
import importlib, json, os, subprocess, sys, time, traceback, multiprocessing as mp, multiprocessing.pool
from .common import *
import z3
from fv.eng import *
from fv.interp import FV
from vc import src

class S:
    """what a contract's proof script works with"""
    def __init__(self, timeout):
        self.pv = Prover(timeout); self.obs = []; self.funcs = set(); self.assumed = set()
        self.timeout = timeout
    def fv(self, hyps=()):
        f = FV(list(hyps), self.pv); f.inlined = self.funcs; f.trusted = self.assumed
        return f
    def fn(self, mod, name):
        r = src.resolve(mod, name)
        if r is None or r[0] != 'func': raise Unsupported('%s.%s is not a function' % (mod, name))
        return Fn(r[1], r[2])
    def cls(self, mod, name):
        r = src.resolve(mod, name)
        if r is None or r[0] != 'class': raise Unsupported('%s.%s is not a class' % (mod, name))
        return src.get_class(r[1], r[2])
    def ob(self, what, hyps, goal, show=None):
        g = goal if isz(goal) else z3.BoolVal(bool(goal))
        ok = self.pv.valid(list(hyps), g)
        self.obs.append((what, bool(ok), None if ok else 'solver: %s; goal: %s' % (getattr(self.pv, 'last', 'simplified'), str(simp(g))[:900])))
        return ok
    def eq(self, what, a, b, hyps):
        ok = self.pv.equal(toreal(a), toreal(b), list(hyps))
        self.obs.append((what, bool(ok), None if ok else 'solver: %s; got %s; want %s' % (getattr(self.pv, 'last', ''), str(simp(toreal(a)))[:700], str(simp(toreal(b)))[:700])))
        return ok
    def fact(self, what, ok, detail=None):
        self.obs.append((what, bool(ok), None if ok else str(detail)))
        return ok

def prove(arg):
    mod, name, timeout = arg
    sys.setrecursionlimit(20000)
    t0 = time.time(); s = S(timeout); err = tb = None
    try:
        c = importlib.import_module(mod).CONTRACTS[name]
        c(s)
    except Unsupported as e: err = 'unsupported: %s (%s)' % (e, getattr(e, 'at', ''))
    except Raised as e: s.obs.append(('no exception', False, e.what))
    except z3.Z3Exception as e: err = 'solver: %s' % e; tb = traceback.format_exc()
    except RecursionError: err = 'recursion'
    except Exception as e: err = 'internal: %r' % e; tb = traceback.format_exc()
    if not err and not s.obs: err = 'no obligation was generated'
    return {'name': name, 'obs': s.obs, 'error': err, 'tb': tb, 'queries': s.pv.n, 'solver_s': s.pv.t, 'wall': time.time() - t0, 'functions': sorted(s.funcs), 'assumed': sorted(s.assumed)}

def search(pid, n, seed, names, secs):
    try:
        q = subprocess.run([VENV_PY, os.path.join(VERIF, 'replay', pid.lower() + '.py'), '--search', str(n), str(seed), str(secs)] + list(names), capture_output=True, text=True, env=ENV, timeout=secs * 2 + 60)
    except subprocess.TimeoutExpired: return {}, 'timeout'
    if q.returncode != 0: return {}, q.stderr[-2000:]
    return json.loads(q.stdout.strip().splitlines()[-1]), None

def main(pid, tier, assumptions=(), trusted=(), note='', nquick=300, tlimit=4000, samples=None):
    R = Report(pid, tier)
    mod = 'specs.c_' + pid.lower()
    names = list(importlib.import_module(mod).CONTRACTS)
    t = tlimit if tier == 'quick' else 8 * tlimit
    n = nquick if tier == 'quick' else nquick * 30
    secs = 60 if tier == 'quick' else 600
    with mp.Pool(6) as p, mp.pool.ThreadPool(4) as tp:
        fut = tp.map_async(lambda k: search(pid, n, '%s.%d' % (SEED, k), [], secs), range(2))
        asy = [(x, p.apply_async(prove, ((mod, x, t),))) for x in names]
        rs = []
        end = time.time() + (300 if tier == 'quick' else 3000)
        for x, a in asy:
            try: rs.append(a.get(max(1, end - time.time())))
            except mp.TimeoutError: rs.append({'name': x, 'obs': [], 'error': 'time', 'queries': 0, 'solver_s': 0, 'wall': 0, 'functions': [], 'assumed': [], 'tb': None})
        # a slow machine is no violation: what failed because the solver ran out of time is tried again with more
        slow = [k for k, r in enumerate(rs) if not r['error'] and any(not o[1] and 'unknown' in str(o[2]) for o in r['obs'])]
        for k, a in [(k, p.apply_async(prove, ((mod, rs[k]['name'], 6 * t),))) for k in slow]:
            try: q = a.get(max(60, end - time.time()))
            except mp.TimeoutError: continue
            if not q['error']: rs[k] = q
        p.terminate()
        cons = fut.get()
        con, errs = {}, []
        def merge(d):
            for k, v in d.items():
                w = con.setdefault(k, {'done': 0, 'found': None}); w['done'] += v['done']; w['found'] = w['found'] or v.get('found')
        for d, e in cons:
            merge(d)
            if e: errs.append(e)
        again = [r['name'] for r in rs if (r['error'] or any(not o[1] for o in r['obs'])) and not con.get(r['name'], {}).get('found')]
        if any(a not in con for a in again): again = list(con)
        if again and not any(v.get('found') for v in con.values()):
            for d, e in tp.map(lambda k: search(pid, n * 20, '%s.again%d' % (SEED, k), again, 60), range(4)):
                merge(d)
                if e: errs.append(e)
    known = {k['class']: k for k in known_findings(pid)}
    tot = ok = 0; table = {}; funcs, assumed = set(), set(); bounded = []
    seen = set(); anyfound = [k for k, v in con.items() if v.get('found') and k not in known]
    for r in rs:
        nm = r['name']; bad = [o for o in r['obs'] if not o[1]]; f = con.get(nm, {}).get('found')
        seen.add(nm)
        st = 'proved' if not r['error'] and not bad else 'bounded' if r['error'] else 'failed'
        if st != 'bounded': tot += len(r['obs']); ok += len(r['obs']) - len(bad)
        else: bounded.append(nm)
        if st == 'proved': funcs |= set(r['functions']); assumed |= set(r['assumed'])
        table[nm] = {'status': st, 'obligations': [o[0] for o in r['obs']] if st != 'bounded' else [], 'failed': [o[0] for o in bad], 'error': r['error'], 's': round(r['wall'], 2), 'concrete_cases': con.get(nm, {}).get('done', 0)}
        if nm in known: continue
        if f: R.violation(nm, {'contract': nm, 'text': f['text'], 'input': f['input'], 'failed_obligations': [r2['name'] + ': ' + o[0] for r2 in rs for o in r2['obs'] if not o[1]][:40], 'replay': '%s replay/%s.py --replay <this file>' % (VENV_PY, pid.lower())}, True)
        elif st == 'failed' and not anyfound:
            R.violation(nm, {'contract': nm, 'obligation': '%s: %s' % (nm, bad[0][0]), 'verifier': bad[0][2], 'failed': [(o[0], o[2]) for o in bad]}, False)
    for nm, v in con.items():
        if nm in seen or nm in known: continue
        table[nm] = {'status': 'cross-check only', 'concrete_cases': v['done']}
        if v['found']: R.violation(nm, {'contract': nm, 'text': v['found']['text'], 'input': v['found']['input'], 'failed_obligations': [r2['name'] + ': ' + o[0] for r2 in rs for o in r2['obs'] if not o[1]][:40], 'replay': '%s replay/%s.py --replay <this file>' % (VENV_PY, pid.lower())}, True)
    for k in known.values(): R.known(k['what'])
    if errs: print('note: concrete search: ' + errs[0][-600:])
    R.cov = {'obligations': tot, 'discharged': ok, 'functions_under_contract': sorted(funcs), 'bounded_stand_in': bounded,
             'back_end': 'z3 %s' % z3.get_version_string(), 'solver_s': round(sum(r['solver_s'] for r in rs), 2), 'queries': sum(r['queries'] for r in rs),
             'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier), 'per_contract': table, 'concrete_cases': sum(v['done'] for v in con.values()),
             'trusted_base': ['fv/ (symbolic evaluator and its numpy model)', 'z3'] + list(trusted) + sorted(assumed),
             'samples': [{'contract': k, **v} for k, v in list(table.items())[:3]]}
    R.assumptions = ['machine arithmetic treated as real/integer arithmetic, no NaN'] + list(assumptions)
    if tier == 'thorough' or os.environ.get('FV_DEBUG'):
        for r in rs:
            if r['error']: print('undecided %s: %s' % (r['name'], r['error'])); 
            if r.get('tb') and os.environ.get('FV_DEBUG'): print(r['tb'])
    if not tot and not R.violations:
        print('error: nothing was proved'); R.finish(); return 3
    return R.finish()
