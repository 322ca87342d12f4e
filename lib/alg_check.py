"""P01-P05: contracts of the optimisation algorithms.

For every class the real Algorithm.run and the class's own methods (parsed from /repo on this run) are verified by
the VC generator in vc/: callbacks observe the state between iterations, so what a callback and the caller of run
may rely on is stated there as obligations; inside, evaluation and repair carry preconditions/postconditions."""
import json, os, sys, time, subprocess, multiprocessing as mp
from .common import *
KINDS = {'P01': ('FEAS', 'BESTFEAS', 'SHAPE', 'BOUNDSWRITE'), 'P02': ('PAIR', 'RESULT'), 'P03': ('ELITE', 'BEST', 'RESULT'),
         'P04': ('ALIGN',), 'P05': ('RNG',), 'P15': ('PROGRESS',)}
MUST = {'P01': ('FEAS',), 'P02': ('PAIR',), 'P03': ('BEST',), 'P04': ('ALIGN',), 'P05': (), 'P15': ('PROGRESS',)}
MON = os.path.join(VERIF, 'replay', 'mon.py')
NPROC = 8

def _verify(arg):
    name, hints, budget = arg[:3]; mode = arg[3] if len(arg) > 3 else None
    import io, contextlib
    sys.setrecursionlimit(10000)
    from vc import src, driver
    c = [c for c in src.all_algorithm_classes() if c.name == name][0]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf):
            if mode is None: r = driver.verify_class(c, budget=budget, hints=hints)
            else: r = driver.verify_class(c, budget=budget, hints=hints, progress=mode, kinds=KINDS['P15'])
    except BaseException as e:
        r = {'cls': name, 'error': 'internal: %r' % (e,), 'obs': [], 'wall': 0, 'queries': 0, 'solver_s': 0, 'inlined': [], 'contracts': [], 'trusted': [], 'invariants': {}}
    r['how'] = 'stored invariants' if hints is not None else 'inference'
    return r

def _worker(q, arg):
    q.put(_verify(arg))

def run_pool(jobs, limit):
    """jobs: list of (name, hints, budget); every job in its own process, killed at the limit"""
    out, todo, live = {}, list(jobs), {}
    end = time.time() + limit
    while todo or live:
        while todo and len(live) < NPROC and time.time() < end:
            j = todo.pop(0); q = mp.Queue()
            p = mp.Process(target=_worker, args=(q, j)); p.start(); live[j[0]] = (p, q, j, time.time())
        if time.time() >= end and not live: break
        for n, (p, q, j, t) in list(live.items()):
            r = None
            try: r = q.get_nowait()
            except Exception: pass
            if r is None and (not p.is_alive() or time.time() > end or time.time() - t > j[2] * 1.5 + 20):
                try: r = q.get(timeout=0.5)
                except Exception:
                    r = {'cls': n, 'error': 'time', 'obs': [], 'wall': time.time() - t, 'queries': 0, 'solver_s': 0, 'inlined': [], 'contracts': [], 'trusted': [], 'invariants': {}, 'how': 'killed'}
            if r is not None:
                p.join(2)
                if p.is_alive(): p.kill(); p.join()
                out[n] = r; del live[n]
        time.sleep(0.05)
    return out

def proved(r, pid):
    """all obligations of this property discharged, and they exist"""
    if r is None or r.get('error') or not r.get('reachable', False): return False
    obs = [o for o in r['obs'] if o[0] in KINDS[pid]]
    if any(o[3] != 'valid' for o in obs): return False
    for k in MUST[pid]:
        if not any(o[0] == k for o in obs): return False
    return bool(r['obs'])

def same_source(r, base):
    """every function this class's verification conditions were generated from is the one of the baseline"""
    from vc import src
    fp = src.fingerprints(r.get('inlined') or [])
    return bool(fp) and all(base.get(k) == v for k, v in fp.items())

def failing(r, pid): return [o for o in r['obs'] if o[0] in KINDS[pid] and o[3] != 'valid']

def monitor(name, n, seed, secs, pid):
    p = subprocess.run([VENV_PY, MON, name, str(n), str(seed), str(secs), pid], capture_output=True, text=True, env=ENV, timeout=secs + 120)
    if p.returncode != 0: return None, p.stderr[-2000:]
    return json.loads(p.stdout.strip().splitlines()[-1]), None

def _mon(a):
    try: return a, monitor(*a)
    except subprocess.TimeoutExpired: return a, (None, 'timeout')

def mon_all(jobs):
    with mp.pool.ThreadPool(NPROC) as p: return p.map(_mon, jobs, chunksize=1)

def helper_contracts(R, tier):
    """specs/c_p05.py: functions that the algorithm classes call by contract draw from the generator they are given"""
    from . import fcheck
    mod = 'specs.c_p05'
    import importlib
    names = list(importlib.import_module(mod).CONTRACTS)
    with mp.Pool(6) as p, mp.pool.ThreadPool(1) as tp:
        fut = tp.apply_async(fcheck.search, ('P05', 100 if tier == 'quick' else 3000, SEED, [], 20 if tier == 'quick' else 200))
        asy = [(x, p.apply_async(fcheck.prove, ((mod, x, 4000),))) for x in names]
        rs = []
        for x, a in asy:
            try: rs.append(a.get(120))
            except mp.TimeoutError: rs.append({'name': x, 'obs': [], 'error': 'time', 'functions': []})
        p.terminate(); con, err = fut.get()
    o = {'table': {}, 'n': 0, 'ok': 0, 'funcs': set()}
    if err: print('note: concrete search: ' + err[-400:])
    for r in rs:
        bad = [q for q in r['obs'] if not q[1]]; f = con.get(r['name'], {}).get('found')
        st = 'bounded' if r['error'] else 'failed' if bad else 'proved'
        if st != 'bounded': o['n'] += len(r['obs']); o['ok'] += len(r['obs']) - len(bad)
        if st == 'proved': o['funcs'] |= set(r['functions'])
        o['table'][r['name']] = {'status': st, 'obligations': len(r['obs']), 'error': r['error'], 'concrete_cases': con.get(r['name'], {}).get('done', 0)}
        if f: R.violation(r['name'], {'contract': r['name'], 'text': f['text'], 'input': f['input'], 'failed_obligations': bad, 'replay': '%s replay/p05.py --replay <this file>' % VENV_PY}, True)
        elif st == 'failed': R.violation(r['name'], {'contract': r['name'], 'obligation': '%s: %s' % (r['name'], bad[0][0]), 'verifier': bad[0][2]}, False)
    return o

def main(pid, tier):
    from vc import src
    import multiprocessing.pool
    R = Report(pid, tier)
    base = json.load(open(os.path.join(VERIF, 'baseline', 'algorithms.json')))
    fpb = json.load(open(os.path.join(VERIF, 'baseline', 'functions.json')))
    allc = src.all_algorithm_classes()
    names = [c.name for c in allc]
    missing = [n for n in base if n not in names]
    thorough = tier == 'thorough'
    jobs = []
    for n in names:
        f = os.path.join(VERIF, 'invariants', n + '.json')
        h = json.load(open(f)) if os.path.exists(f) else None
        if pid == 'P15': jobs.append((n, None, 100, True))
        elif h is not None and (pid in base.get(n, {}).get('proved', [pid]) or thorough): jobs.append((n, h, 150))
    jobs.sort(key=lambda j: -base.get(j[0], {}).get('hint_s', 5))
    res = run_pool(jobs, 300)
    t1 = time.time() - R.t0
    broken = [n for n in names if pid in base.get(n, {}).get('proved', []) and not proved(res.get(n), pid)]
    extra = [n for n in names if n not in base]          # classes added since: try inference
    redo = {}
    if broken or extra or thorough:
        lim = 420 if not thorough else 1800
        l2 = sorted(broken + extra, key=lambda n: base.get(n, {}).get('full_s', 60))
        if thorough: l2 += [n for n in names if n not in l2 and not proved(res.get(n), pid)]
        redo = run_pool([(n, None, min(lim, 400) if not thorough else 700) + (('full',) if pid == 'P15' else ()) for n in l2], lim)
    known = known_findings(pid)
    kcls = {k['class'] for k in known}
    nprov, table, obs_total, obs_ok, solver, wall, funcs, trusted, contr, unproved = 0, {}, 0, 0, 0.0, 0.0, set(), set(), set(), {}
    for n in names:
        r = redo.get(n) if n in redo and (proved(redo[n], pid) or n not in res or res[n].get('error')) else res.get(n)
        if r is None: r = redo.get(n)
        ok = proved(r, pid)
        if r is not None:
            solver += r.get('solver_s', 0); wall += r.get('wall', 0)
        if ok:
            nprov += 1
            obs = [o for o in r['obs'] if o[0] in KINDS[pid]]
            if pid == 'P05': obs = obs or [('RNG', 'call graph', 'no source of randomness besides the generator', 'valid')]
            obs_total += len(obs); obs_ok += len(obs)
            funcs |= set(r['inlined']); trusted |= set(r['trusted']); contr |= set(r['contracts'])
            table[n] = {'status': 'proved', 'obligations': len(obs), 'by': r['how'], 's': round(r['wall'], 1)}
        else:
            unproved[n] = r
            table[n] = {'status': 'not proved', 'reason': (r.get('error') or '; '.join(sorted({'%s@%s' % (o[0], o[1].split('>')[-1]) for o in failing(r, pid)})))[:300] if r else 'no stored invariants'}
    # unproved classes: bounded stand-in; proved ones: a short run that cross-checks the trusted array model
    nb = {'quick': 60, 'thorough': 400}[tier]; nx = {'quick': 12, 'thorough': 100}[tier]
    mj = []
    for n in names:
        isb = n in unproved
        seedn = SEED
        mj.append((n, nb if isb else nx, seedn, (40 if isb else 15) if not thorough else 200, pid))
    for n in broken:
        if n in unproved: mj.append((n, 2000, SEED + 'x', 100, pid)); mj.append((n, 2000, SEED + 'y', 100, pid))
    mj.sort(key=lambda j: -j[1])
    bounded = {}
    found = {}
    for a, (m, err) in mon_all(mj):
        if m is None: bounded.setdefault(a[0], []).append('monitor error: ' + str(err)[-300:]); continue
        bounded.setdefault(a[0], []).append('%d generated runs' % m['done'])
        table[a[0]]['bounded_runs'] = table[a[0]].get('bounded_runs', 0) + m['done']
        if pid in m['found'] and a[0] not in found: found[a[0]] = m['found'][pid][0]
    import resource
    for n in names:
        if n in found:
            text, cfg = found[n]
            if n in kcls: continue
            fo = failing(unproved[n], pid) if unproved.get(n) else []
            R.violation(n, {'class': n, 'text': text, 'config': cfg, 'failed_obligations': fo, 'replay': '%s %s --replay <this file>' % (VENV_PY, MON)}, True)
        elif n in broken and n in unproved:
            r = unproved[n]
            q = redo.get(n) or r
            h = res.get(n) or {}
            if same_source(h, fpb) and same_source(q, fpb):      # nothing the proof depends on has changed: the solver did not repeat its answer
                table[n]['status'] = 'bounded'; table[n]['reason'] = 'solver did not repeat the recorded proof of unchanged source'
                continue
            if q.get('error') or 'time' in str(h.get('error')) or h.get('late'):      # outside the subset or out of time: undecided by the verifier, decided by the bounded stand-in
                table[n]['status'] = 'bounded'; table[n]['reason'] = q['error'] or h.get('error') or 'solver time'
                continue
            R.violation(n, {'class': n, 'obligation': failing(q, pid), 'verifier': 'z3: obligation not valid after invariant inference', 'note': 'this obligation is discharged on the unchanged tree'}, False)
        elif n in unproved: table[n]['status'] = 'bounded'
    for k in known:
        R.known(k['what'])
    helpers = helper_contracts(R, tier) if pid == 'P05' else None
    R.cov = {'obligations': obs_total, 'discharged': obs_ok, 'classes': len(names), 'classes_proved': nprov,
             'classes_bounded': sorted(n for n in unproved),
             'functions_under_contract': sorted(funcs), 'callee_contracts_used': sorted(contr),
             'back_end': 'z3 %s' % __import__('z3').get_version_string(), 'solver_s': round(solver, 1), 'verifier_s': round(wall, 1),
             'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier),
             'trusted_base': ['vc/ (VC generator and array model)', 'z3'] + sorted(trusted), 'per_class': table,
             'bounded_stand_in': {'runs': sum(t.get('bounded_runs', 0) for n, t in table.items() if n in unproved), 'rule': 'generated configurations: dimension 1-12, four bound shapes, seven objectives, both directions, five repairs, budgets cut inside iterations, population sizes'},
             'samples': [{'class': n, **table[n]} for n in names[:3]]}
    if helpers:
        R.cov['helper_contracts'] = helpers['table']; R.cov['obligations'] += helpers['n']; R.cov['discharged'] += helpers['ok']
        R.cov['functions_under_contract'] = sorted(set(R.cov['functions_under_contract']) | helpers['funcs'])
    R.assumptions = ['machine arithmetic treated as mathematical (no rounding, no NaN); lower <= upper',
                     'partial correctness: a path that raises an exception ends there',
                     'constructor parameters at their defaults, population size symbolic (>= 1)',
                     'numpy functions by their model in vc/npmodel.py; Task.eval / Task.repair by contracts verified in P06, P09',
                     'callbacks do not modify what they are shown']
    if nprov < 5:
        print('error: fewer than five classes verified: the check is not meaningful'); R.finish(); return 3 if not R.violations else 1
    if missing: print('note: classes no longer present: %s' % missing)
    return R.finish()
