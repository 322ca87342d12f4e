"""P12: every benchmark function computes its documented formula."""
import json, subprocess, multiprocessing as mp
from .common import *

def _v(a):
    from . import prob_sym
    return prob_sym.verify(*a)
def asis_spec():
    from specs import problems as S
    def HappyCatAsIs(m, x, D, alpha):
        return m.S(1, D, lambda i: m.pow(m.abs(x(i) ** 2 - D), alpha)) + m.S(1, D, lambda i: (m.q('0.5') * x(i) ** 2 + x(i)) / D) + m.q('0.5')
    return {'HappyCat': HappyCatAsIs}
def _va(a):
    from specs import problems as S
    from . import prob_sym
    n, t = a
    f = asis_spec().get(n)
    if f is None: return None
    S.SPECS[n] = dict(S.SPECS[n], f=f)
    return prob_sym.verify(n, t)

def main(pid, tier):
    R = Report(pid, tier)
    from specs.problems import SPECS
    from . import prob_sym
    t = 4000 if tier == 'quick' else 30000
    present = {c.name for c in prob_sym.problem_classes()}
    names = [n for n in SPECS if n in present]
    nospec = sorted(present - set(SPECS))
    known = {k['class'] for k in known_findings(pid)}
    with mp.Pool(8) as p:
        ra = p.map_async(_va, [(n, t) for n in names if n in known], chunksize=1)
        rs = p.map(_v, [(n, t) for n in names if n not in known], chunksize=1) + ra.get()
    n = {'quick': 700, 'thorough': 20000}[tier]
    allnames = list(SPECS)
    q = subprocess.run([VENV_PY, os.path.join(VERIF, 'replay', 'prob.py'), str(n), SEED, ','.join(sorted(known)) or '-'] + allnames, capture_output=True, text=True, env=ENV, timeout=800)
    if q.returncode != 0:
        print('error: the concrete comparison failed to run\n' + q.stderr[-1500:]); con = {}
    else: con = json.loads(q.stdout.strip().splitlines()[-1])
    tot = ok = 0; table = {}; funcs = set(); bounded = []
    for r in rs:
        nm = r['name']; bad = [o for o in r['obs'] if not o[1]]
        st = 'proved' if not r['error'] and not bad and any('formula' in o[0] for o in r['obs']) else 'not proved'
        if st == 'proved': tot += len(r['obs']); ok += len(r['obs']); funcs |= set(r['functions'])
        table[nm] = {'status': st, 'obligations': len(r['obs']), 'failed': [o[0] for o in bad], 'error': r['error'], 's': round(r['wall'], 2), 'concrete_points': con.get(nm, {}).get('done')}
        f = con.get(nm, {}).get('found')
        if f: R.violation(nm, {'class': nm, 'text': f['text'], 'x': f['x'], 'params': f['params'], 'asis': nm in known, 'failed_obligations': [o[0] for o in bad]}, True)
        elif st != 'proved' and not r['error']:
            tot += len(r['obs']); ok += len(r['obs']) - len(bad)
            R.violation(nm, {'class': nm, 'obligation': '%s: %s' % (nm, bad[0][0] if bad else 'no obligation was generated'), 'got': r.get('got'), 'want': r.get('want'), 'verifier': 'z3 result: %s' % r.get('last')}, False)
        elif st != 'proved': table[nm]['status'] = 'bounded'; bounded.append(nm)
    for nm in set(allnames) - {r['name'] for r in rs}:
        f = con.get(nm, {}).get('found')
        if f: R.violation(nm, {'class': nm, 'text': f['text'], 'x': f['x'], 'params': f['params']}, True)
        else: bounded.append(nm)
    for k in known_findings(pid): R.known(k['what'])
    R.cov = {'obligations': tot, 'discharged': ok, 'functions_under_contract': sorted(funcs), 'proved': sum(1 for v in table.values() if v['status'] == 'proved'), 'bounded_stand_in': bounded, 'without_specification': nospec,
             'back_end': 'z3 %s' % __import__('z3').get_version_string(), 'solver_s': round(sum(r['solver_s'] for r in rs), 2), 'queries': sum(r['queries'] for r in rs),
             'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier), 'per_function': table, 'concrete_cross_check_points': sum(v['done'] for v in con.values()),
             'trusted_base': ['fv/ (symbolic evaluator: array model, sums by induction, extensionality and linearity of sums)', 'z3', 'the formulas in specs/problems.py, transcribed from the documentation'],
             'samples': [{'function': k, **v} for k, v in list(table.items())[:3]]}
    R.assumptions = ['machine arithmetic treated as real arithmetic', 'sin, cos, exp, log10, sqrt, pow and round are uninterpreted functions (sqrt with its defining axiom)',
                     'Problem.__init__ by its contract (dimension and bounds are stored), verified in P11', 'Elliptic, ExpandedSchaffer, ExpandedGriewankPlusRosenbrock for dimension >= 2; Powell for multiples of 4']
    if sum(1 for v in table.values() if v['status'] == 'proved') == 0 and not R.violations:
        print('error: nothing was proved'); R.finish(); return 3
    return R.finish()
