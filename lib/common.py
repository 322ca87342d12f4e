"""Shared parts of the checks: evidence, known findings, violation lines."""
import json, os, sys, time, subprocess, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')
SEED = os.environ.get('VERIF_SEED', '1')
VENV_PY = '/opt/venv/bin/python'
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           PYTHONPATH=os.path.join(REPO, 'src') if os.path.isdir(os.path.join(REPO, 'src')) else REPO)
if 'MPLCONFIGDIR' not in ENV and os.path.isdir('/opt/vp/mplconfig'): ENV['MPLCONFIGDIR'] = '/opt/vp/mplconfig'

def known_findings(pid):
    d = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    return [k for k in d['known'] if k['property'] == pid]

class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.violations, self.lines, self.cov, self.assumptions, self.level = [], [], {}, [], 'proof'
    def violation(self, name, data, found):
        os.makedirs(REPLAYS, exist_ok=True)
        fn = '%s_%s.json' % (self.pid, ''.join(c if c.isalnum() else '_' for c in name)[:80])
        p = os.path.join(REPLAYS, fn)
        data = dict(data); data['property'] = self.pid; data['failing_input_found'] = bool(found)
        json.dump(data, open(p, 'w'), indent=1, default=str)
        self.violations.append((name, p, found))
        print('VIOLATION property=%s replay=%s%s' % (self.pid, os.path.relpath(p, VERIF), '' if found else ' no-failing-input-found'), flush=True)
        d = data.get('text') or data.get('obligation')
        if d: print('  ' + str(d)[:400], flush=True)
    def known(self, text):
        print('KNOWN-FINDING: property=%s %s' % (self.pid, text), flush=True)
    def finish(self):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(SEED) if SEED.isdigit() else 1, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        ev['coverage'].setdefault('violation_list', [{'what': n, 'replay': os.path.relpath(p, VERIF), 'failing_input_found': bool(f)} for n, p, f in self.violations])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s: %s obligations, %s discharged, %d violations, %.1f s' % (self.pid, self.cov.get('obligations'), self.cov.get('discharged'), len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
