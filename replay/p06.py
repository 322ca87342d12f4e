"""Histories of task operations against a reference account (P06 counting and stopping, P07 best value and history)."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from niapy.task import Task, OptimizationType
from niapy.problems import Problem
class P(Problem):
    def __init__(self, values, d):
        super().__init__(d, -5.0, 5.0); self.values, self.calls, self.args = values, 0, []
    def _evaluate(self, x):
        self.args.append(x); v = self.values[self.calls % len(self.values)]; self.calls += 1; return v
def gen(rng):
    n = int(rng.integers(0, 40))
    scale = rng.choice([1.0, 10.0, 1e6])
    vals = [float(q) for q in np.round(rng.normal(size=max(1, n)) * scale, 1 if rng.random() < 0.5 else 8)]
    if rng.random() < 0.2: vals = [float(v) for v in np.sort(vals)[::(1 if rng.random() < 0.5 else -1)]]
    if rng.random() < 0.1: vals = [vals[0]] * len(vals)
    ops = [str(q) for q in rng.choice(['eval', 'eval', 'eval', 'eval', 'iter', 'stop', 'stopiter', 'conv'], size=n)]
    return {'max': bool(rng.random() < 0.5), 'values': vals, 'ops': ops, 'max_evals': 'inf' if rng.random() < 0.3 else int(rng.integers(0, 25)),
            'max_iters': 'inf' if rng.random() < 0.5 else int(rng.integers(0, 8)), 'cutoff': None if rng.random() < 0.5 else float(rng.choice(vals + [0.0, -1.0, 1.0])), 'd': int(rng.integers(1, 4)), 'logging': False}
def check(which):
    def c(q):
        o = -1.0 if q['max'] else 1.0
        p = P(q['values'], q['d'])
        kw = {}
        if q['max_evals'] != float('inf'): kw['max_evals'] = q['max_evals']
        if q['max_iters'] != float('inf'): kw['max_iters'] = q['max_iters']
        if q['cutoff'] is not None: kw['cutoff_value'] = q['cutoff']
        t = Task(problem=p, optimization_type=OptimizationType.MAXIMIZATION if q['max'] else OptimizationType.MINIMIZATION, **kw)
        ev = it = 0; best = np.inf * o; seq = []; hist = []
        if which == 'acc':
            if (t.evals, t.iters) != (0, 0): return 'a new task has counters %r' % ((t.evals, t.iters),)
            if t.dimension != q['d'] or not np.array_equal(t.lower, p.lower) or not np.array_equal(t.upper, p.upper) or not np.allclose(t.range, p.upper - p.lower): return 'dimension or bounds differ from the problem'
        def stopped(): return ev >= q['max_evals'] or it >= q['max_iters'] or (q['cutoff'] is not None and o * best <= o * q['cutoff'])
        for k, op in enumerate(q['ops']):
            s = stopped()
            if which == 'acc' and bool(t.stopping_condition()) != s: return 'operation %d: stopping condition %r, but evaluations %d of %s, iterations %d of %s, best %r, cutoff %r' % (k, t.stopping_condition(), ev, q['max_evals'], it, q['max_iters'], best, q['cutoff'])
            if op == 'eval':
                x = np.full(q['d'], 0.5); r = t.eval(x)
                if s:
                    if which == 'acc':
                        if p.calls != ev: return 'operation %d: a stopped task evaluated the problem' % k
                        if r != np.inf: return 'operation %d: a stopped task returned %r' % (k, r)
                else:
                    v = q['values'][ev % len(q['values'])]; ev += 1; seq.append(v)
                    if o * v < o * best: best = v
                    if which == 'acc':
                        if p.calls != ev: return 'operation %d: %d problem evaluations for %d task evaluations' % (k, p.calls, ev)
                        if not np.array_equal(p.args[-1], x): return 'operation %d: another point was evaluated' % k
                    elif r != o * v: return 'operation %d: eval returned %r for the value %r' % (k, r, v)
            elif op == 'iter': t.next_iter(); it += 1; hist.append(best)
            elif op == 'stopiter':
                r = t.stopping_condition_iter(); it += 1; hist.append(best)
                if which == 'acc' and bool(r) != s: return 'operation %d: stopping_condition_iter returned %r' % (k, r)
            elif op == 'conv' or op == 'stop':
                if op == 'conv' and which == 'hist':
                    e = conv(t, it, hist, seq, o)
                    if e: return 'operation %d: %s' % (k, e)
                elif op == 'conv': t.convergence_data(); t.convergence_data('evals')
            if which == 'acc' and (t.evals != ev or t.iters != it): return 'operation %d (%s): counters are %r, should be %r' % (k, op, (t.evals, t.iters), (ev, it))
            if which == 'hist' and t.x_f != best: return 'operation %d (%s): best value %r, should be %r' % (k, op, t.x_f, best)
        if which == 'hist': return conv(t, it, hist, seq, o)
    return c
def conv(t, it, hist, seq, o):
    x, y = t.convergence_data()
    if list(x) != list(range(it)): return 'iterations of the convergence data: %r' % (list(x),)
    if list(y) != hist: return 'convergence data by iterations %r, should be %r' % (list(y), hist)
    x, y = t.convergence_data(x_axis='evals')
    bs = list(np.minimum.accumulate(np.array(seq) * o) * o) if seq else []
    last = 0
    for k in range(len(bs)):
        if k == 0 or bs[k] != bs[k - 1]: last = k + 1
    if list(x) != list(range(1, last + 1)) and list(x) != list(range(1, len(bs) + 1)): return 'evaluations of the convergence data: %r' % (list(x),)
    if list(y) != bs[:len(x)]: return 'convergence data by evaluations %r, should be %r' % (list(y), bs[:len(x)])
TARGETS = {'Task.history': (gen, check('acc'))}
if __name__ == '__main__': run(TARGETS)
