import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from niapy.algorithms.algorithm import Algorithm, Individual, default_numpy_init, default_individual_init
from niapy.task import Task, OptimizationType
from niapy.problems import Problem
from niapy.util import repair
def asym(rng, d):
    lo = np.round(rng.normal(size=d) * 8, 2); return lo, lo + rng.choice([0.5, 3.0, 11.0], d)
class PP(Problem):
    def __init__(self, lo, up): self.calls = []; super().__init__(len(lo), lo, up)
    def _evaluate(self, x): self.calls.append((x, x.copy(), len(self.calls))); return float(np.sum((x - 0.3) ** 2)) + 0.125
class T(Task):
    def repair(self, x, rng=None):
        self.log.append(('repair', x.copy(), rng)); return super().repair(x, rng=rng)
    def eval(self, x):
        v = super().eval(x); self.log.append(('eval', x.copy(), v)); return v
REP = {'limit': repair.limit, 'rand': repair.rand, 'wang': repair.wang, 'limit_inverse': repair.limit_inverse}
def gen(rng):
    d = int(rng.integers(1, 7)); lo, up = asym(rng, d)
    return {'lo': lo, 'up': up, 'n': int(rng.integers(1, 12)), 'max': bool(rng.random() < .5), 'rep': str(rng.choice(list(REP))), 'seed': int(rng.integers(10000)), 'x': np.round(rng.normal(size=d) * 15, 2), 'f': float(np.round(rng.normal(), 2)), 'evals': int(rng.choice([3, 1000])), 'list': bool(rng.random() < .3)}
def task(q):
    p = PP(q['lo'], q['up'])
    t = T(problem=p, max_evals=q['evals'], optimization_type=OptimizationType.MAXIMIZATION if q['max'] else OptimizationType.MINIMIZATION, repair_function=REP[q['rep']]); t.log = []; return t, p
def G(k): return np.random.default_rng(k)
def given(q):
    t, p = task(q); x = q['x'].tolist() if q['list'] else q['x'].copy()
    o = Individual(x=x, task=t, e=False, rng=G(1))
    if not np.array_equal(o.x, q['x']) or o.f != np.inf or t.log: return 'Individual(x, e=False): %r %r' % (o.x, o.f)
    if not q['list'] and o.x is not x: return 'the given array was copied'
    o = Individual(x=q['x'].copy())
    if not np.array_equal(o.x, q['x']) or o.f != np.inf: return 'Individual(x)'
def chk_eval(o, t, g, what):
    n = [e[0] for e in t.log]
    if n != ['repair', 'eval']: return '%s: calls %r' % (what, n)
    if t.log[0][2] is not g: return '%s: repaired with another generator' % what
    w = REP[type_rep[0]](t.log[0][1].copy(), t.lower, t.upper, rng=G(type_rep[1])) if type_rep[0] != 'rand' else None
    if w is not None and not np.array_equal(o.x, w): return '%s: does not hold the repaired point' % what
    if not np.array_equal(o.x, t.log[1][1]): return '%s: holds another point than was evaluated' % what
    if o.f != t.log[1][2]: return '%s: fitness %r, evaluated to %r' % (what, o.f, t.log[1][2])
    if np.any(o.x < t.lower) or np.any(o.x > t.upper): return '%s: outside the bounds' % what
type_rep = ['limit', 0]
def evaluate(q):
    type_rep[:] = [q['rep'], q['seed']]
    t, p = task(q); g = G(q['seed']); o = Individual(x=q['x'].copy(), task=t, e=True, rng=g)
    r = chk_eval(o, t, g, 'Individual(x, task)')
    if r: return r
    if not np.array_equal(t.log[0][1], q['x']): return 'another point was repaired'
    t, p = task(q); o = Individual(x=q['x'].copy(), e=False); g = G(3); o.f = 0.0; o.evaluate(t, rng=g)
    return chk_eval(o, t, g, 'evaluate') or (None if np.array_equal(t.log[0][1], q['x']) else 'another point was repaired')
def fresh(q):
    type_rep[:] = [q['rep'], q['seed']]
    pts = []
    for k in range(40):
        t, p = task(q); g = G(q['seed'] + k); o = Individual(task=t, rng=g, e=k % 2 == 0)
        if o.x.shape != t.lower.shape or np.any(o.x < t.lower) or np.any(o.x > t.upper): return 'a new individual is outside the bounds: %r' % (o.x,)
        if k % 2 == 0:
            r = chk_eval(o, t, g, 'Individual(task)')
            if r: return r
        elif o.f != np.inf or t.log: return 'an individual that was not to be evaluated has fitness %r' % o.f
        o2 = Individual(task=task(q)[0], rng=G(q['seed'] + k), e=k % 2 == 0)
        if not np.array_equal(o.x, o2.x): return 'the same generator gives another individual'
        pts.append(o.x)
    pts = np.array(pts); w = (pts - q['lo']) / (q['up'] - q['lo'])
    if w.min(0).max() > .35 or w.max(0).min() < .65: return 'new individuals do not cover the bounds'
    if pts.shape[1] > 1 and np.ptp(w - w[:, :1]) < 1e-9: return 'all components are equal'
def copy(q):
    o = Individual(x=q['x'].copy(), e=False); o.f = q['f']; c = o.copy()
    if not isinstance(c, Individual) or c is o or not np.array_equal(c.x, o.x) or c.f != o.f: return 'the copy differs: %r %r' % (c.x, c.f)
    if np.shares_memory(c.x, o.x): return 'the copy shares its point'
    c.x[0] += 1; c.f = 3.5
    if not np.array_equal(o.x, q['x']) or o.f != q['f']: return 'changing the copy changes the original'
def oarr(b):
    a = np.empty(1, dtype=object); a[0] = b; return a
def equal(q):
    a = Individual(x=q['x'].copy(), e=False); a.f = q['f']; b = Individual(x=q['x'].copy(), e=False); b.f = q['f']
    if not a == b: return 'equal individuals compare unequal'
    if not (a == oarr(b)): return 'not found in an array'
    for j in range(len(a.x)):
        b.x[j] += .5
        if a == b: return 'individuals that differ in component %d compare equal' % j
        if a == oarr(b): return 'found in an array of others'
        b.x[j] = a.x[j]
    b.f += 1
    if a == b: return 'individuals of different fitness compare equal'
def items(q):
    a = Individual(x=q['x'].copy(), e=False); d = len(q['x'])
    if len(a) != d or any(a[j] != q['x'][j] for j in range(d)): return 'indexing'
    a[d - 1] = 77.0; w = q['x'].copy(); w[d - 1] = 77.0
    if not np.array_equal(a.x, w): return 'assignment'
def best(kind):
    def c(q):
        rng = G(q['seed']); n, d = q['n'], len(q['x'])
        P = np.round(rng.normal(size=(n, d)), 2); F = rng.choice([1.0, 2.0, 3.0, 0.5, np.inf], n) if n > 1 else np.array([1.5])
        if kind.startswith('one'): n = 1; P, F = P[:1], F[:1] if np.isfinite(F[0]) else np.array([2.0])
        for bf in (None, 0.25, 1.0, 2.0, 9.0, np.inf):
            if bf is None and not np.isfinite(F).any(): continue
            for bi in (False, True):
                bx = np.round(rng.normal(size=d), 2); pop = P.copy()
                if kind.endswith('individuals'):
                    pop = np.empty(n, dtype=object)
                    for k in range(n): pop[k] = Individual(x=P[k].copy(), e=False); pop[k].f = F[k]
                fp = F.copy()
                if kind.startswith('list'): fp = list(fp)
                a = (pop[0], float(F[0])) if kind.startswith('one') else (pop, fp)
                b = bx
                if bi: b = Individual(x=bx, e=False); b.f = bf
                r = Algorithm.get_best(*a) if bf is None else Algorithm.get_best(a[0], a[1], b, bf)
                x, v = r; m = min(F)
                w = m if bf is None else min(m, bf)
                if v != w: return 'best fitness %r of %r and %r' % (v, F, bf)
                ok = any(F[k] == v and np.array_equal(x, P[k]) for k in range(n)) or (bf is not None and v == bf and np.array_equal(x, bx))
                if not ok: return 'the point %r does not have the fitness %r' % (x, v)
                if not isinstance(x, np.ndarray): return 'not an array: %r' % (x,)
                if np.shares_memory(x, bx) or any(np.shares_memory(x, getattr(y, 'x', y)) for y in pop): return 'the best shares memory with its origin'
                if kind.endswith('individuals') and any(not np.array_equal(pop[k].x, P[k]) for k in range(n)) or not kind.endswith('individuals') and not np.array_equal(pop, P): return 'the population was changed'
    return c
def init(kind):
    def c(q):
        type_rep[:] = [q['rep'], q['seed']]
        t, p = task(q); n, d = q['n'], len(q['x'])
        class Ind(Individual): pass
        def mk(t, g): return default_numpy_init(t, n, g) if kind == 'numpy' else default_individual_init(task=t, population_size=n, rng=g, individual_type=Ind)
        pop, fp = mk(t, G(q['seed']))
        if len(pop) != n or len(fp) != n: return '%d individuals and %d fitness values for a size of %d' % (len(pop), len(fp), n)
        xs = np.array([getattr(o, 'x', o) for o in pop])
        if kind != 'numpy' and any(type(o) is not Ind for o in pop): return 'another type of individual'
        if xs.shape != (n, d) or np.any(xs < q['lo']) or np.any(xs > q['up']): return 'outside the bounds'
        if len(p.calls) != min(n, q['evals']): return '%d evaluations of %d individuals' % (len(p.calls), n)
        s = -1 if q['max'] else 1
        for k in range(n):
            w = s * (float(np.sum((xs[k] - 0.3) ** 2)) + 0.125) if k < q['evals'] else np.inf
            if abs(fp[k] - w) > 1e-9 * (1 + abs(w)) if np.isfinite(w) else fp[k] != w: return 'fitness %r at index %d, should be %r' % (fp[k], k, w)
            if kind != 'numpy' and pop[k].f != fp[k]: return 'the individual has another fitness than its entry'
        t2, _ = task(q); p2 = mk(t2, G(q['seed']))[0]
        if not np.array_equal(xs, np.array([getattr(o, 'x', o) for o in p2])): return 'the same generator gives another population'
        pts = []
        for k in range(max(1, 40 // n)): pts += [getattr(o, 'x', o) for o in mk(task(q)[0], G(k))[0]]
        pts = np.array(pts); w = (pts - q['lo']) / (q['up'] - q['lo'])
        if len(w) > 30 and (w.min(0).max() > .4 or w.max(0).min() < .6): return 'the population does not cover the bounds'
        if d > 1 and np.ptp(w - w[:, :1]) < 1e-9: return 'all components are equal'
    return c
def integers(q):
    a = Algorithm(seed=q['seed']); b = G(q['seed'])
    if a.integers(50) != b.integers(50) or a.integers(5, 90) != b.integers(5, 90): return 'integers draws otherwise than its generator'
    r = a.integers(2, 9, 4)
    if not np.array_equal(r, b.integers(2, 9, 4)): return 'integers with a size'
    sk = list(map(int, G(q['seed'] + 1).choice(6, int(q['seed'] % 6), replace=False)))
    seen = set()
    for k in range(60):
        v = a.integers(0, 6, skip=sk); seen.add(int(v))
        if v in sk or not 0 <= v < 6: return 'integers(0, 6, skip=%r) gave %r' % (sk, v)
        v = a.integers(6, skip=sk)
        if v in sk or not 0 <= v < 6: return 'integers(6, skip=%r) gave %r' % (sk, v)
        w = a.integers(3, 9, skip=[q_ + 3 for q_ in sk])
        if w - 3 in sk or not 3 <= w < 9: return 'integers(3, 9, skip=%r) gave %r' % ([q_ + 3 for q_ in sk], w)
    if seen != set(range(6)) - set(sk): return 'only %r are drawn, excluded were %r' % (seen, sk)
def helpers(q):
    for nm, args in (('random', ()), ('uniform', (-2.5, 4.0)), ('normal', (1.5, 0.3)), ('standard_normal', ())):
        for size in ((), (3,), ((2, 3),)):
            a = Algorithm(seed=q['seed']); b = G(q['seed'])
            if not np.array_equal(getattr(a, nm)(*args, *size), getattr(b, nm)(*args, *size)): return '%s draws otherwise than its generator' % nm
            if a.random() != b.random(): return '%s drew more than once' % nm
def trepair(q):
    calls = []
    def rf(x, lower, upper, rng=None): calls.append((x, lower, upper, rng)); return x + 1
    t = Task(problem=PP(q['lo'], q['up']), max_evals=5, repair_function=rf); g = G(1); x = q['x']
    r = t.repair(x, rng=g)
    if len(calls) != 1 or calls[0][0] is not x or not np.array_equal(calls[0][1], q['lo']) or not np.array_equal(calls[0][2], q['up']) or calls[0][3] is not g or not np.array_equal(r, x + 1): return 'Task.repair called its function with %r' % (calls,)
def feasible(q):
    t, _ = task(q); rng = G(q['seed'])
    for k in range(20):
        x = q['lo'] + (q['up'] - q['lo']) * rng.choice([0, .5, 1, .2, -.1, 1.1], len(q['lo']), p=[.2, .3, .2, .2, .05, .05])
        x = np.where(rng.random(len(x)) < .1, q['up'], x)
        if bool(t.is_feasible(x)) != bool(np.all(x >= q['lo']) and np.all(x <= q['up'])): return 'is_feasible(%r)' % (x,)
TARGETS = {'Individual(x)': (gen, given), 'Individual(task)': (gen, fresh), 'Individual.evaluate': (gen, evaluate), 'Individual.copy': (gen, copy), 'Individual.__eq__': (gen, equal), 'Individual items': (gen, items),
           'default_numpy_init': (gen, init('numpy')), 'default_individual_init': (gen, init('ind')), 'Algorithm.integers': (gen, integers), 'Algorithm random helpers': (gen, helpers), 'Task.repair': (gen, trepair), 'Task.is_feasible': (gen, feasible)}
for k in ('arrays', 'list, arrays', 'individuals', 'one, arrays', 'one, individuals'): TARGETS['get_best(%s)' % k] = (gen, best(k))
if __name__ == '__main__': run(TARGETS)
