import sys, os, itertools; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from niapy.algorithms.algorithm import Individual
from niapy.algorithms.basic import de, ga
from niapy.algorithms.modified import shade
from niapy.algorithms.other import sa, hc
class Ind(Individual):
    def __init__(self, x, f): self.x, self.f = x, f
class Task:
    def __init__(self, d, lo, up, val=None):
        self.dimension, self.lower, self.upper, self.range = d, lo, up, up - lo
        self.max_evals, self.max_iters, self.iters, self.evals, self.seen, self.val = 100, 10, 1, 1, [], val
    def repair(self, x, rng=None): return np.clip(x, self.lower, self.upper)
    def eval(self, x): self.seen.append(x); return self.val(len(self.seen), x) if self.val else float(np.sum(x))
    def stopping_condition(self): return False
def near(a, b): return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))
def binom(k, n, p): return abs(k - n * p) <= 6.5 * (n * p * (1 - p)) ** 0.5 + 1
def mkpop(q): return [Ind(x.copy(), float(v)) for x, v in zip(q['pop'], q['fit'])]
def gen(rng, nmin=1, nmax=8):
    n, d = int(rng.integers(nmin, nmax + 1)), int(rng.integers(1, 7))
    return {'pop': rng.uniform(-1, 1, (n, d)), 'fit': rng.permutation(n) + rng.random(), 'ic': int(rng.integers(n)), 'f': float(rng.choice([0.5, 0.83, 1.0, -0.7])), 'cr': float(rng.choice([0.0, 0.3, 0.9, 1.0])), 'seed': int(rng.integers(10 ** 6)), 'xb': rng.uniform(-1, 1, d), 'form': int(rng.integers(2))}
MUT = {'cross_rand1': (3, lambda X, b, ic, r, f: X[r[0]] + f * (X[r[1]] - X[r[2]])), 'cross_best1': (2, lambda X, b, ic, r, f: b + f * (X[r[0]] - X[r[1]])),
       'cross_rand2': (5, lambda X, b, ic, r, f: X[r[0]] + f * (X[r[1]] - X[r[2]]) + f * (X[r[3]] - X[r[4]])), 'cross_best2': (4, lambda X, b, ic, r, f: b + f * (X[r[0]] - X[r[1]]) + f * (X[r[2]] - X[r[3]])),
       'cross_curr2rand1': (4, lambda X, b, ic, r, f: X[ic] + f * (X[r[0]] - X[r[1]]) + f * (X[r[2]] - X[r[3]])), 'cross_curr2best1': (3, lambda X, b, ic, r, f: X[ic] + f * (b - X[r[0]]) + f * (X[r[1]] - X[r[2]]))}
def explain(X, ic, v, cr, muts):
    """None if v consists of parent and mutant components, of one mutant"""
    d = X.shape[1]
    own = np.array([near(a, b) for a, b in zip(v, X[ic])])
    for m in muts:
        mm = np.array([near(a, b) for a, b in zip(v, m)])
        if not (own | mm).all(): continue
        if cr >= 1 and not mm.all(): continue
        if cr <= 0 and (mm & ~own).sum() > 1 or not mm.any(): continue
        return None
    return 'the offspring %r is not made of the parent and one mutant of distinct donors' % (v,)
def de_check(name):
    k, mut = MUT[name]; fn = getattr(de, name)
    def c(q):
        X, ic, f, cr, b = q['pop'], int(q['ic']), q['f'], q['cr'], q['xb']; n, d = X.shape
        pop = mkpop(q) if q['form'] else X.copy(); xb = b.copy()
        kw = {'x_b': xb} if 'best' in name else {}
        v = fn(pop, ic, f, cr, rng=np.random.default_rng(q['seed']), **kw); v2 = fn(mkpop(q) if q['form'] else X.copy(), ic, f, cr, rng=np.random.default_rng(q['seed']), **kw)
        if not isinstance(v, np.ndarray) or v.shape != (d,): return 'not an offspring of %d components: %r' % (d, v)
        if not np.array_equal(v, v2): return 'the same seed gives another offspring'
        now = np.array([p.x for p in pop]) if q['form'] else pop
        if not np.array_equal(now, X) or not np.array_equal(xb, b): return 'the population or the best was modified'
        if n <= k: return None
        r = explain(X, ic, v, cr, [mut(X, b, ic, t, f) for t in itertools.permutations([j for j in range(n) if j != ic], k)])
        if r: return r
        if d >= 4 and 0 < cr < 1 and q['seed'] % 20 == 0:
            rng = np.random.default_rng(q['seed']); m = 150; cnt = sum(int(np.sum(~np.isclose(fn(pop, ic, f, cr, rng=rng, **kw), X[ic]))) for _ in range(m))
            if abs(cnt / m - (1 + (d - 1) * cr)) > 6.5 * (d * 0.3 / m) ** 0.5: return 'the crossover rate %r gives %r crossed components of %d on average' % (cr, cnt / m, d)
    return c
def pre(q): return mkpop(q), np.random.default_rng(q['seed'])
def kept(q, pop): return None if all(np.array_equal(p.x, x) and p.f == v for p, x, v in zip(pop, q['pop'], q['fit'])) and len(pop) == len(q['pop']) else 'the population was modified'
def tournament(q):
    pop, rng = pre(q); n = len(pop); ts = 1 + q['seed'] % n
    for _ in range(5):
        r = ga.tournament_selection(pop, int(q['ic']), ts, q['xb'], rng)
        if not any(r is p for p in pop): return 'not an individual of the population'
        if sum(p.f >= r.f for p in pop) < ts: return 'the winner of %d competitors is better than or equal to only %d individuals' % (ts, sum(p.f >= r.f for p in pop))
    return kept(q, pop)
def roulette(q):
    pop, rng = pre(q); ic = int(q['ic']); m = 60 if q['seed'] % 10 else 2000; cnt = 0
    p = sum(x.f for x in pop[:ic + 1]) / sum(x.f for x in pop) if sum(x.f for x in pop) > 0 else 1
    for _ in range(m):
        r = ga.roulette_selection(pop, ic, 2, q['xb'], rng)
        if np.array_equal(r, pop[ic].x): cnt += 1
        elif not np.array_equal(r, q['xb']): return 'neither the individual nor the best'
    if p <= 1 and not binom(cnt, m, p): return 'selected %d of %d times with a cumulated share of %r' % (cnt, m, p)
    return kept(q, pop)
def cross(name):
    def c(q):
        pop, rng = pre(q); X, ic, cr = q['pop'], int(q['ic']), q['cr']; n, d = X.shape; third = 2 if name == 'multi_point_crossover' else cr
        if name == 'multi_point_crossover' and d < 1: return None
        for _ in range(6):
            v = getattr(ga, name)(pop, ic, third, rng)
            if not isinstance(v, np.ndarray) or v.shape != (d,): return 'not an offspring of %d components: %r' % (d, v)
            if any(v is p.x for p in pop): return 'the offspring is an individual of the population itself'
            if kept(q, pop): return kept(q, pop)
            if name == 'crossover_uros':
                ok = n == 1 and np.allclose(v, X[ic])
                for k in range(n):
                    if k == ic: continue
                    a = (v - X[k]) / (X[ic] - X[k])
                    ok = ok or ((a >= cr - 1e-6) & (a <= 1 + 3 * cr + 1e-6)).all()
                if not ok: return 'no other individual of which %r is the weighted combination' % (v,)
                continue
            own = v == X[ic]; ok = False
            for k in range(n):
                if k == ic and n > 1: continue
                m = v == X[k]
                if not (own | m).all(): continue
                blocks = int(np.sum(np.diff(np.concatenate([[0], (m & ~own).astype(int)])) == 1)); cnt = int((m & ~own).sum())
                if name == 'uniform_crossover': good = n == 1 or (cnt >= 1 and (cr > 0 or cnt == 1) and (cr < 1 or cnt == d))
                else: good = blocks <= (1 if name.startswith('two') else 2)
                ok = ok or good
            if not ok: return 'the offspring %r of individual %d is not made of the components of two individuals by the rule' % (v, ic)
        if name.endswith('point_crossover') and d >= 4 and n > 1:
            rng = np.random.default_rng(q['seed']); hits = np.zeros(d)
            for _ in range(120): hits += getattr(ga, name)(pop, ic, third, rng) != X[ic]
            if hits.sum() == 0: return 'no component ever comes from the other individual'
    return c
def gen_mut(rng):
    q = gen(rng); d = q['pop'].shape[1]; q['lo'] = rng.uniform(-3, -1, d); q['up'] = rng.uniform(1, 3, d); return q
def mutation(name):
    def c(q):
        pop, rng = pre(q); X, ic, mr = q['pop'], int(q['ic']), q['cr']; n, d = X.shape; lo, up = q['lo'].copy(), q['up'].copy(); t = Task(d, lo, up)
        for _ in range(4):
            v = getattr(ga, name)(pop, ic, mr, t, rng)
            if not isinstance(v, np.ndarray) or v.shape != (d,): return 'not an offspring of %d components: %r' % (d, v)
            if any(v is p.x for p in pop): return 'the offspring is an individual of the population itself'
            if kept(q, pop) or not (np.array_equal(lo, q['lo']) and np.array_equal(up, q['up'])): return 'the population or the bounds were modified'
            if not ((v >= lo) & (v <= up)).all(): return 'the offspring %r is outside the bounds' % (v,)
            if name == 'mutation_uros':
                if mr == 0 and not np.allclose(v, X[ic]): return 'rate 0 changes the individual'
                continue
            ks = range(n) if name == 'creep_mutation' else [ic]
            chg = [int((v != X[k]).sum()) for k in ks]
            if not any(1 <= k and (mr < 1 or k == d) and (mr > 0 or k == 1) for k in chg): return 'rate %r changes %r of %d components' % (mr, chg, d)
        if name == 'uniform_mutation' and d >= 4 and q['seed'] % 5 == 0:
            m = 200; vs = np.array([getattr(ga, name)(pop, ic, mr, t, rng) for _ in range(m)]); a = float((vs != X[ic]).mean() * d)
            if abs(a - (1 + (d - 1) * mr)) > 6.5 * (d * 0.3 / m) ** 0.5: return 'the mutation rate %r changes %r components of %d on average' % (mr, a, d)
            w = (vs - lo) / (up - lo)
            ch = w[vs != X[ic]]
            if len(ch) > 100 and (ch.min() > 0.2 or ch.max() < 0.8): return 'mutated components are not spread over the range'
        if name == 'mutation_uros' and d >= 3 and mr == 0.3 and q['seed'] % 5 == 0:
            vs = np.array([ga.mutation_uros(pop, ic, 0.01, t, rng) for _ in range(400)]); sd = vs.std(0) / ((up - lo) * 0.01)
            if not ((sd > 0.75) & (sd < 1.3)).all() or not np.allclose(vs.mean(0), X[ic], atol=0.01): return 'not normal around the individual with deviation rate * range'
    return c
def gen_medium(rng):
    d = int(rng.integers(1, 6)); lo = rng.uniform(-3, -1, d); up = rng.uniform(1, 3, d)
    return {'v': rng.uniform(-6, 6, d), 'x': rng.uniform(lo, up), 'lo': lo, 'up': up}
def medium(v, x, lo, up): return np.where(v < lo, (lo + x) / 2, np.where(v > up, (up + x) / 2, v))
def parent_medium(q):
    x = q['x'].copy(); lo, up = q['lo'].copy(), q['up'].copy(); r = shade.parent_medium(q['v'].copy(), x, lo, up)
    if not np.allclose(r, medium(q['v'], q['x'], q['lo'], q['up']), rtol=1e-12): return 'not half way between the violated bound and the parent: %r' % (r,)
    if not (np.array_equal(x, q['x']) and np.array_equal(lo, q['lo']) and np.array_equal(up, q['up'])): return 'the parent or the bounds were modified'
def gen_pb(rng):
    q = gen(rng, 3, 6); n, d = q['pop'].shape; c = int(rng.integers(0, 4)); q['arc'] = rng.uniform(-1, 1, (c + 1, d)); q['c'] = c; q['pn'] = int(rng.integers(1, n + 1)); w = float(rng.choice([1.2, 5]))
    q['lo'] = np.full(d, -w); q['up'] = np.full(d, w); return q
def pbest(q):
    X, ic, f, cr = q['pop'], int(q['ic']), q['f'], q['cr']; n, d = X.shape; c = int(q['c']); A = q['arc'][:c]; arc = A.copy(); t = Task(d, q['lo'], q['up'])
    muts = []
    for pb in range(int(q['pn'])):
        for r1 in range(n):
            for r2 in range(n + c):
                if r1 == ic or r2 in (ic, r1): continue
                muts.append(medium(X[ic] + f * (X[pb] - X[ic]) + f * (X[r1] - (X[r2] if r2 < n else A[r2 - n])), X[ic], q['lo'], q['up']))
    rng = np.random.default_rng(q['seed'])
    for _ in range(3):
        pop = mkpop(q); v = shade.cross_curr2pbest1(pop, ic, f, cr, rng, p_num=int(q['pn']), archive=arc, arc_ind_cnt=c, task=t)
        if kept(q, pop) or not np.array_equal(arc, A): return 'the population or the archive was modified'
        if not isinstance(v, np.ndarray) or v.shape != (d,): return 'not an offspring of %d components: %r' % (d, v)
        r = explain(X, ic, v, cr, muts)
        if r: return r
def multi(q):
    pop, rng = pre(q); X = q['pop']; n, d = X.shape; m = 1 + q['seed'] % 4; vals = np.random.default_rng(q['seed']).permutation(m); t = Task(d, np.full(d, -9.), np.full(d, 9.), lambda k, x: float(vals[int(x[0])])); got = []
    def strat(k):
        def g(*a, **kw): got.append((a, kw)); return np.full(d, float(k))
        return g
    xb = q['xb']
    r = de.multi_mutations(pop, int(q['ic']), xb, q['f'], q['cr'], rng, t, Individual, [strat(k) for k in range(m)])
    if not all(a[0] is pop and a[1] == q['ic'] and a[2] == q['f'] and a[3] == q['cr'] and kw.get('x_b') is xb and kw.get('rng') is rng for a, kw in got) or len(got) != m: return 'the strategies did not get the arguments'
    if r.f != vals.min() or vals[int(r.x[0])] != r.f: return 'not the best of the candidates'
    return kept(q, pop)
def gen_sa(rng): return {'d': int(rng.integers(1, 5)), 'T': float(rng.choice([0.5, 2.0, 20.0])), 'delta': float(rng.choice([-1.0, 0.3, 1.0, 3.0])), 'seed': int(rng.integers(10 ** 6)), 'step': float(rng.choice([0.5, 2.0]))}
def metropolis(q):
    d = int(q['d']); a = sa.SimulatedAnnealing(delta=q['step'], seed=q['seed'], cooling_method=lambda T, **kw: T - 0.125); n, m = 0, 250
    for _ in range(m):
        t = Task(d, np.full(d, -100.), np.full(d, 100.), lambda k, x: 5 + q['delta']); x = np.arange(d) * 1.0; x0, b = x.copy(), x.copy() + 50
        r = a.run_iteration(t, x, 5.0, b, 1.0, current_temperature=q['T'])
        if len(t.seen) != 1: return '%d evaluations in an iteration' % len(t.seen)
        if not np.array_equal(x, x0) or (np.abs(t.seen[0] - x0) > q['step'] / 2 + 1e-12).any(): return 'the neighbour %r is farther than half of delta from %r' % (t.seen[0], x0)
        took = np.array_equal(r[0], t.seen[0]); n += took
        if not took and not np.array_equal(r[0], x0): return 'neither the neighbour nor the point'
        if r[1] != (5 + q['delta'] if took else 5.0): return 'the fitness does not belong to the point'
        if q['delta'] < 0 and not took: return 'a better neighbour is refused'
        if r[4]['current_temperature'] != q['T'] - 0.125: return 'the temperature is not the cooled one'
        if r[3] != min(1.0, r[1]): return 'the best fitness is %r' % r[3]
    if q['delta'] > 0 and not binom(n, m, np.exp(-q['delta'] / q['T'])): return 'a neighbour worse by %r is accepted %d of %d times at temperature %r' % (q['delta'], n, m, q['T'])
def neighborhood(q):
    d = int(q['d']); rng = np.random.default_rng(q['seed']); s = []
    for _ in range(150):
        t = Task(d, np.full(d, -100.), np.full(d, 100.)); x = np.arange(d) * 1.0; v, f = hc.neighborhood(x, q['step'], t, rng)
        if len(t.seen) != 1 or not np.array_equal(t.seen[0], v) or f != float(np.sum(v)): return 'the point returned is not the evaluated one'
        if not np.array_equal(x, np.arange(d)): return 'the point was modified'
        s.append((v - x) / q['step'])
    s = np.array(s)
    if abs(s.mean()) > 6 / s.size ** 0.5 or not 0.75 < s.std() < 1.3: return 'the step is not normal with deviation delta'
def gen_c(rng): return {'T': float(rng.uniform(1, 100)), 'T0': float(rng.uniform(1, 100)), 'dT': float(rng.uniform(0, 2)), 'n': int(rng.integers(1, 1000))}
def cool(name, want):
    def c(q):
        r = getattr(sa, name)(q['T'], starting_temperature=q['T0'], delta_temperature=q['dT'], max_evals=q['n'])
        return None if near(r, want(q)) else 'temperature %r' % r
    return c
TARGETS = {n: (gen, de_check(n)) for n in MUT}
TARGETS.update({'tournament_selection': (gen, tournament), 'roulette_selection': (gen, roulette), 'parent_medium': (gen_medium, parent_medium), 'cross_curr2pbest1': (gen_pb, pbest), 'multi_mutations': (gen, multi),
                'SimulatedAnnealing.run_iteration': (gen_sa, metropolis), 'neighborhood': (gen_sa, neighborhood),
                'cool_delta': (gen_c, cool('cool_delta', lambda q: q['T'] - q['dT'])), 'cool_linear': (gen_c, cool('cool_linear', lambda q: q['T'] - q['T0'] / q['n']))})
TARGETS.update({n: (gen, cross(n)) for n in ('two_point_crossover', 'multi_point_crossover', 'uniform_crossover', 'crossover_uros')})
TARGETS.update({n: (gen_mut, mutation(n)) for n in ('uniform_mutation', 'creep_mutation', 'mutation_uros')})
if __name__ == '__main__': run(TARGETS)
