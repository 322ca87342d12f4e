import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from common import *
import niapy.problems as NP
from niapy.problems import Problem
from niapy.util.array import full_array, objects_to_array
from specs.domains import DOM, FIXED, OWN
def gen_full(rng):
    k = str(rng.choice(['int', 'float', 'list', 'tuple', 'array', 'bad']))
    n = int(rng.integers(1, 8)); v = [float(q) for q in np.round(rng.normal(size=n) * 10, 2)]
    return {'kind': k, 'dim': int(rng.integers(1, 25)), 'v': int(v[0]) if k == 'int' else v[0] if k == 'float' else v}
def chk_full(q):
    v, d, k = q['v'], q['dim'], q['kind']
    if k == 'bad':
        for b in (None, 'abc', {1: 2}):
            try: full_array(b, d)
            except TypeError: continue
            return 'full_array(%r) was accepted' % (b,)
        return
    a = tuple(v) if k == 'tuple' else np.array(v) if k == 'array' else v
    r = full_array(a, d)
    w = np.full(d, float(v)) if k in ('int', 'float') else np.array([v[i % len(v)] for i in range(d)])
    if not isinstance(r, np.ndarray) or r.shape != (d,) or not np.array_equal(np.asarray(r, float), w): return 'full_array(%r, %d) = %r' % (a, d, r)
    class PP(Problem):
        def _evaluate(self, x): return float(np.sum(x))
    p = PP(d, a, a if k in ('int', 'float') else [q + 1 for q in v])
    if p.dimension != d or not np.array_equal(p.lower, w) or not np.array_equal(p.upper, w if k in ('int', 'float') else w + 1): return 'bounds of the problem: %r %r' % (p.lower, p.upper)
def gen_objs(rng): return {'n': int(rng.integers(0, 8)), 'arr': bool(rng.random() < 0.5)}
def chk_objs(q):
    o = [np.array([float(k)] * 3) if q['arr'] else object() for k in range(q['n'])]
    r = objects_to_array(o)
    if r.dtype != object or r.shape != (q['n'],) or any(x is not y for x, y in zip(r, o)): return 'objects_to_array: %r' % (r,)
def gen_eval(rng):
    return {'d': int(rng.integers(1, 7)), 'n': int(rng.integers(1, 7)), 'call': bool(rng.random() < 0.5), 'two': bool(rng.random() < 0.2)}
def chk_eval(q):
    calls = []
    class PP(Problem):
        def _evaluate(self, x): calls.append(x); return 17.25
    p = PP(q['d'], -1.0, 1.0)
    x = np.arange(float(q['n'])); f = p if q['call'] else p.evaluate
    if p.name() != 'PP': return 'name() is %r' % p.name()
    try: r = f(x)
    except ValueError:
        if q['n'] == q['d']: return 'a point of the right dimension was refused'
        if calls: return 'a refused point was evaluated'
        return
    if q['n'] != q['d']: return 'a point with %d components was accepted by a problem of dimension %d' % (q['n'], q['d'])
    if r != 17.25 or len(calls) != 1 or calls[0] is not x: return 'evaluate returned %r after %d calls' % (r, len(calls))
NAMES = sorted(n for n in DOM if hasattr(NP, n)) + ['Sphere']
def gen_dom(rng):
    n = str(rng.choice(NAMES)); d = FIXED.get(n) or int(rng.integers(1, 12))
    return {'name': n, 'd': d, 'given': bool(rng.random() < 0.6) and n not in OWN, 'lo': float(np.round(rng.normal() * 5, 2)), 'w': float(np.round(rng.random() * 9, 2)), 'seq': bool(rng.random() < 0.4), 'pos': bool(rng.random() < 0.5)}
def chk_dom(q):
    c = getattr(NP, q['name']); d = q['d']; fx = q['name'] in FIXED
    lo, up = q['lo'], q['lo'] + q['w']
    if q['seq']: lo, up = [lo - k for k in range(d)], [up + k for k in range(d)]
    if q['given']: p = (c(lower=lo, upper=up) if fx else c(d, lo, up) if q['pos'] else c(dimension=d, lower=lo, upper=up))
    else: p = c() if fx else c(d) if q['pos'] else c(dimension=d)
    if p.dimension != d: return '%s: dimension %r instead of %d' % (q['name'], p.dimension, d)
    for a in (p.lower, p.upper):
        if not isinstance(a, np.ndarray) or a.shape != (d,): return '%s: bounds %r' % (q['name'], a)
    if q['given']: w = (lo, up)
    elif q['name'] in DOM: w = DOM[q['name']](d)
    else: return
    if not np.allclose(p.lower, w[0], rtol=1e-12) or not np.allclose(p.upper, w[1], rtol=1e-12): return '%s: bounds [%r, %r], should be %r' % (q['name'], p.lower, p.upper, w)
    if p.name() != q['name']: return '%s: name() is %r' % (q['name'], p.name())
TARGETS = {'full_array': (gen_full, chk_full), 'objects_to_array': (gen_objs, chk_objs), 'Problem.evaluate': (gen_eval, chk_eval), 'domain': (gen_dom, chk_dom)}
if __name__ == '__main__': run(TARGETS)
