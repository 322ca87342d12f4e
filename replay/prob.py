"""Concrete comparison of the real benchmark functions with the documented formulas (specs/problems.py).
prob.py NAME N SEED -> JSON line; prob.py --replay FILE"""
import sys, os, json, math, random, warnings
warnings.filterwarnings('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
np.seterr(all='ignore')
import niapy.problems as NP
from niapy.problems import Problem
from specs import problems as S
import importlib, pkgutil
ALL = {}
for m in pkgutil.iter_modules(NP.__path__):
    mod = importlib.import_module('niapy.problems.' + m.name)
    for n, c in vars(mod).items():
        if isinstance(c, type) and issubclass(c, Problem) and c is not Problem and c.__module__ == mod.__name__: ALL[n] = c

def close(a, b, name):
    if math.isnan(a) or math.isnan(b): return math.isnan(a) == math.isnan(b)
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))

def build(name, D, params):
    sp = S.SPECS[name]
    kw = {k.rstrip('_'): v for k, v in params.items()}
    if not sp['fixed']: kw['dimension'] = D
    return ALL[name](**kw)

def check(name, x, params, formula=None):
    """None or a description of the difference"""
    x = np.array(x, dtype=float)
    p = build(name, len(x), params)
    if p.dimension != len(x): return 'dimension %r instead of %r' % (p.dimension, len(x))
    st = {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in vars(p).items()}
    y = x.copy()
    try: got = float(p.evaluate(y))
    except Exception as e: return 'raises %r' % (e,)
    if not np.array_equal(x, y): return 'modifies the point'
    for k, v in vars(p).items():
        if k not in st or not np.array_equal(np.asarray(st[k], dtype=object), np.asarray(v, dtype=object)): return 'changes the problem (%s)' % k
    try: g2 = float(p.evaluate(y))
    except Exception as e: return 'raises on the second call %r' % (e,)
    if not (g2 == got or math.isnan(g2) and math.isnan(got)): return 'a second evaluation differs: %r, %r' % (got, g2)
    try: want = float(S.numeric(name, x, params) if formula is None else formula(x, params))
    except (OverflowError, ValueError): return None
    except ZeroDivisionError: return None
    if isinstance(want, complex): return None
    if not close(got, want, name): return 'value %r, documented formula %r' % (got, want)

def asis(x, params):       # known finding: HappyCat as implemented
    return float(np.sum(np.abs(x * x - len(x)) ** params['alpha']) + np.sum(0.5 * x * x + x) / len(x) + 0.5)

def points(name, n, seed):
    rnd = random.Random('%s|%s' % (name, seed))
    sp = S.SPECS[name]
    for j in range(n):
        D = sp['fixed'] or rnd.choice([1, 2, 3, 4, 5, 6, 8, 10, 13]) * sp['mult']
        D = max(D, sp['mind'])
        if name == 'Perm': D = min(D, 6)
        params = {}
        for p in sp['params']:
            params[p] = {'k_max': lambda: rnd.choice([20, 3, 11]), 'm_': lambda: rnd.choice([10, 1, 5]), 'beta': lambda: rnd.choice([0.5, 2.0, 10.0]),
                         'alpha': lambda: rnd.choice([0.25, 0.125, 0.5]), 'a': lambda: (rnd.choice([20.0, 7.5]) if name == 'Ackley' else rnd.choice([0.5, 0.3])),
                         'b': lambda: (rnd.choice([0.2, 0.35]) if name == 'Ackley' else rnd.choice([3, 2])), 'c': lambda: rnd.choice([2 * math.pi, 3.0])}[p]()
        P = build(name, D, params)
        lo, hi = np.array(P.lower, float), np.array(P.upper, float)
        D = len(lo) if not sp['fixed'] else sp['fixed']
        t = j % 9
        if t < 4: x = [rnd.uniform(lo[i], hi[i]) for i in range(D)]
        elif t == 4: x = [float(rnd.randint(-3, 3)) for i in range(D)]
        elif t == 5: x = [rnd.choice([0.0, 0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5]) for i in range(D)]
        elif t == 6: x = [rnd.choice([0.0, rnd.uniform(lo[i], hi[i])]) for i in range(D)]
        elif t == 7: x = [rnd.choice([lo[i], hi[i]]) for i in range(D)]
        else: x = [rnd.uniform(-1.5, 1.5) * rnd.choice([1, 0.01, 700 if name == 'ModifiedSchwefel' else 1.0]) for i in range(D)]
        if name == 'Perm': x = [max(min(v, 4.0), -4.0) for v in x]
        yield [float(v) for v in x], params

def search(name, n, seed, formula=None):
    if name not in ALL: return {'name': name, 'done': 0, 'found': {'text': 'the problem class is missing', 'x': None, 'params': None}}
    k = 0
    for x, params in points(name, n, seed):
        k += 1
        t = check(name, x, params, formula)
        if t: return {'name': name, 'done': k, 'found': {'text': '%s at x=%r %r: %s' % (name, x, params, t), 'x': x, 'params': params}}
    return {'name': name, 'done': k, 'found': None}
if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2])); t = check(d['class'], d['x'], d['params'], asis if d.get('asis') else None); print(t); sys.exit(1 if t else 0)
    out = {}
    asisn = sys.argv[3].split(',') if len(sys.argv) > 3 else []
    for nm in sys.argv[4:] or S.SPECS:
        out[nm] = search(nm, int(sys.argv[1]), sys.argv[2], asis if nm in asisn else None)
    print(json.dumps(out))
