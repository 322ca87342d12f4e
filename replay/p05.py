import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import random
from niapy.util import repair
from niapy.util.random import levy_flight
import p09
def twice(f):
    """the same call under different global random states"""
    out = []
    for k in (3, 3, 11, 12):
        np.random.seed(k); random.seed(k); out.append(np.asarray(f()))
    for o in out[1:]:
        if o.shape != out[0].shape or not np.array_equal(o, out[0], equal_nan=True): return 'the generator passed is in the same state, yet the results differ: %r and %r' % (out[0], o)
def gen_levy(rng):
    size = [None, 1, int(rng.integers(1, 9)), [int(rng.integers(1, 5)), int(rng.integers(1, 5))]][rng.integers(4)]
    return {'size': size, 'alpha': float(rng.choice([0.01, 1.0, 0.3])), 'beta': float(rng.choice([1.5, 1.0, 0.5, 1.9])), 'seed': int(rng.integers(10000))}
def levy(q):
    size = tuple(q['size']) if isinstance(q['size'], list) else q['size']
    return twice(lambda: levy_flight(rng=np.random.default_rng(q['seed']), alpha=q['alpha'], beta=q['beta'], size=size))
def rep(name):
    f = getattr(repair, name)
    return lambda q: twice(lambda: f(q['x'].copy(), q['lower'].copy(), q['upper'].copy(), rng=np.random.default_rng(q['seed'])))
TARGETS = {'levy_flight': (gen_levy, levy)}
for n in ('limit', 'limit_inverse', 'wang', 'rand', 'reflect'): TARGETS['repair.' + n] = (p09.gen, rep(n))
if __name__ == '__main__': run(TARGETS)
