import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from niapy.util import repair
def gen(rng):
    d = int(rng.integers(1, 9))
    lo = rng.choice([-10.0, -5.12, 0.0, 1.5, -100.0, 3.0], d) if rng.random() < 0.7 else np.full(d, float(rng.normal() * 10))
    w = rng.choice([0.0, 1.0, 10.24, 20.0, 3.7], d)
    up = lo + w
    x = lo + w * rng.uniform(0, 1, d)
    k = rng.random(d)
    far = rng.choice([0.3, 1.0, 1.7, 5.0, 300.0])
    x = np.where(k < 0.3, lo - far * rng.random(d) * (w + 1), np.where(k > 0.7, up + far * rng.random(d) * (w + 1), x))
    x = np.where(rng.random(d) < 0.1, lo, np.where(rng.random(d) < 0.1, up, x))
    return {'x': x, 'lower': lo, 'upper': up, 'seed': int(rng.integers(1000))}
class Rec:
    """a generator that records its uniform draws"""
def check(name):
    f = getattr(repair, name)
    def c(q):
        x0, lo, up = q['x'], q['lower'], q['upper']; x = x0.copy(); l2, u2 = lo.copy(), up.copy()
        r = f(x, l2, u2, rng=np.random.default_rng(q['seed']))
        if not (np.array_equal(l2, lo) and np.array_equal(u2, up)): return 'the bounds were modified'
        if r.shape != x0.shape: return 'shape changed'
        eps = 1e-9 * (1 + np.abs(lo) + np.abs(up)) if name == 'reflect' else 0
        bad = ~((r >= lo - eps) & (r <= up + eps))
        if bad.any(): return 'component %d = %r outside [%r, %r]' % (np.argmax(bad), r[bad][0], lo[bad][0], up[bad][0])
        ins = (x0 >= lo) & (x0 <= up)
        if not np.array_equal(r[ins], x0[ins]): return 'a component within its bounds was changed'
        if name == 'limit' and not np.array_equal(r, np.minimum(np.maximum(x0, lo), up)): return 'not the violated bound'
        if name == 'limit_inverse' and not np.array_equal(r, np.where(x0 < lo, up, np.where(x0 > up, lo, x0))): return 'not the opposite bound'
        if name == 'wang':
            w = np.where(x0 < lo, np.minimum(up, 2 * lo - x0), np.where(x0 > up, np.maximum(lo, 2 * up - x0), x0))
            if not np.allclose(r, w, rtol=1e-12, atol=1e-12): return 'not mirrored at the violated bound: %r instead of %r' % (r, w)
        r2 = f(x0.copy(), lo.copy(), up.copy(), rng=np.random.default_rng(q['seed']))
        if not np.array_equal(r, r2): return 'the same seed gives another result'
        np.random.seed(1)
        if name == 'rand':
            # every repaired component must be able to fall anywhere between its bounds
            out = ~ins & (up > lo)
            if out.any():
                m = np.array([f(x0.copy(), lo, up, rng=np.random.default_rng(1000 + k)) for k in range(60)])[:, out]
                w = (m - lo[out]) / (up - lo)[out]
                if w.min(0).max() > 0.35 or w.max(0).min() < 0.65: return 'repaired components are not spread over the range'
        else:
            r3 = f(x0.copy(), lo, up)
            if not np.array_equal(r, r3): return 'the result depends on the generator'
        return None
    return c
TARGETS = {'repair.' + n: (gen, check(n)) for n in ('limit', 'limit_inverse', 'wang', 'rand', 'reflect')}
if __name__ == '__main__': run(TARGETS)
