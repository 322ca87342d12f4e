import sys, os, inspect; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import niapy.algorithms.basic as b, niapy.algorithms.modified as m, niapy.algorithms.other as o, importlib, pkgutil
from niapy.algorithms import Algorithm
SKIP = ('self', 'seed', 'callbacks', 'logger')
C = {}
for pkg in (b, m, o):
    for _, n, _ in pkgutil.iter_modules(pkg.__path__):
        mod = importlib.import_module(pkg.__name__ + '.' + n)
        for k, c in vars(mod).items():
            if inspect.isclass(c) and issubclass(c, Algorithm) and c.__module__ == mod.__name__: C[k] = c
def sig(c, meth): return [p for p in inspect.signature(getattr(c, meth)).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD and p.name not in SKIP]
class Token:
    def __call__(self, *a, **k): return None
    def __iter__(self): return iter(())
    def __len__(self): return 3
TOKENS = [Token() for _ in range(3)]
def same(x, y):
    if x is y: return True
    if inspect.ismethod(x) and inspect.ismethod(y): return x.__func__ is y.__func__
    try: return bool(np.all(np.asarray(x, dtype=object) == np.asarray(y, dtype=object)))
    except Exception: return False
def val(d, u, k):
    if isinstance(d, bool): return not d
    if isinstance(d, int): return int(1 + u * 60)
    if isinstance(d, float): return float(0.01 + u)
    return TOKENS[k % 3]
def make(n):
    c = C[n]
    def gen(rng): return {'set': int(rng.integers(2)), 'k': int(rng.integers(1000)), 'u': float(rng.random()), 'old': float(rng.random())}
    def check(q):
        setp = bool(q['set']); ps = sig(c, 'set_parameters' if setp else '__init__'); w = 'set_parameters' if setp else 'the constructor'
        def run(old=None, **kw):
            if not setp: return c(**kw)
            a = c(**(old or {})); a.set_parameters(**kw); return a
        d0 = run().get_parameters()
        if not ps: return None
        p = ps[int(q['k']) % len(ps)]; v = val(p.default, q['u'], int(q['k'])); kw = {p.name: v}
        a = run(**kw); g = a.get_parameters()
        if p.name in g and not same(g[p.name], v): return '%s: %s=%r is reported as %r' % (w, p.name, v, g[p.name])
        if p.name in vars(a) and not same(vars(a)[p.name], v): return '%s: %s=%r is the attribute %r' % (w, p.name, v, vars(a)[p.name])
        if set(g) != set(d0): return '%s: other parameters are reported: %r' % (w, set(g) ^ set(d0))
        for r in ps:
            if r.name != p.name and r.name in g and not same(g[r.name], d0[r.name]): return '%s(%s): the parameter %s changes from %r to %r' % (w, p.name, r.name, d0[r.name], g[r.name])
        if setp:
            a = run({r.name: val(r.default, q['old'], 1) for r in sig(c, '__init__')}, **kw); g = a.get_parameters()
            if p.name in g and not same(g[p.name], v): return 'set_parameters: %s=%r is reported as %r' % (p.name, v, g[p.name])
    return gen, check
TARGETS = {n: make(n) for n in C}
if __name__ == '__main__': run(TARGETS)
