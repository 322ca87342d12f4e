"""Symbolic side of the benchmark check: the body of every _evaluate (and __init__) against its documented formula."""
import sys, time, multiprocessing as mp
from .common import *
sys.path.insert(0, VERIF)
import z3, ast, glob
from fractions import Fraction
from fv.eng import *
from fv.interp import FV
from specs.problems import SPECS
from vc import src

class T:
    """term with operators (specification language)"""
    def __init__(self, v): self.v = v
    def _o(self, o): return o.v if isinstance(o, T) else o
    def __add__(s, o): return T(add(s.v, s._o(o)))
    def __radd__(s, o): return T(add(s._o(o), s.v))
    def __sub__(s, o): return T(sub(s.v, s._o(o)))
    def __rsub__(s, o): return T(sub(s._o(o), s.v))
    def __mul__(s, o): return T(mul(s.v, s._o(o)))
    def __rmul__(s, o): return T(mul(s._o(o), s.v))
    def __truediv__(s, o): return T(div(s.v, s._o(o)))
    def __rtruediv__(s, o): return T(div(s._o(o), s.v))
    def __pow__(s, o): return T(power(s.v, s._o(o)))
    def __rpow__(s, o): return T(power(s._o(o), s.v))
    def __neg__(s): return T(neg(s.v))
    def __eq__(s, o): return T(cmpop('Eq', s.v, s._o(o)))
    def __lt__(s, o): return T(cmpop('Lt', s.v, s._o(o)))
    def __gt__(s, o): return T(cmpop('Gt', s.v, s._o(o)))
    __hash__ = None
def raw(v): return v.v if isinstance(v, T) else v
class Sym:
    pi = T(PI)
    def q(self, s): return T(Fraction(s))
    def r(self, v): return T(raw(v))
    def S(self, a, b, f, kind='sum'):
        a, b = raw(a), raw(b)
        n = conc(add(sub(b, a), 1))
        if not isz(n) and n <= 40:
            r = 0 if kind == 'sum' else 1
            for k in range(n): r = add(r, raw(f(T(add(a, k))))) if kind == 'sum' else mul(r, raw(f(T(add(a, k)))))
            return T(r)
        return T(binder(kind, n, lambda i: raw(f(T(add(a, i))))))
    def P(self, a, b, f): return self.S(a, b, f, 'prod')
    def Max(self, a, b, f): return T(binder('max', add(sub(raw(b), raw(a)), 1), lambda i: raw(f(T(add(raw(a), i))))))
    def __getattr__(self, n):
        if n in REAL_FUNS: return lambda v: T(fun(n, raw(v)))
        raise AttributeError(n)
    def abs(self, v): return T(absv(raw(v)))
    def floor(self, v): return T(floor(raw(v)))
    def fmod(self, a, b): return T(fmod(raw(a), raw(b)))
    def pow(self, a, b): return T(power(raw(a), raw(b)))
    def ite(self, c, a, b): return T(ite(raw(c), raw(a()), raw(b())))
    def wrap(self, i, D):
        i, D = raw(i), raw(D)
        return T(ite(cmpop('Lt', i, 1), add(i, D), ite(cmpop('Gt', i, D), sub(i, D), i)))
    def idiv(self, a, b): return T(floordiv(raw(a), raw(b)))

def problem_classes():
    out = []
    for f in sorted(glob.glob(src.ROOT + 'niapy/problems/*.py')):
        if f.endswith('__init__.py') or f.endswith('/problem.py'): continue
        m = src.module(f[len(src.ROOT):-3].replace('/', '.'))
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                c = src.get_class(m, n)
                if c.isa('Problem') and '_evaluate' in [k for q in c.mro for k in q.own]: out.append(c)
    return out

def verify(name, timeout=4000):
    """-> dict(status, obligations [(what, ok)], ...)"""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    cls = [c for c in problem_classes() if c.name == name][0]
    s = SPECS[name]
    res = {'name': name, 'obs': [], 'error': None}
    pv = Prover(timeout)
    D = z3.Int('D')
    hyps = [D >= s['mind']]
    if s['fixed']: hyps = [D == s['fixed']]
    if s['mult'] > 1:
        q = z3.Int('Dq'); hyps += [q >= 1]; D = s['mult'] * q
    fv = FV(hyps, pv)
    try:
        P = {}
        for p in s['params']:
            k = z3.Int('par_' + p) if p in ('k_max',) else z3.Real('par_' + p)
            P[p] = k
            if p == 'k_max': hyps.append(k >= 0); fv.hyps.append(k >= 0)
            if p == 'b' and name == 'Weierstrass': pass
        X = z3.Function('x', I, R)
        def hook(f, fn, args, kw):
            # the base constructor by its contract (verified in P13): dimension, lower and upper are set
            if isinstance(fn, Fn) and fn.owner is not None and fn.owner.name == 'Problem' and fn.node.name == '__init__':
                o = args[0]; names = ['dimension', 'lower', 'upper']
                b = dict(zip(names, args[1:])); b.update({k: v for k, v in kw.items() if k in names})
                d = b.get('dimension', 1)
                o.f['dimension'] = d
                o.f['lower'] = Arr([d], lambda i: z3.Function('lo', I, R)(toint(i)))
                o.f['upper'] = Arr([d], lambda i: z3.Function('up', I, R)(toint(i)))
                return None
            return NotImplemented
        fv.hook = hook
        kw = {p.rstrip('_'): v for p, v in P.items()}
        if not s['fixed']: kw['dimension'] = D
        o = fv.new(cls, [], kw)
        dim = o.f.get('dimension')
        okd = dim is not None and fv.pv.valid(fv.hyps, toint(dim) == toint(D if not s['fixed'] else s['fixed']))
        res['obs'].append(('the problem has the requested dimension', okd))
        Dt = s['fixed'] or D
        x = Arr([Dt], lambda i: X(toint(i)))
        fn0 = x.fn
        m = Sym()
        want = raw(s['f'](m, lambda i: T(X(toint(sub(raw(i), 1)))), T(Dt) if isz(Dt) else Dt, *[T(P[p]) for p in s['params']]))
        before = dict(o.f)
        ps = fv.paths(lambda: fv.method(o, '_evaluate', [x]))
        res['paths'] = len(ps)
        for pc, r in ps:
            if isinstance(r, Raised):
                res['obs'].append(('no exception for a point of the right dimension (%s)' % r.what, False)); continue
            if isinstance(r, Arr) and r.nd == 0: r = r.fn()
            if not isnum(r):
                res['obs'].append(('the value is a number', False)); continue
            ok = pv.equal(r, want, fv.hyps + pc)
            res['obs'].append(('the value is the documented formula', ok)); res['last'] = getattr(pv, 'last', None)
            if not ok: res['got'] = str(simp(toreal(r)))[:1500]; res['want'] = str(simp(toreal(want)))[:1500]
        res['obs'].append(('the point is not modified', x.fn is fn0))
        res['obs'].append(('evaluation does not change the problem', all(o.f.get(k) is v for k, v in before.items()) and set(o.f) == set(before)))
    except Unsupported as e: res['error'] = 'unsupported: %s (%s)' % (e, getattr(e, 'at', ''))
    except Raised as e: res['obs'].append(('no exception (%s)' % e.what, False))
    except z3.Z3Exception as e:
        import traceback; res['error'] = 'solver: %s' % e; res['tb'] = traceback.format_exc()
    except RecursionError: res['error'] = 'recursion'
    except Exception as e:
        import traceback; res['error'] = 'internal: %r' % e; res['tb'] = traceback.format_exc()
    res['queries'], res['solver_s'], res['wall'] = pv.n, pv.t, time.time() - t0
    res['functions'] = sorted(fv.inlined)
    return res
if __name__ == '__main__':
    for n in sys.argv[1:] or SPECS:
        r = verify(n)
        print('%-32s %.1fs %s %s' % (n, r['wall'], r['error'] or '', [o for o in r['obs'] if not o[1]]))
        if r.get('tb'): print(r['tb'])
