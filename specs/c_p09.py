"""Repair functions.  requires lower <= upper (component-wise), all of one length D (symbolic)
ensures   lower and upper are unchanged;
          every component lies within its bounds; a component that was within its bounds is unchanged;
          limit / limit_inverse / wang: the value of a repaired component; rand: drawn uniformly between the bounds of the
          component from the generator that was passed."""
from fv.eng import *
MOD = 'niapy.util.repair'
LO, UP, X = z3.Function('lo', I, R), z3.Function('up', I, R), z3.Function('x', I, R)
def setup(s):
    D = z3.Int('D'); q = ivar('q')
    f = s.fv([D >= 1, z3.ForAll([q], LO(q) <= UP(q), patterns=[LO(q), UP(q)])])
    return D, f
def mk(D, F): return Arr([D], lambda i: F(toint(i)))
def check(name, rule=None, kw=None):
    def c(s):
        D, f = setup(s); fn = s.fn(MOD, name)
        i = ivar('i')
        def run():
            f.rng_draws.clear(); f.events.clear()
            x, lo, up = mk(D, X), mk(D, LO), mk(D, UP)
            f0, f1 = lo.fn, up.fn
            r = f.call_fn(fn, [x, lo, up], kw(f) if kw else {'rng': Opaque('rng')})
            return x, lo, up, f0, f1, r, list(f.rng_draws)
        for pc, res in f.paths(run):
            if isinstance(res, Raised): s.fact('no exception', False, res.what); continue
            x, lo, up, f0, f1, r, draws = res
            hy = f.hyps + pc + [i >= 0, i < D]
            s.fact('a point is returned', isinstance(r, Arr), 'returned %r' % (r,))
            if not isinstance(r, Arr): continue
            s.fact('the bounds are not modified', lo.fn is f0 and up.fn is f1)
            v = toreal(r.at(i)); hy = f.hyps + pc + [i >= 0, i < D]
            s.ob('the result has the length of the point', hy, toint(r.shape[0]) == D)
            s.ob('every component is within its bounds', hy, z3.And(LO(i) <= v, v <= UP(i)))
            s.ob('a component within its bounds is unchanged', hy + [LO(i) <= X(i), X(i) <= UP(i)], v == X(i))
            if rule is not None: rule(s, f, hy, i, v, draws)
    return c
def limit(s, f, hy, i, v, d):
    s.ob('limit: a violating component is put on the bound it violates', hy, v == z3.If(X(i) < LO(i), LO(i), z3.If(X(i) > UP(i), UP(i), X(i))))
def limit_inverse(s, f, hy, i, v, d):
    s.ob('limit_inverse: a violating component is put on the opposite bound', hy, v == z3.If(X(i) < LO(i), UP(i), z3.If(X(i) > UP(i), LO(i), X(i))))
def wang(s, f, hy, i, v, d):
    a, b = 2 * LO(i) - X(i), 2 * UP(i) - X(i)
    s.ob('wang: a violating component is mirrored at the bound it violates, at most to the opposite bound', hy,
         v == z3.If(X(i) < LO(i), z3.If(a <= UP(i), a, UP(i)), z3.If(X(i) > UP(i), z3.If(b >= LO(i), b, LO(i)), X(i))))
def rand(s, f, hy, i, v, draws):
    s.fact('rand: draws come from the generator that was passed', all(d['rng'] == 'rng' for d in draws) and draws, [d['rng'] for d in draws])
    alts = [z3.And(toreal(d['lo'](i)) == LO(i), toreal(d['hi'](i)) == UP(i), v == d['f'](i)) for d in draws if d['kind'] == 'uniform' and len(d['shape']) == 1]
    alts += [z3.And(toreal(d['lo'](i)) == 0, toreal(d['hi'](i)) == 1, v == LO(i) + d['f'](i) * (UP(i) - LO(i))) for d in draws if d['kind'] in ('uniform', 'random') and len(d['shape']) == 1]
    s.ob('rand: a violating component is a uniform draw between its bounds', hy + [z3.Or(X(i) < LO(i), X(i) > UP(i))], z3.Or(*alts))
def det(s, f, hy, i, v, draws): s.fact('the repair is deterministic', not draws)
def both(*fs): return lambda *a: [f(*a) for f in fs]
CONTRACTS = {'repair.limit': check('limit', both(limit, det)), 'repair.limit_inverse': check('limit_inverse', both(limit_inverse, det)), 'repair.wang': check('wang', both(wang, det)),
             'repair.rand': check('rand', rand), 'repair.reflect': check('reflect', det)}
