"""Sources of randomness of the functions that algorithms call by contract (vc/contracts.py): every draw comes from the generator
that is passed, whatever the other arguments are."""
from fv.eng import *
ALG = 'niapy.algorithms.algorithm'
def draws_of(s, what, f, th):
    hit = False
    for pc, r in f.paths(th):
        if isinstance(r, Raised): continue
        hit = True; s.fact('%s: every draw is from the generator passed' % what, all(d['rng'] == 'rng' for d in r), [d['rng'] for d in r])
    s.fact('%s: has a result' % what, hit)
def levy(s):
    for nm, size in (('one step', lambda: None), ('a vector of steps', lambda: z3.Int('n')), ('a matrix of steps', lambda: (z3.Int('n'), z3.Int('m')))):
        f = s.fv([z3.Int('n') >= 1, z3.Int('m') >= 1, z3.Real('beta') > 0, z3.Real('beta') <= 2]); fn = s.fn('niapy.util.random', 'levy_flight')
        def th():
            f.rng_draws.clear(); f.call_fn(fn, [], {'rng': Opaque('rng'), 'alpha': z3.Real('alpha'), 'beta': z3.Real('beta'), 'size': size()}); return list(f.rng_draws)
        draws_of(s, 'levy_flight (%s)' % nm, f, th)
def rep(name):
    def c(s):
        from specs import c_p09
        D, f = c_p09.setup(s); fn = s.fn(c_p09.MOD, name)
        def th():
            f.rng_draws.clear(); f.call_fn(fn, [c_p09.mk(D, c_p09.X), c_p09.mk(D, c_p09.LO), c_p09.mk(D, c_p09.UP)], {'rng': Opaque('rng')}); return list(f.rng_draws)
        draws_of(s, name, f, th)
    return c
CONTRACTS = {'levy_flight': levy}
for n in ('limit', 'limit_inverse', 'wang', 'rand', 'reflect'): CONTRACTS['repair.' + n] = rep(n)
