"""Variation operators: what the offspring is made of, for every population, every size, every index and every draw.

The population is N individuals of D components (N, D symbolic), P(k, i) component i of member k.  The draws an operator makes
are values of the generator's contract (a `random` draw is in [0, 1), an `integers` draw in its range, a `choice` without
replacement gives pairwise different entries of positive probability); the offspring is a postcondition over these values."""
from fv.eng import *
from fv.interp import LoopSpec
DE = 'niapy.algorithms.basic.de'
GA = 'niapy.algorithms.basic.ga'
P = z3.Function('P', I, I, R)
XB = z3.Function('XB', I, R)
class Pop(SymList):
    """the population as a list of Individuals; `touched` are the members the code looked at"""
    def __init__(self, s, n, d, cls=None):
        self.touched = {}
        def get(k):
            t = simp(toint(k))
            if t.get_id() not in self.touched:
                x = Arr([d], lambda i, t=t: P(t, toint(i)))
                o = Obj(cls, {'x': x, 'f': FIT(t)})
                self.touched[t.get_id()] = (t, o, x, x.fn)
            return self.touched[t.get_id()][1]
        SymList.__init__(self, n, get)
    def unchanged(self): return all(o.f.get('x') is x and x.fn is f for t, o, x, f in self.touched.values())
FIT = z3.Function('fit', I, R)
def draws(f, kind): return [d for d in f.rng_draws if d['kind'] == kind]
def one(f, kind, ok=lambda d: True):
    l = [d for d in draws(f, kind) if ok(d)]
    if len(l) != 1: raise Unsupported('%d draws of kind %s where the contract identifies one' % (len(l), kind))
    return l[0]
def unit(f, i):
    """the uniform number drawn for component i"""
    d = one(f, 'random')
    if len(d['shape']) == 1 and not d['ctx']: return toreal(d['f'](i))
    if not d['shape'] and len(d['ctx']) == 1: return d['decl'](toint(i))
    raise Unsupported('crossover draws')
def setup(s, form, minpop=1, minidx=True, extra=()):
    N, D, ic = z3.Int('N'), z3.Int('D'), z3.Int('ic')
    f = s.fv([N >= minpop, D >= 1, ic >= 0, ic < N] + list(extra))
    icls = s.cls('niapy.algorithms.algorithm', 'Individual')
    def mk(): return Pop(s, N, D, icls) if form == 'individuals' else Arr([N, D], lambda k, i: P(toint(k), toint(i)))
    return f, N, D, ic, mk
def same(pop, fn): return pop.unchanged() if isinstance(pop, Pop) else pop.fn is fn
def call(f, fn, args, kw, pop):
    f.rng_draws = dl = []; f.events.clear(); fn0 = pop.fn
    r = f.call_fn(fn, args, kw)
    return r, same(pop, fn0), dl
def donors(s, f, hy, N, ic, k, what):
    """the k donor indices: members of the population, pairwise different and different from the parent"""
    d = one(f, 'choice')
    if [conc(q) for q in d['shape']] != [k]: raise Unsupported('donor draw')
    r = [toint(d['f'](z3.IntVal(j))) for j in range(k)]
    s.ob('%s: the donors are members of the population' % what, hy, z3.And(*[z3.And(q >= 0, q < N) for q in r]))
    s.ob('%s: the donors are pairwise different' % what, hy, z3.Distinct(*r))
    s.ob('%s: the parent is no donor' % what, hy, z3.And(*[q != ic for q in r]))
    p = d['p']
    if p is not None:
        # the draw is possible: the probabilities sum to one (induction over the members)
        g = lambda a: toreal(p.fn(a)); m = z3.Int('m')
        S = lambda a: z3.If(a <= ic, z3.ToReal(a), z3.ToReal(a) - 1) / (z3.ToReal(N) - 1)      # ghost: the sum of the first a probabilities
        s.ob('%s: the probabilities of the donors sum to one (base)' % what, hy, S(z3.IntVal(0)) == 0)
        s.ob('%s: the probabilities of the donors sum to one (step)' % what, hy + [m >= 0, m < N], S(m + 1) == S(m) + g(m))
        s.ob('%s: the probabilities of the donors sum to one' % what, hy, S(N) == 1)
        s.ob('%s: one probability per member, none negative' % what, hy + [m >= 0, m < N], z3.And(toint(p.shape[0]) == N, g(m) >= 0))
    return r
def forced(f, D):
    d = one(f, 'integers', lambda d: not d['shape'] and not d['ctx'])
    return toint(d['f']())
def binomial(s, f, hy, r, D, ic, mutant, what, cr, parent=None):
    """binomial crossover: the mutant's component where the draw is below the rate or the position is the forced one"""
    i = ivar('i'); h = hy + [i >= 0, i < D]
    s.ob('%s: the offspring has one component per dimension' % what, hy, toint(r.shape[0]) == D)
    x = toreal(r.at(i)); j = forced(f, D); u = unit(f, i)
    s.ob('%s: the forced position is a component' % what, hy, z3.And(j >= 0, j < D))
    take = z3.Or(u < cr, i == j); q = parent(i) if parent else P(ic, i)
    s.ob('%s: a component selected for crossover is the mutant\'s' % what, h + [take], x == mutant(i))
    s.ob('%s: every other component is the parent\'s' % what, h + [z3.Not(take)], x == q)
F_, CR = z3.Real('F'), z3.Real('cr')
MUT = {'cross_rand1': (3, lambda ic, i, r: P(r[0], i) + F_ * (P(r[1], i) - P(r[2], i))),
       'cross_best1': (2, lambda ic, i, r: XB(i) + F_ * (P(r[0], i) - P(r[1], i))),
       'cross_rand2': (5, lambda ic, i, r: P(r[0], i) + F_ * (P(r[1], i) - P(r[2], i)) + F_ * (P(r[3], i) - P(r[4], i))),
       'cross_best2': (4, lambda ic, i, r: XB(i) + F_ * (P(r[0], i) - P(r[1], i)) + F_ * (P(r[2], i) - P(r[3], i))),
       'cross_curr2rand1': (4, lambda ic, i, r: P(ic, i) + F_ * (P(r[0], i) - P(r[1], i)) + F_ * (P(r[2], i) - P(r[3], i))),
       'cross_curr2best1': (3, lambda ic, i, r: P(ic, i) + F_ * (XB(i) - P(r[0], i)) + F_ * (P(r[1], i) - P(r[2], i)))}
def de(name):
    k, mut = MUT[name]
    def c(s):
        fn = s.fn(DE, name)
        for form in ('individuals', 'array'):
            f, N, D, ic, mk = setup(s, form, k + 1)
            def th():
                pop = mk(); xb = Arr([D], lambda i: XB(toint(i))); g = xb.fn
                kw = {'rng': Opaque('rng')}
                if 'best' in name: kw['x_b'] = xb
                r, ok, dl = call(f, fn, [pop, ic, F_, CR], kw, pop)
                return r, ok and xb.fn is g, pop, dl
            for pc, res in f.paths(th):
                if isinstance(res, Raised): s.fact('no exception', False, res.what); continue
                r, ok, pop, f.rng_draws = res; hy = f.hyps + pc; w = '%s (%s)' % (name, form)
                s.fact('%s: an array is returned' % w, isinstance(r, Arr) and r.nd == 1, r)
                if not isinstance(r, Arr): continue
                idx = donors(s, f, hy, N, ic, k, w)
                binomial(s, f, hy, r, D, ic, lambda i: mut(ic, i, idx), w, CR)
                s.fact('%s: the population and the best are not modified' % w, ok and not (isinstance(pop, Pop) and any(r is t[2] for t in pop.touched.values())))
                s.fact('%s: every draw is from the generator passed' % w, all(d['rng'] == 'rng' for d in f.rng_draws))
        # a small population: still an offspring of the right size, made of members
        f, N, D, ic, mk = setup(s, 'array', 1, extra=[z3.Int('N') <= k])
        for pc, res in f.paths(lambda: call(f, fn, (lambda p: [p, ic, F_, CR])(mk()), dict({'rng': Opaque('rng')}, **({'x_b': Arr([D], lambda i: XB(toint(i)))} if 'best' in name else {})), mk())):
            if isinstance(res, Raised): s.fact('%s: a small population raises no exception' % name, False, res.what); continue
            r, _, f.rng_draws = res; s.ob('%s: small population: one component per dimension' % name, f.hyps + pc, toint(r.shape[0]) == D)
            d = one(f, 'choice'); idx = [toint(d['f'](z3.IntVal(j))) for j in range(k)]
            s.ob('%s: small population: the donors are members of the population' % name, f.hyps + pc, z3.And(*[z3.And(q >= 0, q < N) for q in idx]))
            if d['replace'] is False: s.ob('%s: small population: the donors can be drawn' % name, f.hyps + pc, N >= k)
            i = ivar('i')
            binomial(s, f, f.hyps + pc, r, D, ic, lambda i: mut(ic, i, idx), name + ' (small population)', CR)
    return c
CONTRACTS = {n: de(n) for n in MUT}
# ------------------------------------------------------------------ genetic algorithm
def fact_paths(s, f, th, what):
    for pc, res in f.paths(th):
        if isinstance(res, Raised): s.fact('%s: no exception' % what, False, res.what); continue
        f.rng_draws = res[-1]
        s.fact('%s: every draw is from the generator passed' % what, all(d['rng'] == 'rng' for d in f.rng_draws))
        yield (f.hyps + pc,) + tuple(res)
def frame(s, what, pop, ok, r=None):
    s.fact('%s: the individuals of the population are not modified' % what, ok)
    if r is not None: s.fact('%s: the offspring is a new array' % what, not any(r is t[2] for t in pop.touched.values()))
def tournament(s):
    ts = z3.Int('ts')
    f, N, D, ic, mk = setup(s, 'individuals', 1, extra=[ts >= 1, ts <= z3.Int('N')]); fn = s.fn(GA, 'tournament_selection'); w = 'tournament_selection'
    for hy, r, ok, pop, dl in fact_paths(s, f, lambda: (lambda p: (lambda c: (c[0], c[1], p, c[2]))(call(f, fn, [p, ic, ts, Arr([D], lambda i: XB(toint(i)))], {'rng': Opaque('rng')}, p)))(mk()), w):
        d = one(f, 'choice'); hy = f.hyps + hy
        k = [t for t in pop.touched.values() if t[1] is r]
        s.fact('%s: an individual of the population is returned' % w, len(k) == 1, r)
        if len(k) != 1: continue
        k = k[0][0]; q, p = ivar('q'), ivar('p')
        s.ob('%s: as many competitors as the tournament has places' % w, hy, toint(d['shape'][0]) == ts)
        s.ob('%s: the competitors are pairwise different' % w, hy + [q >= 0, q < ts, p >= 0, p < ts, q != p], toint(d['f'](q)) != toint(d['f'](p)))
        s.ob('%s: the winner is one of the competitors' % w, hy, z3.Exists([q], z3.And(q >= 0, q < ts, k == toint(d['f'](q)))))
        s.ob('%s: no competitor is better than the winner' % w, hy + [q >= 0, q < ts], FIT(k) <= FIT(toint(d['f'](q))))
        frame(s, w, pop, ok)
def mate_of(s, f, hy, N, D, ic, pop, what):
    """the other parent: the member (besides ic) whose components the offspring may have"""
    ks = [t[0] for t in pop.touched.values() if not t[0].eq(ic)]
    m = [d for d in draws(f, 'integers') + draws(f, 'choice') if not d['shape'] and not d['ctx'] and any(z3.is_app(k) and k.eq(toint(d['f']())) for k in ks)]
    if len(m) > 1: raise Unsupported('mate draws')
    k = toint(m[-1]['f']()) if m else ks[0] if len(ks) == 1 else ic
    s.ob('%s: the mate is a member of the population' % what, hy, z3.And(k >= 0, k < N))
    s.ob('%s: the mate is another individual' % what, hy + [N > 1], k != ic)
    return k
def gacross(name):
    def c(s):
        n = 2
        f, N, D, ic, mk = setup(s, 'individuals', 1); fn = s.fn(GA, name); third = CR if name != 'multi_point_crossover' else n
        for hy, r, ok, pop, dl in fact_paths(s, f, lambda: (lambda p: (lambda c: (c[0], c[1], p, c[2]))(call(f, fn, [p, ic, third], {'rng': Opaque('rng')}, p)))(mk()), name):
            s.fact('%s: an array is returned' % name, isinstance(r, Arr) and r.nd == 1, r)
            if not isinstance(r, Arr): continue
            i = ivar('i'); x = toreal(r.at(i)); hy = f.hyps + hy; h = hy + [i >= 0, i < D]
            s.ob('%s: one component per dimension' % name, hy, toint(r.shape[0]) == D)
            k = mate_of(s, f, hy, N, D, ic, pop, name)
            if name == 'uniform_crossover':
                j = [d for d in draws(f, 'integers') if not d['shape'] and not d['ctx'] and not toint(d['f']()).eq(k)]
                if len(j) != 1: raise Unsupported('forced position')
                j = toint(j[0]['f']()); take = z3.Or(unit(f, i) < CR, i == j)
                s.ob('%s: the forced position is a component' % name, hy, z3.And(j >= 0, j < D))
                s.ob('%s: a component selected for crossover is the mate\'s' % name, h + [take], x == P(k, i))
                s.ob('%s: every other component is the parent\'s' % name, h + [z3.Not(take)], x == P(ic, i))
            elif name == 'crossover_uros':
                u = unit(f, i); a = CR + (1 + 2 * CR) * u
                s.ob('%s: every component is the weighted combination of the parents\' components' % name, h, x == a * P(ic, i) + (1 - a) * P(k, i))
            else:
                d = one(f, 'choice', lambda d: len(d['shape']) == 1); cut = [toint(d['f'](z3.IntVal(q))) for q in range(conc(d['shape'][0]))]
                s.ob('%s: the cut points are positions' % name, hy, z3.And(*[z3.And(q >= 0, q < D) for q in cut]))
                s.ob('%s: every component is the parent\'s or the mate\'s' % name, h, z3.Or(x == P(ic, i), x == P(k, i)))
                if len(cut) == 2:
                    lo, hi = z3.If(cut[0] <= cut[1], cut[0], cut[1]), z3.If(cut[0] <= cut[1], cut[1], cut[0])
                    s.ob('%s: between the cut points the mate\'s components' % name, h + [i >= lo, i < hi], x == P(k, i))
                    s.ob('%s: outside the cut points the parent\'s components' % name, h + [z3.Not(z3.And(i >= lo, i < hi))], x == P(ic, i))
            frame(s, name, pop, ok, r)
    return c
LO, UP = z3.Function('lo', I, R), z3.Function('up', I, R)
class TaskModel(Opaque):
    """a task: dimension, bounds with lower <= upper; repair and eval by their contracts (a new point; a number)"""
    def __init__(self, f, D):
        Opaque.__init__(self, 'task'); self.D = D; self.repairs, self.evals = [], []
        q = ivar('q'); f.hyps.append(z3.ForAll([q], LO(q) <= UP(q), patterns=[LO(q), UP(q)]))
        vec = lambda F: Arr([D], lambda i: F(toint(i)))
        self.attrs = {'dimension': D, 'lower': vec(LO), 'upper': vec(UP), 'range': Arr([D], lambda i: UP(toint(i)) - LO(toint(i))), 'max_evals': z3.Int('max_evals'), 'iters': z3.Int('iters'),
                      'repair': self.repair, 'eval': self.eval, 'stopping_condition': lambda: fresh(B, 'stop')}
        self.f0 = [self.attrs[k].fn for k in ('lower', 'upper', 'range')]
    def frame(self): return [self.attrs[k].fn for k in ('lower', 'upper', 'range')] == self.f0
    def repair(self, x, rng=None):
        F = z3.Function('repaired%d' % len(self.repairs), I, R); src = x.fn
        r = Arr(x.shape, lambda i: F(toint(i))); self.repairs.append((src, r, F, x.shape, rng)); return r
    def eval(self, x):
        v = fresh(R, 'value'); self.evals.append((x.fn, v, x)); return v
def gamut(name):
    def c(s):
        f, N, D, ic, mk = setup(s, 'individuals', 1); fn = s.fn(GA, name); mr = z3.Real('mr'); t = TaskModel(f, D)
        for hy, r, ok, pop, dl in fact_paths(s, f, lambda: (lambda p: (lambda c: (c[0], c[1], p, c[2]))(call(f, fn, [p, ic, mr, t], {'rng': Opaque('rng')}, p)))(mk()), name):
            s.fact('%s: an array is returned' % name, isinstance(r, Arr) and r.nd == 1, r)
            if not isinstance(r, Arr): continue
            i = ivar('i'); x = toreal(r.at(i)); hy = f.hyps + hy; h = hy + [i >= 0, i < D]
            s.ob('%s: one component per dimension' % name, hy, toint(r.shape[0]) == D)
            if name == 'mutation_uros':
                s.ob('%s: every component is within its bounds' % name, h, z3.And(LO(i) <= x, x <= UP(i)))
                d = one(f, 'normal'); g = toreal(d['f'](i))
                s.fact('%s: normal around the individual' % name, d['lo'] is not None)
                s.ob('%s: the centre is the individual' % name, h, toreal(d['lo'](i)) == P(ic, i))
                s.ob('%s: the spread is the rate times the range' % name, h, toreal(d['hi'](i)) == mr * (UP(i) - LO(i)))
                s.ob('%s: a component within its bounds is the drawn one' % name, h + [LO(i) <= g, g <= UP(i)], x == g)
            else:
                k = ic
                ints = [toint(d['f']()) for d in draws(f, 'integers') if not d['shape'] and not d['ctx']]
                if name == 'creep_mutation':
                    ks = [q for q in ints if any(q.eq(t[0]) for t in pop.touched.values())]
                    if len(ks) != 1: raise Unsupported('individual draw')
                    k = ks[0]; s.ob('%s: the individual is a member of the population' % name, hy, z3.And(k >= 0, k < N))
                j = [q for q in ints if not q.eq(k)]
                if len(j) != 1: raise Unsupported('forced position')
                j = j[0]; un = one(f, 'uniform'); take = z3.Or(unit(f, i) < mr, i == j)
                u = un['decl'](toint(i)) if un['ctx'] else toreal(un['f'](i))
                s.ob('%s: the forced position is a component' % name, hy, z3.And(j >= 0, j < D))
                s.ob('%s: a mutated component is drawn between its bounds' % name, h + [take], z3.And(x == u, LO(i) <= x, x <= UP(i)))
                s.ob('%s: every other component is kept' % name, h + [z3.Not(take)], x == P(k, i))
            frame(s, name, pop, ok and t.frame(), r)
    return c
CONTRACTS['tournament_selection'] = tournament
for n in ('two_point_crossover', 'multi_point_crossover', 'uniform_crossover', 'crossover_uros'): CONTRACTS[n] = gacross(n)
for n in ('uniform_mutation', 'creep_mutation', 'mutation_uros'): CONTRACTS[n] = gamut(n)
# ------------------------------------------------------------------ further operators
def roulette(s):
    """the individual with probability (sum of the first fitness shares), otherwise the best"""
    f, N, D, ic, mk = setup(s, 'individuals', 1); fn = s.fn(GA, 'roulette_selection'); w = 'roulette_selection'
    def th():
        p = mk(); xb = Arr([D], lambda i: XB(toint(i)))
        r, ok, dl = call(f, fn, [p, ic, z3.Int('ts'), xb], {'rng': Opaque('rng')}, p)
        return r, ok, p, xb, dl
    for hy, r, ok, pop, xb, dl in fact_paths(s, f, th, w):
        hy = f.hyps + hy; u = one(f, 'random')
        s.fact('%s: one number is drawn' % w, not u['shape'] and not u['ctx'])
        own = [t for t in pop.touched.values() if t[2] is r or t[1] is r]
        s.fact('%s: the individual or the best is returned' % w, r is xb or len(own) == 1, r)
        if own: s.ob('%s: the individual returned is the one asked for' % w, hy, own[0][0] == ic)
        tot = binder('sum', N, lambda k: FIT(toint(k)))
        q = binder('sum', add(ic, 1), lambda k: div(FIT(toint(k)), tot)); un = toreal(u['f']())
        g = un < q if own else un >= q
        ok2 = any(s.pv.equal(z3.If(c, z3.RealVal(1), z3.RealVal(0)), z3.RealVal(1), hy) for c in (g,)) or quot(s, f, hy, g, un, ic, N, own)
        s.fact('%s: selected exactly when the number is below the cumulated share' % w, ok2, hy)
        frame(s, w, pop, ok)
def quot(s, f, hy, g, un, ic, N, own):
    """the path condition compares the draw with a sum that equals the cumulated share"""
    for h in hy:
        for a in apps(h):
            tot = binder('sum', N, lambda k: FIT(toint(k)))
            want = binder('sum', add(ic, 1), lambda k: div(FIT(toint(k)), tot))
            if s.pv.equal(a, want, list(f.hyps)) and s.pv.valid(hy + [a == want], g): return True
    return False
CONTRACTS['roulette_selection'] = roulette
SH = 'niapy.algorithms.modified.shade'
AR = z3.Function('A', I, I, R)
def medium(v, x, i): return z3.If(v < LO(i), (LO(i) + x) / 2, z3.If(v > UP(i), (UP(i) + x) / 2, v))
def parent_medium(s):
    D = z3.Int('D'); f = s.fv([D >= 1]); t = TaskModel(f, D); V, XP = z3.Function('v', I, R), z3.Function('xp', I, R); w = 'parent_medium'
    for pc, r in f.paths(lambda: (lambda p: (f.call_fn(s.fn(SH, 'parent_medium'), [Arr([D], lambda i: V(toint(i))), p, t.attrs['lower'], t.attrs['upper']], {}), p, p.fn))(Arr([D], lambda i: XP(toint(i))))):
        if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
        r, p, g = r; i = ivar('i'); hy = f.hyps + pc + [i >= 0, i < D]
        s.fact('%s: an array is returned' % w, isinstance(r, Arr) and r.nd == 1, r)
        s.ob('%s: one component per dimension' % w, hy, toint(r.shape[0]) == D)
        x = toreal(r.at(i))
        s.ob('%s: a component below its bound goes half way between the bound and the parent' % w, hy + [V(i) < LO(i), LO(i) <= XP(i), XP(i) <= UP(i)], x == (LO(i) + XP(i)) / 2)
        s.ob('%s: a component above its bound goes half way between the bound and the parent' % w, hy + [V(i) > UP(i), LO(i) <= XP(i), XP(i) <= UP(i)], x == (UP(i) + XP(i)) / 2)
        s.ob('%s: every other component is kept' % w, hy + [LO(i) <= V(i), V(i) <= UP(i)], x == V(i))
        s.ob('%s: a feasible parent gives a feasible point' % w, hy + [LO(i) <= XP(i), XP(i) <= UP(i)], z3.And(LO(i) <= x, x <= UP(i)))
        s.fact('%s: the parent and the bounds are not modified' % w, p.fn is g and t.frame())
CONTRACTS['parent_medium'] = parent_medium
def pbest(s):
    w = 'cross_curr2pbest1'; C, pn = z3.Int('C'), z3.Int('pn')
    f, N, D, ic, mk = setup(s, 'individuals', 3, extra=[C >= 0, pn >= 1, pn <= z3.Int('N')]); t = TaskModel(f, D); fn = s.fn(SH, w)
    def th():
        p = mk(); ar = Arr([C, D], lambda k, i: AR(toint(k), toint(i))); g = ar.fn
        r, ok, dl = call(f, fn, [p, ic, F_, CR], {'rng': Opaque('rng'), 'p_num': pn, 'archive': ar, 'arc_ind_cnt': C, 'task': t}, p)
        return r, ok and ar.fn is g and t.frame(), p, dl
    for hy, r, ok, pop, dl in fact_paths(s, f, th, w):
        hy = f.hyps + hy
        s.fact('%s: an array is returned' % w, isinstance(r, Arr) and r.nd == 1, r)
        if not isinstance(r, Arr): continue
        dn = [d for d in draws(f, 'choice') if not d['shape']]; it = [d for d in draws(f, 'integers') if not d['shape'] and not d['ctx']]
        if len(dn) != 2 or len(it) != 2: raise Unsupported('donor draws')
        r1, r2 = [toint(d['f']()) for d in dn]; pb, j = [toint(d['f']()) for d in it]
        s.ob('%s: the guide is one of the best' % w, hy, z3.And(pb >= 0, pb < pn))
        s.ob('%s: the forced position is a component' % w, hy, z3.And(j >= 0, j < D))
        s.ob('%s: the first donor is another member' % w, hy, z3.And(r1 >= 0, r1 < N, r1 != ic))
        s.ob('%s: the second donor is a third member or an archived one' % w, hy, z3.And(r2 >= 0, r2 < N + C, r2 != ic, r2 != r1))
        for d, n, ex in ((dn[0], N, lambda a: z3.If(a <= ic, 0, 1)), (dn[1], N + C, lambda a: z3.If(a <= ic, 0, 1) + z3.If(a <= r1, 0, 1))):
            p = d['p']
            if p is None: continue
            g = lambda a, p=p: toreal(p.fn(a)); m = z3.Int('m'); tot = toreal(n) - toreal(ex(n))
            S = lambda a: (toreal(a) - toreal(ex(a))) / tot
            s.ob('%s: the probabilities of the donors sum to one (base)' % w, hy, S(z3.IntVal(0)) == 0)
            s.ob('%s: the probabilities of the donors sum to one (step)' % w, hy + [m >= 0, m < n], S(m + 1) == S(m) + g(m))
            s.ob('%s: one probability per candidate, none negative' % w, hy + [m >= 0, m < n], z3.And(toint(p.shape[0]) == n, g(m) >= 0))
        i = ivar('i'); h = hy + [i >= 0, i < D]; x = toreal(r.at(i)); u = unit(f, i)
        take = z3.Or(u < CR, i == j)
        mut = P(ic, i) + F_ * (P(pb, i) - P(ic, i)) + F_ * (P(r1, i) - z3.If(r2 < N, P(r2, i), AR(r2 - N, i)))
        s.ob('%s: one component per dimension' % w, hy, toint(r.shape[0]) == D)
        s.ob('%s: a component selected for crossover is the mutant\'s, repaired towards the parent' % w, h + [take, LO(i) <= P(ic, i), P(ic, i) <= UP(i)], x == medium(mut, P(ic, i), i))
        s.ob('%s: every other component is the parent\'s' % w, h + [z3.Not(take), LO(i) <= P(ic, i), P(ic, i) <= UP(i)], x == P(ic, i))
        frame(s, w, pop, ok, r)
CONTRACTS['cross_curr2pbest1'] = pbest
SA = 'niapy.algorithms.other.sa'
def sa(s):
    """Metropolis rule: the neighbour is always taken when it is better, otherwise with probability exp(-delta / T)"""
    D, w = z3.Int('D'), 'SimulatedAnnealing.run_iteration'; f = s.fv([D >= 1]); cls = s.cls(SA, 'SimulatedAnnealing')
    X0, BX = z3.Function('x', I, R), z3.Function('best', I, R); fx, fb, T, T2, dl, eps = [z3.Real(n) for n in ('fx', 'fb', 'T', 'T2', 'delta', 'eps')]; f.hyps += [dl > 0, eps > 0]
    def th():
        t = TaskModel(f, D); x, b = Arr([D], lambda i: X0(toint(i))), Arr([D], lambda i: BX(toint(i))); f.rng_draws = dr = []; cool = []
        def cm(*a, **k): cool.append((a, k)); return T2
        o = Obj(cls, {'rng': Opaque('rng'), 'delta': dl, 'epsilon': eps, 'starting_temperature': z3.Real('T0'), 'delta_temperature': z3.Real('dT'), 'cooling_method': cm, 'population_size': 1})
        g = x.fn, b.fn
        r = f.method(o, 'run_iteration', [t, x, fx, b, fb], {'current_temperature': T})
        return r, t, x, b, g, cool, o, dr
    for hy, r, t, x, b, g, cool, o, dr in fact_paths(s, f, th, w):
        hy = f.hyps + hy; v = f.items(r)
        s.fact('%s: one neighbour is evaluated' % w, len(t.evals) == 1 and len(t.repairs) == 1)
        if len(t.evals) != 1 or len(t.repairs) != 1: continue
        i = ivar('i'); h = hy + [i >= 0, i < D]; src_, cx, CF, _, rg = t.repairs[0]; c = t.evals[0][1]
        s.fact('%s: the repaired neighbour is evaluated' % w, t.evals[0][2] is cx)
        st = [d for d in dr if len(d['shape']) == 1]
        if len(st) != 1: raise Unsupported('step draws')
        s.ob('%s: the neighbour is within half of delta of the point, in every component' % w, h, z3.And(toreal(src_(i)) >= X0(i) - dl / 2, toreal(src_(i)) <= X0(i) + dl / 2))
        sc = [d for d in dr if not d['shape']]
        if len(sc) != 1: raise Unsupported('acceptance draw')
        u = toreal(sc[0]['f']()); d = c - fx
        took = v[0] is cx
        s.fact('%s: the point of the next iteration is the neighbour or the point itself' % w, took or v[0] is x)
        s.ob('%s: its fitness comes with it' % w, hy, toreal(v[1]) == (c if took else fx))
        s.ob('%s: a better neighbour is always taken' % w, hy, z3.BoolVal(took) == z3.BoolVal(True) if took else d >= 0)
        ex = [a for a in allapps(hy, 'exp')]
        prob = fun('exp', -d / T)
        law = [z3.Implies(a.arg(0) == -d / T, a == prob) for a in ex]
        if took: s.ob('%s: a worse neighbour is taken only if the draw is at most exp(-delta / T)' % w, hy + law + [T >= eps, d >= 0], u <= prob)
        else: s.ob('%s: a worse neighbour is refused only if the draw is at least exp(-delta / T)' % w, hy + law + [T >= eps], u >= prob)
        s.ob('%s: the best is the better of the best and the point' % w, hy, toreal(v[3]) == z3.If((c if took else fx) < fb, c if took else fx, fb))
        s.fact('%s: the temperature is the one the cooling method gives' % w, isinstance(v[4], dict) and v[4].get('current_temperature') is T2 and len(cool) == 1)
        s.fact('%s: the points passed are not modified' % w, (x.fn, b.fn) == g)
def allapps(ts, name):
    out, seen = [], set()
    def walk(u):
        if u.get_id() in seen: return
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().name() == name: out.append(u)
        for c in u.children(): walk(c)
    for t in ts: walk(t)
    return out
CONTRACTS['SimulatedAnnealing.run_iteration'] = sa
def cool(name, want):
    def c(s):
        f = s.fv(); T, T0, dT, n = z3.Real('T'), z3.Real('T0'), z3.Real('dT'), z3.Int('n'); f.hyps.append(n > 0)
        for pc, r in f.paths(lambda: f.call_fn(s.fn(SA, name), [T], {'starting_temperature': T0, 'delta_temperature': dT, 'max_evals': n})):
            if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
            s.ob('%s: the temperature drops by the step' % name, f.hyps + pc, toreal(r) == want(T, T0, dT, z3.ToReal(n)))
    return c
CONTRACTS['cool_delta'] = cool('cool_delta', lambda T, T0, dT, n: T - dT)
CONTRACTS['cool_linear'] = cool('cool_linear', lambda T, T0, dT, n: T - T0 / n)
def neighborhood(s):
    D, dl, w = z3.Int('D'), z3.Real('delta'), 'neighborhood'; f = s.fv([D >= 1, dl > 0]); X0 = z3.Function('x', I, R)
    def th():
        t = TaskModel(f, D); x = Arr([D], lambda i: X0(toint(i))); g = x.fn; f.rng_draws = dr = []
        return f.call_fn(s.fn('niapy.algorithms.other.hc', 'neighborhood'), [x, dl, t], {'rng': Opaque('rng')}), t, x, g, dr
    for hy, r, t, x, g, dr in fact_paths(s, f, th, w):
        hy = f.hyps + hy; v = f.items(r); i = ivar('i'); h = hy + [i >= 0, i < D]
        s.fact('%s: one point is repaired and evaluated' % w, len(t.repairs) == 1 and len(t.evals) == 1 and t.evals[0][2] is t.repairs[0][1] and v[0] is t.repairs[0][1] and v[1] is t.evals[0][1])
        d = one(f, 'normal')
        if len(d['shape']) != 1: raise Unsupported('step draw')
        lo = toreal(d['lo'](i)) if callable(d['lo']) else toreal(d['lo'])
        hi = toreal(d['hi'](i)) if callable(d['hi']) else toreal(d['hi'])
        s.ob('%s: the step is normal with deviation delta' % w, h, z3.And(toreal(t.repairs[0][0](i)) - X0(i) == toreal(d['f'](i)), lo == 0, hi == dl))
        s.fact('%s: the point is not modified' % w, x.fn is g)
CONTRACTS['neighborhood'] = neighborhood
def multi(s):
    """every strategy builds one candidate, with the arguments passed; the best of them is returned"""
    w = 'multi_mutations'; f, N, D, ic, mk = setup(s, 'individuals', 1); S_ = z3.Int('S'); f.hyps.append(S_ >= 1); FS = z3.Function('fs', I, R); icls = s.cls('niapy.algorithms.algorithm', 'Individual')
    def th():
        f.rng_draws = dr = []; p = mk(); xb = Arr([D], lambda i: XB(toint(i))); t = TaskModel(f, D); calls, made = [], []; rng = Opaque('rng')
        def strat(k):
            def g(*a, **kw):
                calls.append((k, a, kw)); r = Arr([D], lambda i: AR(toint(k), toint(i))); r.k = k; return r
            return g
        def mkind(x=None, task=None, e=True, rng=None, **kw):
            made.append((x, task, e, rng)); return Obj(icls, {'x': x, 'f': FS(toint(x.k)), 'k': x.k})
        r = f.call_fn(s.fn(DE, w), [p, ic, xb, F_, CR], {'rng': rng, 'task': t, 'individual_type': mkind, 'strategies': SymList(S_, lambda k: strat(k))})
        good = all(len(a) == 4 and a[0] is p and a[1] is ic and a[2] is F_ and a[3] is CR and set(kw) == {'x_b', 'rng'} and kw['x_b'] is xb and kw['rng'] is rng for _, a, kw in calls)
        made_ok = all(m[1] is t and m[2] is True and m[3] is rng for m in made)
        return r, good and calls, made_ok and made, p.unchanged(), dr
    for hy, r, good, made, ok, dr in fact_paths(s, f, th, w):
        hy = f.hyps + hy; q = ivar('q')
        s.fact('%s: every strategy gets the population, the index, the best and the two rates' % w, good)
        s.fact('%s: every candidate is evaluated on the task' % w, made)
        s.fact('%s: a candidate is returned' % w, isinstance(r, Obj) and 'k' in r.f, r)
        if not isinstance(r, Obj) or 'k' not in r.f: continue
        k = toint(r.f['k'])
        s.ob('%s: the candidate is one of the strategies\' candidates' % w, hy, z3.And(k >= 0, k < S_))
        s.ob('%s: no candidate is better than the one returned' % w, hy + [q >= 0, q < S_], FS(k) <= FS(q))
        s.fact('%s: the population is not modified' % w, ok)
CONTRACTS['multi_mutations'] = multi
