"""Task: best value, history and convergence data, for both optimization types."""
from fv.eng import *
from specs.taskspec import *
def each(f):
    def c(s):
        for typ in TYPES:
            w = World(s, typ); w.checkstate(s); f(s, w)
    return c
@each
def eval_(s, w):
    x = Opaque('x'); o = z3.RealVal(str(w.ot))
    for hy, t, b, snap, r, ev in w.paths('eval', x):
        if not [e for e in ev if e[0] == 'evaluate']:
            w.unchanged(hy, t, b, snap, ('evals', 'iters', 'x_f', 'n_evals', 'fitness_evals', 'fitness_iters'), 'without evaluation the history is unchanged'); continue
        v2 = lambda k: z3.If(toint(k) == w.evals + 1, w.v, V(toint(k)))
        s.ob('the algorithm sees the value with the sign of the optimization type', hy, toreal(r) == o * w.v)
        s.ob('the best value is the better of the old one and the new value', hy, toreal(t.f['x_f']) == z3.If(o * w.v < o * w.xf, w.v, w.xf))
        s.ob('the best value never gets worse', hy, o * toreal(t.f['x_f']) <= o * w.xf)
        w.post_inv(hy, t, v2)
        w.unchanged(hy, t, b, snap, ('fitness_iters', 'iters'), 'evaluation leaves unchanged')
@each
def next_iter(s, w):
    for hy, t, b, snap, r, ev in w.paths('next_iter'):
        w.post_inv(hy, t)
        L = t.f['fitness_iters']; j = ivar('j')
        s.ob('the history of iterations grows by the current best value', hy, z3.And(toint(L.n) == w.iters + 1, toreal(L.fn(w.iters)) == w.xf))
        s.ob('earlier entries are kept', hy + [j >= 0, j < w.iters], toreal(L.fn(j)) == FI(j))
@each
def init(s, w):
    f = s.fv([INF > 0, w.D >= 1]); f.hook = w.hook
    for pc, t in f.paths(lambda: f.new(w.cls, [], {'problem': w.problem, 'optimization_type': w.otv})):
        if isinstance(t, Raised): s.fact('constructor raises no exception', False, t.what); continue
        w.post_inv(f.hyps + pc, t)
@each
def conv_iters(s, w):
    for hy, t, b, snap, r, ev in w.paths('convergence_data'):
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(q, Arr) for q in r)
        s.fact('two arrays', ok, repr(r))
        if not ok: continue
        i = ivar('i'); hi = hy + [i >= 0, i < w.iters]
        s.ob('one point per iteration', hy, z3.And(toint(r[0].shape[0]) == w.iters, toint(r[1].shape[0]) == w.iters))
        s.ob('the abscissa counts iterations', hi, toreal(r[0].at(i)) == z3.ToReal(i))
        s.ob('the value is the best value at the end of that iteration', hi, toreal(r[1].at(i)) == FI(i))
def outer(fv, env, k):
    k = toint(k); r1, r2 = env['r1'], env['r2']
    def LN(l): return toint(l.n) if isinstance(l, SymList) else z3.IntVal(len(l.items))
    def AT(l, q): return toreal(l.fn(q)) if isinstance(l, SymList) else z3.RealVal(0)
    n = LN(r1); q, j = z3.Int('q!c'), z3.Int('j!c')
    N0 = N(z3.IntVal(0))
    return [('points collected so far', z3.And(n == LN(r2), n == z3.If(k == 0, 0, N(k) - N0))), ('the last improvement ends the loop', z3.Or(k == 0, k <= z3.Int('m') - 1)),
            ('abscissa', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), AT(r1, q) == z3.ToReal(N0 + q)))),
            ('values', z3.ForAll([q, j], z3.Implies(z3.And(q >= 0, q < n, j >= 0, j < k, N(j) <= N0 + q, N0 + q < N(j + 1)), AT(r2, q) == FE(j))))]
def inner(fv, env, c):
    c = toint(c); r1, r2, i = env['r1'], env['r2'], toint(env['i'])
    n = toint(r1.n); q, j = z3.Int('q!c'), z3.Int('j!c')
    N0 = N(z3.IntVal(0))
    return [('points collected so far', z3.And(n == toint(r2.n), n == N(i) - N0 + 1 + c, c >= 0)),
            ('abscissa', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), toreal(r1.fn(q)) == z3.ToReal(N0 + q)))),
            ('values', z3.ForAll([q, j], z3.Implies(z3.And(q >= 0, q < n, j >= 0, j <= i, N(j) <= N0 + q, z3.Or(j == i, N0 + q < N(j + 1))), toreal(r2.fn(q)) == FE(j))))]
@each
def conv_evals(s, w):
    f = w.fv
    # a consequence of the class invariant, by induction on j - i: improvements are strictly increasing over any distance
    a, b = z3.Int('a!m'), z3.Int('b!m')
    base = list(f.hyps)
    mono = z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < w.m), N(a) < N(b)))
    d, c = z3.Int('d'), z3.Int('c')
    step = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a + d < w.m), z3.Or(d < 1, N(a) < N(a + d))))
    s.ob('lemma (induction step): improvements are in the order of evaluations over any distance', base + [d >= 1, step, c >= 0, c + d + 1 < w.m], N(c) < N(c + d + 1))
    s.ob('lemma (base)', base + [c >= 0, c + 1 < w.m], N(c) < N(c + 1))
    f.hyps.append(mono)
    f.loopspecs = {'convergence_data': [LoopSpec({'r1': 'listint', 'r2': 'listreal'}, outer), LoopSpec({'r1': 'listint', 'r2': 'listreal'}, inner)]}
    f.loop_obs = []
    o = z3.RealVal(str(w.ot))
    for hy, t, b, snap, r, ev in w.paths('convergence_data', 'evals'):
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(q, Arr) for q in r)
        s.fact('two arrays', ok, repr(r))
        if not ok: continue
        q, k, j = ivar('q'), z3.Int('k!p'), ivar('j')
        n = toint(r[0].shape[0])
        s.ob('no evaluation, no points', hy + [w.m == 0], n == 0)
        s.ob('one point per evaluation from the first to the last improvement', hy + [w.m >= 1], z3.And(n == N(w.m - 1), toint(r[1].shape[0]) == n))
        s.ob('the abscissa counts evaluations', hy + [q >= 0, q < n], toreal(r[0].at(q)) == z3.ToReal(q + 1))
        s.ob('the value is the best value after that many evaluations', hy + [q >= 0, q < n, j >= 0, j < w.m, N(j) <= q + 1, z3.Or(j == w.m - 1, q + 1 < N(j + 1))], toreal(r[1].at(q)) == FE(j))
    seen = {}
    for what, ok, d in f.loop_obs: seen[what] = (seen.get(what, (True, None))[0] and ok, seen.get(what, (True, None))[1] or d)
    for what, (ok, d) in seen.items(): s.obs.append((what, ok, d))
CONTRACTS = {'Task.eval': eval_, 'Task.next_iter': next_iter, 'Task.__init__': init, 'Task.convergence_data(iters)': conv_iters, 'Task.convergence_data(evals)': conv_evals}
