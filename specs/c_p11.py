"""Individuals, initial populations, get_best, and the random helpers of Algorithm.

The task is used by its contract: repair(x) is a point x' that depends on x and on the generator passed; eval(x) is the fitness
V(object, content) of exactly the array it is called with.  Every call is recorded."""
from fv.eng import *
from vc import src
ALG = 'niapy.algorithms.algorithm'
X, LO, UP = z3.Function('x', I, R), z3.Function('lo', I, R), z3.Function('up', I, R)
class World:
    def __init__(self, s, hyps=()):
        self.s = s; q = ivar('q')
        self.D, self.n = z3.Int('D'), z3.Int('n')
        self.f = s.fv([self.D >= 1, z3.ForAll([q], LO(q) <= UP(q), patterns=[LO(q), UP(q)])] + list(hyps))
        self.f.hook = self.hook
        self.task = Obj(s.cls('niapy.task', 'Task'), {'lower': Arr([self.D], lambda i: LO(toint(i))), 'upper': Arr([self.D], lambda i: UP(toint(i))), 'dimension': self.D})
        self.rng = Opaque('rng')
        self.log = []
    def hook(self, f, fn, args, kw):
        if not isinstance(fn, Fn): return NotImplemented
        n = fn.node.name
        if fn.owner is not None and fn.owner.isa('Task') and n in ('repair', 'eval'):
            p = [a.arg for a in fn.node.args.args]; d = dict(zip(p, args)); d.update(kw)
            F, ks, _ = f.ctxapp(n, R, [0] if n == 'repair' else [])
            if n == 'repair':
                r = Arr([self.D], lambda i, ks=ks: F(*(ks + [toint(i)])))
                self.log.append(('repair', d.get('x'), d.get('rng'), r)); return r
            v = F(*ks) if ks else F(z3.IntVal(0))
            self.log.append(('eval', d.get('x'), d['x'].fn if isinstance(d.get('x'), Arr) else None, v)); return v
        if n == 'objects_to_array' and fn.owner is None:
            o = args[0] if args else kw['objs']
            if isinstance(o, SymList): return Arr([o.n], o.fn)
        return NotImplemented
    def paths(self, th):
        def run():
            self.log.clear(); self.f.rng_draws.clear(); self.f.events.clear()
            r = th(); return r, list(self.log), list(self.f.rng_draws)
        return self.f.paths(run)
def same(w, pc, a, b):
    """two vectors have equal length and components"""
    i = ivar('i')
    if not (isinstance(a, Arr) and isinstance(b, Arr)) or a.nd != 1 or b.nd != 1: return [z3.BoolVal(False)], z3.BoolVal(False)
    return w.f.hyps + pc + [i >= 0, i < toint(b.shape[0])], z3.And(toint(a.shape[0]) == toint(b.shape[0]), toreal(a.fn(i)) == toreal(b.fn(i)))
def vec(n, F=X): return Arr([n], lambda i: F(toint(i)))
def indcls(s): return s.cls(ALG, 'Individual')
def given(s):
    """Individual(x=..., e=False)"""
    c = indcls(s)
    for kind in ('array', 'list'):
        w = World(s, [z3.Int('n') >= 0])
        for task in (False, True):
            def th():
                x = vec(w.n) if kind == 'array' else SymList(w.n, lambda i: X(toint(i)))
                return w.f.new(c, [], dict(x=x, e=False, **({'task': w.task, 'rng': w.rng} if task else {}))), x
            for pc, r in w.paths(th):
                if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
                (o, x), log, draws = r
                h, g = same(w, pc, o.f.get('x'), vec(w.n)); s.ob('holds the given point', h, g)
                s.eq('is not evaluated: its fitness is infinite', toreal(o.f['f']), toreal(float('inf')), w.f.hyps + pc)
                s.fact('neither evaluated nor repaired, nothing drawn', not log and not draws, log)
                if kind == 'array': s.fact('the given array is not copied', o.f.get('x') is x)
def evaluated(o, w, s, pc, log, x0, rngs, what):
    """the contract of an evaluated individual: repaired once, evaluated once, at the point it holds"""
    names = [e[0] for e in log]
    if not s.fact(what + 'repaired, then evaluated, once each', names == ['repair', 'eval'], names): return
    rep, ev = log
    if x0 is None: s.fact(what + 'the point is repaired', isinstance(rep[1], Arr))
    else:
        h, g = same(w, pc, rep[1], x0); s.ob(what + 'the point is repaired', h, g)
    s.fact(what + 'the repair draws from the generator that was passed', rep[2] is rngs, rep[2])
    s.fact(what + 'the repaired point is evaluated', ev[1] is rep[3])
    h, g = same(w, pc, o.f.get('x'), rep[3]); s.ob(what + 'it holds the point that was evaluated', h, g)
    s.eq(what + 'it holds the fitness of that point', o.f.get('f'), ev[3], w.f.hyps + pc)
def fresh_ind(s):
    """Individual(task=..., rng=...): uniform in the bounds, from the generator"""
    c = indcls(s)
    for e in (True, False):
        w = World(s)
        for pc, r in w.paths(lambda: w.f.new(c, [], dict(task=w.task, rng=w.rng, e=e))):
            if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
            o, log, draws = r
            pt = log[0][1] if e and log else o.f.get('x')
            i = ivar('i'); h = w.f.hyps + pc + [i >= 0, i < w.D]
            if not s.fact('a point is generated', isinstance(pt, Arr) and pt.nd == 1): continue
            s.ob('as many components as the task', h, toint(pt.shape[0]) == w.D)
            s.ob('within the bounds', h, z3.And(LO(i) <= toreal(pt.fn(i)), toreal(pt.fn(i)) <= UP(i)))
            s.fact('drawn from the generator that was passed', draws and all(d['rng'] == 'rng' for d in draws), [d['rng'] for d in draws])
            uniform(s, h, i, toreal(pt.fn(i)), draws, LO(i), UP(i), lambda d: d['f'](i), 'every component uniform between its bounds')
            if e: evaluated(o, w, s, pc, log, None, w.rng, 'evaluated: ')
            else:
                s.fact('not evaluated', not log); s.eq('infinite fitness', toreal(o.f['f']), toreal(float('inf')), w.f.hyps + pc)
def uniform(s, h, i, v, draws, lo, up, at, what):
    alts = []
    for d in draws:
        try:
            t = at(d)
            if d['kind'] == 'uniform': alts.append(z3.And(v == t, toreal(dl(d, 'lo', i)) == lo, toreal(dl(d, 'hi', i)) == up))
            if d['kind'] in ('random', 'uniform'): alts.append(z3.And(v == lo + t * (up - lo), toreal(dl(d, 'lo', i)) == 0, toreal(dl(d, 'hi', i)) == 1))
        except (z3.Z3Exception, TypeError): continue
    s.ob(what, h, z3.Or(*alts))
def dl(d, k, i):
    ix = i if isinstance(i, tuple) else (i,)
    return d[k](*ix[len(ix) - len(d['shape']):])
def evaluate(s):
    c = indcls(s)
    for how in ('rng', 'init'):
        w = World(s)
        def th():
            x = vec(w.D)
            if how == 'init': return w.f.new(c, [], dict(x=x, task=w.task, rng=w.rng, e=True)), x
            o = Obj(c, {'x': x, 'f': z3.Real('oldf')}); w.f.method(o, 'evaluate', [w.task], {'rng': w.rng}); return o, x
        for pc, r in w.paths(th):
            if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
            (o, x), log, draws = r
            evaluated(o, w, s, pc, log, vec(w.D), w.rng, '')
            s.fact('nothing is drawn besides', not draws)
def copy(s):
    c = indcls(s); w = World(s, [z3.Int('n') >= 0]); F = z3.Real('f0')
    def th():
        a = Obj(c, {'x': vec(w.n), 'f': F}); x = a.f['x']; b = w.f.method(a, 'copy'); return a, x, b
    for pc, r in w.paths(th):
        if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
        (a, x, b), log, draws = r
        if not s.fact('an individual is returned', isinstance(b, Obj) and b is not a and b.cls.isa('Individual')): continue
        h, g = same(w, pc, b.f.get('x'), vec(w.n)); s.ob('the same point', h, g)
        s.eq('the same fitness', b.f.get('f'), F, w.f.hyps + pc)
        s.fact('an array of its own', b.f.get('x') is not x and getattr(b.f.get('x'), 'alias', None) is None)
        s.fact('the original is unchanged', a.f['x'] is x); s.eq('the fitness of the original is unchanged', a.f['f'], F, w.f.hyps + pc)
        s.fact('not evaluated', not log)
def equality(s):
    c = indcls(s); w = World(s, [z3.Int('n') >= 0, z3.Int('m') >= 0]); Y = z3.Function('y', I, R); m = z3.Int('m'); F, G = z3.Real('f0'), z3.Real('g0')
    for pc, r in w.paths(lambda: w.f.method(Obj(c, {'x': vec(w.n), 'f': F}), '__eq__', [Obj(c, {'x': vec(m, Y), 'f': G})])):
        if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
        v = tobool(r[0]); i = ivar('i'); h = w.f.hyps + pc
        s.ob('equal individuals have the same length and fitness', h + [v], z3.And(w.n == m, F == G))
        s.ob('equal individuals have the same components', h + [v, i >= 0, i < w.n], X(i) == Y(i))
        q = ivar('q')
        s.ob('individuals with the same point and fitness are equal', h + [w.n == m, F == G, z3.ForAll([q], X(q) == Y(q))], v)
def items(s):
    c = indcls(s); w = World(s, [z3.Int('n') >= 1]); k, v = z3.Int('k'), z3.Real('v')
    w.f.hyps += [k >= 0, k < w.n]
    for pc, r in w.paths(lambda: (w.f.method(Obj(c, {'x': vec(w.n), 'f': z3.Real('f0')}), '__getitem__', [k]), w.f.method(Obj(c, {'x': vec(w.n), 'f': z3.Real('f0')}), '__len__'))):
        if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
        s.eq('indexing gives the component', r[0][0], X(k), w.f.hyps + pc); s.ob('its length is that of the point', w.f.hyps + pc, toint(r[0][1]) == w.n)
    def th():
        o = Obj(c, {'x': vec(w.n), 'f': z3.Real('f0')}); w.f.method(o, '__setitem__', [k, v]); return o
    for pc, r in w.paths(th):
        if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
        i = ivar('i'); o = r[0]
        s.ob('assignment changes that component only', w.f.hyps + pc + [i >= 0, i < w.n], toreal(o.f['x'].fn(i)) == z3.If(i == k, v, X(i)))
        s.eq('assignment leaves the fitness', o.f['f'], z3.Real('f0'), w.f.hyps + pc)
def get_best(kind):
    def c(s):
        P, FF = z3.Function('pop', I, I, R), z3.Function('fpop', I, R); BX = z3.Function('bx', I, R); bf = z3.Real('bf')
        w = World(s, [z3.Int('n') >= 1]); acls = s.cls(ALG, 'Algorithm'); ic = indcls(s)
        for best in ('array', 'individual', 'none'):
            def th():
                rows = {}
                if kind.endswith('individuals'): pop = Arr([w.n], lambda k: Obj(ic, {'x': Arr([w.D], lambda i: P(toint(k), toint(i))), 'f': FF(toint(k))}))
                else: pop = Arr([w.n, w.D], lambda k, i: P(toint(k), toint(i)))
                fp = Arr([w.n], lambda k: FF(toint(k)))
                if kind.startswith('list'): fp = SymList(w.n, lambda k: FF(toint(k)))
                if kind.startswith('one'):
                    pop = Obj(ic, {'x': Arr([w.D], lambda i: P(z3.IntVal(0), toint(i))), 'f': FF(z3.IntVal(0))}) if kind.endswith('individuals') else Arr([w.D], lambda i: P(z3.IntVal(0), toint(i)))
                    fp = FF(z3.IntVal(0))
                bx = Arr([w.D], lambda i: BX(toint(i)))
                if best == 'individual': bx = Obj(ic, {'x': bx, 'f': bf})
                args = [pop, fp] + ([] if best == 'none' else [bx, bf])
                before = pop.fn if isinstance(pop, Arr) else None
                r = w.f.call(w.f.attr(Obj(acls, {}), 'get_best'), args, {})
                return pop, fp, bx, before, r
            fin = [z3.ForAll([qv], FF(qv) < z3.Real('INF'), patterns=[FF(qv)]) for qv in [ivar('q')]] if best == 'none' else []
            for pc, r in w.paths(th):
                if isinstance(r, Raised):
                    s.ob('no exception', w.f.hyps + pc + fin, z3.BoolVal(False)); continue
                (pop, fp, bx, before, res), log, draws = r
                if not s.fact('a point and its fitness are returned', isinstance(res, tuple) and len(res) == 2 and (isinstance(res[0], Arr) or res[0] is None), res): continue
                x, v = res; h = w.f.hyps + pc + fin
                if x is None: s.ob('no exception', h, z3.BoolVal(False)); continue
                j, i, N = ivar('j'), ivar('i'), (z3.IntVal(1) if kind.startswith('one') else w.n)
                v = toreal(v)
                if best != 'none': s.ob('never worse than the best known so far', h, v <= bf)
                s.ob('the smallest fitness of the population or better', h + [j >= 0, j < N], v <= FF(j))
                # the point belongs to the fitness: it is a member with that fitness, or the best known so far
                wit = []
                m = [t for t in all_args(pc) if t.sort() == I and t.decl().name().startswith('arg')]
                for t in ([z3.IntVal(0)] if kind.startswith('one') else m): wit.append(z3.And(t >= 0, t < N, v == FF(t), z3.Implies(z3.And(i >= 0, i < w.D), toreal(x.fn(i)) == P(t, i))))
                mem = z3.Or(*wit)
                if best == 'none': s.ob('the point is the member with that fitness', h + [i >= 0, i < w.D], mem)
                else:
                    old = z3.And(v == bf, toreal(x.fn(i)) == BX(i))
                    s.ob('the point has that fitness: it is that member or the best known so far', h + [i >= 0, i < w.D], z3.Or(mem, old))
                s.ob('the point has the dimension', h, toint(x.shape[0]) == w.D)
                src_ = bx.f['x'] if isinstance(bx, Obj) else bx
                s.fact('the point is a copy', x is not pop and x is not src_ and x.alias is None and x is not (pop.f['x'] if isinstance(pop, Obj) else None))
                if before is not None: s.fact('the population is unchanged', pop.fn is before)
    return c
def all_args(pc):
    out, st, seen = [], list(pc), set()
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_quantifier(u): st.append(u.body()); continue
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(u)
        st += u.children()
    return out
def np_init(s):
    w = World(s, [z3.Int('n') >= 1]); fn = s.fn(ALG, 'default_numpy_init')
    for pc, r in w.paths(lambda: w.f.call_fn(fn, [], dict(task=w.task, population_size=w.n, rng=w.rng, individual_type=None))):
        if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
        res, log, draws = r
        if not s.fact('a population and its fitness', isinstance(res, tuple) and len(res) == 2 and all(isinstance(q, Arr) for q in res) and res[0].nd == 2 and res[1].nd == 1, res): continue
        pop, fp = res; k, i = ivar('k'), ivar('i'); h = w.f.hyps + pc + [k >= 0, k < w.n, i >= 0, i < w.D]
        s.ob('as many individuals as asked for, of the dimension', h, z3.And(toint(pop.shape[0]) == w.n, toint(pop.shape[1]) == w.D, toint(fp.shape[0]) == w.n))
        v = toreal(pop.fn(k, i))
        s.ob('within the bounds', h, z3.And(LO(i) <= v, v <= UP(i)))
        s.fact('drawn from the generator that was passed', draws and all(d['rng'] == 'rng' for d in draws))
        uniform(s, h, (k, i), v, draws, LO(i), UP(i), lambda d: d['f'](k, i), 'every component uniform between its bounds, drawn for itself')
        w.log.clear(); g = fp.fn(k); evs = list(w.log)
        if not s.fact('each individual is evaluated once', [e[0] for e in evs] == ['eval'], evs): continue
        s.ob('the fitness at each index is that of the individual there', h, z3.And(toreal(g) == evs[0][3], toreal(evs[0][1].fn(i)) == v))
def ind_init(s):
    w = World(s, [z3.Int('n') >= 1]); fn = s.fn(ALG, 'default_individual_init'); ic = indcls(s)
    for pc, r in w.paths(lambda: w.f.call_fn(fn, [], dict(task=w.task, population_size=w.n, rng=w.rng, individual_type=ClsRef(ic)))):
        if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
        res, log, draws = r
        if not s.fact('a population and its fitness', isinstance(res, tuple) and len(res) == 2 and all(isinstance(q, Arr) and q.nd == 1 for q in res), res): continue
        pop, fp = res; k, i = ivar('k'), ivar('i'); h = w.f.hyps + pc + [k >= 0, k < w.n, i >= 0, i < w.D]
        s.ob('as many individuals as asked for', h, z3.And(toint(pop.shape[0]) == w.n, toint(fp.shape[0]) == w.n))
        w.log.clear(); w.f.rng_draws.clear(); o = pop.fn(k); log = list(w.log); draws = list(w.f.rng_draws)
        if not s.fact('individuals of the type asked for', isinstance(o, Obj) and o.cls is ic): continue
        evaluated(o, w, s, pc + h, log, None, w.rng, 'each is evaluated: ')
        pt = log[0][1]; v = toreal(pt.fn(i)); h = w.f.hyps + h
        s.ob('within the bounds', h, z3.And(LO(i) <= v, v <= UP(i), toint(pt.shape[0]) == w.D))
        s.ob('the fitness at each index is that of the individual there', h, toreal(fp.fn(k)) == toreal(o.f['f']))
def integers(s):
    acls = s.cls(ALG, 'Algorithm'); lo, hi, n = z3.Int('lo'), z3.Int('hi'), z3.Int('nskip'); SK = z3.Function('skip', I, I)
    for mode in ('skip', 'none', 'high only'):
        f = s.fv([lo < hi, n >= 0]); depth = [0]; skip = SymList(n, lambda k: SK(toint(k))); bad = []
        args = dict(low=lo, high=hi) if mode != 'high only' else dict(low=hi)
        if mode == 'high only': f.hyps.append(hi > 0)
        l0 = lo if mode != 'high only' else z3.IntVal(0)
        if mode == 'skip': args['skip'] = skip
        def post(v): return z3.And(v >= l0, v < hi, *([z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), SK(q) != v)) for q in [ivar('q')]] if mode == 'skip' else []))
        def hook(fv, fn, a, kw):
            if isinstance(fn, Fn) and fn.node.name == 'integers' and fn.owner is not None:
                depth[0] += 1
                if depth[0] == 1: return NotImplemented
                d = dict(zip(['low', 'high', 'size', 'skip'], a[1:])); d.update(kw)
                if not (d.get('low') is args.get('low') and d.get('high') is args.get('high') and d.get('skip') is args.get('skip') and d.get('size') is None): bad.append(d)
                v = fresh(I, 'again'); fv.path.append(post(v)); return v
            return NotImplemented
        f.hook = hook
        def th():
            depth[0] = 0; bad.clear(); f.rng_draws.clear()
            return f.method(Obj(acls, {'rng': Opaque('rng')}), 'integers', [], dict(args)), list(bad), list(f.rng_draws)
        for pc, r in f.paths(th):
            if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
            v, b, dr = r
            s.fact('a repeated draw uses the same arguments', not b, b)
            s.ob('%s: within the range%s' % (mode, ', never an excluded value' if mode == 'skip' else ''), f.hyps + pc, post(toint(v)))
            s.fact('drawn from the generator of the algorithm', dr and all(d['rng'] == 'rng' for d in dr))
def helpers(s):
    acls = s.cls(ALG, 'Algorithm'); a, b, n = z3.Real('a'), z3.Real('b'), z3.Int('n')
    for nm, args, kind in (('random', [], 'random'), ('uniform', [a, b], 'uniform'), ('normal', [a, b], 'normal'), ('standard_normal', [], 'standard_normal')):
        for size in (False, True):
            f = s.fv([n >= 1, a <= b])
            def th():
                f.rng_draws.clear(); return f.method(Obj(acls, {'rng': Opaque('rng')}), nm, list(args), {'size': n} if size else {}), list(f.rng_draws)
            for pc, r in f.paths(th):
                if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
                v, dr = r; k = ivar('k')
                if not s.fact('%s: one draw of that kind from the generator of the algorithm' % nm, len(dr) == 1 and dr[0]['rng'] == 'rng' and dr[0]['kind'] == kind, dr): continue
                d = dr[0]; ix = [k] if size else []
                if not s.fact('%s: the size asked for' % nm, isinstance(v, Arr) == size and len(d['shape']) == len(ix)): continue
                if size: s.ob('%s: the size asked for' % nm, f.hyps + pc, toint(v.shape[0]) == n)
                s.eq('%s: the draw is returned' % nm, v.fn(k) if size else v, d['f'](*ix), f.hyps + pc)
                if args:
                    s.eq('%s: first parameter' % nm, d['lo'](*ix), a, f.hyps + pc); s.eq('%s: second parameter' % nm, d['hi'](*ix), b, f.hyps + pc)
def task_repair(s):
    tc = s.cls('niapy.task', 'Task'); f = s.fv(); calls = []
    lo, up, x, rng, out = Opaque('lower'), Opaque('upper'), Opaque('x'), Opaque('rng'), Opaque('repaired')
    def rf(*a, **k): calls.append((a, k)); return out
    def th():
        calls.clear(); return f.method(Obj(tc, {'repair_function': rf, 'lower': lo, 'upper': up}), 'repair', [x], {'rng': rng}), list(calls)
    for pc, r in f.paths(th):
        if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
        v, cl = r
        if not s.fact('the repair function of the task is called once', len(cl) == 1): continue
        a, k = cl[0]; d = dict(zip(['x', 'lower', 'upper', 'rng'], a)); d.update(k)
        s.fact('with the point, the bounds of the task and the generator passed', d == {'x': x, 'lower': lo, 'upper': up, 'rng': rng}, d)
        s.fact('its result is returned', v is out)
def feasible(s):
    tc = s.cls('niapy.task', 'Task')
    for kind in ('array', 'individual'):
        w = World(s); ic = indcls(s)
        x = vec(w.D) if kind == 'array' else Obj(ic, {'x': vec(w.D), 'f': z3.Real('f0')})
        if kind == 'individual': continue
        for pc, r in w.paths(lambda: w.f.method(w.task, 'is_feasible', [x])):
            if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
            v = tobool(r[0]); i, q = ivar('i'), ivar('q'); h = w.f.hyps + pc
            s.ob('a feasible point is within the bounds', h + [v, i >= 0, i < w.D], z3.And(LO(i) <= X(i), X(i) <= UP(i)))
            s.ob('a point within the bounds is feasible', h + [z3.ForAll([q], z3.And(LO(q) <= X(q), X(q) <= UP(q)))], v)
CONTRACTS = {'Individual(x)': given, 'Individual(task)': fresh_ind, 'Individual.evaluate': evaluate, 'Individual.copy': copy, 'Individual.__eq__': equality, 'Individual items': items,
             'default_numpy_init': np_init, 'default_individual_init': ind_init, 'Algorithm.integers': integers, 'Algorithm random helpers': helpers, 'Task.repair': task_repair, 'Task.is_feasible': feasible}
for k in ('arrays', 'list, arrays', 'individuals', 'one, arrays', 'one, individuals'): CONTRACTS['get_best(%s)' % k] = get_best(k)
