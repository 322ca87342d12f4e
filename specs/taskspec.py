"""Shared state model of a task for the contracts of P06 and P07.

Ghost state: V(k) the value the problem returned at the k-th evaluation (k = 1, 2, ...).  Infinity is a symbol INF above
every finite number.  ot is the numeric value of the optimization type; both members of the enumeration are verified."""
import z3
from fv.eng import *
from fv.interp import LoopSpec
MOD = 'niapy.task'
INF = z3.Real('INF')
V = z3.Function('V', I, R)
N, FE, FI = z3.Function('n_evals', I, I), z3.Function('fitness_evals', I, R), z3.Function('fitness_iters', I, R)
FIELDS = {'problem', 'optimization_type', 'dimension', 'lower', 'upper', 'range', 'repair_function', 'iters', 'evals', 'cutoff_value', 'enable_logging', 'x_f', 'max_evals', 'max_iters', 'n_evals', 'fitness_evals', 'fitness_iters'}
TYPES = ['MINIMIZATION', 'MAXIMIZATION']

class World:
    """one symbolic task"""
    def __init__(self, s, typ, history=True, budget='any'):
        self.s = s
        self.cls = s.cls(MOD, 'Task')
        self.pcls = s.cls('niapy.problems', 'Problem')
        self.typ = typ
        ot = s.cls(MOD, 'OptimizationType')
        self.fv = f = s.fv()
        self.otv = f.attr(ClsRef(ot), typ)
        self.ot = Fraction(self.otv.value) if isinstance(self.otv.value, (int, float)) else self.otv.value
        self.evals, self.iters = z3.Int('evals'), z3.Int('iters')
        self.xf, self.cut, self.ME, self.MI, self.v = z3.Real('x_f'), z3.Real('cutoff'), z3.Int('max_evals') if budget == 'int' else INF if budget == 'inf' else z3.Real('max_evals'), z3.Real('max_iters'), z3.Real('v')
        self.m = z3.Int('m')
        k, j = z3.Int('k'), z3.Int('j')
        f.hyps += [INF > 0, self.evals >= 0, self.iters >= 0, self.v > -INF, self.v < INF,
                   self.cut >= -INF, self.cut <= INF, toreal(self.ME) <= INF, self.MI <= INF, self.ME >= 0, self.MI >= 0,
                   z3.ToReal(self.evals) + 1 < INF, z3.ToReal(self.iters) + 1 < INF]
        if history: f.hyps += [g for _, g in self.inv(self.evals, self.iters, self.xf, self.m, N, self.m, FE, self.iters, V)]
        f.hook, f.exthook = self.hook, None
        self.D = z3.Int('D'); f.hyps.append(self.D >= 1)
        self.problem = Obj(self.pcls, {'dimension': self.D, 'lower': Arr([self.D], lambda i: z3.Function('lo', I, R)(toint(i))), 'upper': Arr([self.D], lambda i: z3.Function('up', I, R)(toint(i)))})
        self.repair = Opaque('repair_function')
    def hook(self, f, fn, args, kw):
        if isinstance(fn, Fn) and fn.owner is not None and fn.owner.isa('Problem') and fn.node.name in ('evaluate', '__call__', '_evaluate'):
            f.events.append(('evaluate', args[1] if len(args) > 1 else kw.get('x'), fn.node.name))
            return self.v if len([e for e in f.events if e[0] == 'evaluate']) == 1 else fresh(R, 'v2')
        return NotImplemented
    def inv(self, evals, iters, xf, m, n, mfe, fe, lfi, v):
        """class invariant: [(text, formula)]; n, fe, v are functions of an index"""
        k, j = z3.Int('k!q'), z3.Int('j!q')
        o = z3.RealVal(str(self.ot))
        a = lambda vs, body, pats=None: z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
        nj, nj1, fj, vk = toint(n(j)), toint(n(j + 1)), toreal(fe(j)), toreal(v(k))
        return [('every evaluation returned a finite value', a([k], z3.Implies(z3.And(k >= 1, k <= evals), z3.And(vk > -INF, vk < INF)))),
                ('the best value is no worse than any evaluation', a([k], z3.Implies(z3.And(k >= 1, k <= evals), o * xf <= o * vk))),
                ('before the first evaluation the best value is infinitely bad', z3.Implies(evals == 0, xf == o * INF)),
                ('after the first evaluation the best value is the value of some evaluation', z3.Implies(evals >= 1, z3.Exists([k], z3.And(k >= 1, k <= evals, xf == vk)))),
                ('one history entry per iteration', lfi == iters),
                ('the improvement lists have the same length', z3.And(m == mfe, m >= 0)),
                ('the improvement list is empty only before the first evaluation', z3.And(z3.Implies(evals == 0, m == 0), z3.Implies(evals >= 1, m >= 1))),
                ('the first evaluation is an improvement', z3.Implies(m >= 1, toint(n(z3.IntVal(0))) == 1)),
                ('improvements are at evaluations made', a([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(nj >= 1, nj <= evals)))),
                ('improvements are in the order of evaluations', a([j], z3.Implies(z3.And(j >= 0, j + 1 < m), nj < nj1))),
                ('an improvement has the value of its evaluation', a([j], z3.Implies(z3.And(j >= 0, j < m), fj == toreal(v(nj))))),
                ('an improvement is the best of all evaluations until the next improvement',
                 a([j, k], z3.Implies(z3.And(j >= 0, j < m, k >= 1, k <= evals, z3.Or(j == m - 1, k < nj1)), o * fj <= o * vk))),
                ('the last improvement is the best value', z3.Implies(m >= 1, toreal(fe(m - 1)) == xf))]
    def task(self):
        f = dict(problem=self.problem, optimization_type=self.otv, dimension=self.D, lower=self.problem.f['lower'], upper=self.problem.f['upper'], range=Opaque('range'),
                 repair_function=self.repair, iters=self.iters, evals=self.evals, cutoff_value=self.cut, enable_logging=z3.Bool('enable_logging'), x_f=self.xf, max_evals=self.ME, max_iters=self.MI,
                 n_evals=SymList(self.m, lambda j: N(toint(j))), fitness_evals=SymList(self.m, lambda j: FE(toint(j))), fitness_iters=SymList(self.iters, lambda j: FI(toint(j))))
        return Obj(self.cls, f)
    def stopped(self):
        o = z3.RealVal(str(self.ot))
        return z3.Or(tobool(cmpop('GtE', self.evals, self.ME)), z3.ToReal(self.iters) >= self.MI, o * self.xf <= o * self.cut)
    def checkstate(self, s):
        """the constructor creates the fields this model knows, and no others"""
        f = s.fv([INF > 0]); f.hook = self.hook
        ps = f.paths(lambda: f.new(self.cls, [], {'problem': self.problem, 'optimization_type': self.otv}))
        for pc, o in ps:
            if isinstance(o, Raised): raise Unsupported('the constructor raises ' + o.what)
            if set(o.f) != FIELDS: raise Unsupported('task state differs from the model: %s' % sorted(set(o.f) ^ FIELDS))
        return ps
    def paths(self, name, *args, **kw):
        """run a method on the symbolic task -> [(path condition + hyps, task, initial fields, result, events)]"""
        f = self.fv; out = []
        def run():
            f.events.clear(); f.rng_draws.clear()
            t = self.task(); before = dict(t.f)
            snap = {n: (t.f[n].n, t.f[n].fn) for n in ('n_evals', 'fitness_evals', 'fitness_iters')}
            r = f.method(t, name, args, kw)
            return t, before, snap, r, list(f.events)
        for pc, r in f.paths(run):
            if isinstance(r, Raised): self.s.fact('%s raises no exception' % name, False, r.what); continue
            out.append((f.hyps + pc,) + r)
        return out
    def unchanged(self, hy, t, before, snap, names, what):
        for n in names:
            a, b = t.f.get(n), before[n]
            if n in snap: 
                self.samelist(hy, a, snap[n], '%s: %s' % (what, n)); continue
            if a is b: self.s.fact('%s: %s' % (what, n), True); continue
            if a is None or not isnum(a): self.s.fact('%s: %s' % (what, n), False, repr(a)); continue
            self.s.ob('%s: %s' % (what, n), hy, toreal(a) == toreal(b))
    def samelist(self, hy, a, snap, what):
        if not isinstance(a, SymList): self.s.fact(what, False, repr(a)); return
        if a.n is snap[0] and a.fn is snap[1]: self.s.fact(what, True); return
        j = ivar('j')
        self.s.ob(what + ' (length)', hy, toint(a.n) == toint(snap[0]))
        self.s.ob(what + ' (entries)', hy + [j >= 0, j < toint(snap[0])], toreal(a.fn(j)) == toreal(snap[1](j)))
    def post_inv(self, hy, t, v=V, evals=None):
        """the class invariant after the call"""
        for n in ('n_evals', 'fitness_evals', 'fitness_iters'):
            if not isinstance(t.f[n], (SymList, Lst)): raise Unsupported('history list')
        L = {n: (t.f[n].n, t.f[n].fn) if isinstance(t.f[n], SymList) else (len(t.f[n].items), (lambda k, it=t.f[n].items: it[k] if not isz(k) else z3.RealVal(0))) for n in ('n_evals', 'fitness_evals', 'fitness_iters')}
        for text, g in self.inv(toint(t.f['evals']), toint(t.f['iters']), toreal(t.f['x_f']), toint(L['n_evals'][0]), L['n_evals'][1], toint(L['fitness_evals'][0]), L['fitness_evals'][1], toint(L['fitness_iters'][0]), v):
            self.s.ob('invariant: ' + text, hy, g)
