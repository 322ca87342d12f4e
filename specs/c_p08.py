"""Run loop and callbacks, as a contract on the trace of calls.

Algorithm.run: init_population, get_best, run_iteration, the callbacks and the task are used through abstract contracts: each
call is an event with its arguments; each result is a fresh value.  The loop is verified for an arbitrary iteration."""
from fv.eng import *
from fv.eng import _cnt
from fv.interp import LoopSpec
from vc import src
CB = ('before_run', 'before_iteration', 'after_iteration', 'after_run')
class RunWorld:
    def __init__(self, s, raise_in=None, main=True):
        self.s, self.raise_in = s, raise_in
        self.acls = s.cls('niapy.algorithms.algorithm', 'Algorithm'); self.tcls = s.cls('niapy.task', 'Task'); self.ccls = s.cls('niapy.callbacks', 'CallbackList')
        self.main = main
        f = self.fv = s.fv(); f.hook = self.hook; f.exthook = self.exthook
        self.ot = z3.Real('ot')
        self.n = 0
    def val(self, name):
        self.n += 1; return Opaque('%s#%d' % (name, self.n))
    def exthook(self, f, e, args, kw):
        if e.name in ('threading.current_thread', 'threading.main_thread'):
            return self.T1 if e.name.endswith('main_thread') or self.main in (True, 'process') else self.T2
        if e.name == 'multiprocessing.current_process': return self.PR
        return NotImplemented
    def hook(self, f, fn, args, kw):
        if not isinstance(fn, Fn) or fn.owner is None: return NotImplemented
        c, n = fn.owner, fn.node.name
        def ev(*r):
            f.events.append(r)
            if self.raise_in == n: raise Raised('SomeError')
        if c.isa('Task'):
            if n == 'stopping_condition':
                b = z3.Const('stop!%d' % len(f.events), B); ev(n, b); return b
            if n in ('next_iter', 'eval', 'stopping_condition_iter'): ev(n); return z3.Const('stop!%d' % len(f.events), B) if n == 'stopping_condition_iter' else None
            raise Unsupported('task.' + n)
        if c.isa('CallbackList') or c.isa('Callback'):
            if n in CB: ev(n, tuple(args[1:]), dict(kw)); return None
        if c.isa('Algorithm'):
            if n == 'init_population':
                r = (self.val('pop'), self.val('fpop'), self.val('params')); ev(n, tuple(args[1:]), dict(kw), r); return r
            if n == 'get_best':
                r = (self.val('xb'), fresh(R, 'fxb')); ev(n, tuple(args), dict(kw), r); return r
            if n == 'run_iteration':
                r = (self.val('pop'), self.val('fpop'), self.val('xb'), fresh(R, 'fxb'), self.val('params')); ev(n, tuple(args[1:]), dict(kw), r); return r
        return NotImplemented
    def setup(self):
        self.n = 0
        self.T1, self.T2 = Opaque('main thread'), Opaque('other thread')
        self.PR = Opaque('process'); self.fv.opattr_extra = None
        ty = Opaque('type'); ty.value = self.ot
        self.task = Obj(self.tcls, {'optimization_type': ty})
        self.cb = Obj(self.ccls, {'callbacks': SymList(z3.Int('ncb'), lambda k: Opaque('cb'))})
        self.cb.f['algorithm'] = None
        self.alg = Obj(self.acls, {'callbacks': self.cb, 'exception': None, 'population_size': z3.Int('ps'), 'initialization_function': Opaque('f'), 'individual_type': None, 'rng': Opaque('rng')})
def ident(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    return False
def args_of(e):
    a, kw = list(e[1]), dict(e[2])
    for n in ('task', 'population', 'population_fitness', 'fitness', 'best_x', 'best_fitness'):
        if n in kw: a.append(kw.pop(n))
    return a, kw
def same_state(e, state, skip=0):
    a, kw = args_of(e); a = a[skip:]
    st, par = state[:4], state[4]
    return len(a) == 4 and all(ident(x, y) for x, y in zip(a, st)) and (ident(kw.get('**'), par) and len(kw) == 1)
def run(s):
    w = RunWorld(s); f = w.fv
    def body(fv, env, k, events):
        out = []
        names = [e[0] for e in events if e[0] not in ('stopping_condition',)]
        out.append(('an iteration is: before_iteration, one iteration, after_iteration, one count', names == ['before_iteration', 'run_iteration', 'after_iteration', 'next_iter']))
        stops = [e for e in events if e[0] == 'stopping_condition']
        first = events[0] if events else None
        ok = first is not None and first[0] == 'stopping_condition'
        out.append(('an iteration starts only if the task has not stopped', ok and fv.pv.valid(fv.hyps + fv.path, z3.Not(first[1]))))
        byn = {e[0]: e for e in events}
        head = roles(fv)
        if names == ['before_iteration', 'run_iteration', 'after_iteration', 'next_iter'] and head is not None:
            out.append(('before_iteration sees the current state', same_state(byn['before_iteration'], head)))
            a, kw = args_of(byn['run_iteration'])
            out.append(('the iteration gets the task and the current state', bool(a) and a[0] is w.task and same_state(byn['run_iteration'], head, 1)))
            new = byn['run_iteration'][3]
            out.append(('after_iteration sees the state the iteration produced', same_state(byn['after_iteration'], new)))
            end = [env.get(v) for v in w.role]
            out.append(('the state produced is the current state of the next iteration', all(ident(x, y) for x, y in zip(end, new))))
        else: out.append(('the loop carries population, fitness, best solution, best fitness and parameters', False))
        return out
    def roles(fv):
        """variables of the loop head that carry the five parts of the state, identified by what they hold at loop entry"""
        init = [e for e in fv.events if e[0] == 'init_population']; gb = [e for e in fv.events if e[0] == 'get_best']
        if len(init) != 1 or len(gb) != 1: return None
        want = [init[0][3][0], init[0][3][1], gb[0][3][0], gb[0][3][1], init[0][3][2]]
        r = []
        for x in want:
            v = [n for n, y in fv.loopentry.items() if ident(x, y)]
            if len(v) != 1: return None
            r.append(v[0])
        w.role = r
        return [fv.loophead[v] for v in r]
    f.loopspecs = {'run': [LoopSpec(None, None, body)]}; f.loop_obs = []
    def th():
        w.setup(); f.events.clear(); w.role = None
        r = f.method(w.alg, 'run', [w.task])
        head = roles(f)
        return r, list(f.events), head, dict(w.alg.f)
    got = False
    for pc, x in f.paths(th):
        if isinstance(x, Raised): s.fact('run raises no exception of its own', False, x.what); continue
        r, ev, head, fields = x; got = True
        names = [e[0] for e in ev]
        core = [n for n in names if n != 'stopping_condition']
        s.fact('a run is: before_run, initialization, iterations, after_run', core == ['before_run', 'init_population', 'get_best', 'after_run'], core)
        if core == ['before_run', 'init_population', 'get_best', 'after_run']:
            byn = {e[0]: e for e in ev}
            s.fact('the initial population is made for the task', [w.task] == args_of(byn['init_population'])[0], byn['init_population'])
            a, _ = args_of(byn['get_best']); a = [q for q in a if q is not w.alg]
            s.fact('the first best solution is that of the initial population', len(a) == 2 and a[0] is byn['init_population'][3][0] and a[1] is byn['init_population'][3][1], a)
        st = [e for e in ev if e[0] == 'stopping_condition']
        s.fact('the run ends when the task has stopped', bool(st) and f.pv.valid(f.hyps + pc, st[-1][1]))
        ok = isinstance(r, tuple) and len(r) == 2
        s.fact('a pair is returned', ok, r)
        s.fact('the state parts are carried by the loop', head is not None)
        if ok and head is not None:
            s.fact('the best solution of the last iteration is returned', ident(r[0], head[2]))
            s.ob('its fitness is returned with the sign of the problem', f.hyps + pc, toreal(r[1]) == toreal(head[3]) * w.ot)
        s.fact('no exception is recorded', fields.get('exception') is None)
    s.fact('a run can end', got)
    done = {}
    for what, ok, d in f.loop_obs: done[what] = done.get(what, True) and ok
    s.fact('an arbitrary iteration was verified', bool(done))
    for what, ok in done.items(): s.fact(what, ok)
def exceptions(s):
    for where in ('init_population', 'run_iteration', 'after_iteration', 'before_run', 'after_run', 'next_iter'):
        for main in (True, 'thread', 'process'):
            w = RunWorld(s, where, main); f = w.fv
            f.loopspecs = {'run': [LoopSpec(None)]}; f.loop_obs = []
            old = f.opattr
            def opattr(o, name, w=w, old=old):
                if o is w.PR and name == 'name': return 'MainProcess' if w.main != 'process' else 'Worker-1'
                return old(o, name)
            f.opattr = opattr
            def th():
                w.setup(); f.events.clear()
                return f.method(w.alg, 'run', [w.task]), dict(w.alg.f)
            hit = False
            for pc, x in f.paths(th):
                if main is True:
                    if isinstance(x, Raised): hit = hit or x.what == 'SomeError'
                    continue
                if isinstance(x, Raised): s.fact('outside the main thread of the main process no exception leaves the run', False, '%s in %s' % (x.what, where)); continue
                r, fields = x
                if fields['exception'] is not None:
                    hit = True
                    s.fact('the exception is recorded', isinstance(fields['exception'], Opaque) and fields['exception'].name == 'exception:SomeError', fields['exception'])
                    s.fact('a failed run returns no solution', isinstance(r, tuple) and len(r) == 2 and r[0] is None and r[1] is None, r)
            s.fact('an exception in %s is %s (%s)' % (where, 'raised' if main is True else 'recorded', main), hit)
def bad_run(s):
    w = RunWorld(s); w.setup(); f = w.fv
    s.fact('no exception: not a bad run', f.method(w.alg, 'bad_run') is False)
    w.alg.f['exception'] = Opaque('exception:SomeError')
    s.fact('exception: a bad run', f.method(w.alg, 'bad_run') is True)
def notify(name, nargs):
    def c(s):
        f = s.fv(); ccls = s.cls('niapy.callbacks', 'CallbackList'); bcls = s.cls('niapy.callbacks', 'Callback')
        n = z3.Int('ncb'); f.hyps.append(n >= 0)
        def hook(fv, fn, args, kw):
            if isinstance(fn, Fn) and fn.owner is not None and fn.owner.name == 'Callback' and fn.node.name != '__init__' and args and isinstance(args[0], Obj) and args[0].cls is bcls:
                fv.events.append((fn.node.name, args[0].f['ix'], tuple(args[1:]), dict(kw))); return None
            return NotImplemented
        f.hook = hook
        A = [Opaque('a%d' % k) for k in range(nargs)]; P = Opaque('params')
        kw = {'**': P} if nargs == 4 else {}
        def body(fv, env, k, events):
            out = [('each callback is notified once by %s' % name, len(events) == 1 and events[0][0] == name)]
            if len(events) == 1:
                e = events[0]
                out.append(('callbacks are notified in the order of registration', fv.pv.valid(fv.hyps + fv.path, toint(e[1]) == k)))
                a, kw2 = list(e[2]), dict(e[3])
                for q in ('population', 'fitness', 'best_x', 'best_fitness'):
                    if q in kw2: a.append(kw2.pop(q))
                out.append(('each callback gets the arguments of the notification', len(a) == nargs and all(x is y for x, y in zip(a, A)) and (not kw or kw2.get('**') is P or kw2.get('**') is PD)))
            return out
        PD = None
        f.loopspecs = {name: [LoopSpec({}, None, body)]}; f.loop_obs = []
        def th():
            f.events.clear()
            o = Obj(ccls, {'algorithm': Opaque('alg'), 'callbacks': SymList(n, lambda k: Obj(bcls, {'ix': k, 'algorithm': None}))})
            f.method(o, name, A, kw)
            return list(f.events)
        for pc, x in f.paths(th):
            if isinstance(x, Raised): s.fact('no exception', False, x.what); continue
            s.fact('nobody else is notified', not x, x)
        s.fact('an arbitrary callback was considered', bool(f.loop_obs))
        for what, ok, d in f.loop_obs: s.fact(what, ok)
    return c
def cblist(s):
    f = s.fv(); ccls = s.cls('niapy.callbacks', 'CallbackList'); bcls = s.cls('niapy.callbacks', 'Callback')
    o = f.new(ccls, [], {})
    n = z3.Int('ncb'); f.hyps.append(n >= 0)
    c = lambda: Obj(bcls, {'algorithm': None})
    F = lambda k: ('cb', k)
    for empty in (True, False):
        def th():
            o = f.new(ccls, [], {})
            pre = [c() for _ in range(0 if empty else 3)]
            for q in pre: f.method(o, 'append', [q])
            x = c(); f.method(o, 'append', [x])
            return o, pre, x
        for pc, r in f.paths(th):
            if isinstance(r, Raised): s.fact('no exception', False, r.what); continue
            o, pre, x = r
            L = o.f['callbacks']
            s.fact('append adds the callback at the end', isinstance(L, Lst) and len(L.items) == len(pre) + 1 and all(a is b for a, b in zip(L.items, pre + [x])))
    bad = f.paths(lambda: f.method(f.new(ccls, [], {}), 'append', [Obj(s.cls('niapy.task', 'Task'), {})]))
    s.fact('append refuses what is not a callback', all(isinstance(r, Raised) and r.what == 'ValueError' for _, r in bad))
    src_ = Lst([c(), c()])
    o = f.new(ccls, [src_], {})
    s.fact('the list holds the callbacks it was made with', [q for q in o.f['callbacks'].items] == src_.items and o.f['callbacks'] is not src_)
def frame(s):
    """iterations of every algorithm leave the iteration counter and the budget of the task to the run loop"""
    import ast as A
    for c in src.all_algorithm_classes():
        if any('run' in q.own for q in c.mro if q.name not in ('Algorithm',)): s.fact('%s does not replace the run loop' % c.name, False)
        bad = []
        for n in A.walk(c.node):
            if isinstance(n, A.Attribute) and n.attr in ('next_iter', 'stopping_condition_iter'): bad.append('%s (line %d)' % (n.attr, n.lineno))
            if isinstance(n, A.Attribute) and isinstance(n.ctx, (A.Store, A.Del)) and isinstance(n.value, A.Name) and n.value.id == 'task': bad.append('task.%s (line %d)' % (n.attr, n.lineno))
        s.fact('%s: no method counts iterations or changes the task' % c.name, not bad, bad)
def set_algorithm(s):
    f = s.fv(); ccls = s.cls('niapy.callbacks', 'CallbackList'); bcls = s.cls('niapy.callbacks', 'Callback')
    acls = s.cls('niapy.algorithms.algorithm', 'Algorithm')
    for how in ('list', 'callbacklist', 'none'):
        cb = [Obj(bcls, {'algorithm': None}) for _ in range(2)]
        arg = None if how == 'none' else Lst(list(cb)) if how == 'list' else f.new(ccls, [Lst(list(cb))], {})
        o = f.new(acls, [], {'callbacks': arg, 'seed': Opaque('rng')})
        L = o.f['callbacks']
        s.fact('the algorithm notifies the callbacks it was given', isinstance(L, Obj) and L.cls.isa('CallbackList') and [q for q in L.f['callbacks'].items] == ([] if how == 'none' else cb))
        s.fact('callbacks know their algorithm', L.f['algorithm'] is o and all(q.f['algorithm'] is o for q in L.f['callbacks'].items))
CONTRACTS = {'Algorithm.run': run, 'algorithms (frame)': frame, 'Algorithm.__init__(callbacks)': set_algorithm, 'Algorithm.run(exceptions)': exceptions, 'Algorithm.bad_run': bad_run, 'CallbackList': cblist}
for nm, k in (('before_run', 0), ('after_run', 0), ('before_iteration', 4), ('after_iteration', 4)): CONTRACTS['CallbackList.' + nm] = notify(nm, k)
