"""Task: counting and stopping."""
from fv.eng import *
from specs.taskspec import *
ALL = ('evals', 'iters', 'x_f', 'max_evals', 'max_iters', 'cutoff_value', 'n_evals', 'fitness_evals', 'fitness_iters', 'dimension', 'lower', 'upper', 'problem', 'optimization_type', 'repair_function')
def each(f):
    def c(s):
        for typ in TYPES:
            for b in ('int', 'inf'):
                w = World(s, typ, False, b); w.checkstate(s); f(s, w)
    return c
@each
def stopping_condition(s, w):
    for hy, t, b, snap, r, ev in w.paths('stopping_condition'):
        s.ob('stops exactly when the evaluations or iterations are used up or the cutoff is reached', hy, tobool(r) == w.stopped())
        w.unchanged(hy, t, b, snap, ALL, 'asking does not change')
        s.fact('asking does not evaluate', not [e for e in ev if e[0] == 'evaluate'])
@each
def eval_(s, w):
    x = Opaque('x')
    for hy, t, b, snap, r, ev in w.paths('eval', x):
        calls = [e for e in ev if e[0] == 'evaluate']
        if not calls:
            s.ob('the problem is not evaluated only if the task has stopped', hy, w.stopped())
            if isnum(r): s.ob('a stopped task returns infinity', hy, toreal(r) == INF)
            else: s.fact('a stopped task returns infinity', False, repr(r))
            w.unchanged(hy, t, b, snap, ALL, 'a stopped task is not changed')
        else:
            s.ob('a stopped task does not evaluate the problem', hy, z3.Not(w.stopped()))
            s.fact('the problem is evaluated once, at the given point', len(calls) == 1 and calls[0][1] is x, calls)
            s.ob('the evaluation is counted once', hy, toreal(t.f['evals']) == z3.ToReal(w.evals) + 1)
            s.ob('never more evaluations than allowed', hy, tobool(cmpop('LtE', t.f['evals'], w.ME)))
            w.unchanged(hy, t, b, snap, ('iters', 'max_evals', 'max_iters', 'cutoff_value', 'fitness_iters', 'problem', 'optimization_type', 'repair_function', 'lower', 'upper', 'dimension'), 'evaluation leaves unchanged')
@each
def next_iter(s, w):
    for hy, t, b, snap, r, ev in w.paths('next_iter'):
        s.ob('an iteration is counted once', hy, toreal(t.f['iters']) == z3.ToReal(w.iters) + 1)
        w.unchanged(hy, t, b, snap, ('evals', 'x_f', 'max_evals', 'max_iters', 'cutoff_value', 'n_evals', 'fitness_evals'), 'counting an iteration leaves unchanged')
        s.fact('counting an iteration does not evaluate', not [e for e in ev if e[0] == 'evaluate'])
@each
def stopping_condition_iter(s, w):
    for hy, t, b, snap, r, ev in w.paths('stopping_condition_iter'):
        s.ob('tells whether the task had stopped before the iteration', hy, tobool(r) == w.stopped())
        s.ob('an iteration is counted once', hy, toreal(t.f['iters']) == z3.ToReal(w.iters) + 1)
        w.unchanged(hy, t, b, snap, ('evals', 'x_f', 'max_evals', 'max_iters', 'n_evals', 'fitness_evals'), 'leaves unchanged')
@each
def init(s, w):
    f = s.fv([INF > 0, w.D >= 1]); f.hook = w.hook
    for given in (False, True):
        kw = {'problem': w.problem, 'optimization_type': w.otv}
        if given: kw.update(max_evals=w.ME, max_iters=w.MI, cutoff_value=w.cut, repair_function=w.repair)
        for pc, t in f.paths(lambda: f.new(w.cls, [], dict(kw))):
            hy = f.hyps + pc
            if isinstance(t, Raised): s.fact('constructor raises no exception', False, t.what); continue
            s.ob('a new task has made no evaluation and no iteration', hy, z3.And(toreal(t.f['evals']) == 0, toreal(t.f['iters']) == 0))
            s.ob('maximum of evaluations as given (default: none)', hy, toreal(t.f['max_evals']) == (toreal(w.ME) if given else INF))
            s.ob('maximum of iterations as given (default: none)', hy, toreal(t.f['max_iters']) == (w.MI if given else INF))
            s.ob('cutoff as given (default: never reached)', hy, toreal(t.f['cutoff_value']) == (w.cut if given else -INF * z3.RealVal(str(w.ot))))
            s.fact('the task has the problem, dimension and bounds given', t.f['problem'] is w.problem and t.f['dimension'] is w.D and t.f['lower'] is w.problem.f['lower'] and t.f['upper'] is w.problem.f['upper'])
            if given: s.fact('the repair function is the one given', t.f['repair_function'] is w.repair)
            s.fact('the optimization type is the one given', t.f['optimization_type'] is w.otv)
            i = ivar('i')
            s.ob('range is upper minus lower', hy + [i >= 0, i < w.D], toreal(t.f['range'].at(i)) == toreal(w.problem.f['upper'].at(i)) - toreal(w.problem.f['lower'].at(i)))
CONTRACTS = {'Task.stopping_condition': stopping_condition, 'Task.eval': eval_, 'Task.next_iter': next_iter, 'Task.stopping_condition_iter': stopping_condition_iter, 'Task.__init__': init}
