"""Verification of one algorithm class: the real Algorithm.run with the class's own methods, for every task."""
import ast, sys, time
import z3
from . import src, core, merge
from .core import *
from .interp import Interp, Dead, Ob
from .loops import LoopMixin
from .npmodel import NpModel, SGN, ISMIN, mul_axioms
from .contracts import AlgContracts

class Exec(LoopMixin, Interp):
    pass

class NpAlg(NpModel):
    def opaque_attr(self, st, o, name):
        if o.name == 'opttype' and name == 'value': return SGN
        return NpModel.opaque_attr(self, st, o, name)

def make(timeout_ms=6000):
    sv = Solver(timeout_ms)
    sv.base = axioms() + mul_axioms()
    st = State()
    task = st.newrec('task', None, {})
    con = AlgContracts(task)
    x = Exec(sv, con, NpAlg())
    x.list_pop = x.np.list_pop
    x.modstack, x.fnstack, x.envstack = [None], [None], [None]
    con.init_state(st)
    return x, st, task

def init_args(x, st, cls, mode, overrides=None):
    kw = {}
    pop = fint('population_size'); st.add(pop >= 1); x.np.mark_nn(pop)
    kw['seed'] = Opaque('seed')
    kw['population_size'] = pop
    return kw, pop

def verify_class(cls, mode='default', budget=120, log=None, overrides=None, timeout_ms=6000, hints=None, progress=False, kinds=None):
    t0 = time.time()
    x, st, task = make(90000)     # only the (deterministic) rlimit counts
    x.deadline = t0 + budget; x.hints = hints; x.progress = progress
    if progress is True: x.families = ('len', 'int', 'num')
    res = {'cls': cls.name, 'mode': mode, 'obs': [], 'error': None}
    st.frames.append({}); st.dead.append(frozenset())
    try:
        self = st.newrec('inst', cls, {})
        kw, pop = init_args(x, st, cls, mode, overrides)
        x.modstack.append(cls.mod)
        try:
            mark = len(st.pc)
            x.call_method(st, self, '__init__', [], dict(kw))
        except Dead:
            # constructor does not take population_size
            st.rec(self).f.clear(); kw.pop('population_size')
            x.call_method(st, self, '__init__', [], dict(kw))
        st.wrec(self).f['callbacks'] = Opaque('callbacks')
        res['pop_symbolic'] = 'population_size' in kw
        r = x.call_method(st, self, 'run', [task], {})
        final(x, st, r)
        reach = x.solver.reachable(st.facts())
        res['reachable'] = reach
    except Unsupported as e:
        res['error'] = 'unsupported: %s [%s]' % (e, getattr(e, 'at', '?'))
    except Dead:
        res['error'] = 'unsupported: every path ends in an exception [%s]' % getattr(x, 'last_dead', '?')
    except RecursionError:
        res['error'] = 'unsupported: recursion'
    except z3.Z3Exception as e:
        import traceback
        res['error'] = 'internal: %s' % e; res['tb'] = traceback.format_exc()
    except Exception as e:
        import traceback
        res['error'] = 'internal: %s: %s' % (type(e).__name__, e); res['tb'] = traceback.format_exc()
    res['gen_s'] = time.time() - t0
    if kinds is not None: x.obs = [o for o in x.obs if o.kind in kinds]
    res['obs'] = discharge(x)
    res['wall'] = time.time() - t0
    res['queries'] = x.solver.n; res['solver_s'] = x.solver.t
    res['retried'] = x.solver.retried
    res['late'] = x.solver.late
    res['inlined'] = sorted(x.inlined); res['contracts'] = sorted(x.contracts.used); res['trusted'] = sorted(x.assumed)
    res['invariants'] = x.found
    res['loops'] = getattr(x, 'loops_done', 0)
    return res

def final(x, st, r):
    """run returns (point, user-facing fitness)"""
    from .npmodel import mul
    if isinstance(r, Un):
        for g, w in r.alts:
            t = st.copy(); t.path.append(g); final(x, t, w)
        return
    if not (isinstance(r, tuple) and len(r) == 2):
        x.oblige(st, 'RESULT', False, None, 'run returns a pair'); return
    xb, f = r
    ff = x.contracts.numof(x, st, f)
    if ff is None: x.oblige(st, 'RESULT', False, None, 'returned fitness is a number'); return
    adj = z3.If(ISMIN, ff, -ff)
    x.stack.append('result:run')
    x.contracts.pair_ob(x, st, xb, adj, None)
    x.oblige(st, 'RESULT', adj <= st.m, None, 'returned fitness is the best value evaluated')
    x.oblige(st, 'RESULT', z3.Or(adj == st.m, adj == INF), None, 'returned fitness was evaluated')
    x.stack.pop()

def discharge(x):
    out = []
    groups = {}
    for o in x.obs:
        groups.setdefault(id(o.facts) if False else tuple(f.get_id() for f in o.facts), []).append(o)
    for g, obs in groups.items():
        todo = [o for o in obs if not z3.is_true(z3.simplify(o.goal))]
        for o in obs:
            if o not in todo: o.res = 'valid'
        if not todo: continue
        rs = x.solver.valid_many(list(todo[0].facts), [o.goal for o in todo], rlimit=8000000, retry=True)
        for o, r in zip(todo, rs): o.res = r
    for o in x.obs: out.append((o.kind, o.where, o.note, o.res))
    return out

if __name__ == '__main__':
    names = sys.argv[1:]
    for c in src.all_algorithm_classes():
        if c.name in names:
            r = verify_class(c)
            bad = [o for o in r['obs'] if o[3] != 'valid']
            print(c.name, 'gen %.1f wall %.1f q %d loops %d obs %d bad %d reach %s' % (r['gen_s'], r['wall'], r['queries'], r['loops'], len(r['obs']), len(bad), r.get('reachable')), r['error'] or '')
            if 'tb' in r: print(r['tb'])
            for b in bad: print('   ', b)
