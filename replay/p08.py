import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import threading, logging
logging.disable(logging.CRITICAL)
import mon, random
from niapy.callbacks import Callback, CallbackList
from niapy.task import Task, OptimizationType
LIGHT = ['DifferentialEvolution', 'ParticleSwarmAlgorithm', 'GreyWolfOptimizer', 'BatAlgorithm', 'HarmonySearch', 'GeneticAlgorithm', 'ArtificialBeeColonyAlgorithm', 'RandomSearch', 'HillClimbAlgorithm', 'FlowerPollinationAlgorithm', 'CuckooSearch', 'SineCosineAlgorithm', 'FireflyAlgorithm']
ALL = sorted(mon.ALGS)
def gen(rng):
    cls = str(rng.choice(LIGHT if rng.random() < 0.6 else ALL))
    c = list(mon.configs(cls, 1, str(int(rng.integers(1 << 30)))))[0]
    c['ncb'] = int(rng.integers(0, 4)); c['how'] = str(rng.choice(['list', 'CallbackList', 'append']))
    if 'max_evals' in c['task']: c['task']['max_evals'] = min(c['task']['max_evals'], 400)
    if rng.random() < 0.15: c['task'] = {'max_iters': 0} if rng.random() < 0.5 else {'max_evals': 0}
    if rng.random() < 0.3: c['task']['cutoff_value'] = float(rng.choice([0.0, 5.0, -20.0, 1e9, -1e9])); c['task'].setdefault('max_evals', 300)
    return c
class RT(Task):
    ev = None
    def next_iter(self): self.ev.append(('next',)); super().next_iter()
class CB(Callback):
    def __init__(self, k, ev): super().__init__(); self.k, self.ev = k, ev
    def before_run(self): self.ev.append(('before_run', self.k))
    def after_run(self): self.ev.append(('after_run', self.k))
    def snap(self, what, *a, **p): self.ev.append((what, self.k, [id(a[0]), id(a[1]), val(a[0]), val(a[1]), val(a[2]), float(a[3]), sorted(p)], bool(Task.stopping_condition(self.t))))
    def before_iteration(self, population, fitness, best_x, best_fitness, **params): self.snap('before', population, fitness, best_x, best_fitness, **params)
    def after_iteration(self, population, fitness, best_x, best_fitness, **params): self.snap('after', population, fitness, best_x, best_fitness, **params)
def val(x):
    if hasattr(x, 'x'): x = x.x
    try: return np.asarray([getattr(q, 'x', q) for q in x] if getattr(x, 'dtype', None) == object else x, dtype=float).tolist()
    except Exception: return None
def check(q):
    cls, kw, p, t0 = mon.make(q)
    ev = []
    t = RT(problem=p, optimization_type=t0.optimization_type, repair_function=t0.repair_function, **q['task']); t.ev = ev
    cbs = [CB(k, ev) for k in range(q['ncb'])]
    for c in cbs: c.t = t
    if q['how'] == 'append':
        a = cls(seed=q['seed'], **kw)
        for c in cbs: a.callbacks.append(c)
    else: a = cls(seed=q['seed'], callbacks=cbs if q['how'] == 'list' else CallbackList(cbs), **kw)
    if q['how'] != 'append':
        for c in cbs:
            if c.algorithm is not a: return 'callback %d does not know its algorithm' % c.k
    ri = a.run_iteration; cnt = [0]
    class Stop(Exception): pass
    def rit(*x, **y):
        cnt[0] += 1
        if Task.stopping_condition(t): raise AssertionError('an iteration starts although the task has stopped')
        if cnt[0] > 60: raise Stop()
        r = ri(*x, **y); ev.append(('it', val(r[0]), val(r[1]), val(r[2]), float(r[3]), sorted(r[4]))); return r
    a.run_iteration = rit
    mon.signal.setitimer(mon.signal.ITIMER_REAL, 20)
    try: x, f = a.run(t)
    except mon.Timeout: return None
    except AssertionError as e: return str(e)
    except Stop: x = None
    except Exception as e: return None      # other failures of an algorithm are not the subject here
    finally: mon.signal.setitimer(mon.signal.ITIMER_REAL, 0)
    k = q['ncb']; n = cnt[0]
    if x is None: n -= 1; ev = ev[:len(ev)]
    want = [('before_run', c) for c in range(k)]
    got = []
    for e in ev:
        if e[0] == 'it': got.append(('it',))
        elif e[0] == 'next': got.append(('next',))
        else: got.append(e[:2])
    for _ in range(n): want += [('before', c) for c in range(k)] + [('it',)] + [('after', c) for c in range(k)] + [('next',)]
    if x is not None: want += [('after_run', c) for c in range(k)]
    else: got = got[:len(want)]
    if got != want: 
        j = next((i for i, (u, v) in enumerate(zip(got, want)) if u != v), min(len(got), len(want)))
        return 'notifications differ from the protocol at position %d: %r, expected %r' % (j, got[j:j + 3], want[j:j + 3])
    if x is not None and not Task.stopping_condition(t): return 'the run ended although the task has not stopped'
    if x is not None and t.iters != n: return '%d iterations counted, %d made' % (t.iters, n)
    if x is not None and not n:
        best = min([t.optimization_type.value * v for _, v in p.log], default=np.inf)
        if float(f) != t.optimization_type.value * best: return 'a run without iterations returned %r, the best of the initial population is %r' % (float(f), t.optimization_type.value * best)
    last = None; prev = None
    for e in ev:
        if e[0] == 'it': last = e
        elif e[0] == 'after':
            if e[2][2] != last[1] or e[2][3] != last[2] or e[2][4] != last[3] or e[2][5] != last[4] or e[2][6] != last[5]: return 'after_iteration was shown another state than the iteration produced'
            prev = e
        elif e[0] == 'before':
            if e[3]: return 'before_iteration although the task has stopped'
            if prev is not None and e[2][2:] != prev[2][2:]: return 'before_iteration was shown another state than the last iteration produced'
    if x is not None and n:
        if val(x) != last[3] or float(f) != last[4] * t.optimization_type.value: return 'the result %r is not the best of the last iteration %r' % ((val(x), f), last[3:5])
    return None
def gen2(rng): return {'where': str(rng.choice(['eval', 'callback'])), 'after': int(rng.integers(0, 30)), 'cls': str(rng.choice(LIGHT)), 'thread': bool(rng.random() < 0.6), 'seed': int(rng.integers(100)), 'kind': str(rng.choice(['ValueError', 'KeyboardInterrupt', 'Exception']))}
def check2(q):
    from niapy.problems import Problem
    E = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'Exception': Exception}[q['kind']]
    class PP(Problem):
        n = 0
        def _evaluate(self, x):
            PP.n += 1
            if q['where'] == 'eval' and PP.n > q['after']: raise E('boom')
            return float(np.sum(x * x))
    class C(Callback):
        n = 0
        def after_iteration(self, *a, **k):
            C.n += 1
            if q['where'] == 'callback' and C.n > q['after'] % 3: raise E('boom')
    a = mon.ALGS[q['cls']](seed=q['seed'], callbacks=[C()])
    t = Task(PP(3, -1.0, 1.0), max_evals=300 if q['cls'] == 'RandomSearch' else 5000)      # RandomSearch needs quadratic time
    out = {}
    def go():
        try: out['r'] = a.run(t)
        except BaseException as e: out['e'] = e
    if q['thread']:
        th = threading.Thread(target=go); th.start(); th.join()
        if 'e' in out: return 'an exception left a run in another thread: %r' % out['e']
        if out['r'] != (None, None): return 'a failed run returned %r' % (out['r'],)
        if not a.bad_run() or str(a.exception) != 'boom': return 'the exception was not recorded'
    else:
        go()
        if 'e' not in out or str(out['e']) != 'boom': return 'the exception did not reach the caller: %r' % out
TARGETS = {'Algorithm.run': (gen, check), 'Algorithm.run(exceptions)': (gen2, check2)}
if __name__ == '__main__': run(TARGETS)
