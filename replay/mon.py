"""Runtime contract monitor: runs the real algorithms on generated tasks and checks the contracts that the
deductive step proves (bounded stand-in where a class is not proved, and search for a failing input when an
obligation fails).  Usage: mon.py CLASS N SEED [SECS]  -> one JSON line;  mon.py --replay FILE"""
import sys, os, warnings, logging, traceback, signal, json, hashlib, random, time
warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)
import numpy as np
np.seterr(all='ignore')
import niapy.algorithms.basic as B, niapy.algorithms.modified as M, niapy.algorithms.other as O
from niapy.algorithms.algorithm import Algorithm, Individual
from niapy.callbacks import Callback
from niapy.problems import Problem
from niapy.task import Task, OptimizationType
from niapy.util import repair as R

ALGS = {}
for mod in (B, M, O):
    for n in sorted(vars(mod)):
        c = getattr(mod, n)
        if isinstance(c, type) and issubclass(c, Algorithm) and c is not Algorithm: ALGS[c.__name__] = c

def new_array(x, lower, upper, **_kw): return np.clip(x, lower, upper)      # a user's repair function that does not work in place
def new_wang(x, lower, upper, **kw): return R.wang(x.copy(), lower, upper)
MORE = {'new_array': new_array, 'new_wang': new_wang}
REPAIRS = ('limit', 'limit_inverse', 'wang', 'rand', 'reflect', 'new_array', 'new_wang')
class Timeout(BaseException): pass
class Stop(Exception): pass
def _alarm(*a): raise Timeout()
signal.signal(signal.SIGALRM, _alarm)

class P(Problem):
    """generated objective that records every point it is asked for"""
    def __init__(self, dim, lo, hi, kind):
        super().__init__(dim, lo, hi)
        self.kind = kind; self.log = []; self.last = time.process_time()
    def F(self, x):
        u, k = self.upper, self.kind
        x = np.asarray(x, dtype=float)
        if k == 'wavy': return float(np.sum((x - 0.3 * u) ** 2) + 10 * np.sum(np.cos(3 * x)))
        if k == 'neg': return float(-50 - np.sum(np.abs(x - self.lower)))
        if k == 'step': return float(np.sum(np.floor(x)))
        if k == 'lin': return float(np.dot(x, np.arange(1, len(x) + 1)))
        if k == 'const': return 7.0
        if k == 'sphere': return float(np.sum(x * x))
        if k == 'edge': return float(np.sum((x - u) * np.arange(1, len(x) + 1) % 3.7) + 3)
        raise KeyError(k)
    def _evaluate(self, x):
        v = self.F(x)
        self.log.append((np.array(x, copy=True), v)); self.last = time.process_time()
        return v

def inside(p, x):
    x = np.asarray(x, dtype=float)
    tol = 1e-9 * (1 + np.abs(p.upper) + np.abs(p.lower))
    return x.shape == p.lower.shape and bool(np.all(x >= p.lower - tol) and np.all(x <= p.upper + tol))

def close(a, b): return a == b or abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))

def make(cfg):
    cls = ALGS[cfg['cls']]
    kw = dict(cfg.get('kw', {}))
    dim = cfg['dim']
    lo, hi = np.array(cfg['lo'], float), np.array(cfg['hi'], float)
    p = P(dim, lo, hi, cfg['problem'])
    opt = OptimizationType.MINIMIZATION if cfg['opt'] == 'min' else OptimizationType.MAXIMIZATION
    t = Task(problem=p, optimization_type=opt, repair_function=MORE.get(cfg['repair']) or getattr(R, cfg['repair']), **cfg['task'])
    for k, v in list(kw.items()):
        if isinstance(v, str) and v.startswith('@'):
            m = sys.modules[cls.__module__]; import niapy.algorithms.basic.de as de; kw[k] = getattr(m, v[1:], None) or getattr(de, v[1:])
        elif isinstance(v, list) and v and isinstance(v[0], str) and v[0].startswith('@'):
            m = sys.modules[cls.__module__]
            import niapy.algorithms.basic.de as de
            kw[k] = [getattr(m, w[1:], None) or getattr(de, w[1:]) for w in v]
    return cls, kw, p, t

def rows_of(pop):
    if isinstance(pop, Individual): return None
    if isinstance(pop, np.ndarray) and pop.ndim == 1 and pop.dtype != object: return None
    out = []
    for q in pop: out.append(q)
    return out

def contract(p, t, sgn, pop, fpop, add, where):
    """alignment of population and fitness"""
    try:
        if isinstance(pop, Individual) or np.ndim(fpop) == 0:
            x = pop.x if isinstance(pop, Individual) else pop
            f = float(fpop)
            if isinstance(pop, Individual) and pop.f != f: add('P04', where + ': fitness of the individual differs from the reported fitness')
            if f == np.inf:
                if not t.stopping_condition(): add('P04', where + ': infinite fitness before the stopping condition')
            elif not close(f, sgn * p.F(x)): add('P04', where + ': fitness %r is not the objective value %r' % (f, sgn * p.F(x)))
            return
        rows = rows_of(pop)
        fp = [float(v) for v in np.ravel(np.asarray(fpop, dtype=float))]
        if len(rows) != len(fp):
            add('P04', where + ': %d members, %d fitness values' % (len(rows), len(fp))); return
        for i, (q, f) in enumerate(zip(rows, fp)):
            x = q.x if isinstance(q, Individual) else q
            if isinstance(q, Individual) and not (q.f == f): add('P04', where + ': member %d has fitness %r, reported %r' % (i, q.f, f)); return
            if f == np.inf:
                if not t.stopping_condition(): add('P04', where + ': member %d has infinite fitness before the stopping condition' % i); return
                continue
            if not close(f, sgn * p.F(np.asarray(x, float))):
                add('P04', where + ': member %d: fitness %r, objective value %r' % (i, f, sgn * p.F(np.asarray(x, float)))); return
    except Stop: raise
    except (TypeError, ValueError, AttributeError) as e:
        add('P04', where + ': population and fitness cannot be paired: %r' % (e,))

def run(cfg, want=None, secs=15):
    """-> (violations {prop: text}, log signature or None, note)"""
    bad = {}
    def add(pr, text):
        if want is None or pr in want: bad.setdefault(pr, text)
    cls, kw, p, t = make(cfg)
    sgn = 1.0 if cfg['opt'] == 'min' else -1.0
    note = None
    np.random.seed(cfg.get('gseed', 0)); random.seed(cfg.get('gseed', 0))
    signal.setitimer(signal.ITIMER_REAL, secs)
    res = None
    ev = []
    try:
        a = cls(seed=cfg['seed'], **kw)
        sets = cfg.get('set')
        if sets is not None: a.set_parameters(**sets)
        ri, ip = a.run_iteration, a.init_population
        st = {'fxb': np.inf, 'n': 0}
        def best_ok(xb, fxb, where):
            if np.ndim(fxb): add('P02', where + ': best fitness is not a number: %r' % (fxb,)); raise Stop()
            f = float(fxb)
            if f == np.inf:
                if not t.stopping_condition(): add('P02', where + ': infinite best fitness before the stopping condition')
            else:
                x = xb.x if isinstance(xb, Individual) else np.asarray(xb, float)
                if not inside(p, x): add('P01', where + ': best point outside the bounds: %r' % (x.tolist(),))
                if not close(f, sgn * p.F(x)): add('P02', where + ': best fitness %r, objective value of best point %r' % (f, sgn * p.F(x)))
            m = min((sgn * v for _, v in p.log), default=np.inf)
            if f > m and not close(f, m): add('P03', where + ': best fitness %r, but %r was evaluated' % (f, m))
        def ini(task):
            r = ip(task); ev.append('init')
            contract(p, t, sgn, r[0], r[1], add, 'after initialisation')
            return r
        def rit(task, pop, fpop, xb, fxb, **params):
            fin = float(fxb)
            best_ok(xb, fxb, 'before iteration %d' % t.iters)
            e0 = t.evals
            r = ri(task, pop, fpop, xb, fxb, **params); ev.append('it')
            pop, fpop, xb, fxb, pr = r
            st['n'] += 1
            if t.evals == e0 and not t.stopping_condition(): add('P15', 'iteration %d evaluated nothing' % t.iters)
            contract(p, t, sgn, pop, fpop, add, 'after iteration %d' % t.iters)
            best_ok(xb, fxb, 'after iteration %d' % t.iters)
            if float(fxb) > fin: add('P03', 'iteration %d made the best fitness worse: %r -> %r' % (t.iters, fin, float(fxb)))
            if t.evals > t.max_evals: raise Stop()
            if st['n'] > cfg.get('maxit', 400): raise Stop()
            return r
        a.run_iteration, a.init_population = rit, ini
        x, f = a.run(t)
        x = x.x if isinstance(x, Individual) else np.asarray(x, float)
        if np.ndim(f): add('P02', 'returned fitness is not a number: %r' % (f,)); raise Stop()
        f = float(f); res = (x, f)
        ev.append('end')
        if abs(f) != np.inf:
            if not close(f, p.F(x)): add('P02', 'returned fitness %r, objective value of returned point %r' % (f, p.F(x)))
            if not inside(p, x): add('P01', 'returned point outside the bounds: %r' % (x.tolist(),))
            m = min((sgn * v for _, v in p.log), default=np.inf)
            if sgn * f > m and not close(f, sgn * m): add('P03', 'returned fitness %r, but %r was evaluated' % (f, sgn * m))
            if not close(float(t.x_f), f): add('P03', 'returned fitness %r, the task recorded %r' % (f, float(t.x_f)))
        elif p.log: add('P03', 'returned fitness %r although points were evaluated' % f)
    except Timeout:
        note = 'timeout'
        if time.process_time() - p.last > 8: add('P15', 'no evaluation and no end of the run in %.0f s of processor time (after %d evaluations)' % (time.process_time() - p.last, len(p.log)))
    except Stop: note = 'stopped'
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
        tb = [q for q in traceback.extract_tb(e.__traceback__) if 'niapy' in q.filename]
        note = 'exception %r at %s:%s' % (repr(e)[:80], os.path.basename(tb[-1].filename) if tb else '?', tb[-1].lineno if tb else '?')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    for nm, v, w in (('lower', cfg['lo'], p.lower), ('upper', cfg['hi'], p.upper), ('lower', cfg['lo'], t.lower), ('upper', cfg['hi'], t.upper), ('range', np.array(cfg['hi'], float) - np.array(cfg['lo'], float), t.range)):
        if not np.array_equal(np.asarray(v, float), np.asarray(w, float)): add('P01', 'the run modified the %s bounds: %r' % (nm, np.asarray(w).tolist()))
    for q, v in p.log:
        if not inside(p, q): add('P01', 'evaluated point outside the bounds: %r' % (np.asarray(q).tolist(),)); break
    if len(p.log) > t.max_evals: add('P06', '%d evaluations, budget %r' % (len(p.log), t.max_evals))
    if len(p.log) != t.evals: add('P06', '%d evaluations happened, the task counted %d' % (len(p.log), t.evals))
    h = hashlib.sha256()
    for q, v in p.log: h.update(np.asarray(q, float).tobytes()); h.update(np.float64(v).tobytes())
    if res is not None: h.update(np.asarray(res[0], float).tobytes())
    sig = (len(p.log), h.hexdigest(), note if note not in ('timeout',) else None, None if res is None else res[1])
    return bad, sig, note

def full(cfg, want=None, secs=15):
    bad, sig, note = run(cfg, want, secs)
    if (want is None or 'P05' in want) and note != 'timeout':
        c2 = dict(cfg); c2['gseed'] = cfg.get('gseed', 0) + 12345
        b2, sig2, note2 = run(c2, (), secs)
        if note2 != 'timeout' and sig2 != sig:
            bad['P05'] = 'two runs with the same seed differ: %r / %r' % (sig[:1] + sig[3:], sig2[:1] + sig2[3:])
    return bad, note

# ---------------------------------------------------------------- generation of configurations
EXTRA = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'params.json'))) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'params.json')) else {}

def pop_default(cls):
    try: return ALGS[cls]().population_size or 10
    except Exception: return 20

def configs(cls, n, seed):
    rnd = random.Random('%s|%s' % (cls, seed))
    pd = pop_default(cls)
    ex = EXTRA.get(cls, [{}])
    for j in range(n):
        dim = rnd.choice([1, 2, 3, 5, 8, 12])
        if cls in ('NelderMeadMethod', 'AnarchicSocietyOptimization') and dim == 1: dim = 4
        shape = rnd.randrange(4)
        if shape == 0: lo, hi = [-5.0] * dim, [5.0] * dim
        elif shape == 1: lo, hi = [-1 - 0.7 * i for i in range(dim)], [2 + 0.3 * i for i in range(dim)]
        elif shape == 2: lo, hi = [3 + 2.0 * i for i in range(dim)], [4 + 2.5 * i for i in range(dim)]
        else: lo, hi = [-9.0 - i for i in range(dim)], [-1 - 0.5 * i for i in range(dim)]
        kw = dict(rnd.choice(ex)) if rnd.random() < 0.5 else {}
        if 'population_size' not in kw and rnd.random() < 0.25 and cls not in NOPOP:
            kw['population_size'] = rnd.choice([max(6, pd // 2), pd + 3])
        if cls in NOPOP: kw.pop('population_size', None)
        np_ = kw.get('population_size', pd)
        tk = rnd.randrange(8)
        if tk < 2: task = {'max_evals': rnd.choice([np_ * 3, np_ * 6, 300, 500])}
        elif tk == 2: task = {'max_evals': rnd.choice([1, 2, 3, 5, 7, max(1, np_ - 1), np_, np_ + 1])}
        elif tk < 5: task = {'max_evals': np_ + rnd.randrange(1, 3 * np_ + 2)}
        elif tk < 7: task = {'max_iters': rnd.choice([1, 2, 4, 7])}
        else: task = {'max_iters': rnd.choice([2, 5]), 'max_evals': rnd.choice([np_ * 2 + 3, np_ * 4])}
        yield {'cls': cls, 'kw': kw, 'dim': dim, 'lo': lo, 'hi': hi, 'problem': rnd.choice(['wavy', 'wavy', 'neg', 'step', 'lin', 'const', 'sphere', 'edge']),
               'opt': rnd.choice(['min', 'max']), 'repair': rnd.choice(REPAIRS), 'task': task, 'seed': rnd.randrange(1, 1000)}
NOPOP = {'ParameterFreeBatAlgorithm'}

def search(cls, n, seed, want=None, secs=60):
    t0 = time.time(); found = {}; done = 0; notes = {}
    for cfg in configs(cls, n, seed):
        if time.time() - t0 > secs: break
        bad, note = full(cfg, want, min(15, max(2, secs - (time.time() - t0))))
        done += 1
        if note: notes[note] = notes.get(note, 0) + 1
        for pr, text in bad.items():
            found.setdefault(pr, []).append((text, cfg))
        if want is not None and want and all(pr in found for pr in want): break
    return {'cls': cls, 'done': done, 'found': {k: v[:3] for k, v in found.items()}, 'count': {k: len(v) for k, v in found.items()}, 'notes': notes, 'secs': time.time() - t0}

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2])); cfg = d.get('config', d)
        bad, note = full(cfg)
        print(json.dumps(bad, indent=1), note or '')
        sys.exit(1 if d.get('property') in bad or (not d.get('property') and bad) else 0)
    cls, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    secs = float(sys.argv[4]) if len(sys.argv) > 4 else 60
    want = set(sys.argv[5].split(',')) if len(sys.argv) > 5 else None
    print(json.dumps(search(cls, n, seed, want, secs)))
