"""Contracts of niapy's own boundary functions as seen by the algorithms (each is verified against its body in check_task / check_util)."""
import ast
import z3
from .core import *
from .merge import *
from .interp import Dead, Interp
from .npmodel import NpModel, SGN, ISMIN
from . import src

def PAIRS(st, g, f): return z3.Or(g == f, z3.And(f == INF, st.stopped))

class AlgContracts:
    """contracts used when the body of an algorithm is verified"""
    def __init__(self, task_co):
        self.task = task_co
        self.lower = A1('LO', z3.IntVal(-1), None, 0, D, 'f')
        self.upper = A1('HI', z3.IntVal(-2), None, 0, D, 'f')
        self.range = A1('RG', z3.IntVal(-3), None, 0, D, 'f')
        self.kinds = set()
        self.used = set()
    def init_state(self, st):
        st.arrs['LO'], st.arrs['HI'], st.arrs['RG'] = C1(LO), C1(HI), C1(RG)
        KEYREF['LO'], KEYREF['HI'], KEYREF['RG'] = z3.IntVal(-1), z3.IntVal(-2), z3.IntVal(-3)
        st.add(st.m == INF, st.evals == 0, st.iters == 0, st.base > 0)
        st.ghost['fxb'] = INF
        st.add(z3.Real('MAX_EVALS') > 0, z3.Real('MAX_ITERS') > 0)
    # --- Task
    def task_attr(self, x, st, o, name):
        if name == 'lower': return self.lower
        if name == 'upper': return self.upper
        if name == 'range': return self.range
        if name == 'dimension': return D
        if name == 'optimization_type': return st.rec(o).f.setdefault('optimization_type', Opaque('opttype')) if False else Opaque('opttype')
        if name in ('max_evals', 'max_iters'): return z3.Real(name.upper())
        if name == 'evals': return x.np.mark_nn(st.evals)
        if name == 'iters': return x.np.mark_nn(st.iters)
        if name == 'x_f': return freal('x_f')
        if name == 'problem': return Opaque('problem')
        if name in ('eval', 'repair', 'is_feasible', 'stopping_condition', 'next_iter', 'stopping_condition_iter'): return ExtV('task.' + name, o)
        if name in ('cutoff_value', ): return freal('cutoff')
        raise Unsupported('task attribute %s' % name)
    def task_set_attr(self, x, st, o, name, v, n):
        x.oblige(st, 'TASKSTATE', False, n, 'the task is written by an algorithm: ' + name)
    def on_write(self, x, st, o):
        if getattr(o, 'key', None) in ('LO', 'HI', 'RG'):
            x.oblige(st, 'BOUNDSWRITE', False, None, 'bounds array written')
    def call_opaque(self, x, st, o, args, kw, n):
        raise Unsupported('call of %r' % (o,))
    def call_opaque_method(self, x, st, o, meth, args, kw, n):
        raise Unsupported('method %s of %r' % (meth, o))
    # --- instantiation
    def instantiate(self, x, st, cls, args, kw, n):
        if cls.name == 'CallbackList': return Opaque('callbacks')
        if cls.node is None: raise Dead()
        if cls.isa('Enum'): return UNK
        return NotImplemented
    # --- functions of the repository with contracts
    def func(self, x, st, fn, args, kw, n):
        q = fn.mod.name + ':' + ((fn.owner.name + '.') if fn.owner is not None else '') + fn.name
        h = getattr(self, 'f_' + fn.name, None)
        if h is not None:
            r = h(x, st, q, args, kw, n)
            if r is not NotImplemented: self.used.add(q)
            return r
        return NotImplemented
    def f_objects_to_array(self, x, st, q, args, kw, n):
        if q != 'niapy.util.array:objects_to_array': return NotImplemented
        v = args[0] if args else kw['objs']
        if isinstance(v, Un): return x.split(st, v, lambda s, w: self.f_objects_to_array(x, s, q, [w], {}, n))
        if isinstance(v, CO) and st.rec(v).kind == 'list':
            items = st.rec(v).f
            if items and all(isinstance(i, ObjV) for i in items):
                return x.np.to_lv(st, v, ('obj', items[0].cls), True)
            if items and all(isinstance(i, A1) for i in items):
                return x.np.to_lv(st, v, ('vec', items[0].n), True)
            if not items: return st.newlist(('empty',), 0, (), True)
            return UNK
        if isinstance(v, LV):
            cl = st.arrs[v.key]; return st.newlist(cl.ek, cl.n, cl.c, True)
        if isinstance(v, A2):
            l = x.np.b_list(st, v); cl = st.arrs[l.key]; return st.newlist(cl.ek, cl.n, cl.c, True)
        return UNK
    def f_full_array(self, x, st, q, args, kw, n):
        if q != 'niapy.util.array:full_array': return NotImplemented
        a = args[0] if args else kw['a']
        d = args[1] if len(args) > 1 else kw['dimension']
        if isinstance(a, Un): return x.split(st, a, lambda s, w: self.f_full_array(x, s, q, [w, d], {}, n))
        if is_num(a): return st.new1(TI(d), 'f', z3.K(I, TR(a)))
        if isinstance(a, A1) and same_term(a.n, TI(d)): return a
        return st.new1(TI(d), 'f')
    def f_euclidean(self, x, st, q, args, kw, n):
        if q != 'niapy.util.distances:euclidean': return NotImplemented
        u, v = [x.np.as_arr(st, a) for a in args]
        if isinstance(u, A1) and isinstance(v, A1):
            r = freal('dist'); st.add(r >= 0); return r
        t = x.np.elem(st, None, [u, v], 'f')
        if isinstance(t, A2):
            return x.np.new_shape(st, (t.n,), 'f', lambda e: e >= 0)
        return UNK
    def f_levy_flight(self, x, st, q, args, kw, n):
        if q != 'niapy.util.random:levy_flight': return NotImplemented
        names = ['rng', 'alpha', 'beta', 'size']
        b = dict(zip(names, args)); b.update(kw)
        if b.get('rng') != RNG: x.oblige(st, 'RNG', False, n, 'levy_flight without the generator of the algorithm')
        sh = x.np.shape_of(st, b.get('size'))
        if isinstance(b.get('size'), Un): raise Unsupported('size union')
        return x.np.new_shape(st, sh, 'f')
    def f_integers(self, x, st, q, args, kw, n):
        if q != 'niapy.algorithms.algorithm:Algorithm.integers': return NotImplemented
        names = ['self', 'low', 'high', 'size', 'skip']
        b = dict(zip(names, args)); b.update(kw)
        if b.get('size') is None and not isinstance(b.get('low'), Un) and not isinstance(b.get('high'), Un):
            r = x.np.r_integers(st, b['low'], b.get('high'), None)
            sk = b.get('skip')
            if sk is not None and is_z(r):
                items = sk if isinstance(sk, tuple) else (st.rec(sk).f if isinstance(sk, CO) and st.rec(sk).kind == 'list' else None)
                if items is not None:
                    for w in items:
                        if is_num(w): st.add(r != TI(w))
            return r
        if b.get('skip') is None: return x.np.r_integers(st, b['low'], b.get('high'), b.get('size'))
        return x.np.r_integers(st, b['low'], b.get('high'), b.get('size'))
    # --- external functions with special treatment
    def ext(self, x, st, f, args, kw, n):
        name = f.name
        if name.startswith('task.'):
            return getattr(self, 't_' + name[5:])(x, st, f.recv, args, kw, n)
        if name == 'numpy.random.default_rng':
            a = args[0] if args else kw.get('seed')
            if a == RNG or (isinstance(a, Opaque) and a.name in ('rng', 'seed')): return RNG
            x.oblige(st, 'RNG', False, n, 'a generator that is not derived from the seed')
            return RNG
        if name.startswith('numpy.random.') or name.startswith('random.') or name.startswith('time.') or name.startswith('os.') or name.startswith('secrets.'):
            x.oblige(st, 'RNG', False, n, 'source of randomness outside the generator of the algorithm: ' + name)
            return UNK if not name.startswith('numpy.random.') else UNK
        if name in ('builtins.id', 'builtins.hash'):
            x.oblige(st, 'RNG', False, n, 'value depends on the process: ' + name); return fint('id')
        if name.startswith('opaque:opttype.value'): return UNK
        if name.startswith('opaque:callbacks.'):
            meth = name.split('.')[-1]
            if meth in ('before_iteration', 'after_iteration'): self.boundary(x, st, meth, args, kw, n)
            return None
        return NotImplemented
    # Task.eval: verified in check P06/P07 (eval reads only the point, counts, returns inf once stopped)
    def t_eval(self, x, st, o, args, kw, n):
        v = args[0] if args else kw.get('x')
        if isinstance(v, Un): return x.split(st, v, lambda s, w: self.t_eval(x, s, o, [w], {}, n))
        if isinstance(v, (CO, LV, tuple)): v = x.np.asarray(st, v)
        if v is None: raise Dead()
        if not isinstance(v, A1) or v.mask is not None:
            if v is UNK or isinstance(v, A1):
                x.oblige(st, 'FEAS', False, n, 'evaluated point is not known to the verifier')
                r = freal('ev'); self.note_eval(x, st, r, n); return r
            x.oblige(st, 'SHAPE', False, n, 'evaluated value is not a point')
            r = freal('ev'); self.note_eval(x, st, r, n); return r
        if v.dt != 'f': v = x.np.cast(st, v, 'f')
        if not same_term(v.n, D): x.oblige(st, 'SHAPE', z3.Or(st.stopped, v.n == D), n, 'evaluated point has the dimension of the problem')
        c = st.vec(v)
        x.oblige(st, 'FEAS', z3.Or(st.stopped, FEAS(c)), n, 'evaluated point lies within the bounds')
        r = freal('ev')
        st.add(r == z3.If(st.stopped, INF, G(c)))
        self.note_eval(x, st, r, n)
        return r
    def note_eval(self, x, st, r, n):
        s2 = fbool('stopped')
        st.add(z3.Implies(st.stopped, s2))
        e2 = fint('evals'); st.add(e2 == z3.If(st.stopped, st.evals, st.evals + 1))
        m2 = freal('m'); st.add(m2 == z3.If(r < st.m, r, st.m))
        st.stopped, st.evals, st.m = s2, e2, m2
    # Task.repair: verified in check P10 for every repair function
    def t_repair(self, x, st, o, args, kw, n):
        v = args[0] if args else kw.get('x')
        rng = args[1] if len(args) > 1 else kw.get('rng')
        if isinstance(v, Un): return x.split(st, v, lambda s, w: self.t_repair(x, s, o, [w] + list(args[1:]), kw, n))
        if rng != RNG: x.oblige(st, 'RNG', False, n, 'repair is called without the generator of the algorithm')
        if not isinstance(v, A1) or v.mask is not None:
            if v is UNK:
                r = st.new1(D, 'f'); st.add(FEAS(st.vec(r))); return r
            x.oblige(st, 'SHAPE', False, n, 'repair of something that is not a point')
            return v
        if v.dt != 'f': raise Unsupported('repair of an integer array')
        if not same_term(v.n, D): x.oblige(st, 'SHAPE', v.n == D, n, 'repaired point has the dimension of the problem')
        x.np.guard_write(st, v)
        c = st.vec(v); d = fresh(V, 'rep'); k = z3.Int('k!r')
        st.add(FEAS(d), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < D, LO[k] <= c[k], c[k] <= HI[k]), d[k] == c[k]), patterns=[d[k]]))
        st.setvec(v, d)
        return v
    def f_reflect(self, x, st, q, args, kw, n):
        # verified in check P09: the result lies within the bounds, a component within them is kept, the array is changed in place
        if q != 'niapy.util.repair:reflect' or len(args) != 3 or kw: return NotImplemented
        v, lo, hi = args
        if not isinstance(v, A1) or v.mask is not None or v.dt != 'f' or not same_term(v.n, D) or lo != self.lower or hi != self.upper: return NotImplemented
        return self.t_repair(x, st, None, [v, RNG], {}, n)
    def t_is_feasible(self, x, st, o, args, kw, n):
        v = args[0]
        if isinstance(v, Un): return x.split(st, v, lambda s, w: self.t_is_feasible(x, s, o, [w], {}, n))
        if isinstance(v, A1) and v.mask is None and same_term(v.n, D): return FEAS(st.vec(v))
        return fbool('feasible')
    def t_stopping_condition(self, x, st, o, args, kw, n): return st.stopped
    def t_next_iter(self, x, st, o, args, kw, n):
        if not getattr(self, 'in_run', False) and x.stack and not x.stack[-1].endswith(':Algorithm.run'):
            x.oblige(st, 'TASKSTATE', False, n, 'iteration counter advanced by an algorithm')
        i2 = fint('iters'); st.add(i2 == st.iters + 1); s2 = fbool('stopped'); st.add(z3.Implies(st.stopped, s2))
        st.iters, st.stopped = i2, s2
        return None
    def t_stopping_condition_iter(self, x, st, o, args, kw, n):
        s = st.stopped; self.t_next_iter(x, st, o, args, kw, n); return s
    def map_rows(self, x, st, f, arr, args, kw):
        if isinstance(f, ExtV) and f.name == 'task.eval' and arr.mask is None and arr.dt == 'f':
            c = st.mat(arr); n = arr.n; i = fint('row')
            if not same_term(arr.cols, D): x.oblige(st, 'SHAPE', z3.Or(st.stopped, n <= 0, arr.cols == D), None, 'evaluated points have the dimension of the problem')
            x.oblige(st, 'FEAS', z3.Implies(z3.And(0 <= i, i < n), z3.Or(st.stopped, FEAS(c[i]))), None, 'every evaluated row lies within the bounds')
            s2 = fbool('stopped'); st.add(z3.Implies(st.stopped, s2))
            r = st.new1(n, 'f'); fc = st.vec(r); k = z3.Int('k!e')
            m2, e2 = freal('m'), fint('evals'); w = fint('mw')
            st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(m2 <= fc[k], z3.Or(fc[k] == G(c[k]), z3.And(fc[k] == INF, s2)), z3.Implies(st.stopped, fc[k] == INF))), patterns=[fc[k]]),
                   m2 <= st.m, z3.Or(m2 == st.m, z3.And(0 <= w, w < n, m2 == fc[w])), e2 >= st.evals, e2 <= st.evals + n, *([z3.Or(st.stopped, n <= 0, e2 >= st.evals + 1)] if x.progress else []))
            st.stopped, st.m, st.evals = s2, m2, e2
            return r
        if isinstance(f, ExtV) and f.name == 'task.repair' and arr.mask is None and arr.dt == 'f':
            rng = args[0] if args else kw.get('rng')
            if rng != RNG: x.oblige(st, 'RNG', False, None, 'repair is called without the generator of the algorithm')
            x.np.guard_write(st, arr)
            c = st.mat(arr); d = fresh(M, 'rep'); i, k = z3.Ints('i!e k!e')
            st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < arr.n), FEAS(d[i])), patterns=[d[i]]),
                   z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < arr.n, 0 <= k, k < D, LO[k] <= c[i][k], c[i][k] <= HI[k]), d[i][k] == c[i][k]), patterns=[d[i][k]]))
            if not (isinstance(arr.off, int) and arr.off == 0): x.np.havoc2(st, arr)
            else: st.setmat_raw(arr, d)
            return st.new2(arr.n, arr.cols, 'f', d)
        return NotImplemented
    def copy_obj(self, x, st, v):
        g, r = st.newref()
        o = ObjV(r, v.cls)
        for name in list(st.fields):
            w = x.get_field(st, v, name) if st.fields[name].kind != 'u' else UNK
            def cp(w):
                if isinstance(w, (A1, A2)): return x.np.copy(st, w)
                if isinstance(w, Un): return Un([(gd, cp(y)) for gd, y in w.alts])
                return w
            x.set_field(st, o, name, cp(w))
        return o
    def copy_objs(self, x, st, v): raise Unsupported('deepcopy of objects')
    # --- what a callback observes: the state between iterations
    def boundary(self, x, st, meth, args, kw, n):
        if len(args) < 4:
            x.oblige(st, 'PROTO', False, n, 'callback receives population, fitness, best point and best fitness'); return
        pop, fit, xb, fxb = args[:4]
        first = meth == 'before_iteration'
        tag = 'before' if first else 'after'
        self.align(x, st, pop, fit, n)
        self.pair_ob(x, st, xb, fxb, n)
        f = self.numof(x, st, fxb)
        if f is None:
            x.oblige(st, 'ELITE', False, n, 'best fitness is not a number known to the verifier'); return
        if not first: x.oblige(st, 'ELITE', f <= st.ghost['fxb'], n, 'best fitness never gets worse')
        x.oblige(st, 'BEST', f <= st.m, n, 'best fitness is at most every value evaluated so far')
        st.ghost['fxb'] = f
    def numof(self, x, st, v):
        if isinstance(v, Un):
            r = None
            for g, w in reversed(v.alts):
                if not is_num(w): return None
                r = TR(w) if r is None else z3.If(g, TR(w), r)
            return r
        return TR(v) if is_num(v) else None
    def pair_ob(self, x, st, xb, fxb, n):
        f = self.numof(x, st, fxb)
        if isinstance(xb, Un):
            for g, w in xb.alts:
                t = st.copy(); t.path.append(g)
                self.pair_ob(x, t, w, fxb, n)
            return
        if f is None or not isinstance(xb, A1) or xb.dt != 'f' or xb.mask is not None:
            if xb is None and f is not None:
                x.oblige(st, 'PAIR', z3.And(f == INF, st.stopped), n, 'best point missing'); return
            x.oblige(st, 'PAIR', False, n, 'best pair has an unknown shape: %r %r' % (xb, fxb)); return
        c = st.vec(xb)
        if not same_term(xb.n, D): x.oblige(st, 'SHAPE', xb.n == D, n, 'best point has the dimension of the problem')
        x.oblige(st, 'PAIR', PAIRS(st, G(c), f), n, 'best fitness is the objective value of the best point')
        x.oblige(st, 'BESTFEAS', z3.Or(FEAS(c), z3.And(f == INF, st.stopped)), n, 'best point lies within the bounds')
    def align(self, x, st, pop, fit, n):
        if isinstance(pop, Un) or isinstance(fit, Un):
            v = pop if isinstance(pop, Un) else fit
            for g, w in v.alts:
                t = st.copy(); t.path.append(g)
                if isinstance(pop, Un): self.align(x, t, w, fit, n)
                else: self.align(x, t, pop, w, n)
            return
        i = fint('i')
        ob = lambda g, note: x.oblige(st, 'ALIGN', g, n, note)
        note = 'fitness of each member of the population is its objective value'
        if isinstance(fit, (LV, CO, tuple)): fit = x.np.asarray(st, fit)
        if is_num(fit):
            f = TR(fit)
            if isinstance(pop, A1): ob(PAIRS(st, G(st.vec(pop)), f), note); return
            if isinstance(pop, ObjV):
                ob(self.obj_pair(x, st, pop.ref, f), note); return
            ob(False, 'population/fitness shape unknown: %r %r' % (pop, fit)); return
        if not isinstance(fit, A1) or fit.dt != 'f':
            ob(False, 'population/fitness shape unknown: %r %r' % (pop, fit)); return
        fc = st.vec(fit)
        if isinstance(pop, CO): 
            cl = x.np.lv_of(st, pop); pop = st.newlist(cl.ek, cl.n, cl.c)
        if isinstance(pop, A2) and pop.dt == 'f':
            x.oblige(st, 'ALIGN', pop.n == fit.n, n, 'population and fitness have the same length')
            c = st.mat(pop)
            ob(z3.Implies(z3.And(0 <= i, i < pop.n), PAIRS(st, G(c[i]), fc[i])), note); return
        if isinstance(pop, LV):
            cl = st.arrs[pop.key]
            x.oblige(st, 'ALIGN', cl.n == fit.n, n, 'population and fitness have the same length')
            if cl.ek[0] == 'obj':
                ob(z3.Implies(z3.And(0 <= i, i < cl.n), self.obj_pair(x, st, cl.c[0][i], fc[i])), note); return
            if cl.ek[0] == 'vec':
                ob(z3.Implies(z3.And(0 <= i, i < cl.n), PAIRS(st, G(st.H[cl.c[0][i]][cl.c[1][i]]), fc[i])), note); return
        ob(False, 'population/fitness shape unknown: %r %r' % (pop, fit))
    def obj_pair(self, x, st, ref, f):
        fx, ff = st.fields.get('x'), st.fields.get('f')
        if fx is None or fx.kind != 'v' or ff is None or ff.kind not in ('f', 'i'): return z3.BoolVal(False)
        xr = st.H[fx.maps[0][ref]][fx.maps[1][ref]]
        return z3.And(PAIRS(st, G(xr), f), TR(ff.maps[0][ref]) == f)
