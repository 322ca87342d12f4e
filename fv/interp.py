"""Interpreter of function bodies over the values of eng.py; symbolic branches fork by re-execution."""
import weakref
from .eng import *

from .eng import _cnt as eng_cnt
class PathEnd(Exception): pass
class LoopSpec:
    """a loop verified by a stated invariant.  names: carried variables with their kind ('int', 'real', 'listint', 'listreal',
    'opaque'); inv(fv, env, k) -> [(text, term)]; body(fv, env, k, events) -> [(text, holds)] judged at the end of an iteration"""
    def __init__(self, names, inv=None, body=None): self.names, self.inv, self.body = names, inv or (lambda *a: []), body

class FV:
    def __init__(self, hyps=None, prover=None):
        self.hyps = list(hyps or [])     # standing hypotheses
        self.pv = prover or Prover()
        self.decisions, self.pos, self.path = [], 0, []
        self.inlined = set(); self.trusted = set()
        self.depth = 0
        self.idxhyps = []                # ranges of index variables in scope
        self.rng_draws = []
        self.ctx = []                    # comprehension / row-map elements being evaluated: [instance, index term, {node: count}]
        self.ctxmemo = {}; self.curcall = None
        self.hook = None                 # hook(fv, fn, args, kw) -> value or NotImplemented
        self.exthook = None
        self.events = []
    # ---------------------------------------------------------------- paths
    def branch(self, c):
        c = conc(tobool(c)) if isz(c) else bool(c)
        if not isz(c): return c
        if self.noforks: raise Unsupported('symbolic branch inside an element function')
        if self.pos < len(self.decisions): d = self.decisions[self.pos]
        else:
            hy = self.hyps + self.idxhyps + self.path
            t = self.pv.sats(hy + [c]); f = self.pv.sats(hy + [z3.Not(c)])
            if t and f:
                self.todo.append(self.decisions[:self.pos] + [False]); d = True
            else: d = t
            self.decisions.append(d)
        self.pos += 1
        self.path.append(c if d else z3.Not(c))
        return d
    noforks = False
    def paths(self, thunk, maxpaths=64):
        """[(path condition, result or Raised)] of a thunk run once per path"""
        saved = (self.decisions, self.pos, self.path, getattr(self, 'todo', None))
        out = []
        todo = [[]]
        while todo:
            if len(out) > maxpaths: raise Unsupported('too many paths')
            self.decisions, self.pos, self.path, self.todo = list(todo.pop()), 0, list(saved[2]), []
            try: r = thunk()
            except Raised as e: r = e
            except PathEnd: todo += self.todo; continue
            out.append((self.path[len(saved[2]):], r))
            todo += self.todo
        self.decisions, self.pos, self.path, self.todo = saved[0], saved[1], saved[2], saved[3]
        return out
    todo = None
    # ---------------------------------------------------------------- calls
    def call_fn(self, fn, args, kw):
        if self.hook is not None:
            r = self.hook(self, fn, args, kw)
            if r is not NotImplemented: return r
        self.depth += 1
        if self.depth > 40: raise Unsupported('recursion in ' + getattr(fn.node, 'name', 'lambda'))
        self.inlined.add('%s:%s%s' % (fn.mod.name, fn.owner.name + '.' if fn.owner is not None else '', getattr(fn.node, 'name', '<lambda>')))
        env = {'__mod__': fn.mod, '__owner__': fn.owner, '__parent__': fn.env, '__fn__': fn.node}
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args); kw = dict(kw)
        for n, v in zip(names, args):
            env[n] = v
            if n in kw and n not in [p.arg for p in a.posonlyargs]: raise Raised('TypeError')
        rest = args[len(names):]
        if a.vararg: env[a.vararg.arg] = Lst(rest)
        elif rest: raise Raised('TypeError')
        for n in names[len(args):]:
            if n in kw: env[n] = kw.pop(n)
        ko = [p.arg for p in a.kwonlyargs]
        for n in ko:
            if n in kw: env[n] = kw.pop(n)
        dn = names[len(names) - len(a.defaults):] if a.defaults else []
        for n, d in zip(dn, a.defaults):
            if n not in env: env[n] = self.ev(d, {'__mod__': fn.mod, '__owner__': fn.owner, '__parent__': None})
        for n, d in zip(ko, a.kw_defaults):
            if n not in env and d is not None: env[n] = self.ev(d, {'__mod__': fn.mod, '__owner__': fn.owner, '__parent__': None})
        if a.kwarg: env[a.kwarg.arg] = dict(kw)
        elif kw: raise Raised('TypeError')
        for n in names:
            if n not in env: raise Raised('TypeError')
        try:
            if isinstance(fn.node, ast.Lambda): return self.ev(fn.node.body, env)
            try: self.block(fn.node.body, env)
            except Return as r: return r.v
            return None
        finally: self.depth -= 1
    def method(self, obj, name, args=(), kw=None):
        r = obj.cls.find(name)
        if r is None: raise Unsupported('method ' + name)
        c, node = r
        return self.call_fn(Fn(c.mod, node, None, c), [obj] + list(args), kw or {})
    def new(self, cls, args, kw):
        o = Obj(cls)
        if cls.find('__init__'): self.method(o, '__init__', args, kw)
        return o
    def call(self, f, args, kw):
        if isinstance(f, Fn): return self.call_fn(f, args, kw)
        if isinstance(f, Bound): return self.call_fn(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, ClsRef):
            if self.hook is not None:
                r = self.hook(self, f, args, kw)
                if r is not NotImplemented: return r
            if f.cls.isa('Exception') or f.cls.isa('BaseException'): return Opaque('exception')
            return self.new(f.cls, args, kw)
        if isinstance(f, Obj):
            return self.method(f, '__call__', args, kw)
        if isinstance(f, Ext): return self.ext(f, args, kw)
        if callable(f) and not isinstance(f, type): return f(*args, **kw)
        raise Unsupported('call of %r' % (f,))
    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for s in body: self.stmt(s, env)
    def stmt(self, s, env):
        try: getattr(self, 's_' + type(s).__name__, self.bad)(s, env)
        except Unsupported as e:
            if not getattr(e, 'at', None): e.at = 'line %s' % getattr(s, 'lineno', '?')
            raise
    def bad(self, s, env): raise Unsupported(type(s).__name__)
    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, env)
    def s_Pass(self, s, env): pass
    def s_Global(self, s, env): raise Unsupported('global')
    def s_Import(self, s, env):
        for a in s.names: env[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
    def s_ImportFrom(self, s, env):
        for a in s.names:
            r = src.resolve(s.module, a.name) if src.path_of(s.module) else ('ext', s.module + '.' + a.name)
            env[a.asname or a.name] = self.wrap(r)
    def s_Return(self, s, env): raise Return(self.ev(s.value, env) if s.value is not None else None)
    def s_Raise(self, s, env):
        nm = '?'
        e = s.exc
        if e is None:
            if getattr(self, 'handling', None) is not None: raise self.handling
            raise Unsupported('raise')
        if isinstance(e, ast.Name):
            try: v = self.lookup(e.id, env)
            except Unsupported: v = None
            if isinstance(v, Opaque) and v.name.startswith('exception:'): raise Raised(v.name[10:])
        if isinstance(e, ast.Call): e = e.func
        if isinstance(e, ast.Name): nm = e.id
        raise Raised(nm)
    def s_Assert(self, s, env):
        if not self.branch(self.truth(self.ev(s.test, env))): raise Raised('AssertionError')
    def s_If(self, s, env):
        if self.branch(self.truth(self.ev(s.test, env))): self.block(s.body, env)
        else: self.block(s.orelse, env)
    def s_Try(self, s, env):
        if s.finalbody or s.orelse: raise Unsupported('try with else or finally')
        try: self.block(s.body, env)
        except Raised as e:
            for h in s.handlers:
                t = 'BaseException' if h.type is None else getattr(h.type, 'id', None)
                if t in ('BaseException', 'Exception') and (t == 'BaseException' or e.what not in ('KeyboardInterrupt', 'SystemExit')) or t == e.what:
                    if h.name: env[h.name] = Opaque('exception:' + e.what)
                    old = getattr(self, 'handling', None); self.handling = e
                    try: self.block(h.body, env)
                    finally: self.handling = old
                    return
                if t is None: raise Unsupported('handler')
            raise
    def s_FunctionDef(self, s, env): env[s.name] = Fn(env['__mod__'], s, env, env.get('__owner__'))
    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
    def s_AugAssign(self, s, env):
        old = self.ev(s.target, env)
        r = self.binop(type(s.op).__name__, old, self.ev(s.value, env))
        if isinstance(old, Arr) and isinstance(s.target, (ast.Name, ast.Attribute)):
            self.setarr(old, self.asarr(r)); return
        if isinstance(old, Lst) and isinstance(r, Lst) and isinstance(s.target, ast.Name): old.items[:] = r.items; return
        self.assign(s.target, r, env)
    def setarr(self, a, b):
        """in-place a[...] = b"""
        self.guard_store(a)
        if b.nd < a.nd or b.nd == a.nd: b = self.broadcast(b, a.shape)
        a.fn = b.fn if not a.int or b.int else b.fn
    def guard_store(self, a):
        if a.alias is not None or any(w() is not None for w in (a.views or [])): raise Unsupported('store to an array that shares memory')
        self.events.append(('write', a))
    def s_Delete(self, s, env): raise Unsupported('del')
    def s_Break(self, s, env): raise BreakEx()
    def s_Continue(self, s, env): raise ContinueEx()
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v; return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                if self.sethook(o, t.attr, v): return
                r = o.cls.find_setter(t.attr) if hasattr(o.cls, 'find_setter') else None
                o.f[t.attr] = v; self.events.append(('set', o, t.attr)); return
            raise Unsupported('attribute store')
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v)
            if len(vs) != len(t.elts): raise Raised('ValueError')
            for x, y in zip(t.elts, vs): self.assign(x, y, env)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env); ix = self.index(t.slice, env)
            self.store(o, ix, v); return
        raise Unsupported('assignment to ' + type(t).__name__)
    def sethook(self, o, name, v): return False
    def store(self, o, ix, v):
        if isinstance(o, Lst):
            if isinstance(ix, int): o.items[ix] = v; return
            raise Unsupported('list store')
        if isinstance(o, dict):
            if isz(ix): raise Unsupported('dict store')
            o[ix] = v; return
        if isinstance(o, Obj) and o.cls.find('__setitem__'): self.method(o, '__setitem__', [ix, v]); return
        if not isinstance(o, Arr): raise Unsupported('store into %r' % (o,))
        self.guard_store(o)
        old = o.fn
        if isinstance(ix, Where): ix = ix.mask
        if isinstance(ix, Arr) and getattr(ix, 'isbool', False):
            if ix.nd != o.nd: raise Unsupported('mask store')
            m = ix.fn
            if isinstance(v, Arr):
                if v.mask is None: 
                    if v.nd == 0: vf = lambda *i: v.fn()
                    else: raise Unsupported('mask store of an array')
                elif self.samemask(v.mask, m, o): vf = v.fn
                else: raise Unsupported('mask store under another mask')
            else: vf = lambda *i: v
            o.fn = lambda *i: ite(m(*i), vf(*i), old(*i)); return
        if isinstance(ix, slice) and o.nd == 1:
            lo, hi, st, ln = self.slice(ix, o.shape[0])
            if st != 1: raise Unsupported('strided store')
            vf = self.broadcast(v, [ln]).fn if isinstance(v, Arr) else (lambda i: v)
            o.fn = lambda i: ite(self.land(cmpop('GtE', i, lo), cmpop('Lt', i, hi)), vf(sub(i, lo)), old(i)); return
        if isint(ix) and o.nd >= 1:
            k = self.normidx(ix, o.shape[0])
            if o.nd == 1:
                if isinstance(v, Arr) and v.nd == 0: v = v.fn()
                if isinstance(v, Arr): raise Raised('ValueError')
                o.fn = lambda i: ite(cmpop('Eq', i, k), v, old(i)); return
            vf = self.broadcast(v, o.shape[1:]).fn if isinstance(v, Arr) else (lambda *i: v)
            o.fn = lambda i, *r: ite(cmpop('Eq', i, k), vf(*r), old(i, *r)); return
        if isinstance(ix, tuple) and len(ix) == o.nd and all(isint(q) for q in ix):
            ks = [self.normidx(q, n) for q, n in zip(ix, o.shape)]
            def f(*i):
                c = True
                for a, b in zip(i, ks): c = self.land(c, cmpop('Eq', a, b))
                return ite(c, v, old(*i))
            o.fn = f; return
        raise Unsupported('store index')
    def samemask(self, m1, m2, o):
        if m1 is m2: return True
        ix = [ivar() for _ in o.shape]
        a, b = tobool(m1(*ix)), tobool(m2(*ix))
        return self.pv.valid(self.hyps + self.idxhyps + self.path + [z3.And(i >= 0, i < toint(n)) for i, n in zip(ix, o.shape)], a == b)
    # ---------------------------------------------------------------- loops
    loopspecs = {}
    loop_obs = None
    def spec_of(self, s, env):
        fn = env.get('__fn__')
        specs = self.loopspecs.get(getattr(fn, 'name', None))
        if not specs: return None
        loops = sorted([n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.While))], key=lambda n: (n.lineno, n.col_offset))
        if len(loops) != len(specs): raise Unsupported('the loops of %s are not those the invariants were written for' % fn.name)
        k = [i for i, n in enumerate(loops) if n is s]
        return specs[k[0]] if k else None
    def lob(self, what, hyps, goal):
        ok = goal if isinstance(goal, bool) else self.pv.valid(hyps, goal)
        self.loop_obs.append((what, bool(ok), None if ok else str(getattr(self.pv, 'last', ''))))
    def havoc(self, kind, name):
        if kind == 'int': return fresh(I, name)
        if kind == 'real': return fresh(R, name)
        if kind in ('listint', 'listreal'):
            n = fresh(I, 'len_' + name); F = z3.Function('%s!%d' % (name, next(eng_cnt)), I, I if kind == 'listint' else R)
            self.path.append(n >= 0)
            return SymList(n, lambda k: F(toint(k)))
        return Opaque('%s!%d' % (name, next(eng_cnt)))
    def specloop(self, sp, s, env, n, enter):
        names, stores, appends = self.assigned(s.body)
        tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if isinstance(s, ast.For) else set()
        carried = [v for v in sorted((names | appends) - tgt) if v in env]
        if stores: raise Unsupported('stores in a loop with an invariant')
        if sp.names is None:
            sp_names = {}
            for v in carried:
                if isinstance(env[v], Opaque) or env[v] is None: sp_names[v] = 'opaque'
                elif isinstance(env[v], dict): sp_names[v] = 'opaque'
                elif isnum(env[v]): sp_names[v] = 'real'
                else: raise Unsupported('loop variable ' + v)
        else: sp_names = sp.names
        entry = {v: env[v] for v in sp_names}
        for v in carried:
            if v not in sp_names: raise Unsupported('loop variable %s is not covered by the invariant' % v)
        for v in sp_names:
            if v not in env: raise Unsupported('the invariant speaks of %s' % v)
        hy = lambda: self.hyps + self.idxhyps + self.path
        for text, g in sp.inv(self, env, 0): self.lob('invariant holds at loop entry: ' + text, hy(), g)
        for v in sp_names: env[v] = self.havoc(sp_names[v], v)
        if self.branch(z3.Const('inloop!%d' % self.pos, B)):
            k = fresh(I, 'k'); self.path.append(z3.And(k >= 0, k < toint(n)) if n is not None else k >= 0)
            self.path += [g for _, g in sp.inv(self, env, k)]
            ev0 = len(self.events); self.loopentry, self.loophead = entry, {v: env[v] for v in sp_names}
            if not enter(env, k): raise PathEnd()
            try: self.block(s.body, env)
            except ContinueEx: pass
            except BreakEx: return
            for text, g in sp.inv(self, env, add(k, 1)): self.lob('invariant is preserved: ' + text, hy(), g)
            if sp.body is not None:
                for text, ok in sp.body(self, env, k, self.events[ev0:]): self.lob(text, hy(), ok)
            raise PathEnd()
        self.loopentry, self.loophead = entry, {v: env[v] for v in sp_names}
        k = fresh(I, 'kend') if n is None else n
        self.path += [g for _, g in sp.inv(self, env, k)]
        if n is None:
            if enter(env, k): raise PathEnd()
        for v in names - set(sp_names): env.pop(v, None)
    def redraw(self, s, env):
        """while c: x = e  with e independent of the variables assigned: the values after the loop are those before it, or
        those of one (the last) execution of the body, and c is false (partial correctness)"""
        names, stores, appends = self.assigned(s.body)
        if stores or appends or not all(isinstance(b, ast.Assign) for b in s.body): return False
        if any(isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Load) and n.id in names for b in s.body for n in ast.walk(b)): return False
        if self.branch(self.truth(self.ev(s.test, env))):
            self.block(s.body, env)
            if self.branch(self.truth(self.ev(s.test, env))): raise PathEnd()
        return True
    def s_While(self, s, env):
        sp = self.spec_of(s, env)
        if sp is None and not s.orelse and self.redraw(s, env): return
        if sp is None or s.orelse: raise Unsupported('while loop')
        self.specloop(sp, s, env, None, lambda e, k: self.branch(self.truth(self.ev(s.test, e))))
    def s_For(self, s, env):
        if s.orelse: raise Unsupported('for-else')
        it = self.ev(s.iter, env)
        sp = self.spec_of(s, env)
        if sp is not None:
            n, item = self.symiter(it)
            def enter(e, k): self.assign(s.target, item(k), e); return True
            return self.specloop(sp, s, env, n, enter)
        c = self.concrete_items(it)
        if c is not None:
            for v in c:
                self.assign(s.target, v, env)
                try: self.block(s.body, env)
                except BreakEx: break
                except ContinueEx: continue
            return
        n, item = self.symiter(it)
        self.symloop(s, n, item, env)
    def concrete_items(self, it):
        if isinstance(it, Lst): return list(it.items)
        if isinstance(it, tuple): return list(it)
        if isinstance(it, dict): return list(it)
        if isinstance(it, list): return it
        if isinstance(it, RangeV):
            lo, hi, st = conc(it.lo), conc(it.hi), conc(it.step)
            if not isz(lo) and not isz(hi) and not isz(st) and (hi - lo) // st <= 64: return list(range(int(lo), int(hi), int(st)))
            return None
        if isinstance(it, Arr) and it.nd >= 1 and it.mask is None:
            n = conc(it.shape[0])
            if not isz(n) and n <= 64: return [self.getrow(it, i) for i in range(n)]
        return None
    def getrow(self, a, i):
        if a.nd == 1: return a.at(i)
        r = Arr(a.shape[1:], lambda *k, f=a.fn: f(i, *k), a.int)
        r.isbool = getattr(a, 'isbool', False); r.alias = a
        a.views = [w for w in (a.views or []) if w() is not None] + [weakref.ref(r)]
        return r
    def symiter(self, it):
        if isinstance(it, RangeV):
            if conc(it.step) == 1: return sub(it.hi, it.lo), lambda i: add(it.lo, i)
            if conc(it.step) == -1: return sub(it.lo, it.hi), lambda i: sub(it.lo, i)
            st = conc(it.step)
            if not isz(st) and st > 1: return floordiv(add(sub(it.hi, it.lo), st - 1), st), lambda i: add(it.lo, mul(st, i))
            raise Unsupported('range step')
        if isinstance(it, Arr) and it.mask is None: return it.shape[0], lambda i: self.getrow(it, i)
        if isinstance(it, SymList): return it.n, it.fn
        if isinstance(it, tuple) and it and it[0] == 'zip':
            pass
        raise Unsupported('iteration over %s' % type(it).__name__)
    def assigned(self, body):
        names, stores, appends = set(), [], set()
        for n in ast.walk(ast.Module(body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): names.add(n.id)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store): stores.append(n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name): appends.add(n.func.value.id)
        return names, stores, appends
    def symloop(self, s, n, item, env):
        """loop of symbolic length: every variable carried by the loop must follow one of the inductive patterns
        acc' = acc + e(i), acc' = acc * e(i), acc' = max/min(acc, e(i)), a[i] = e(i), list.append(e(i)), or be recomputed"""
        names, stores, appends = self.assigned(s.body)
        tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        i = ivar('l')
        carried = {}
        for v in sorted(names - tgt):
            if v in env and isnum(env[v]): carried[v] = fresh(R, 'acc_' + v)
            elif v in env and not isnum(env[v]): carried[v] = None
        arrs = {}
        for st in stores:
            if isinstance(st, ast.Subscript) and isinstance(st.value, ast.Name) and isinstance(env.get(st.value.id), Arr):
                ix = st.slice.elts if isinstance(st.slice, ast.Tuple) else [st.slice]
                d = [k for k, q in enumerate(ix) if isinstance(q, ast.Name) and q.id in tgt]
                arrs.setdefault(st.value.id, []).append(d[0] if d else 0)
            else: raise Unsupported('store in a loop')
        if any(len(set(v)) > 1 for v in arrs.values()): raise Unsupported('array stores in a loop')
        arrs = {k: v[0] for k, v in sorted(arrs.items())}
        cur = item(i) if arrs else None                   # the position an iteration may write
        if arrs and not isint(cur): cur = i
        first = z3.substitute(toint(cur), (i, z3.IntVal(0))) if arrs else None
        if arrs and not self.pv.valid([], z3.substitute(toint(cur), (i, i + 1)) == toint(cur) + 1): raise Unsupported('array stores in a loop')
        def run(accs):
            e = dict(env)
            for v, a in accs.items():
                if a is None: e.pop(v, None)
                else: e[v] = a
            recs = {}
            for a in arrs: e[a] = recs[a] = LoopArr(self, env[a], arrs[a], toint(cur), first)
            for l in appends: recs[l] = []; e[l] = LoopList(recs[l])
            old = self.ctx
            self.ctx = (self.ctx or []) + [[inst, i, {}]]        # what an iteration draws is a function of the iteration
            try:
                self.assign(s.target, item(i), e)
                try: self.block(s.body, e)
                except ContinueEx: pass
            finally: self.ctx = old
            return e, recs
        inst = self.ctxinst(s)
        ih = [z3.And(i >= 0, i < toint(n))]
        self.idxhyps += ih
        try: ps = self.paths(lambda: run(carried))
        finally: del self.idxhyps[len(self.idxhyps) - len(ih):]
        if any(isinstance(r, Raised) for _, r in ps): raise Unsupported('exception in a loop')
        def merged(get):
            r = None
            for pc, q in reversed(ps):
                v = get(q)
                r = v if r is None else ite(z3.And(*pc) if pc else z3.BoolVal(True), v, r)
            return r
        upd = {}
        for v, a in carried.items():
            if a is None:
                env.pop(v, None); upd[v] = None; continue
            r = merged(lambda q: q[0].get(v))
            if r is None or not isnum(r): raise Unsupported('loop variable ' + v)
            upd[v] = simp(toreal(r))
        accs = {a.get_id() for a in carried.values() if a is not None}
        def mentions(t, which):
            st, seen = [t], set()
            while st:
                u = st.pop()
                if u.get_id() in seen: continue
                seen.add(u.get_id())
                if u.get_id() in which: return True
                st += u.children()
            return False
        for v, a in carried.items():
            if a is None: continue
            r = upd[v]
            others = accs - {a.get_id()}
            if mentions(r, others): raise Unsupported('coupled loop variables')
            if r.eq(a): continue
            e0 = z3.simplify(z3.substitute(r, (a, z3.RealVal(0))), som=True)
            inst = lambda t, k: z3.substitute(t, (i, toint(k)))
            hy = self.hyps + self.idxhyps + ih + self.path
            if not mentions(r, {a.get_id()}):       # recomputed in every iteration
                env[v] = ite(cmpop('GtE', n, 1), inst(r, sub(n, 1)), env[v]); continue
            if self.pv.valid(hy, r == a + e0):
                env[v] = add(env[v], binder('sum', n, lambda k: inst(e0, k))); continue
            e1 = z3.simplify(z3.substitute(r, (a, z3.RealVal(1))))
            if self.pv.valid(hy, r == a * e1):
                env[v] = mul(env[v], binder('prod', n, lambda k: inst(e1, k))); continue
            done = False
            for kind, op in (('max', vmax), ('min', vmin)):
                # acc' = op(acc, e): find e as the value when acc is extreme
                big = fresh(R, 'ext')
                for cand in self.extreme(r, a):
                    if not mentions(cand, {a.get_id()}) and self.pv.valid(hy, r == op(a, cand)):
                        b = binder(kind, n, lambda k: inst(cand, k))
                        env[v] = ite(cmpop('GtE', n, 1), op(env[v], b), env[v]); done = True; break
                if done: break
            if not done: raise Unsupported('loop variable %s follows no inductive pattern' % v)
        for a, d in arrs.items():
            o = env[a]; self.guard_store(o); old = o.fn
            vs = [ivar('o') for _ in o.shape]; vs[d] = toint(cur)
            ih2 = ih + [z3.And(v >= 0, v < toint(m)) for k, (v, m) in enumerate(zip(vs, o.shape)) if k != d]
            self.idxhyps += ih2
            try:
                w = None
                for pc, q in reversed(ps):
                    n0 = len(self.path); self.path += pc
                    try: v = q[1][a].fn(*vs)
                    finally: del self.path[n0:]
                    w = v if w is None else ite(z3.And(*pc) if pc else z3.BoolVal(True), v, w)
            finally: del self.idxhyps[len(self.idxhyps) - len(ih2):]
            if isinstance(w, bool) or isz(w) and w.sort() == B: w = tobool(w)
            elif isnum(w): w = toint(w) if o.int and isint(w) else toreal(w)
            else: raise Unsupported('array stores in a loop')
            def f(*ix, old=old, w=w, d=d, vs=vs):
                t = simp(toint(ix[d]) - first)
                r = z3.substitute(w, (i, t), *[(v, toint(q)) for k, (v, q) in enumerate(zip(vs, ix)) if k != d])
                return ite(z3.And(t >= 0, t < toint(n)), r, old(*ix))
            o.fn = f
        for l in appends:
            if any(len(q[1][l]) != 1 for _, q in ps): raise Unsupported('append in a loop')
            r = merged(lambda q: q[1][l][0])
            if not isinstance(env.get(l), Lst) or env[l].items or not isnum(r): raise Unsupported('append in a loop')
            rr = toint(r) if isint(r) else toreal(r)
            env[l] = SymList(n, lambda k, rr=rr: z3.substitute(rr, (i, toint(k))))
        for v in names - set(carried):
            env.pop(v, None)
    def extreme(self, r, a):
        out = []
        def walk(u):
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
                for c in (u.arg(1), u.arg(2)):
                    if not c.eq(a): out.append(c)
            for c in u.children(): walk(c)
        walk(r)
        return out
    # ---------------------------------------------------------------- expressions
    def ev(self, n, env):
        return getattr(self, 'e_' + type(n).__name__, self.bad)(n, env)
    def e_Constant(self, n, env):
        return n.value
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e: return e[name]
            e = e.get('__parent__')
        r = src.resolve(env['__mod__'].name, name)
        if r is not None: return self.wrap(r)
        import builtins
        if hasattr(builtins, name): return Ext('builtins.' + name)
        raise Unsupported('name ' + name)
    def wrap(self, r):
        if r[0] == 'class': return ClsRef(src.get_class(r[1], r[2]))
        if r[0] == 'func': return Fn(r[1], r[2])
        if r[0] == 'ext': return Ext(r[1])
        if r[0] == 'mod': return ModRef(r[1])
        if r[0] == 'expr': return self.ev(r[2], {'__mod__': r[1], '__parent__': None})
        raise Unsupported('name')
    def e_Name(self, n, env): return self.lookup(n.id, env)
    def e_Tuple(self, n, env): return tuple(self.seq(n.elts, env))
    def e_List(self, n, env): return Lst(self.seq(n.elts, env))
    def seq(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred): out += self.items(self.ev(e.value, env))
            else: out.append(self.ev(e, env))
        return out
    def e_Dict(self, n, env):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None: out.update(self.ev(v, env))
            else: out[self.ev(k, env)] = self.ev(v, env)
        return out
    def e_JoinedStr(self, n, env): return Opaque('str')
    def items(self, v):
        if isinstance(v, tuple): return list(v)
        if isinstance(v, Lst): return list(v.items)
        if isinstance(v, Arr):
            c = self.concrete_items(v)
            if c is not None: return c
        raise Unsupported('items of %s' % type(v).__name__)
    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        o = type(n.op).__name__
        if o == 'USub': return self.map1(neg, v)
        if o == 'UAdd': return v
        if o == 'Not':
            t = self.truth(v)
            return simp(z3.Not(t)) if isz(t) else not t
        if o == 'Invert':
            if isinstance(v, Arr) and getattr(v, 'isbool', False): return self.mapb(lambda a: z3.Not(tobool(a)) if isz(a) else not a, v)
        raise Unsupported('unary ' + o)
    def truth(self, v):
        if isinstance(v, Arr):
            if v.nd == 0: return tobool(v.fn())
            raise Raised('ValueError')
        if isz(v): return tobool(v)
        if isinstance(v, Lst): return bool(v.items)
        if isinstance(v, (Obj, Fn, Ext, Bound, ClsRef)): return True
        if isinstance(v, Opaque): raise Unsupported('truth of ' + v.name)
        return bool(v)
    def land(self, a, b):
        a, b = conc(a), conc(b)
        if a is True: return b
        if b is True: return a
        if a is False or b is False: return False
        return z3.And(tobool(a), tobool(b))
    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for k, e in enumerate(n.values):
            v = self.ev(e, env)
            if k == len(n.values) - 1: return v
            if isz(v) and v.sort() == B and not isz(conc(v)) : v = conc(v)
            if isz(v):
                # short circuit on a symbolic value
                rest = n.values[k + 1:]
                if self.noforks and v.sort() == B:
                    q = rest[0] if len(rest) == 1 else ast.copy_location(ast.BoolOp(n.op, rest), n)
                    w = self.truth(self.ev(q, env))
                    return simp((z3.And if isand else z3.Or)(v, tobool(w)))
                if self.branch(v) != isand: return not isand
                continue
            if bool(self.truth(v)) != isand: return v
        return v
    def e_IfExp(self, n, env):
        t = self.truth(self.ev(n.test, env)); t = conc(t)
        if not isz(t): return self.ev(n.body if t else n.orelse, env)
        if self.noforks: return self.join(t, self.ev(n.body, env), self.ev(n.orelse, env))
        return self.ev(n.body if self.branch(t) else n.orelse, env)
    def join(self, c, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elem(lambda x, y: ite(c, x, y), a, b)
        return ite(c, a, b)
    def e_Compare(self, n, env):
        l = self.ev(n.left, env); r = True
        for op, c in zip(n.ops, n.comparators):
            v = self.ev(c, env)
            x = self.compare(type(op).__name__, l, v)
            r = x if r is True else (self.elem(lambda p, q: self.land(p, q), r, x, True) if isinstance(r, Arr) or isinstance(x, Arr) else self.land(r, x))
            l = v
        return r
    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if a is None or b is None: r = a is b
            elif isinstance(a, (Obj, Arr, Lst, Opaque)) or isinstance(b, (Obj, Arr, Lst, Opaque)): r = a is b
            elif isinstance(a, bool) and isinstance(b, bool): r = a == b
            else: raise Unsupported('identity test')
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            if isinstance(b, dict): r = a in b
            elif isinstance(b, (SymList, Arr)) and isnum(a):
                bb = self.asarr(b)
                if bb.nd != 1: raise Unsupported('membership')
                j = ivar('m'); e = self.compare('Eq', a, bb.fn(j))
                r = z3.Exists([j], z3.And(j >= 0, j < toint(bb.shape[0]), tobool(e)))
            else:
                r = False
                for q in self.items(b):
                    e = self.compare('Eq', a, q); e = conc(e)
                    if e is True: r = True; break
                    if e is not False: r = z3.Or(tobool(r), tobool(e)) if r is not False else e
            if op == 'In': return r
            return z3.Not(r) if isz(r) else not r
        if isinstance(a, Arr) or isinstance(b, Arr): return self.elem(lambda x, y: cmpop(op, x, y), a, b, True)
        if isnum(a) and isnum(b): return cmpop(op, a, b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if op == 'Eq': return a == b if type(a) == type(b) else False
            if op == 'NotEq': return a != b if type(a) == type(b) else True
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ('Eq', 'NotEq'):
            r = len(a) == len(b)
            if r:
                for x, y in zip(a, b): r = self.land(r, self.compare('Eq', x, y))
            return r if op == 'Eq' else (z3.Not(r) if isz(r) else not r)
        for x, y in ((a, b), (b, a)):
            if op in ('Eq', 'NotEq') and isinstance(x, Obj) and x.cls.find('__eq__'):
                r = self.method(x, '__eq__', [y]); r = tobool(r) if isz(r) else bool(r)
                return r if op == 'Eq' else (z3.Not(r) if isz(r) else not r)
        if isinstance(a, (Opaque, Obj)) and isinstance(b, (Opaque, Obj)) and op in ('Eq', 'NotEq'):
            r = a is b or isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name
            return r if op == 'Eq' else not r
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    def e_BinOp(self, n, env):
        return self.binop(type(n.op).__name__, self.ev(n.left, env), self.ev(n.right, env))
    OPS = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div, 'Pow': power, 'Mod': mod, 'FloorDiv': floordiv}
    def binop(self, op, a, b):
        if op == 'Add' and isinstance(a, Lst) and isinstance(b, Lst): return Lst(a.items + b.items)
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if op == 'Mult' and isinstance(a, Lst) and isinstance(b, int): return Lst(a.items * b)
        if op == 'Mult' and isinstance(a, Lst) and isz(b) and len(a.items) == 1: return SymList(b, lambda k: a.items[0])
        if op in ('BitAnd', 'BitOr'):
            f = (lambda x, y: self.land(x, y)) if op == 'BitAnd' else (lambda x, y: z3.Or(tobool(x), tobool(y)))
            if isinstance(a, Arr) or isinstance(b, Arr): return self.elem(f, a, b, True)
            return f(a, b)
        if op == 'MatMult': return self.dot(a, b)
        if isinstance(a, str) or isinstance(b, str): return Opaque('str')
        if isinstance(a, Arr) and isinstance(b, Obj): b = self.asarr(b)
        if isinstance(b, Arr) and isinstance(a, Obj) and not a.cls.find('__mul__'): a = self.asarr(a)
        f = self.OPS.get(op)
        if f is None: raise Unsupported('operator ' + op)
        if isinstance(a, Arr) or isinstance(b, Arr): return self.elem(f, a, b)
        if not (isnum(a) and isnum(b)): raise Unsupported('%s of %s and %s' % (op, type(a).__name__, type(b).__name__))
        return f(a, b)
    def asarr(self, v):
        if isinstance(v, Arr): return v
        if isnum(v): return Arr([], lambda: v, isint(v))
        if isinstance(v, Obj) and v.cls.find('__getitem__') and v.cls.find('__len__'):      # sequence protocol
            return Arr([self.method(v, '__len__')], lambda k: self.method(v, '__getitem__', [k]))
        if isinstance(v, SymList): 
            return Arr([v.n], lambda k: v.fn(k))
        if isinstance(v, (Lst, tuple)):
            it = [self.asarr(x) if not isnum(x) else x for x in (v.items if isinstance(v, Lst) else v)]
            if all(isnum(x) for x in it):
                def f(k):
                    k = conc(k)
                    if not isz(k): return it[k]
                    r = it[-1]
                    for j in range(len(it) - 2, -1, -1): r = ite(k == j, it[j], r)
                    return r
                return Arr([len(it)], f, all(isint(x) for x in it))
            if it and all(isinstance(x, Arr) for x in it):
                sh = it[0].shape
                def g(k, *r):
                    k = conc(k)
                    if not isz(k): return it[k].fn(*r)
                    q = it[-1].fn(*r)
                    for j in range(len(it) - 2, -1, -1): q = ite(k == j, it[j].fn(*r), q)
                    return q
                a = Arr([len(it)] + list(sh), g)
                if any(x.mask is not None for x in it):
                    if not all(x.mask is not None and self.samemask(x.mask, it[0].mask, it[0]) for x in it): raise Unsupported('stack of masked arrays')
                    a.mask = lambda k, *r: it[0].mask(*r)
                    a.maskrow = it[0].mask
                return a
        if isinstance(v, RangeV) and conc(v.step) == 1: return Arr([sub(v.hi, v.lo)], lambda k: add(v.lo, k), True)
        raise Unsupported('array of %s' % type(v).__name__)
    def dimeq(self, a, b):
        a, b = conc(a), conc(b)
        if not isz(a) and not isz(b): return a == b
        d = conc(sub(a, b))
        if not isz(d): return d == 0
        return self.pv.valid(self.hyps + self.idxhyps + self.path, toint(a) == toint(b), 2000)
    def broadcast(self, a, shape):
        """array `a` seen with the given shape"""
        a = self.asarr(a)
        if len(a.shape) > len(shape): raise Raised('ValueError')
        k = len(shape) - len(a.shape)
        one = []
        for n, m in zip(a.shape, shape[k:]):
            if conc(n) == 1 and not conc(m) == 1: one.append(True)
            elif self.dimeq(n, m): one.append(False)
            else: raise Unsupported('shapes %s and %s' % (a.shape, shape))
        if k == 0 and not any(one): return a
        r = Arr(shape, lambda *i: a.fn(*[0 if o else x for o, x in zip(one, i[k:])]), a.int)
        return r
    def bshape(self, a, b):
        a, b = list(a), list(b)
        n = max(len(a), len(b)); a = [1] * (n - len(a)) + a; b = [1] * (n - len(b)) + b
        out = []
        for x, y in zip(a, b):
            if conc(x) == 1: out.append(y)
            elif conc(y) == 1: out.append(x)
            elif self.dimeq(x, y): out.append(x)
            else: raise Unsupported('shapes %s %s' % (a, b))
        return out
    def elem(self, f, a, b, boolr=False):
        a, b = self.asarr(a), self.asarr(b)
        sh = self.bshape(a.shape, b.shape)
        mask = None
        if a.mask is not None or b.mask is not None:
            if a.mask is not None and b.mask is not None:
                if not self.samemask(a.mask, b.mask, a): raise Unsupported('arrays selected by different masks')
                mask = a.mask
            else:
                o = b if a.mask is not None else a
                if any(conc(q) != 1 for q in o.shape): raise Unsupported('masked and unmasked arrays')
                mask = a.mask or b.mask
        x, y = self.broadcast(a, sh), self.broadcast(b, sh)
        fx, fy = x.fn, y.fn
        r = Arr(sh, lambda *i: f(fx(*i), fy(*i)), a.int and b.int and f is not div, mask)
        r.isbool = boolr
        if not sh: return r.fn()
        return r
    def map1(self, f, v, int_=None):
        if isinstance(v, (Lst, tuple, SymList)): v = self.asarr(v)
        if isinstance(v, Arr):
            g = v.fn
            r = Arr(v.shape, lambda *i: f(g(*i)), v.int if int_ is None else int_, v.mask)
            return r
        if not isnum(v): raise Unsupported('number expected: %r' % (v,))
        return f(v)
    def mapb(self, f, v):
        r = self.map1(f, v); r.isbool = True; return r
    # ---------------------------------------------------------------- attributes, indexing
    def e_Attribute(self, n, env):
        return self.attr(self.ev(n.value, env), n.attr)
    def attr(self, o, name):
        if isinstance(o, Super):
            c, node = o.self_.cls.find(name, o.owner)
            return Bound(Fn(c.mod, node, None, c), o.self_)
        if isinstance(o, Obj):
            if name in o.f: return o.f[name]
            r = o.cls.find(name)
            if r:
                c, node = r
                deco = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in node.decorator_list]
                f = Fn(c.mod, node, None, c)
                if 'property' in deco: return self.call_fn(f, [o], {})
                if 'staticmethod' in deco: return f
                if 'classmethod' in deco: return Bound(f, ClsRef(o.cls))
                return Bound(f, o)
            if name == '__class__': return ClsRef(o.cls)
            a = o.cls.attr(name)
            if a: return self.ev(a[1], {'__mod__': a[0].mod, '__parent__': None})
            v = self.objattr(o, name)
            if v is not NotImplemented: return v
            raise Raised('AttributeError')
        if isinstance(o, ClsRef):
            r = o.cls.find(name)
            if r: return Fn(r[0].mod, r[1], None, r[0])
            a = o.cls.attr(name)
            if a and o.cls.isa('Enum'):
                r = Opaque('%s.%s' % (o.cls.name, name)); r.value = self.ev(a[1], {'__mod__': a[0].mod, '__parent__': None}); return r
            if a: return Opaque('%s.%s' % (o.cls.name, name)) if o.cls.isa('Enum') else self.ev(a[1], {'__mod__': a[0].mod, '__parent__': None})
            if name == '__name__': return o.cls.name
            raise Unsupported('class attribute ' + name)
        if isinstance(o, ModRef): return self.wrap(src.resolve(o.mod.name, name))
        if isinstance(o, Ext):
            if o.name in ('numpy', 'math') and name in ('pi',): return PI
            if o.name in ('numpy', 'math') and name in ('inf', 'Inf'): return math.inf
            if o.name in ('numpy', 'math') and name == 'e': return fun('exp', 1)
            if o.name == 'numpy' and name == 'newaxis': return None
            return Ext(o.name + '.' + name)
        if isinstance(o, Arr):
            if name == 'T':
                if o.nd < 2: return o
                return Arr(list(reversed(o.shape)), lambda *i: o.fn(*reversed(i)), o.int)
            if name == 'shape': return tuple(o.shape)
            if name == 'size':
                r = 1
                for q in o.shape: r = mul(r, q)
                return r
            if name == 'ndim': return o.nd
            return Ext('arr.' + name, o)
        if isinstance(o, (Lst, SymList, tuple)): return Ext('list.' + name, o)
        if isinstance(o, dict): return Ext('dict.' + name, o)
        if isinstance(o, str): return Ext('str.' + name, o)
        if isinstance(o, Opaque): return self.opattr(o, name)
        if isz(o) or isinstance(o, (int, float, Fraction)): return Ext('num.' + name, o)
        if o is None: raise Raised('AttributeError')
        raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
    def objattr(self, o, name): return NotImplemented
    # ---------------------------------------------------------------- random generators
    def np_default_rng(self, seed=None):
        if isinstance(seed, Opaque) and seed.name.startswith(('rng', 'newrng')): return seed
        return Opaque('newrng!%d' % next(eng_cnt))
    def rnd(self, rng, m, args, kw):
        def bind(names, defaults):
            d = dict(zip(names, defaults)); d.update(dict(zip(names, args))); d.update(kw); return [d[n] for n in names]
        def rec(kind, shape, lo=None, hi=None, mask=None, int_=False, dom=None):
            if self.ctx:
                F, ks, new = self.ctxapp('draw_' + kind, I if int_ else R, shape)
                f = (lambda *i: F(*(ks + [toint(q) for q in i])))
                d = {'kind': kind, 'rng': rng, 'shape': shape, 'f': f, 'lo': lo, 'hi': hi, 'mask': mask, 'decl': F, 'ctx': ks}
                if new: self.rng_draws.append(d)
                if dom is not None:
                    vs = [ivar('w') for _ in shape]; g = dom(f(*vs), *vs); t = f(*vs)
                    if g is not None:
                        allc = all(z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED for k in ks) and len({k.get_id() for k in ks}) == len(ks)
                        if allc and new:
                            kv = [ivar('w') for _ in ks]; sub_ = list(zip(ks, kv))
                            g, t = z3.substitute(g, *sub_), z3.substitute(t, *sub_)
                            rng_ = z3.And(*[z3.substitute(h, *sub_) for h in self.idxhyps]) if self.idxhyps else z3.BoolVal(True)
                            self.hyps.append(z3.ForAll(kv + vs, z3.Implies(rng_, g), patterns=[t]))
                        elif not allc: self.hyps.append(z3.ForAll(vs, g, patterns=[t]) if vs else g)
                if not shape: return f()
                return Arr(shape, f, int_, mask)
            nm = 'draw%d_%s' % (len(self.rng_draws), kind)
            F = z3.Function(nm, *([I] * max(1, len(shape)) + [I if int_ else R]))
            f = (lambda *i: F(*[toint(q) for q in i])) if shape else (lambda *i: F(z3.IntVal(0)))
            d = {'kind': kind, 'rng': rng, 'shape': shape, 'f': f, 'lo': lo, 'hi': hi, 'mask': mask, 'decl': F, 'ctx': []}
            self.rng_draws.append(d)
            vs = [ivar('w') for _ in shape]
            if dom is not None:
                g = dom(f(*vs), *vs)
                if g is not None:
                    t = f(*vs)
                    self.hyps.append(z3.ForAll(vs, g, patterns=[t]) if vs else g)
            if not shape: return f()
            r = Arr(shape, f, int_, mask); return r
        def shape_of(size, *ps):
            if size is not None: return [conc(q) for q in self.shp(size)], None
            sh, mask = [], None
            for p in ps:
                if isinstance(p, (Lst, SymList, tuple, Obj)): p = self.asarr(p)
                if isinstance(p, Arr): sh = self.bshape(sh, p.shape); mask = mask or p.mask
            return sh, mask
        def at(p, sh):
            if isinstance(p, (Lst, SymList, tuple, Obj)): p = self.asarr(p)
            if isinstance(p, Arr): b = self.broadcast(p, sh) if p.mask is None else p; return lambda *i: b.fn(*i)
            return lambda *i: p
        if m in ('uniform',):
            lo, hi, size = bind(['low', 'high', 'size'], [0.0, 1.0, None])
            sh, mask = shape_of(size, lo, hi); l, h = at(lo, sh), at(hi, sh)
            return rec('uniform', sh, l, h, mask, dom=lambda t, *i: z3.Implies(toreal(l(*i)) <= toreal(h(*i)), z3.And(t >= toreal(l(*i)), t <= toreal(h(*i)))))
        if m == 'random':
            size, = bind(['size'], [None]); sh, mask = shape_of(size)
            return rec('random', sh, lambda *i: 0, lambda *i: 1, mask, dom=lambda t, *i: z3.And(t >= 0, t < 1))
        if m in ('normal',):
            lo, sc, size = bind(['loc', 'scale', 'size'], [0.0, 1.0, None]); sh, mask = shape_of(size, lo, sc)
            return rec('normal', sh, at(lo, sh), at(sc, sh), mask)
        if m == 'standard_normal':
            size, = bind(['size'], [None]); sh, mask = shape_of(size)
            return rec('standard_normal', sh, None, None, mask)
        if m == 'integers':
            lo, hi, size = bind(['low', 'high', 'size'], [0, None, None])
            if hi is None: lo, hi = 0, lo
            sh, mask = shape_of(size, lo, hi); l, h = at(lo, sh), at(hi, sh)
            return rec('integers', sh, l, h, mask, True, dom=lambda t, *i: z3.And(t >= toint(l(*i)), t < toint(h(*i))))
        if m == 'permutation' and len(args) == 1 and isint(args[0]):
            n = args[0]
            k = len(self.rng_draws)
            inv = z3.Function('perminv%d' % k, I, I)
            r = rec('permutation', [n], None, None, None, True, dom=lambda t, i: z3.Implies(z3.And(i >= 0, i < toint(n)), z3.And(t >= 0, t < toint(n), inv(t) == i)))
            return r
        if m == 'choice':
            a, size, rep, p = bind(['a', 'size', 'replace', 'p'], [None, None, True, None])
            sh = [] if size is None else [conc(q) for q in self.shp(size)]
            if isinstance(a, (Lst, tuple, SymList, RangeV)): a = self.asarr(a)
            n = a.shape[0] if isinstance(a, Arr) else a
            k = len(self.rng_draws)
            if isz(rep):
                hy = self.hyps + self.idxhyps + self.path
                if self.pv.valid(hy, tobool(rep), 1500): rep = True
                elif self.pv.valid(hy, z3.Not(tobool(rep)), 1500): rep = False
                elif not self.noforks: rep = self.branch(tobool(rep))
            if rep is not True and rep is not False: raise Unsupported('choice')
            if p is not None and not isinstance(p, Arr): p = self.asarr(p)
            inv = z3.Function('choiceinv%d' % k, I, I)
            def dom(t, *i):
                g = z3.And(t >= 0, t < toint(n))
                if p is not None: g = z3.And(g, toreal(p.fn(t)) > 0)
                if rep is False and len(i) == 1: g = z3.Implies(z3.And(i[0] >= 0, i[0] < toint(sh[0])), z3.And(g, inv(t) == i[0]))
                return g
            ix = rec('choice', sh, None, None, None, True, dom=dom)
            self.rng_draws[-1].update(a=a, replace=rep, p=p)
            if not isinstance(a, Arr): return ix
            if not sh: return self.getrow(a, ix)
            return self.getitem(a, ix)
        raise Unsupported('generator method ' + m)
    def opattr(self, o, name):
        if name in getattr(o, 'attrs', {}): return o.attrs[name]
        if name == 'value' and hasattr(o, 'value'): return o.value
        return Ext('opaque.%s.%s' % (o.name, name), o)
    def index(self, n, env):
        if isinstance(n, ast.Slice):
            g = lambda e: None if e is None else self.ev(e, env)
            return slice(g(n.lower), g(n.upper), g(n.step))
        if isinstance(n, ast.Tuple): return tuple(self.index(e, env) for e in n.elts)
        return self.ev(n, env)
    def e_Subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.index(n.slice, env))
    def e_Slice(self, n, env): return self.index(n, env)
    def normidx(self, i, n):
        c = conc(i)
        if isinstance(c, Fraction): raise Raised('IndexError')
        if not isz(c): return c if c >= 0 else simp(add(n, c))
        if self.pv.valid(self.hyps + self.idxhyps + self.path, toint(c) >= 0, 1500): return c
        return ite(cmpop('Lt', c, 0), add(c, n), c)
    def slice(self, s, n):
        st = 1 if s.step is None else conc(s.step)
        if isz(st): raise Unsupported('slice step')
        if st == -1 and s.start is None and s.stop is None: return sub(n, 1), -1, -1, n
        if st < 1: raise Unsupported('slice step')
        def cl(v, d):
            if v is None: return d
            v = conc(v)
            neg_ = (not isz(v) and v < 0)
            if neg_: v = add(n, v)
            elif isz(v) and not self.pv.valid(self.hyps + self.idxhyps + self.path, toint(v) >= 0, 1500): v = ite(cmpop('Lt', v, 0), add(v, n), v)
            hy = self.hyps + self.idxhyps + self.path
            if not self.pv.valid(hy, toint(v) <= toint(n), 1500): v = vmin(v, n)
            if not self.pv.valid(hy, toint(v) >= 0, 1500): v = vmax(v, 0)
            return conc(v)
        lo, hi = cl(s.start, 0), cl(s.stop, n)
        ln = sub(hi, lo)
        if not self.pv.valid(self.hyps + self.idxhyps + self.path, toint(ln) >= 0, 1500): ln = vmax(ln, 0)
        if st > 1: ln = floordiv(add(ln, st - 1), st)
        return lo, hi, st, conc(ln)
    def getitem(self, o, ix):
        if isinstance(o, Obj) and o.cls.find('__getitem__'): return self.method(o, '__getitem__', [ix])
        if isinstance(o, (Lst, tuple)):
            it = o.items if isinstance(o, Lst) else o
            if isinstance(ix, slice):
                r = it[slice(*[None if q is None else conc(q) for q in (ix.start, ix.stop, ix.step)])]
                return Lst(r) if isinstance(o, Lst) else r
            c = conc(ix)
            if not isz(c): return it[c]
            return self.asarr(o).fn(c)
        if isinstance(o, dict): return o[ix]
        if isinstance(o, SymList):
            if isint(ix): return o.fn(self.normidx(ix, o.n))
            o = self.asarr(o)
        if isinstance(o, Where): 
            if conc(ix) == 0: return o
            raise Unsupported('where index')
        if not isinstance(o, Arr): raise Unsupported('index of %s' % type(o).__name__)
        if isinstance(ix, Where): ix = ix.mask
        if isinstance(ix, Arr) and getattr(ix, 'isbool', False):
            if ix.nd != o.nd: raise Unsupported('mask rank')
            m = ix.fn; f = o.fn
            if o.mask is not None: raise Unsupported('mask of a masked array')
            return Arr(o.shape, f, o.int, m)
        if o.mask is not None: raise Unsupported('index of a masked array')
        if isinstance(ix, (Lst,)): ix = self.asarr(ix)
        if isinstance(ix, Arr) and ix.nd == 1 and o.nd >= 1:
            g, f, n0 = ix.fn, o.fn, o.shape[0]
            return Arr(ix.shape + o.shape[1:], lambda k, *r: f(self.normidx(g(k), n0), *r), o.int)
        if not isinstance(ix, tuple): ix = (ix,)
        if any(q is Ellipsis for q in ix):
            k = [j for j, q in enumerate(ix) if q is Ellipsis][0]
            ix = ix[:k] + (slice(None),) * (o.nd - (len([q for q in ix if q is not None]) - 1)) + ix[k + 1:]
        shape, maps, d = [], [], 0
        for q in ix:
            if q is None: shape.append(1); maps.append(('new',)); continue
            if d >= o.nd: raise Raised('IndexError')
            n = o.shape[d]; d += 1
            if isinstance(q, slice):
                lo, hi, st, ln = self.slice(q, n)
                shape.append(ln); maps.append(('sl', lo, st))
            elif isint(q) or isnum(q): maps.append(('ix', self.normidx(q if isint(q) else toint(q), n)))
            else: raise Unsupported('index %r' % (q,))
        for n in o.shape[d:]: shape.append(n); maps.append(('sl', 0, 1))
        f = o.fn
        def g(*k):
            k = list(k); out = []
            for m in maps:
                if m[0] == 'new': k.pop(0)
                elif m[0] == 'ix': out.append(m[1])
                else:
                    q = k.pop(0); out.append(add(m[1], mul(m[2], q)) if not (not isz(m[1]) and m[1] == 0 and m[2] == 1) else q)
            return f(*out)
        if not shape: return g()
        r = Arr(shape, g, o.int, alias=o); r.isbool = getattr(o, 'isbool', False)
        o.views = [w for w in (o.views or []) if w() is not None] + [weakref.ref(r)]
        return r
    def e_Lambda(self, n, env): return Fn(env['__mod__'], n, env, env.get('__owner__'))
    def e_ListComp(self, n, env):
        if len(n.generators) == 2:
            pass
        if len(n.generators) != 1 or n.generators[0].is_async: raise Unsupported('comprehension')
        g = n.generators[0]
        it = self.ev(g.iter, env)
        inst = self.ctxinst(n)
        c = self.concrete_items(it)
        if c is not None:
            out = []
            for v in c:
                e = {'__mod__': env['__mod__'], '__owner__': env.get('__owner__'), '__parent__': env}
                self.assign(g.target, v, e)
                if all(self.branch(self.truth(self.ev(t, e))) for t in g.ifs): out.append(self.ev(n.elt, e))
            return Lst(out)
        if g.ifs: raise Unsupported('filtered comprehension')
        cnt, item = self.symiter(it)
        def fn(k):
            e = {'__mod__': env['__mod__'], '__owner__': env.get('__owner__'), '__parent__': env}
            self.assign(g.target, item(k), e)
            return self.element(inst, k, cnt, lambda: self.ev(n.elt, e))
        return SymList(cnt, fn)
    e_GeneratorExp = e_ListComp
    def ctxinst(self, n):
        """identity of one execution of a comprehension: what it draws is a function of the element's index"""
        if self.ctx:
            c = self.ctx[-1]; o = c[2].get(id(n), 0); c[2][id(n)] = o + 1
            return (c[0], id(n), o)
        return ('top', next(eng_cnt), id(n))
    def element(self, inst, k, cnt, th):
        hy = [z3.And(toint(k) >= 0, toint(k) < toint(cnt))] if isz(k) else []
        self.idxhyps += hy
        old = self.noforks, self.ctx; self.noforks = True
        # an element may be evaluated later, from another context: its indices are those of its own instance
        outer = self.ctx if self.ctx and inst[0] == self.ctx[-1][0] else self.ctxof.get(inst, [])
        self.ctxof[inst] = outer
        self.ctx = outer + [[inst, k, {}]]
        try: return th()
        finally:
            self.noforks, self.ctx = old
            if hy: self.idxhyps.pop()
    @property
    def ctxof(self): return self.__dict__.setdefault('_ctxof', {})
    def ctxapp(self, name, sort, extra=(), n=None):
        """a value that is a function of the indices of the current context (and of extra integer arguments)"""
        n = n if n is not None else self.curcall
        ks = [toint(c[1]) for c in self.ctx]
        if self.ctx:
            c = self.ctx[-1]; o = c[2].get((name, id(n)), 0); c[2][(name, id(n))] = o + 1
            key = (c[0], name, id(n), o)
        else: key = (None, next(eng_cnt))
        if key not in self.ctxmemo:
            F = z3.Function('%s!%d' % (name, next(eng_cnt)), *([I] * max(1, len(ks) + len(extra)) + [sort]))
            self.ctxmemo[key] = F; new = True
        else: new = False
        return self.ctxmemo[key], ks, new
    # ---------------------------------------------------------------- calls
    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return Super(env['__owner__'], next(v for k, v in env.items() if not k.startswith('__')))
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred): args += self.items(self.ev(a.value, env))
            else: args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None and isinstance(v, Opaque): kw['**'] = v
            elif k.arg is None: kw.update(v)
            else: kw[k.arg] = v
        self.curcall = n
        return self.call(f, args, kw)
    def ext(self, f, args, kw):
        if self.exthook is not None:
            r = self.exthook(self, f, args, kw)
            if r is not NotImplemented: return r
        name = f.name
        if name.startswith('arr.') or name.startswith('list.'):
            m = name.split('.')[1]
            h = getattr(self, 'm_' + m, None)
            if h is not None: return h(f.recv, *args, **kw)
            h = getattr(self, 'np_' + m, None)
            if h is not None and name.startswith('arr.'): return h(f.recv, *args, **kw)
        elif name.startswith('dict.'):
            m = name.split('.')[1]; d = f.recv
            if m == 'get': return d.get(*args)
            if m == 'pop': return d.pop(*args)
            if m == 'update':
                for a in args: d.update(a)
                d.update(kw); return None
            if m == 'items': return Lst([(k, v) for k, v in d.items()])
            if m == 'keys': return Lst(list(d))
            if m == 'values': return Lst(list(d.values()))
            if m == 'copy': return dict(d)
        elif name.startswith('opaque.') and isinstance(f.recv, Opaque) and f.recv.name.startswith(('rng', 'newrng')):
            return self.rnd(f.recv.name, name.split('.')[-1], args, kw)
        elif name.startswith('logging.'): return Opaque('logger')
        elif name.startswith('opaque.logger.'): return None
        elif name.startswith('str.'): return Opaque('str')
        elif name.startswith('num.'):
            m = name.split('.')[1]
            if m == 'item': return f.recv
            if m == 'copy': return f.recv
            if m == 'astype': return f.recv
        elif name.startswith('builtins.'):
            h = getattr(self, 'b_' + name[9:], None)
            if h is not None: return h(*args, **kw)
        elif (name.startswith('numpy.random.') or name.startswith('random.')) and name.split('.')[-1] != 'default_rng':
            m = name.split('.')[-1]; g = 'global generator ' + name
            if m in ('seed', 'Generator', 'RandomState', 'SystemRandom', 'Random'): raise Unsupported('call of ' + name)
            if m in ('rand', 'randn'): return self.rnd(g, {'rand': 'random', 'randn': 'standard_normal'}[m], [tuple(args)] if args else [], {})
            if name.startswith('random.') and m in ('gauss', 'normalvariate'): return self.rnd(g, 'normal', args, kw)
            if name.startswith('random.') and m == 'randint': return self.rnd(g, 'integers', [args[0], add(args[1], 1)], {})
            if m == 'randint': return self.rnd(g, 'integers', args, kw)
            if m in ('random_sample', 'ranf', 'sample') and name.startswith('numpy.'): return self.rnd(g, 'random', args, kw)
            return self.rnd(g, m, args, kw)
        elif name.startswith('numpy.linalg.') or name.startswith('math.') or name.startswith('numpy.') or name.startswith('copy.') :
            m = name.split('.')[-1]
            if name.startswith('math.') and m in ('ceil', 'floor'): return toint({'ceil': ceil, 'floor': floor}[m](args[0])) if isz(args[0]) else {'ceil': math.ceil, 'floor': math.floor}[m](args[0])
            h = getattr(self, 'np_' + m, None)
            if h is not None: return h(*args, **kw)
            if m in REAL_FUNS: return self.map1(lambda a: fun(m, a), args[0], False)
        raise Unsupported('call of ' + name)
    # builtins
    def b_len(self, v):
        if isinstance(v, (Lst,)): return len(v.items)
        if isinstance(v, (tuple, dict, str)): return len(v)
        if isinstance(v, SymList): return v.n
        if isinstance(v, Arr): return v.shape[0]
        if isinstance(v, Obj) and v.cls.find('__len__'): return self.method(v, '__len__')
        raise Unsupported('len')
    def b_range(self, *a):
        a = [q if isint(q) else toint(q) for q in a]
        if len(a) == 1: return RangeV(0, a[0])
        return RangeV(*a)
    def b_sum(self, v, start=0):
        if isinstance(v, (Lst, tuple)):
            r = start
            for q in self.items(v): r = self.binop('Add', r, q)
            return r
        return add(start, self.np_sum(v)) if start != 0 or isz(start) else self.np_sum(v)
    def b_abs(self, v): return self.map1(absv, v)
    def b_float(self, v):
        if isinstance(v, Arr) and v.nd == 0: v = v.fn()
        return v if isinstance(v, (float,)) else toreal(v) if isz(v) else frac(v) if isinstance(v, int) else v
    def b_int(self, v):
        if isint(v): return v
        c = conc(v)
        if not isz(c): return int(c)
        t = toreal(v)
        return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
    def b_bool(self, v): return self.truth(v)
    def b_max(self, *a, **kw):
        if len(a) == 1:
            c = self.concrete_items(a[0])
            if c is None: return self.np_amax(a[0])
            a = c
        r = a[0]
        for q in a[1:]: r = vmax(r, q)
        return r
    def b_min(self, *a, **kw):
        if len(a) == 1:
            c = self.concrete_items(a[0])
            if c is None: return self.np_amin(a[0])
            a = c
        r = a[0]
        for q in a[1:]: r = vmin(r, q)
        return r
    def b_pow(self, a, b): return self.binop('Pow', a, b)
    def b_round(self, a, nd=None): return self.np_round(a)
    def b_list(self, v=None):
        if v is None: return Lst([])
        c = self.concrete_items(v)
        if c is not None: return Lst(c)
        n, f = self.symiter(v); return SymList(n, f)
    def b_tuple(self, v=()):
        return tuple(self.items(v))
    def b_dict(self, *a, **kw):
        d = dict(a[0]) if a else {}
        d.update(kw); return d
    def b_enumerate(self, v, start=0):
        c = self.concrete_items(v)
        if c is not None: return Lst([(start + k, q) for k, q in enumerate(c)])
        n, f = self.symiter(v); return SymList(n, lambda k: (add(start, k), f(k)))
    def b_zip(self, *vs):
        cs = [self.concrete_items(v) for v in vs]
        if all(c is not None for c in cs): return Lst(list(zip(*cs)))
        its = [self.symiter(v) if c is None else (len(c), lambda k, c=c: self.asarr(Lst(c)).fn(k)) for v, c in zip(vs, cs)]
        n = its[0][0]
        for m, _ in its[1:]:
            if not self.dimeq(n, m): n = vmin(n, m)
        return SymList(n, lambda k: tuple(f(k) for _, f in its))
    def b_map(self, f, *vs):
        z = self.b_zip(*vs)
        if isinstance(z, Lst): return Lst([self.call(f, list(q), {}) for q in z.items])
        return SymList(z.n, lambda k: self.call(f, list(z.fn(k)), {}))
    def b_isinstance(self, v, t):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            nm = q.name if isinstance(q, Ext) else q.cls.name if isinstance(q, ClsRef) else None
            if nm is None: raise Unsupported('isinstance')
            s = nm.split('.')[-1]
            if isinstance(v, Obj):
                if v.cls.isa(s): return True
            elif s in ('ndarray',):
                if isinstance(v, Arr): return True
            elif s in ('list',):
                if isinstance(v, (Lst, SymList)): return True
            elif s == 'tuple':
                if isinstance(v, tuple): return True
            elif s == 'int':
                if isz(v) and v.sort() == I or isinstance(v, int): return True
            elif s in ('float', 'floating', 'Number', 'Real'):
                if isz(v) and v.sort() == R or isinstance(v, (float, Fraction)): return True
                if s in ('Number', 'Real') and isint(v) and isnum(v): return True
            elif s in ('integer',):
                pass
            elif s == 'str':
                if isinstance(v, str): return True
            elif s == 'dict':
                if isinstance(v, dict): return True
            elif s in ('Iterable', 'Sequence'):
                if isinstance(v, (Arr, Lst, SymList, tuple)): return True
            elif isinstance(q, ClsRef): pass
            else: raise Unsupported('isinstance ' + s)
        return False
    def b_callable(self, v): return isinstance(v, (Fn, Bound, Ext, ClsRef))
    def b_hasattr(self, o, name):
        if isinstance(o, Obj): return name in o.f or o.cls.find(name) is not None
        raise Unsupported('hasattr')
    def b_getattr(self, o, name, *d): return self.attr(o, name)
    def b_type(self, o):
        if isinstance(o, Obj): return ClsRef(o.cls)
        raise Unsupported('type')
    def b_id(self, o): return Opaque('id')
    def b_print(self, *a, **k): return None
    # list / array methods
    def m_append(self, l, v):
        if isinstance(l, LoopList): l.rec.append(v); return None
        if isinstance(l, SymList):
            n, f = l.n, l.fn
            l.n, l.fn = add(n, 1), (lambda k: ite(cmpop('Eq', k, n), v, f(k))); return None
        l.items.append(v)
    def m_extend(self, l, v): l.items += self.items(v)
    def m_copy(self, a):
        if isinstance(a, Lst): return Lst(list(a.items))
        if isinstance(a, SymList): return a
        return self.np_copy(a)
    def m_tolist(self, a): return a
    def m_astype(self, a, t, **kw):
        s = t.name if isinstance(t, Ext) else str(t)
        if 'int' in s: return self.map1(lambda x: self.b_int(x), a, True)
        r = Arr(a.shape, lambda *i, f=a.fn: toreal(f(*i)), False, a.mask); return r
    def m_fill(self, a, v): self.setarr(a, self.broadcast(self.asarr(v), a.shape))
    def m_item(self, a): return a.fn(*[0] * a.nd)
    def m_reshape(self, a, *sh, **kw):
        if len(sh) == 1 and isinstance(sh[0], tuple): sh = sh[0]
        sh = [conc(q) for q in sh]
        if a.nd == 1 and len(sh) == 2 and (sh[1] == 1 if not isz(sh[1]) else False): return Arr([a.shape[0], 1], lambda i, j: a.fn(i), a.int)
        if a.nd == 1 and len(sh) == 2 and (sh[0] == 1 if not isz(sh[0]) else False): return Arr([1, a.shape[0]], lambda i, j: a.fn(j), a.int)
        if a.nd == 1 and len(sh) == 1: return a
        raise Unsupported('reshape')
    def np_reshape(self, a, sh, **kw): return self.m_reshape(self.asarr(a), sh if isinstance(sh, tuple) else (sh,))
    # numpy
    def np_copy(self, a, **kw):
        a = self.asarr(a); r = Arr(a.shape, a.fn, a.int, a.mask); r.isbool = getattr(a, 'isbool', False); return r
    np_deepcopy = np_copy
    def np_asarray(self, v, dtype=None, **kw):
        if isinstance(v, Arr): a = v
        else: a = self.asarr(v)
        return a
    def np_array(self, v, dtype=None, **kw): return self.np_copy(self.asarr(v))
    def np_arange(self, *a, dtype=None, **kw):
        a = [q if isint(q) else conc(q) for q in a]
        if len(a) == 1: lo, hi, st = 0, a[0], 1
        elif len(a) == 2: lo, hi, st = a[0], a[1], 1
        else: lo, hi, st = a
        st = conc(st)
        if isz(st) or not all(isint(q) for q in (lo, hi)): raise Unsupported('arange')
        n = sub(hi, lo)
        if not isz(conc(n)): n = max(0, conc(n))
        elif not self.pv.valid(self.hyps + self.idxhyps + self.path, toint(n) >= 0, 1500): n = vmax(n, 0)
        if st != 1:
            if st < 1: raise Unsupported('arange step')
            n = floordiv(add(n, st - 1), st)
        return Arr([conc(n)], lambda k: add(lo, mul(st, k)), True)
    def shp(self, s):
        if isinstance(s, (tuple, Lst)): return self.items(s)
        return [s]
    def np_full(self, s, v, **kw): 
        if isinstance(v, Arr): return self.np_copy(self.broadcast(v, self.shp(s)))
        return Arr(self.shp(s), lambda *k: v, isint(v))
    def np_ones(self, s, **kw): return Arr(self.shp(s), lambda *k: Fraction(1))
    def np_zeros(self, s, **kw): return Arr(self.shp(s), lambda *k: Fraction(0))
    def np_empty(self, s, **kw):
        f = fresh(R, 'empty')
        return Arr(self.shp(s), lambda *k: f)
    def np_zeros_like(self, a, **kw): return self.np_zeros(tuple(self.asarr(a).shape))
    def np_ones_like(self, a, **kw): return self.np_ones(tuple(self.asarr(a).shape))
    np_empty_like = np_zeros_like
    def np_full_like(self, a, v, **kw): return self.np_full(tuple(self.asarr(a).shape), v)
    def np_square(self, a): return self.map1(lambda x: power(x, 2), a)
    def np_power(self, a, b): return self.binop('Pow', a, b)
    float_power = np_power
    def np_pow(self, a, b): return self.binop('Pow', a, b)
    def np_add(self, a, b): return self.binop('Add', a, b)
    def np_subtract(self, a, b): return self.binop('Sub', a, b)
    def np_multiply(self, a, b): return self.binop('Mult', a, b)
    def np_divide(self, a, b): return self.binop('Div', a, b)
    np_true_divide = np_divide
    def np_negative(self, a): return self.map1(neg, a)
    def np_mod(self, a, b): return self.binop('Mod', a, b)
    np_remainder = np_mod
    def np_fmod(self, a, b): return self.elem(fmod, a, b) if isinstance(a, Arr) or isinstance(b, Arr) else fmod(a, b)
    def np_abs(self, a): return self.map1(absv, a)
    np_absolute = np_fabs = np_abs
    def np_floor(self, a): return self.map1(floor, a, False)
    def np_ceil(self, a): return self.map1(ceil, a, False)
    def np_round(self, a, decimals=0): return self.map1(lambda x: fun('round', x), a, False)
    np_rint = np_around = np_round
    def np_sign(self, a): return self.map1(lambda x: ite(cmpop('Gt', x, 0), 1, ite(cmpop('Lt', x, 0), -1, 0)), a)
    def np_sqrt(self, a): return self.map1(lambda x: fun('sqrt', x), a, False)
    def np_maximum(self, a, b): return self.elem(vmax, a, b) if isinstance(a, Arr) or isinstance(b, Arr) else vmax(a, b)
    def np_minimum(self, a, b): return self.elem(vmin, a, b) if isinstance(a, Arr) or isinstance(b, Arr) else vmin(a, b)
    np_fmax, np_fmin = np_maximum, np_minimum
    def np_clip(self, x, lo=None, hi=None, out=None, a_min=None, a_max=None, **kw):
        lo = a_min if lo is None else lo; hi = a_max if hi is None else hi
        r = x
        if lo is not None: r = self.elem(vmax, r, lo) if isinstance(r, Arr) or isinstance(lo, Arr) else vmax(r, lo)
        if hi is not None: r = self.elem(vmin, r, hi) if isinstance(r, Arr) or isinstance(hi, Arr) else vmin(r, hi)
        if out is not None:
            self.setarr(out, r); return out
        return r
    def np_isclose(self, *a, **k): raise Unsupported('isclose')
    def axis(self, a, axis):
        if axis is None: return None
        c = conc(axis)
        if isz(c) or isinstance(c, tuple): raise Unsupported('axis')
        return c + a.nd if c < 0 else c
    def reduce(self, kind, a, axis=None, keepdims=False):
        a = self.asarr(a)
        if a.nd == 0: return a.fn()
        if a.mask is not None:
            if getattr(a, 'maskrow', None) is not None and self.axis(a, axis) == 0:
                n = conc(a.shape[0])
                f = a.fn
                op = {'max': vmax, 'min': vmin, 'sum': add, 'prod': mul}[kind]
                def g(*r):
                    v = f(0, *r)
                    for k in range(1, n): v = op(v, f(k, *r))
                    return v
                return Arr(a.shape[1:], g, a.int, a.maskrow)
            if a.nd != 1 or kind not in ('sum', 'prod'): raise Unsupported('reduction of a masked array')
            f, m = a.fn, a.mask
            z = 0 if kind == 'sum' else 1
            return binder(kind, a.shape[0], lambda i: ite(m(i), f(i), z))
        ax = self.axis(a, axis)
        op = {'max': vmax, 'min': vmin, 'sum': add, 'prod': mul}[kind]
        def red(n, f):
            c = conc(n)
            if not isz(c) and c <= 40 and c > 0:
                v = f(0)
                for k in range(1, c): v = op(v, f(k))
                return v
            if not isz(c) and c == 0:
                if kind in ('sum', 'prod'): return 0 if kind == 'sum' else 1
                raise Raised('ValueError')
            return binder(kind, n, f)
        f = a.fn
        if ax is None:
            def nest(pre, dims):
                if not dims: return f(*pre)
                return red(dims[0], lambda k: self.scoped(k, dims[0], lambda: nest(pre + [k], dims[1:])))
            return nest([], a.shape)
        sh = a.shape[:ax] + a.shape[ax + 1:]
        n = a.shape[ax]
        g = lambda *i: red(n, lambda k: self.scoped(k, n, lambda: f(*(i[:ax] + (k,) + i[ax:]))))
        if not sh: return g()
        return Arr(sh, g, False)
    def scoped(self, k, n, th):
        if not isz(k): return th()
        self.idxhyps.append(z3.And(k >= 0, k < toint(n)))
        try: return th()
        finally: self.idxhyps.pop()
    def np_sum(self, a, axis=None, dtype=None, **kw): return self.reduce('sum', a, axis)
    np_nansum = np_sum
    def np_prod(self, a, axis=None, **kw): return self.reduce('prod', a, axis)
    def np_amax(self, a, axis=None, **kw): return self.reduce('max', a, axis)
    def np_amin(self, a, axis=None, **kw): return self.reduce('min', a, axis)
    np_max, np_min = np_amax, np_amin
    np_fsum = np_sum
    def np_mean(self, a, axis=None, **kw):
        a = self.asarr(a); s = self.np_sum(a, axis)
        n = a.shape[self.axis(a, axis)] if axis is not None else self.attr(a, 'size')
        return self.binop('Div', s, n)
    def np_cumsum(self, a, **kw):
        a = self.asarr(a); return Arr(a.shape, lambda i: binder('sum', add(i, 1), a.fn))
    def np_diff(self, a, **kw):
        a = self.asarr(a); return Arr([sub(a.shape[0], 1)], lambda i: sub(a.fn(add(i, 1)), a.fn(i)))
    def dot(self, a, b):
        a, b = self.asarr(a), self.asarr(b)
        if a.nd == 1 and b.nd == 1: return self.np_sum(self.elem(mul, a, b))
        if a.nd == 0 or b.nd == 0: return self.elem(mul, a, b)
        if a.nd == 2 and b.nd == 1: return Arr([a.shape[0]], lambda i: binder('sum', b.shape[0], lambda k: mul(a.fn(i, k), b.fn(k))))
        raise Unsupported('dot')
    np_dot = np_inner = np_vdot = np_matmul = dot
    def np_norm(self, a, ord=None, axis=None, **kw):
        if ord not in (None, 2): raise Unsupported('norm')
        r = self.np_sum(self.np_square(self.asarr(a)), axis)
        return self.map1(lambda x: fun('sqrt', x), r, False)
    def np_roll(self, a, k, axis=None):
        a = self.asarr(a); k = conc(k)
        if a.nd != 1 or isz(k): raise Unsupported('roll')
        n = a.shape[0]; f = a.fn
        def g(i):
            j = sub(i, k)
            if k > 0: return f(ite(cmpop('Lt', j, 0), add(j, n), j)) if abs(k) == 1 else f(mod(j, n))
            return f(ite(cmpop('GtE', j, n), sub(j, n), j)) if abs(k) == 1 else f(mod(j, n))
        return Arr([n], g, a.int)
    def np_tile(self, a, reps):
        a = self.asarr(a); reps = self.shp(reps)
        if a.nd == 1 and len(reps) == 2 and conc(reps[1]) == 1: return Arr([reps[0], a.shape[0]], lambda i, j: a.fn(j), a.int)
        if a.nd == 1 and len(reps) == 1:
            n = a.shape[0]
            return Arr([mul(reps[0], n)], lambda i: a.fn(mod(i, n)), a.int)
        raise Unsupported('tile')
    def np_repeat(self, a, n, axis=None): raise Unsupported('repeat')
    def np_outer(self, a, b):
        a, b = self.asarr(a), self.asarr(b); return Arr([a.shape[0], b.shape[0]], lambda i, j: mul(a.fn(i), b.fn(j)))
    def np_tril(self, a, k=0):
        if conc(k) != 0: raise Unsupported('tril')
        return Arr(a.shape, lambda i, j: ite(cmpop('LtE', j, i), a.fn(i, j), 0), a.int)
    def np_triu(self, a, k=0):
        if conc(k) != 0: raise Unsupported('triu')
        return Arr(a.shape, lambda i, j: ite(cmpop('GtE', j, i), a.fn(i, j), 0), a.int)
    def np_atleast_2d(self, a):
        a = self.asarr(a)
        if a.nd == 1: return Arr([1, a.shape[0]], lambda i, j: a.fn(j), a.int)
        return a
    def np_atleast_1d(self, a):
        a = self.asarr(a)
        return a if a.nd else Arr([1], lambda i: a.fn(), a.int)
    def np_transpose(self, a): return self.attr(self.asarr(a), 'T')
    def np_expand_dims(self, a, axis):
        a = self.asarr(a)
        return self.getitem(a, (None, slice(None)) if conc(axis) == 0 else (slice(None), None))
    def np_where(self, c, a=None, b=None):
        if a is None: return Where(c)
        c = self.asarr(c)
        ab = self.elem_pair(a, b)
        return self.elem(lambda p, q: ite(tobool(p), q[0], q[1]), c, ab)
    def elem_pair(self, a, b):
        a, b = self.asarr(a), self.asarr(b); sh = self.bshape(a.shape, b.shape)
        x, y = self.broadcast(a, sh), self.broadcast(b, sh)
        return Arr(sh, lambda *i: (x.fn(*i), y.fn(*i)))
    def np_nonzero(self, c): return Where(c)
    def np_select(self, conds, choices, default=0):
        conds = [self.asarr(c) for c in self.items(conds)]; choices = [self.asarr(c) for c in self.items(choices)]
        d = self.asarr(default)
        sh = []
        for q in conds + choices + [d]: sh = self.bshape(sh, q.shape)
        cs = [self.broadcast(c, sh) for c in conds]; vs = [self.broadcast(c, sh) for c in choices]; d = self.broadcast(d, sh)
        def g(*i):
            r = d.fn(*i)
            for c, v in reversed(list(zip(cs, vs))): r = ite(tobool(c.fn(*i)), v.fn(*i), r)
            return r
        return Arr(sh, g)
    def np_array_equal(self, a, b):
        a, b = self.asarr(a), self.asarr(b)
        if a.nd != b.nd: return False
        if a.nd == 0: return cmpop('Eq', a.fn(), b.fn())
        ix = [ivar('e') for _ in a.shape]
        same = [toint(n) == toint(m) for n, m in zip(a.shape, b.shape)]
        rg = [z3.And(i >= 0, i < toint(n)) for i, n in zip(ix, a.shape)]
        return z3.And(*(same + [z3.ForAll(ix, z3.Implies(z3.And(*rg), toreal(a.fn(*ix)) == toreal(b.fn(*ix))))]))
    def np_argmin(self, a, axis=None, sign='LtE'):
        if isnum(a): return 0
        a = self.asarr(a)
        if a.nd == 0: return 0
        if a.nd != 1 or a.mask is not None: raise Unsupported('argmin')
        n = toint(a.shape[0])
        if self.ctx: raise Unsupported('argmin inside an element function')
        if not self.pv.valid(self.hyps + self.idxhyps + self.path, n >= 1):
            if self.branch(n < 1): raise Raised('ValueError')
        m = fresh(I, 'arg'); j = ivar('j')
        v, w = toreal(a.fn(m)), toreal(a.fn(j))
        le, lt = (v <= w, v < w) if sign == 'LtE' else (v >= w, v > w)
        self.path += [m >= 0, m < n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(le, z3.Implies(j < m, lt))))]
        return m
    def np_argmax(self, a, axis=None): return self.np_argmin(a, axis, 'GtE')
    def np_apply_along_axis(self, f, axis, a, *args, **kw):
        a = self.asarr(a)
        if a.nd != 2 or conc(axis) not in (1, -1) or args or kw: raise Unsupported('apply_along_axis')
        inst = self.ctxinst(self.curcall)
        def g(k):
            return self.element(inst, k, a.shape[0], lambda: self.call(f, [Arr(a.shape[1:], lambda *r: a.fn(k, *r), a.int, alias=a)], {}))
        return Arr([a.shape[0]], g)
    def np_all(self, a, axis=None): return self.quant(a, True)
    def np_any(self, a, axis=None): return self.quant(a, False)
    def quant(self, a, all_):
        a = self.asarr(a)
        ix = [ivar('q') for _ in a.shape]
        rng = z3.And([z3.And(i >= 0, i < toint(n)) for i, n in zip(ix, a.shape)])
        t = tobool(a.fn(*ix))
        return z3.ForAll(ix, z3.Implies(rng, t)) if all_ else z3.Exists(ix, z3.And(rng, t))
    def np_logical_and(self, a, b): return self.binop('BitAnd', a, b)
    def np_logical_or(self, a, b): return self.binop('BitOr', a, b)
    def np_logical_not(self, a): return self.mapb(lambda x: z3.Not(tobool(x)), a)
    def np_less(self, a, b): return self.compare('Lt', a, b)
    def np_greater(self, a, b): return self.compare('Gt', a, b)
    def np_less_equal(self, a, b): return self.compare('LtE', a, b)
    def np_greater_equal(self, a, b): return self.compare('GtE', a, b)
    def np_equal(self, a, b): return self.compare('Eq', a, b)
    def np_not_equal(self, a, b): return self.compare('NotEq', a, b)
    def np_concatenate(self, vs, axis=0, **kw):
        vs = [self.asarr(v) for v in self.items(vs)]
        if any(v.nd != 1 for v in vs): raise Unsupported('concatenate')
        offs, n = [], 0
        for v in vs: offs.append(n); n = add(n, v.shape[0])
        def g(i):
            r = vs[-1].fn(sub(i, offs[-1]))
            for v, o, e in reversed(list(zip(vs[:-1], offs[:-1], offs[1:]))): r = ite(cmpop('Lt', i, e), v.fn(sub(i, o)), r)
            return r
        return Arr([n], g)
    np_hstack = np_concatenate
    def np_append(self, a, b, **kw): return self.np_concatenate(Lst([self.np_atleast_1d(a), self.np_atleast_1d(b)]))
    def np_dtype(self, *a): return Opaque('dtype')
    def np_finfo(self, *a):
        o = Opaque('finfo'); o.attrs = {'eps': Fraction(1, 2 ** 52), 'max': Fraction(2) ** 1024, 'min': -Fraction(2) ** 1024, 'tiny': Fraction(1, 2 ** 1022)}; return o
    def np_float64(self, v): return self.b_float(v)
    def np_float32(self, v): raise Unsupported('float32')
    def np_int64(self, v): return self.b_int(v)
    def np_ravel(self, a): return a if self.asarr(a).nd == 1 else self.bad(None, None)
    def fin(self, x):
        if isinstance(x, float) and x in (math.inf, -math.inf): return False
        if not isz(x): return True
        t = toreal(x); return z3.And(t > -z3.Real('INF'), t < z3.Real('INF'))
    def np_isfinite(self, a): return self.mapb(self.fin, a) if isinstance(a, Arr) else self.fin(a)
    def np_isinf(self, a):
        g = lambda x: (lambda b: z3.Not(b) if isz(b) else not b)(self.fin(x))
        return self.mapb(g, a) if isinstance(a, Arr) else g(a)
    def np_sort(self, a, axis=-1, **kw):
        a = self.asarr(a)
        if kw or a.nd != 1 or a.mask is not None or axis not in (-1, 0): raise Unsupported('sort')
        n = conc(a.shape[0])
        if not isz(n) and n <= 4:                      # sorting network
            v = [a.fn(z3.IntVal(k)) for k in range(n)]
            for e in range(n):
                for k in range(n - 1 - e):
                    c = cmpop('LtE', v[k], v[k + 1]); v[k], v[k + 1] = ite(c, v[k], v[k + 1]), ite(c, v[k + 1], v[k])
            return self.asarr(Lst(v))
        if self.ctx: raise Unsupported('sort inside an element function')
        F, p, q = z3.Function('sorted!%d' % next(eng_cnt), I, I if a.int else R), z3.Function('perm!%d' % next(eng_cnt), I, I), z3.Function('unperm!%d' % next(eng_cnt), I, I)
        i, j = ivar('w'), ivar('w'); m = toint(n); rg = lambda k: z3.And(k >= 0, k < m)
        cast = toint if a.int else toreal
        self.hyps += [z3.ForAll([i], z3.Implies(rg(i), z3.And(rg(p(i)), q(p(i)) == i, F(i) == cast(a.fn(p(i))))), patterns=[F(i), p(i)]),
                      z3.ForAll([i], z3.Implies(rg(i), z3.And(rg(q(i)), p(q(i)) == i)), patterns=[q(i)]),
                      z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < m), F(i) <= F(j)), patterns=[z3.MultiPattern(F(i), F(j))])]
        return Arr([n], lambda k: F(toint(k)), a.int)
    def np_radians(self, a): return self.map1(lambda x: div(mul(x, PI), 180), a)

class LoopArr(Arr):
    """array written in a loop of symbolic length: an iteration writes at its own position of dimension d only, and reads
    what earlier iterations have not written"""
    def __init__(self, fv, a, d, cur, first):
        def base(*ix):
            k = toint(ix[d]); hy = fv.hyps + fv.idxhyps + fv.path
            if not k.eq(cur) and not fv.pv.valid(hy, z3.Or(k >= cur, k < first), 1500): raise Unsupported('read of an element written earlier in the loop')
            return a.fn(*ix)
        Arr.__init__(self, a.shape, base, a.int); self.d, self.cur = d, cur; self.isbool = getattr(a, 'isbool', False)
class LoopList:
    def __init__(self, rec): self.rec = rec

_store = FV.store
def store(self, o, ix, v):
    if isinstance(o, LoopArr):
        q = ix[o.d] if isinstance(ix, tuple) and len(ix) > o.d else ix if o.d == 0 and not isinstance(ix, tuple) else None
        if not isint(q) or not self.pv.valid(self.hyps + self.idxhyps + self.path, toint(self.normidx(q, o.shape[o.d])) == o.cur, 1500): raise Unsupported('array stores in a loop')
    return _store(self, o, ix, v)
FV.store = store
_attr = FV.attr
def attr(self, o, name):
    if isinstance(o, LoopList): return Ext('list.' + name, o)
    return _attr(self, o, name)
FV.attr = attr
