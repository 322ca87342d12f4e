"""Symbolic execution of the real function bodies (AST of /repo's current source)."""
import ast
import z3
from . import src
from .core import *
from .merge import *

_hq = {}
def has_quant(f):
    k = f.get_id()
    if k in _hq: return _hq[k][0]
    r = z3.is_quantifier(f) or any(has_quant(c) for c in f.children())
    _hq[k] = (r, f)
    return r

class Dead(Exception):
    """the current path raises in Python / is infeasible (partial correctness: it yields no result)"""

class Ob:
    __slots__ = ('kind', 'where', 'facts', 'goal', 'note', 'res')
    def __init__(s, kind, where, facts, goal, note=''):
        s.kind, s.where, s.facts, s.goal, s.note, s.res = kind, where, facts, goal, note, None

class Out:
    __slots__ = ('kind', 'st', 'val')
    def __init__(s, kind, st, val=None): s.kind, s.st, s.val = kind, st, val

BUILTINS = {'range', 'len', 'int', 'float', 'abs', 'min', 'max', 'sum', 'round', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'str', 'bool',
            'isinstance', 'sorted', 'reversed', 'super', 'print', 'any', 'all', 'map', 'filter', 'type', 'getattr', 'setattr', 'hasattr', 'callable', 'iter', 'next', 'object',
            'pow', 'divmod', 'id', 'hash', 'repr', 'slice', 'vars', 'issubclass'}
EXC = {'Exception', 'BaseException', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'StopIteration', 'FileNotFoundError', 'AttributeError', 'ZeroDivisionError', 'OverflowError', 'FloatingPointError', 'ArithmeticError'}

class Interp:
    def __init__(self, solver, contracts, np_model):
        self.solver = solver
        self.contracts = contracts
        self.np = np_model
        np_model.x = self
        self.obs = []
        self.quiet = 0            # >0: no obligations are recorded
        self.dry = 0              # >0: no solver queries (structure discovery)
        self.stack = []           # call stack of function names
        self.loopinfo = {}
        self.found = {}
        self.inlined = set()
        self.assumed = set()
        self.deadline = None
        self.hook_call = None
        self.lines = 0

    # ---------- obligations
    def oblige(self, st, kind, goal, node=None, note=''):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if not self.quiet:
            where = '%s:%s' % (self.stack[-1] if self.stack else '?', getattr(node, 'lineno', '?'))
            self.obs.append(Ob(kind, where, tuple(st.pc) + tuple(st.path), goal, note))
        if not z3.is_false(goal): st.add(goal)

    def check_time(self):
        import time
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the VC generator used up')

    # ---------- forking helpers
    def split(self, st, v, fn):
        """apply fn(state, alternative) to each alternative of a union and join the results"""
        if not isinstance(v, Un): return fn(st, v)
        outs = []
        for g, w in v.alts:
            if self.refuted(st, g): continue
            t = st.copy(); t.path.append(g)
            try:
                r = self.split(t, w, fn)
                outs.append((t, r))
            except Dead:
                pass
            except Unsupported:
                if not self.infeasible(st, g): raise
        if not outs: raise Dead()
        s, r = merge_all(outs)
        st.become(s)
        if len(outs) < len(v.alts): pass
        return r

    def refuted(self, st, g):
        if z3.is_false(g): return True
        ng = z3.simplify(z3.Not(g))
        return any(p.eq(ng) or z3.simplify(p).eq(ng) for p in st.path[-6:])
    def infeasible(self, st, g):
        """the alternative g contradicts the current path (quantifier-free facts only)"""
        s = z3.Solver(); s.set('rlimit', 300000)
        for f in st.pc + st.path:
            if not has_quant(f): s.add(f)
        s.add(g)
        self.solver.n += 1
        return s.check() == z3.unsat
    def truth(self, st, v):
        """z3 Bool or python bool for the truth of v"""
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, z3.BoolRef): return v
        if is_num(v):
            return (v != 0) if is_z(v) else bool(v)
        if isinstance(v, (str, tuple)): return len(v) > 0
        if isinstance(v, LV): return st.arrs[v.key].n > 0
        if isinstance(v, CO):
            r = st.rec(v)
            return len(r.f) > 0 if r.kind in ('list', 'dict') else True
        if isinstance(v, Un):
            return self.split(st, v, lambda s, w: self._b(self.truth(s, w)))
        if v is UNK or isinstance(v, (A1, A2, AN, IdxOf)): return fbool('truth')
        return True
    def _b(self, x): return x

    # ---------- statements
    def block(self, stmts, st):
        """-> list of Out"""
        outs = []
        cur = st
        for i, s in enumerate(stmts):
            self.check_time(); self.lines += 1
            try:
                res = self.stmt(s, cur)
            except Dead:
                self.last_dead = '%s:%s' % ('>'.join(x.split(':')[-1] for x in self.stack), s.lineno)
                return outs
            except Unsupported as e:
                if not hasattr(e, 'at'): e.at = '%s:%s' % ('>'.join(x.split(':')[-1] for x in self.stack), s.lineno)
                raise
            if res is None: continue
            nxt = []
            for o in res:
                (nxt if o.kind == 'next' else outs).append(o)
            if not nxt: return outs
            if len(nxt) == 1: cur = nxt[0].st
            else: cur, _ = merge_all([(o.st, None) for o in nxt])
        outs.append(Out('next', cur))
        return outs

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None: raise Unsupported('statement %s at line %s' % (type(n).__name__, n.lineno))
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant): return None
        self.ev(n.value, st); return None
    def s_Pass(self, n, st): return None
    def s_Import(self, n, st):
        for a in n.names:
            mm = src.module(a.name)
            st.frames[-1][a.asname or a.name.split('.')[0]] = ModV(mm) if mm else ExtV(a.name if a.asname else a.name.split('.')[0])
    def s_ImportFrom(self, n, st):
        for a in n.names:
            st.frames[-1][a.asname or a.name] = self.from_resolved(src.resolve(n.module, a.name) if src.path_of(n.module) else ('ext', n.module + '.' + a.name), st)
    def s_Global(self, n, st): raise Unsupported('global statement')
    def s_Assert(self, n, st):
        c = self.truth(st, self.ev(n.test, st))
        if c is False: raise Dead()
        st.add(c if not isinstance(c, bool) else None)
    def s_Raise(self, n, st): raise Dead()
    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name): st.frames[-1].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                if isinstance(o, CO):
                    k = self.ev(t.slice, st); r = st.wrec(o)
                    if r.kind == 'dict': r.f.pop(k, None)
                    else: del r.f[k]
                elif isinstance(o, LV):
                    self.list_pop(st, o, self.ev(t.slice, st))
                else: raise Unsupported('del')
            else: raise Unsupported('del')
    def s_FunctionDef(self, n, st):
        st.frames[-1][n.name] = FuncV(self.modstack[-1], n, env=len(st.frames) - 1)
    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else None
        return [Out('return', st, v)]
    def s_Break(self, n, st): return [Out('break', st)]
    def s_Continue(self, n, st): return [Out('continue', st)]
    def s_Try(self, n, st):
        # exceptions end the path (partial correctness); handlers are not explored
        outs = []
        for o in self.block(n.body, st):
            if o.kind == 'next' and n.orelse: outs += self.block(n.orelse, o.st)
            else: outs.append(o)
        if n.finalbody:
            res = []
            for o in outs:
                for q in self.block(n.finalbody, o.st):
                    if q.kind == 'next': res.append(Out(o.kind, q.st, o.val))
                    else: res.append(q)
            outs = res
        return outs
    def s_With(self, n, st):
        for it in n.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None: self.assign(it.optional_vars, v, st)
        return self.block(n.body, st)

    def targets(self, t):
        if isinstance(t, ast.Name): return {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            r = set()
            for e in t.elts: r |= self.targets(e)
            return r
        return set()

    def s_Assign(self, n, st):
        dead = set()
        if isinstance(n.value, ast.Call):
            for t in n.targets: dead |= self.targets(t)
            # a target read by an enclosing closure or loop header stays alive only through its new value
        v = self.ev_dead(n.value, st, dead)
        for t in n.targets: self.assign(t, v, st)
    def ev_dead(self, e, st, dead):
        if not dead: return self.ev(e, st)
        self.pending_dead = frozenset(dead)
        v = self.ev(e, st)
        self.pending_dead = frozenset()
        return v
    pending_dead = frozenset()
    def s_AnnAssign(self, n, st):
        if n.value is not None: self.assign(n.target, self.ev(n.value, st), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.frames[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.set_attr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev(t.slice, st)
            self.set_item(st, o, i, v, t)
        else: raise Unsupported('assignment target')

    def unpack(self, elts, v, st):
        if isinstance(v, Un):
            def f(s, w):
                self.unpack(elts, w, s); return None
            self.split(st, v, f); return
        if any(isinstance(e, ast.Starred) for e in elts):
            if not isinstance(v, tuple): raise Unsupported('starred unpack')
            i = [isinstance(e, ast.Starred) for e in elts].index(True)
            k = len(elts) - i - 1
            vals = list(v[:i]) + [st.newrec('list', None, list(v[i:len(v) - k]))] + list(v[len(v) - k:])
            for e, w in zip(elts, vals): self.assign(e.value if isinstance(e, ast.Starred) else e, w, st)
            return
        if isinstance(v, tuple):
            if len(v) != len(elts): raise Dead()
            vals = list(v)
        elif isinstance(v, CO) and st.rec(v).kind == 'list':
            vals = list(st.rec(v).f)
            if len(vals) != len(elts): raise Dead()
        elif v is UNK: vals = [UNK] * len(elts)
        elif v is None: raise Dead()
        elif isinstance(v, (A1, A2, AN, LV)):
            vals = [self.get_item(st, v, k) for k in range(len(elts))]
        else: raise Unsupported('unpack %r' % (v,))
        for e, w in zip(elts, vals): self.assign(e, w, st)

    def s_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st)
            rhs = self.ev(n.value, st)
            r = self.aug(st, cur, n.op, rhs, n)
            if r is not None: st.frames[-1][t.id] = r[0]
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            def f(s, o):
                cur = self.get_attr(s, o, t.attr, t)
                rhs = self.ev(n.value, s)
                r = self.aug(s, cur, n.op, rhs, n)
                if r is not None: self.set_attr(s, o, t.attr, r[0], t)
            self.split(st, o, f)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st); i = self.ev(t.slice, st)
            cur = self.get_item(st, o, i)
            rhs = self.ev(n.value, st)
            if isinstance(o, (A1, A2, AN)):
                self.set_item(st, o, i, self.binop(st, n.op, cur, rhs, n), n)
            else:
                r = self.aug(st, cur, n.op, rhs, n)
                if r is not None: self.set_item(st, o, i, r[0], n)
        else: raise Unsupported('augassign')

    def aug(self, st, cur, op, rhs, n):
        """in-place operation; None when the object was mutated in place, else (newvalue,)"""
        if isinstance(cur, Un):
            # keep identity: evaluate per alternative, rebinding
            def f(s, w):
                r = self.aug(s, w, op, rhs, n)
                return w if r is None else r[0]
            return (self.split(st, cur, f),)
        if isinstance(cur, AN):
            self.np.assign_all(st, cur, self.binop(st, op, cur, rhs, n)); return None
        if isinstance(cur, (A1, A2)) and cur.mask is None:
            r = self.binop(st, op, cur, rhs, n)
            self.np.assign_all(st, cur, r)
            return None
        if isinstance(cur, LV) or (isinstance(cur, CO) and st.rec(cur).kind == 'list'):
            if isinstance(op, ast.Add) and not (isinstance(cur, LV) and cur.nd):
                self.np.list_extend(st, cur, rhs); return None
        return (self.binop(st, op, cur, rhs, n),)

    def s_If(self, n, st):
        c = self.truth(st, self.ev(n.test, st))
        if isinstance(c, bool):
            return self.block(n.body if c else n.orelse, st)
        c = z3.simplify(c)
        if z3.is_true(c): return self.block(n.body, st)
        if z3.is_false(c): return self.block(n.orelse, st)
        a, b = st.copy(), st
        a.path.append(c); b.path.append(z3.Not(c))
        self.narrow(n.test, a, c); self.narrow(n.test, b, z3.Not(c))
        o1 = self.block(n.body, a)
        o2 = self.block(n.orelse, b)
        return self.join_outs(o1 + o2)

    def narrow(self, test, st, c):
        """Forget the alternatives of a tested local that the branch condition excludes (the path holds c already)."""
        for m in ast.walk(test):
            if isinstance(m, ast.Name) and isinstance(st.frames[-1].get(m.id), Un):
                alts = [(g, w) for g, w in st.frames[-1][m.id].alts if not z3.is_false(z3.simplify(z3.And(c, g)))]
                if len(alts) == len(st.frames[-1][m.id].alts) or not alts: continue
                st.frames[-1][m.id] = alts[0][1] if len(alts) == 1 else Un(alts)

    def join_outs(self, outs):
        res = []
        for kind in ('next', 'break', 'continue', 'return'):
            l = [o for o in outs if o.kind == kind]
            if not l: continue
            if len(l) == 1: res.append(l[0]); continue
            if kind in ('return',) : res += l; continue
            s, v = merge_all([(o.st, o.val) for o in l])
            res.append(Out(kind, s, v))
        return res

    # ---------- names
    modstack = None
    def lookup(self, name, st):
        f = st.frames[-1]
        if name in f: return f[name]
        env = self.envstack[-1]
        if env is not None and env < len(st.frames) - 1 + 0:
            e = env
            if name in st.frames[e]: return st.frames[e][name]
        if isinstance(env, dict) and name in env: return env[name]
        r = src.resolve(self.modstack[-1].name, name)
        if r is not None: return self.from_resolved(r, st)
        if name in BUILTINS or name in EXC or name in ('%asarr', '%row'): return ExtV('builtins.' + name)
        if name == 'NotImplemented': return UNK
        raise Unsupported('name %s' % name)
    def from_resolved(self, r, st):
        if r is None: raise Unsupported('unresolved name')
        if r[0] == 'class': return ClsV(src.get_class(r[1], r[2]))
        if r[0] == 'func': return FuncV(r[1], r[2])
        if r[0] == 'mod': return ModV(r[1])
        if r[0] == 'ext': return ExtV(r[1])
        if r[0] == 'expr':
            if isinstance(r[2], ast.Constant): return r[2].value
            self.modstack.append(r[1]); self.envstack.append(None); st.frames.append({}); st.dead.append(frozenset())
            try: return self.ev(r[2], st)
            finally: self.modstack.pop(); self.envstack.pop(); st.frames.pop(); st.dead.pop()
        raise Unsupported('resolved %r' % (r,))

    # ---------- expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression %s at line %s' % (type(n).__name__, getattr(n, 'lineno', '?')))
        return m(n, st)
    def e_Constant(self, n, st): return n.value
    def e_Name(self, n, st): return self.lookup(n.id, st)
    def e_Tuple(self, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                out += list(self.concrete_items(st, v))
            else: out.append(self.ev(e, st))
        return tuple(out)
    def e_List(self, n, st):
        return st.newrec('list', None, list(self.e_Tuple(n, st)))
    def e_Set(self, n, st): return self.e_List(n, st)
    def e_Dict(self, n, st):
        f = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, st)
                f.update(st.rec(d).f); continue
            kk = self.ev(k, st)
            f[kk] = self.ev(v, st)
        return st.newrec('dict', None, f)
    def e_JoinedStr(self, n, st): return '<str>'
    def e_Slice(self, n, st):
        g = lambda e: None if e is None else self.ev(e, st)
        return SliceV(g(n.lower), g(n.upper), g(n.step))
    def e_Starred(self, n, st): raise Unsupported('starred')
    def e_Lambda(self, n, st): return FuncV(self.modstack[-1], n, env=len(st.frames) - 1, name='<lambda>')
    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st); self.assign(n.target, v, st); return v

    def e_IfExp(self, n, st):
        c = self.truth(st, self.ev(n.test, st))
        if isinstance(c, bool): return self.ev(n.body if c else n.orelse, st)
        c = z3.simplify(c)
        if z3.is_true(c): return self.ev(n.body, st)
        if z3.is_false(c): return self.ev(n.orelse, st)
        return self.fork(st, c, lambda s: self.ev(n.body, s), lambda s: self.ev(n.orelse, s))
    def fork(self, st, c, f1, f2):
        outs = []
        for g, f in ((c, f1), (z3.Not(c), f2)):
            t = st.copy(); t.path.append(g)
            try: outs.append((t, f(t)))
            except Dead: pass
        if not outs: raise Dead()
        s, v = merge_all(outs)
        st.become(s)
        return v
    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        return self.boolop(n.values, isand, st)
    def boolop(self, vals, isand, st):
        v = self.ev(vals[0], st)
        if len(vals) == 1: return v
        c = self.truth(st, v)
        if isinstance(c, bool):
            if c == isand: return self.boolop(vals[1:], isand, st)
            return v
        if not is_bool(v): v = c
        return self.fork(st, c, (lambda s: self.boolop(vals[1:], isand, s)) if isand else (lambda s: v),
                         (lambda s: v) if isand else (lambda s: self.boolop(vals[1:], isand, s)))
    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        return self.unop(st, n.op, v)
    def unop(self, st, op, v):
        if isinstance(v, Un): return self.split(st, v, lambda s, w: self.unop(s, op, w))
        if isinstance(op, ast.Not):
            c = self.truth(st, v)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        if v is UNK: return UNK
        if isinstance(op, ast.USub):
            if isinstance(v, (int, float)): return -v
            if is_z(v): return -(TI(v) if is_bool(v) else v)
            if isinstance(v, (A1, A2, AN)): return self.np.elem(st, lambda a: -a, [v], 'f' if v.dt != 'i' else 'i')
        if isinstance(op, ast.UAdd): return v
        if isinstance(op, ast.Invert):
            if isinstance(v, (A1, A2, AN)) and v.dt == 'b': return self.np.elem(st, lambda a: z3.Not(a), [v], 'b')
            if is_bool(v): return z3.Not(T(v))
        raise Unsupported('unary op on %r' % (v,))
    def e_BinOp(self, n, st):
        a = self.ev(n.left, st); b = self.ev(n.right, st)
        return self.binop(st, n.op, a, b, n)
    def binop(self, st, op, a, b, n=None):
        if isinstance(a, Un): return self.split(st, a, lambda s, w: self.binop(s, op, w, b, n))
        if isinstance(b, Un): return self.split(st, b, lambda s, w: self.binop(s, op, a, w, n))
        return self.np.binop(st, op, a, b)
    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        if len(n.ops) == 1:
            return self.compare(st, n.ops[0], left, self.ev(n.comparators[0], st))
        res = None
        vals = [left] + [self.ev(c, st) for c in n.comparators]
        for op, a, b in zip(n.ops, vals, vals[1:]):
            r = self.compare(st, op, a, b)
            if res is None: res = r
            elif isinstance(res, bool) and isinstance(r, bool): res = res and r
            else: res = z3.And(T(res), T(r))
        return res
    def compare(self, st, op, a, b):
        if isinstance(a, Un): return self.split(st, a, lambda s, w: self.compare(s, op, w, b))
        if isinstance(b, Un): return self.split(st, b, lambda s, w: self.compare(s, op, a, w))
        return self.np.compare(st, op, a, b)

    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.get_attr(st, o, n.attr, n)
    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        i = self.ev(n.slice, st)
        return self.get_item(st, o, i)
    def get_item(self, st, o, i):
        if isinstance(o, Un): return self.split(st, o, lambda s, w: self.get_item(s, w, i))
        if isinstance(i, Un): return self.split(st, i, lambda s, w: self.get_item(s, o, w))
        if isinstance(o, ObjV) or (isinstance(o, CO) and st.rec(o).kind == 'inst'):
            return self.call_method(st, o, '__getitem__', [i], {})
        return self.np.get_item(st, o, i)
    def set_item(self, st, o, i, v, n=None):
        if isinstance(o, Un):
            self.split(st, o, lambda s, w: self.set_item(s, w, i, v, n)); return
        if isinstance(i, Un):
            self.split(st, i, lambda s, w: self.set_item(s, o, w, v, n)); return
        if isinstance(v, Un) and not isinstance(o, CO):
            self.split(st, v, lambda s, w: self.set_item(s, o, i, w, n)); return
        if isinstance(o, ObjV):
            self.call_method(st, o, '__setitem__', [i, v], {}); return
        self.np.set_item(st, o, i, v)

    # ---------- attributes
    def get_attr(self, st, o, name, n=None):
        if isinstance(o, Un): return self.split(st, o, lambda s, w: self.get_attr(s, w, name, n))
        if o is None: raise Dead()
        if o is UNK: return UNK
        if isinstance(o, ObjV):
            if name in st.fields or not o.cls.find(name):
                return self.get_field(st, o, name)
            return self.bind(st, o, o.cls, name)
        if isinstance(o, CO):
            r = st.rec(o)
            if r.kind in ('inst', 'task'):
                if isinstance(r.f, dict) and name in r.f: return r.f[name]
                if r.kind == 'task': return self.contracts.task_attr(self, st, o, name)
                if r.cls.find(name): return self.bind(st, o, r.cls, name)
                a = r.cls.attr(name)
                if a: return self.eval_in(a[0].mod, a[1], st)
                raise Dead()
            return ExtV('%s.%s' % (r.kind, name), o)
        if isinstance(o, SuperV):
            cls = o.self_cls
            f = cls.find(name, o.after)
            if f is None or f[0].node is None:
                return ExtV('object.' + name, o.self)
            return BoundV(o.self, FuncV(f[0].mod, f[1], owner=f[0]))
        if isinstance(o, ClsV):
            f = o.cls.find(name)
            if f:
                fn = FuncV(f[0].mod, f[1], owner=f[0])
                if self.is_static(f[1]): return fn
                if self.is_classm(f[1]): return BoundV(o, fn)
                return fn
            a = o.cls.attr(name)
            if a: 
                if o.cls.isa('Enum'): return Opaque('%s.%s' % (o.cls.name, name))
                return self.eval_in(a[0].mod, a[1], st)
            if name == '__name__': return o.cls.name
            raise Unsupported('class attribute %s.%s' % (o.cls.name, name))
        if isinstance(o, ModV):
            return self.from_resolved(src.resolve(o.mod.name, name), st)
        if isinstance(o, ExtV):
            return self.np.ext_attr(st, o, name)
        if isinstance(o, Opaque):
            return self.np.opaque_attr(st, o, name)
        return self.np.val_attr(st, o, name)
    def eval_in(self, mod, expr, st):
        self.modstack.append(mod); self.envstack.append(None); st.frames.append({}); st.dead.append(frozenset())
        try: return self.ev(expr, st)
        finally: self.modstack.pop(); self.envstack.pop(); st.frames.pop(); st.dead.pop()
    def is_static(self, node): return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
    def is_classm(self, node): return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in node.decorator_list)
    def is_prop(self, node): return any(isinstance(d, ast.Name) and d.id == 'property' for d in node.decorator_list)
    def bind(self, st, o, cls, name):
        oc, node = cls.find(name)
        fn = FuncV(oc.mod, node, owner=oc)
        if self.is_static(node): return fn
        if self.is_prop(node): return self.call_func(st, fn, [o], {})
        return BoundV(o, fn)
    def set_attr(self, st, o, name, v, n=None):
        if isinstance(o, Un):
            self.split(st, o, lambda s, w: self.set_attr(s, w, name, v, n)); return
        if o is None: raise Dead()
        if isinstance(o, ObjV):
            self.set_field(st, o, name, v); return
        if isinstance(o, CO):
            if st.rec(o).kind == 'task':
                self.contracts.task_set_attr(self, st, o, name, v, n); return
            st.wrec(o).f[name] = v; return
        raise Unsupported('attribute store on %r' % (o,))
    # fields of heap objects (Individuals)
    def get_field(self, st, o, name):
        fm = st.fields.get(name)
        if fm is None: raise Dead()
        if fm.kind == 'u': v = UNK
        elif fm.kind == 'n': return None
        elif fm.kind in 'fib': v = fm.maps[0][o.ref]
        elif fm.kind == 'v':
            v = A1(None, fm.maps[0][o.ref], fm.maps[1][o.ref], 0, fm.extra, 'f')
        elif fm.kind == 'o': v = ObjV(fm.maps[0][o.ref], fm.extra)
        else: raise Unsupported('field kind')
        if fm.none:
            b = fbool('isnone')
            return Un([(b, None), (z3.Not(b), v)])
        return v
    def set_field(self, st, o, name, v):
        fm = st.fields.get(name)
        if isinstance(v, Un):
            self.split(st, v, lambda s, w: self.set_field(s, o, name, w)); return
        if v is None:
            if fm is None: st.fields[name] = FM('n', (), None, True)
            elif fm.kind == 'n': pass
            else: st.fields[name] = FM(fm.kind, fm.maps, fm.extra, True)
            return
        if is_bool(v) and not is_num(v): kind, ts, ex = 'b', [TB(v)], None
        elif is_num(v):
            t = T(v); kind, ts, ex = ('i' if t.sort() == I else 'f'), [t], None
        elif isinstance(v, A1) and v.dt == 'f' and v.mask is None and isinstance(v.off, int):
            st.escape_val(v)
            kind, ts, ex = 'v', [v.ref, T(v.row if v.row is not None else 0)], v.n
        elif isinstance(v, ObjV): kind, ts, ex = 'o', [v.ref], v.cls
        else: kind, ts, ex = 'u', [], None
        none = fm.none if fm is not None else False
        if fm is None or fm.kind == 'n':
            sorts = {'f': [R], 'i': [I], 'b': [B], 'v': [I, I], 'o': [I], 'u': []}[kind]
            maps = tuple(fresh(z3.ArraySort(I, s), 'fld_' + name) for s in sorts)
            fm = FM(kind, maps, ex, none)
        if fm.kind == 'f' and kind == 'i': kind, ts = 'f', [TR(ts[0])]
        if fm.kind == 'i' and kind == 'f':
            old = fm.maps[0]; nm = fresh(z3.ArraySort(I, R), 'fld_' + name); k = z3.Int('k!f')
            st.add(z3.ForAll([k], nm[k] == z3.ToReal(old[k]), patterns=[nm[k]]))
            fm = FM('f', (nm,), None, fm.none)
        if fm.kind != kind or (kind == 'v' and not same_term(fm.extra, ex)) or (kind == 'o' and fm.extra is not ex):
            st.fields[name] = FM('u', (), None, none); return
        st.fields[name] = FM(kind, tuple(st.nm(z3.Store(mp, o.ref, t)) for mp, t in zip(fm.maps, ts)), fm.extra, fm.none)

    # ---------- calls
    envstack = None
    def e_Call(self, n, st):
        pd, self.pending_dead = self.pending_dead, frozenset()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.make_super(st)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and len(n.args) == 2:
            s = self.make_super(st); return s
        f = self.ev(n.func, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += list(self.concrete_items(st, self.ev(a.value, st)))
            else: args.append(self.ev(self.rows(n, a), st))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, st)
                if isinstance(d, CO): 
                    kw.update(st.rec(d).f)
                elif d is None: raise Dead()
                else: raise Unsupported('** of %r' % (d,))
            else: kw[k.arg] = self.ev(k.value, st)
        old = st.dead[-1]
        st.dead[-1] = old | pd
        depth = len(st.frames)
        v = self.call(st, f, args, kw, n)
        st.dead[depth - 1] = old
        return v
    _rows = {}
    def rows(self, call, a):
        """np.asarray([f(i) for i in ...]): a list of numbers returned by f becomes a row"""
        if not (isinstance(a, ast.ListComp) and isinstance(a.elt, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr in ('asarray', 'array')): return a
        if id(a) not in self._rows:
            b = ast.copy_location(ast.ListComp(ast.copy_location(ast.Call(ast.copy_location(ast.Name('%row', ast.Load()), a.elt), [a.elt], []), a.elt), a.generators), a)
            self._rows[id(a)] = (b, a)
        return self._rows[id(a)][0]
    def make_super(self, st):
        fn = self.fnstack[-1]
        node = fn.node
        selfname = node.args.args[0].arg
        s = SuperV(st.frames[-1][selfname], fn.owner)
        v = s.self
        s.self_cls = v.cls if isinstance(v, (ObjV, ClsV)) else st.rec(v).cls
        return s
    def concrete_items(self, st, v):
        if isinstance(v, tuple): return v
        if isinstance(v, CO) and st.rec(v).kind in ('list',): return st.rec(v).f
        if isinstance(v, CO) and st.rec(v).kind == 'dict': return list(st.rec(v).f)
        raise Unsupported('unpacking of a symbolic sequence')

    def call(self, st, f, args, kw, n=None):
        if isinstance(f, Un):
            return self.split(st, f, lambda s, w: self.call(s, w, args, kw, n))
        if f is None: raise Dead()
        if isinstance(f, BoundV):
            return self.call_func(st, f.fn, [f.self] + list(args), kw, n)
        if isinstance(f, FuncV):
            return self.call_func(st, f, args, kw, n)
        if isinstance(f, ClsV):
            return self.instantiate(st, f.cls, args, kw, n)
        if isinstance(f, ExtV):
            return self.np.call_ext(st, f, args, kw, n)
        if isinstance(f, Opaque):
            return self.np.call_opaque(st, f, args, kw, n)
        if f is UNK: raise Unsupported('call of an unknown value at line %s' % getattr(n, 'lineno', '?'))
        if isinstance(f, (ObjV, CO)):
            return self.call_method(st, f, '__call__', args, kw)
        raise Unsupported('call of %r' % (f,))

    def call_method(self, st, o, name, args, kw, n=None):
        if isinstance(o, ObjV): cls = o.cls
        else: cls = st.rec(o).cls
        r = cls.find(name)
        if not r: raise Dead()
        return self.call_func(st, FuncV(r[0].mod, r[1], owner=r[0]), [o] + list(args), kw, n)

    def instantiate(self, st, cls, args, kw, n=None):
        c = self.contracts.instantiate(self, st, cls, args, kw, n)
        if c is not NotImplemented: return c
        g, r = st.newref()
        o = ObjV(r, cls)
        if cls.find('__init__'):
            self.call_method(st, o, '__init__', args, kw, n)
        return o

    fnstack = None
    def call_func(self, st, fn, args, kw, n=None):
        c = self.contracts.func(self, st, fn, args, kw, n)
        if c is not NotImplemented: return c
        return self.inline(st, fn, args, kw, n)

    def bind_args(self, st, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        for nm, v in zip(names, args): env[nm] = v
        if len(args) > len(names):
            if a.vararg is None: raise Dead()
        if a.vararg is not None: env[a.vararg.arg] = tuple(args[len(names):])
        for nm in names:
            if nm in kw:
                if nm in env: raise Dead()
                env[nm] = kw.pop(nm)
        for x in a.kwonlyargs:
            if x.arg in kw: env[x.arg] = kw.pop(x.arg)
        if a.kwarg is not None: env[a.kwarg.arg] = st.newrec('dict', None, kw)
        elif kw: raise Dead()
        missing = [x for x in names + [k.arg for k in a.kwonlyargs] if x not in env]
        if missing:
            dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            dflt.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for m in missing:
                if m not in dflt: raise Dead()
                if isinstance(fn.mod, src.Mod): env[m] = self.eval_in(fn.mod, dflt[m], st)
        return env

    _selfrec = {}
    def self_recursive(self, fn):
        k = id(fn.node)
        if k not in self._selfrec:
            self._selfrec[k] = (any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and x.func.attr == fn.name
                                   for x in ast.walk(fn.node)), fn.node)
        return self._selfrec[k][0]
    def check_recursion(self, s0, o, qn):
        s = o.st
        same = s.H.eq(s0.H) and s.m.eq(s0.m) and s.stopped.eq(s0.stopped) and s.evals.eq(s0.evals) and s.iters.eq(s0.iters) and \
            all(k in s.fields and s.fields[k].maps == v.maps for k, v in s0.fields.items()) and \
            all(s.arrs.get(k) is v for k, v in s0.arrs.items()) and all(s.conc.get(k) is v for k, v in s0.conc.items())
        if not same or o.kind != 'return' or not (is_num(o.val) or (isinstance(o.val, Un) and all(is_num(w) for g, w in o.val.alts))):
            raise Unsupported('recursion in %s' % qn)
    def inline(self, st, fn, args, kw, n=None):
        qn = '%s.%s' % (fn.owner.name, fn.name) if fn.owner is not None else fn.name
        if self.stack.count(fn.mod.name + ':' + qn) >= 2: raise Unsupported('recursion in %s' % qn)
        if self.stack.count(fn.mod.name + ':' + qn) == 1 and isinstance(fn.node, ast.FunctionDef) and self.self_recursive(fn):
            # induction on the recursion depth: the inner call is assumed to do what the outer one is checked to do below -
            # it returns a number and leaves every object and the task as they were
            self.assumed.add('termination of the recursion in ' + qn)
            return freal('rec')
        if len(self.stack) > 40: raise Unsupported('call depth')
        env = self.bind_args(st, fn, args, kw)
        self.inlined.add(fn.mod.name + ':' + qn)
        st.frames.append(env); st.dead.append(frozenset())
        self.stack.append(fn.mod.name + ':' + qn); self.modstack.append(fn.mod)
        self.fnstack.append(fn); self.envstack.append(fn.env)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, st)
                st.frames.pop(); st.dead.pop()
                return v
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)): raise Unsupported('generator function')
            rec = self.self_recursive(fn) and st.copy()
            outs = self.block(fn.node.body, st)
            res = []
            for o in outs:
                if rec: self.check_recursion(rec, o, qn)
                if o.kind not in ('next', 'return'): raise Unsupported('break outside loop')
                o.st.frames.pop(); o.st.dead.pop()
                res.append((o.st, o.val if o.kind == 'return' else None))
            if not res: raise Dead()
            s, v = merge_all(res)
            if s is not st: st.become(s)
            return v
        finally:
            self.stack.pop(); self.modstack.pop(); self.fnstack.pop(); self.envstack.pop()
