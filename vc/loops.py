"""Loops: automatic inductive invariants (Houdini over name-independent templates), comprehensions."""
import ast, time
import z3
from .core import *
from .merge import *
from .interp import Interp, Out, Dead, Ob

class LoopInfo:
    def __init__(s):
        s.desc = {}        # root path -> joint description
        s.keys = OSet()     # array keys mutated in place (by key present at entry)
        s.maps = OSet()     # 'H', field names
        s.ghosts = OSet()
        s.esc = OSet()      # root paths whose object must live in the symbolic heap
        s.newf = {}        # object fields first written inside the loop
        s.surv = None      # surviving candidate names

ATOMS = (type(None), str)

from .templates import Templates
class LoopMixin(Templates):
    UNROLL = 6

    # ---------------- descriptions of values at loop heads
    def desc(self, st, v, rc, extra_ok=1):
        if isinstance(v, bool): return ('c', v)
        if is_num(v) and not is_z(v): return ('c', v)
        if is_z(v):
            return ({'Int': 'int', 'Real': 'real', 'Bool': 'bool'}[str(v.sort())],) if v.sort() in (I, R, B) else ('unk',)
        if isinstance(v, A1):
            if v.mask is not None: return ('unk',)
            owned = v.key is not None and v.key in st.arrs and v.row is None and isinstance(v.off, int) and rc.get(v.key, 0) <= extra_ok
            if owned: return ('a1', v.dt, v.n)
            return ('a1s', v.dt, v.n) if v.dt == 'f' and isinstance(v.off, int) else ('unk',)
        if isinstance(v, A2):
            if v.mask is not None: return ('unk',)
            owned = v.key is not None and v.key in st.arrs and isinstance(v.off, int) and rc.get(v.key, 0) <= extra_ok
            if owned: return ('a2', v.dt, v.n, v.cols)
            return ('a2s', v.dt, v.n, v.cols) if v.dt == 'f' and isinstance(v.off, int) else ('unk',)
        if isinstance(v, AN): return ('an', v.dt, list(v.shape), v.ro)
        if isinstance(v, LV):
            cl = st.arrs[v.key]
            if rc.get(v.key, 0) <= extra_ok: return ('lv', cl.ek, v.nd, cl.n)
            return ('unk',)
        if isinstance(v, ObjV): return ('obj', v.cls)
        if isinstance(v, tuple): return ('tup', tuple(self.desc(st, x, rc) for x in v))
        if isinstance(v, Un):
            return ('un', [self.desc(st, x, rc) for g, x in v.alts])
        if isinstance(v, CO):
            r = st.conc.get(v.id)
            if r is not None and r.kind == 'dict': return ('dict', {k: self.desc(st, x, rc) for k, x in r.f.items()})
            if r is not None and r.kind == 'list': return ('plist', [self.desc(st, x, rc) for x in r.f])
            return ('c', v)
        if v is UNK: return ('unk',)
        return ('c', v)

    def jn(self, a, b):
        if a is None or b is None: return None
        return a if same_term(a, b) else None

    def joind(self, a, b):
        if a[0] == 'unk' or b[0] == 'unk': return ('unk',)
        num = {'int': 0, 'real': 1}
        def nk(d):
            if d[0] in num: return d[0]
            if d[0] == 'bool': return 'bool'
            if d[0] == 'c' and isinstance(d[1], bool): return 'bool'
            if d[0] == 'c' and isinstance(d[1], int): return 'int'
            if d[0] == 'c' and isinstance(d[1], float): return 'real'
            return None
        if a[0] == 'c' and b[0] == 'c' and type(a[1]) is type(b[1]) and same_val(a[1], b[1]): return a
        ka, kb = nk(a), nk(b)
        if ka and kb:
            if ka == kb: return (ka,)
            return ('real',) if 'real' in (ka, kb) else ('int',)
        if a[0] in ('a1', 'a1s') and b[0] in ('a1', 'a1s') and a[1] == b[1]:
            k = 'a1' if a[0] == b[0] == 'a1' else 'a1s'
            if k == 'a1s' and a[1] != 'f': return ('unk',)
            return (k, a[1], self.jn(a[2], b[2]))
        if a[0] in ('a2', 'a2s') and b[0] in ('a2', 'a2s') and a[1] == b[1]:
            k = 'a2' if a[0] == b[0] == 'a2' else 'a2s'
            if k == 'a2s' and a[1] != 'f': return ('unk',)
            return (k, a[1], self.jn(a[2], b[2]), self.jn(a[3], b[3]))
        if a[0] == b[0] == 'an' and a[1] == b[1] and len(a[2]) == len(b[2]): return ('an', a[1], [self.jn(p, q) for p, q in zip(a[2], b[2])], a[3] or b[3])
        if a[0] == b[0] == 'an': return ('unk',)
        # growing python lists become symbolic lists
        la, lb = self.aslist(a), self.aslist(b)
        if la and lb and ('lv' in (a[0], b[0]) or len(a[1]) != len(b[1])):
            ek = la[1] if la[1] != ('empty',) else lb[1]
            ek2 = lb[1] if lb[1] != ('empty',) else la[1]
            if ek != ek2:
                if {ek, ek2} == {('f',), ('i',)}: ek = ('f',)
                elif ek[0] == ek2[0] == 'vec' and same_term(ek[1], ek2[1]): pass
                elif self.np.compat(ek, ek2): pass
                else: ek = ('unk',)
            nd = la[2] or lb[2]
            return ('lv', ek, nd, self.jn(la[3], lb[3]) if la[3] is not None and lb[3] is not None else None)
        if a[0] == b[0] == 'plist': return ('plist', [self.joind(x, y) for x, y in zip(a[1], b[1])])
        if a[0] == b[0] == 'obj' and a[1] is b[1]: return a
        if a[0] == b[0] == 'tup' and len(a[1]) == len(b[1]): return ('tup', tuple(self.joind(x, y) for x, y in zip(a[1], b[1])))
        if a[0] == b[0] == 'dict':
            ks = [k for k in a[1] if k in b[1]]
            return ('dict', {k: self.joind(a[1][k], b[1][k]) for k in ks})
        # union
        if a[0] != 'un' and b[0] != 'un' and self.joining: return ('un', [a, b])
        alts = []
        for d in ((a[1] if a[0] == 'un' else [a]) + (b[1] if b[0] == 'un' else [b])):
            for i, e in enumerate(alts):
                j = self.joind_simple(e, d)
                if j is not None: alts[i] = j; break
            else: alts.append(d)
        if len(alts) == 1: return alts[0]
        if len(alts) > 5: return ('unk',)
        return ('un', alts)
    def joind_simple(self, a, b):
        if a[0] == 'un' or b[0] == 'un': return None
        fam = lambda d: {'a1s': 'a1', 'a2s': 'a2'}.get(d[0], d[0])
        if a[0] == 'c' or b[0] == 'c':
            if a[0] == 'c' and b[0] == 'c' and type(a[1]) is type(b[1]) and same_val(a[1], b[1]): return a
            na = a[0] in ('int', 'real', 'bool') or (a[0] == 'c' and is_num(a[1]))
            nb = b[0] in ('int', 'real', 'bool') or (b[0] == 'c' and is_num(b[1]))
            if na and nb: return self.joind(a, b)
            return None
        if fam(a) == fam(b) or {fam(a), fam(b)} <= {'int', 'real', 'bool'}: 
            was, self.joining = self.joining, True
            try: r = self.joind(a, b)
            finally: self.joining = was
            return r if r[0] != 'un' else None
        return None
    joining = False
    def aslist(self, d):
        if d[0] == 'lv': return d
        if d[0] == 'plist':
            ek = ('empty',)
            for e in d[1]:
                k = self.ek_of(e)
                if ek == ('empty',): ek = k
                elif ek != k:
                    if {ek, k} == {('f',), ('i',)}: ek = ('f',)
                    else: ek = ('unk',)
            return ('lv', ek, False, z3.IntVal(len(d[1])))
        return None
    def ek_of(self, d):
        if d[0] == 'obj': return ('obj', d[1])
        if d[0] in ('a1', 'a1s') and d[1] == 'f' and d[2] is not None: return ('vec', d[2])
        if d[0] in ('a2', 'a2s') and d[2] is not None and d[3] is not None: return ('nda', (d[2], d[3]), d[1])
        if d[0] == 'an' and not d[3] and all(q is not None for q in d[2]): return ('nda', tuple(d[2]), d[1])
        if d[0] == 'real' or (d[0] == 'c' and isinstance(d[1], float)): return ('f',)
        if d[0] == 'int' or (d[0] == 'c' and isinstance(d[1], int) and not isinstance(d[1], bool)): return ('i',)
        return ('unk',)
    EKS = {'obj': [AII], 'vec': [AII, AII], 'f': [AIR], 'i': [AII], 'unk': [], 'empty': [], 'nda': []}

    def eq_desc(self, a, b):
        return repr(a) == repr(b)

    def instd(self, st, d, entry):
        """fresh value of description d at a loop head (facts that hold by construction are added)"""
        k = d[0]
        if k == 'c': return d[1]
        if k == 'int': return fint('h')
        if k == 'real': return freal('h')
        if k == 'bool': return fbool('h')
        def ln(t, nm):
            if t is not None: return t
            n = fint(nm); st.add(n >= 0); return n
        if k == 'a1': return st.new1(ln(d[2], 'n'), d[1])
        if k == 'a2': return st.new2(ln(d[2], 'n'), ln(d[3], 'c'), d[1])
        if k == 'an': return AN([ln(q, 'n') for q in d[2]], d[1], d[3])
        if k == 'a1s':
            r, row = fint('ref'), fint('row'); st.add(r < st.base)
            return A1(None, r, row, 0, ln(d[2], 'n'), d[1])
        if k == 'a2s':
            r = fint('ref'); st.add(r < st.base)
            return A2(None, r, 0, ln(d[2], 'n'), ln(d[3], 'c'), d[1])
        if k == 'lv':
            comps = tuple(fresh(s, 'L') for s in self.EKS[d[1][0]])
            self.wf_list(st, d[1], comps)
            return st.newlist(d[1], ln(d[3], 'n'), comps, d[2])
        if k == 'obj':
            r = fint('o'); st.add(r < st.base); return ObjV(r, d[1])
        if k == 'tup': return tuple(self.instd(st, x, None) for x in d[1])
        if k == 'dict': return st.newrec('dict', None, {n: self.instd(st, x, None) for n, x in d[1].items()})
        if k == 'plist': return st.newrec('list', None, [self.instd(st, x, None) for x in d[1]])
        if k == 'un':
            alts = []; rest = []
            gs = []
            for i, x in enumerate(d[1]):
                g = z3.And(*(rest + [fbool('alt')])) if i < len(d[1]) - 1 and rest else (fbool('alt') if i < len(d[1]) - 1 else z3.And(*rest))
                if i < len(d[1]) - 1:
                    b = fbool('alt'); g = z3.And(*(rest + [b])) if rest else b
                    rest = rest + [z3.Not(b)]
                alts.append((g, self.instd(st, x, None)))
            return Un(alts)
        return UNK
    def wf_list(self, st, ek, comps):
        if ek[0] in ('obj', 'vec'):
            k = z3.Int('k!wf')
            st.add(z3.ForAll([k], comps[0][k] < st.base, patterns=[comps[0][k]]))
    def wf_field(self, st, fm):
        if fm.kind in ('v', 'o'):
            k = z3.Int('k!wf')
            st.add(z3.ForAll([k], fm.maps[0][k] < st.base, patterns=[fm.maps[0][k]]))

    # ---------------- access by root path
    def at(self, st, p):
        if p[0] == 'f': return st.frames[p[1]].get(p[2], UNK) if p[1] < len(st.frames) else UNK
        if p[0] == 'n':
            v = self.at(st, p[1])
            if isinstance(v, tuple): return v[p[2]] if isinstance(p[2], int) and p[2] < len(v) else UNK
            if not isinstance(v, CO) or v.id not in st.conc: return UNK
            r = st.conc[v.id]
            if isinstance(r.f, dict): return r.f.get(p[2], UNK)
            return r.f[p[2]] if p[2] < len(r.f) else UNK
        r = st.conc.get(p[1])
        if r is None: return UNK
        if isinstance(r.f, dict): return r.f.get(p[2], UNK)
        return r.f[p[2]] if p[2] < len(r.f) else UNK
    def put(self, st, p, v):
        if p[0] == 'f': st.frames[p[1]][p[2]] = v
        else:
            r = st.conc[p[1]].copy(); st.conc[p[1]] = r; r.f[p[2]] = v

    # ---------------- loop statements
    def s_For(self, n, st):
        itv = self.ev(n.iter, st)
        return self.for_loop(st, n, itv, n.target, n.body, n.orelse)
    def for_loop(self, st, n, itv, target, body, orelse):
        if isinstance(itv, Un):
            outs = []
            for g, w in itv.alts:
                t = st.copy(); t.path.append(g)
                try: outs += self.for_loop(t, n, w, target, body, orelse)
                except Dead: pass
            return self.join_outs(outs)
        it = self.np.iterate(st, itv)
        items = it.items
        if items is None and isinstance(it.n, int) and it.n <= self.UNROLL: items = [None] * it.n
        if items is not None:
            outs, cur = [], st
            for i, x in enumerate(items):
                try:
                    self.assign(target, x if it.items is not None else it.get(cur, z3.IntVal(i)), cur)
                except Dead: return self.join_outs(outs)
                res = self.block(body, cur)
                nxt = []
                for o in res: (nxt if o.kind in ('next', 'continue') else outs).append(o)
                if not nxt: cur = None; break
                cur, _ = merge_all([(o.st, None) for o in nxt])
            return self.finish_loop(outs, cur, orelse)
        N = T(it.n)
        kid = ('k', id(n))
        def guard(s):
            return s.ghost[kid] < N
        def enter(s):
            self.assign(target, it.get(s, s.ghost[kid]), s)
        def step(s): s.ghost[kid] = s.ghost[kid] + 1
        saved = st.ghost.get(kid)
        st.ghost[kid] = z3.IntVal(0)
        def headfacts(s):
            s.ghost[kid] = fint('k'); s.add(s.ghost[kid] >= 0, z3.Or(s.ghost[kid] <= N, s.ghost[kid] == 0))
        outs, ex = self.loop(st, n, guard, enter, step, body, headfacts, kid, N)
        if ex is not None:
            ex.add(z3.Or(ex.ghost[kid] == N, N <= 0))
            if isinstance(target, ast.Name) and target.id not in ex.frames[-1] and it.rng and self.used_after(target.id):
                # the variable keeps its last value (with no iteration it is unbound: reading it raises)
                ex.frames[-1][target.id] = it.get(ex, N - 1)
        return self.finish_loop(outs, ex, orelse)
    def used_after(self, name):
        """the current function reads the name outside the loops that bind it"""
        fn = self.fnstack[-1].node if self.fnstack[-1] is not None else None
        if fn is None: return False
        def walk(n):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load): return True
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == name: return walk(n.iter) or any(walk(b) for b in n.orelse)
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and any(isinstance(g.target, ast.Name) and g.target.id == name for g in n.generators): return False
            return any(walk(c) for c in ast.iter_child_nodes(n))
        return any(walk(b) for b in fn.body) if isinstance(fn, ast.FunctionDef) else False
    def finish_loop(self, outs, ex, orelse):
        res, brk = [], []
        for o in outs:
            if o.kind == 'break': brk.append(Out('next', o.st))
            elif o.kind == 'return': res.append(o)
        if ex is not None:
            if orelse: 
                for o in self.block(orelse, ex): (brk if o.kind == 'next' else res).append(o)
            else: brk.append(Out('next', ex))
        return self.join_outs(brk + res)
    def s_While(self, n, st):
        def guard(s):
            c = self.truth(s, self.ev(n.test, s))
            return c
        outs, ex = self.loop(st, n, guard, lambda s: None, lambda s: None, n.body, lambda s: None, None, None)
        return self.finish_loop(outs, ex, n.orelse)

    # ---------------- generic loop
    def loop(self, E, n, guard, enter, step, body, headfacts, kid, N):
        key = (id(n),) + tuple(self.stack)
        info = self.loopinfo.setdefault(key, LoopInfo())
        depth = len(E.frames)
        # variables created in the body only (not defined at entry) carry no state into the next iteration
        for att in range(40):
            self.prepare_entry(E, info)
            head = self.make_head(E, info, headfacts)
            h0 = head.copy()
            self.dry += 1; self.quiet += 1
            try:
                outs = self.run_body(head.copy(), guard, enter, step, body)
            finally:
                self.dry -= 1; self.quiet -= 1
            backs = [o for o in outs if o.kind == 'back']
            if not backs: changed = False
            else:
                back, _ = merge_all([(o.st, None) for o in backs])
                changed = self.note_changes(E, h0, back, info)
            if not changed: break
        else: raise Unsupported('loop structure did not stabilise')
        # Houdini
        passes = 0; hint = None
        skey = self.loop_key(n)
        if self.dry:
            cands = []
        else:
            info.id0 = nextid()
            hint = self.hints.get(skey) if self.hints is not None else None
            self.widx = self.while_index(n, h0)
            cands = self.candidates(E, info, h0, kid, N, None if hint is None else set(hint))
            if self.progress and kid is not None and 'evals' in info.ghosts:
                e0 = E.evals
                cands.append(('progress', lambda s: z3.Or(s.stopped, s.evals > e0, s.ghost[kid] == 0)))
                for q in [q for q in E.ghost if isinstance(q, tuple) and q[0] == 'k' and q != kid]:
                    cands.append(('progress:%d' % len(cands), lambda s, q=q: z3.Or(s.stopped, s.evals > e0, s.ghost[kid] <= s.ghost[q])))
            if info.surv is not None:
                cands = [c for c in cands if c[0] in info.surv]
            goals = [c[1](E) for c in cands]
            ok = [i for i, g in enumerate(goals) if g is not None]
            res = self.check_cands(E.facts(), [cands[i][0] for i in ok], [goals[i] for i in ok], hint)
            cands = [cands[i] for i, r in zip(ok, res) if r == 'valid']
        while True:
            self.check_time()
            passes += 1
            head = self.make_head(E, info, headfacts)
            for nm, fn in cands:
                head.add(fn(head))
            mark = len(self.obs)
            outs = self.run_body(head.copy(), guard, enter, step, body)
            backs = [o for o in outs if o.kind == 'back']
            if self.dry or not backs or not cands: break
            back, _ = merge_all([(o.st, None) for o in backs])
            if self.note_changes(E, head, back, info):
                # precise pass found more state than the dry pass: start again
                del self.obs[mark:]
                return self.loop(E, n, guard, enter, step, body, headfacts, kid, N)
            goals = [fn(back) for nm, fn in cands]
            goals = [g if g is not None else z3.BoolVal(False) for g in goals]
            res = self.check_cands(back.facts(), [c[0] for c in cands], goals, hint)
            keep = [c for c, r in zip(cands, res) if r == 'valid']
            if len(keep) == len(cands): break
            cands = keep
            del self.obs[mark:]
        if not self.dry:
            info.surv = {c[0] for c in cands}
            self.found[skey] = sorted(c for c in info.surv if not c.startswith('progress'))
            if self.progress and kid is None: self.variant(n, guard, head, [o.st for o in outs if o.kind == 'back'])
            self.loops_done = getattr(self, 'loops_done', 0) + 1
        # exit
        ex = head.copy()
        try:
            c = guard(ex)
        except Dead:
            c = True
        if isinstance(c, bool): c = z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_true(c): ex = None
        else: ex.path.append(z3.Not(c))
        res = [o for o in outs if o.kind in ('break', 'return')]
        # loop-exit paths end the iteration-local path conditions
        return res, ex
    widx = None
    def while_index(self, n, h):
        """the variable that counts the iterations of a while loop, if it has one: it only changes by += 1 and the test mentions it"""
        if not isinstance(n, ast.While): return None
        for t in ast.walk(n.test):
            if not isinstance(t, ast.Name): continue
            v = h.frames[-1].get(t.id)
            if isinstance(v, bool) or not (isinstance(v, int) or (z3.is_expr(v) and v.sort() == I)): continue
            w = [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Store)]
            a = [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == t.id and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
            if len(w) == 1 and len(a) == 1: return t.id
        return None
    progress = False
    def variant(self, n, guard, head, backs):
        """a while loop ends when the evaluation budget does: every iteration that is followed by another one evaluates a
        point (max_evals - evals decreases), and no further iteration follows once the task has stopped"""
        run = self.stack and self.stack[-1].endswith('Algorithm.run')
        if not run and backs and all(any(self.counter(n, guard, head, b, c) for c in ast.walk(n) if isinstance(c, ast.Compare)) for b in backs):
            self.oblige(head, 'PROGRESS', True, n, 'a counter bounds the number of iterations'); return
        for b in backs:
            b = b.copy()
            try: c = guard(b)
            except Dead: continue
            if isinstance(c, bool): c = z3.BoolVal(c)
            b.path.append(c)
            self.oblige(b, 'PROGRESS', z3.Or(head.stopped, b.evals > head.evals), n, 'an iteration that does not end the loop evaluates a point')
            self.oblige(b, 'PROGRESS', z3.Not(head.stopped), n, 'the loop ends once the task has stopped')
            if run: self.oblige(b, 'PROGRESS', b.iters == head.iters + 1, n, 'the iteration is counted')
    def counter(self, n, guard, head, back, c):
        """the comparison c of a variable with a bound shows that this back edge is taken finitely often"""
        if len(c.ops) != 1 or not isinstance(c.left, ast.Name): return False
        h, b = head.copy(), back.copy()
        try:
            g = guard(b); v0, v1 = self.ev(c.left, h), self.ev(c.left, b); w0, w1 = self.ev(c.comparators[0], h), self.ev(c.comparators[0], b)
        except (Dead, Unsupported): return False
        if not all(is_num(q) for q in (v0, v1, w0, w1)): return False
        if not isinstance(g, bool): b.path.append(g)
        v0, v1, w0, w1 = map(TR, (v0, v1, w0, w1))
        up = z3.And(v1 >= v0 + 1, v1 <= w1); down = z3.And(v1 <= v0 - 1, v1 >= w1)
        return any(r == 'valid' for r in self.solver.valid_many(b.facts(), [z3.And(w0 == w1, up), z3.And(w0 == w1, down)], rlimit=self.hint_rlimit))
    cand_rlimit = 60000
    hint_rlimit = 1000000

    hints = None
    TIER2 = ('best', 'pair', 'align', 'feas', 'o', 'v', 'le.', 'num>=m', 'num<=m')
    TIER3 = ('best', 'le.', 'num>=m', 'num<=m', 'align.', 'feas', 'ge.')
    TIER4 = ('pair', 'opair', 'align', 'oalign', 'feas', 'ofeas', 'best:', 'num<=m')
    def check_cands(self, facts, names, goals, hint):
        if hint is not None: return self.solver.valid_many(facts, goals, rlimit=self.hint_rlimit, retry=True)
        res = self.solver.valid_many(facts, goals, rlimit=self.cand_rlimit)
        again = [i for i, r in enumerate(res) if r == 'open:canceled' and names[i].startswith(self.TIER2)]
        if again:
            r2 = self.solver.valid_many(facts, [goals[i] for i in again], rlimit=self.cand_rlimit * 8)
            for i, r in zip(again, r2): res[i] = r
            again = [i for i in again if res[i] == 'open:canceled']
            for o in self.solver.VARIANTS:
                if not again or len(again) > 16: break
                r2 = self.solver.valid_many1(facts, [goals[i] for i in again], self.cand_rlimit * 8, o)
                for i, r in zip(again, r2):
                    if r == 'valid': res[i] = r
                again = [i for i in again if res[i] != 'valid']
            again = [i for i in again if names[i].startswith(self.TIER3)]
            if again and len(again) <= 8:
                r2 = self.solver.valid_many(facts, [goals[i] for i in again], rlimit=self.cand_rlimit * 40)
                for i, r in zip(again, r2): res[i] = r
            again = [i for i, r in enumerate(res) if r == 'open:canceled' and names[i].startswith(self.TIER4)]
            if len(again) <= 16:
                for i in again:                                  # alone, in a fresh solver
                    res[i] = self.solver.valid_many1(facts, [goals[i]], self.cand_rlimit * 50)[0]
        return res
    def loop_key(self, n):
        """name of a loop that does not depend on line numbers"""
        fn = self.fnstack[-1].node if self.fnstack[-1] is not None else None
        o = '?'
        if fn is not None:
            ls = sorted({(x.lineno, x.col_offset) for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp))})
            if (n.lineno, n.col_offset) in ls: o = ls.index((n.lineno, n.col_offset))
            else: o = 'c%d' % len([x for x in ls if x < (n.lineno, n.col_offset)])
        return '>'.join(x.split(':')[-1] for x in self.stack) + '#%s' % o

    def run_body(self, s, guard, enter, step, body):
        try:
            c = guard(s)
        except Dead: return []
        if isinstance(c, bool): c = z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_false(c): return []
        if not z3.is_true(c): s.path.append(c)
        try: enter(s)
        except Dead: return []
        outs = []
        for o in self.block(body, s):
            if o.kind in ('next', 'continue'):
                step(o.st); outs.append(Out('back', o.st))
            else: outs.append(o)
        return outs

    def prepare_entry(self, E, info):
        for f, b in info.newf.items():
            if f not in E.fields:
                E.fields[f] = FM(b.kind, tuple(fresh(x.sort(), 'F0_' + f) for x in b.maps), b.extra, b.none)
                self.wf_field(E, E.fields[f])
        for p in list(info.esc):
            v = self.at(E, p)
            for x in ([v] if not isinstance(v, Un) else [w for g, w in v.alts]):
                if isinstance(x, (A1, A2)) and x.key in E.arrs: E.escape(x.key)
                if isinstance(x, (A1, A2)) and x.key is not None and x.key not in E.arrs: info.maps.add('H') if False else None
        for p, d in info.desc.items():
            def need(x, dd):
                if isinstance(x, (A1, A2)) and x.key in E.arrs and dd[0] in ('a1s', 'a2s'): E.escape(x.key)
                if dd[0] == 'unk':
                    for k in keys_in(x):
                        if k in E.arrs and not isinstance(E.arrs[k], CL) and E.arrs[k].c.sort() in (V, M): E.escape(k)
                if isinstance(x, tuple) and dd[0] == 'tup':
                    for y, e in zip(x, dd[1]): need(y, e)
                if dd[0] == 'un':
                    if isinstance(x, Un):
                        for g, y in x.alts:
                            for e in dd[1]:
                                if e[0] in ('a1s', 'a2s'): need(y, e)
                    else:
                        for e in dd[1]:
                            if e[0] in ('a1s', 'a2s'): need(x, e)
                if dd[0] == 'dict' and isinstance(x, CO):
                    for k, e in dd[1].items(): need(E.rec(x).f.get(k), e)
                if dd[0] == 'lv' and isinstance(x, CO) and E.rec(x).kind == 'list':
                    # python list -> symbolic list object
                    self.put(E, p, self.np.to_lv(E, x, dd[1], dd[2]))
                elif dd[0] == 'lv' and isinstance(x, LV):
                    cl = E.arrs[x.key]
                    if cl.ek != dd[1]: E.arrs[x.key] = self.np.conv_cl(E, cl, dd[1])
            need(self.at(E, p), d)

    def make_head(self, E, info, headfacts):
        s = E.copy()
        nb = fint('base')
        s.add(nb > E.base + nextid())
        s.base = nb
        # in-place mutated objects
        for k in info.keys:
            o = s.arrs.get(k)
            if o is None: continue
            if isinstance(o, CL):
                comps = tuple(fresh(c.sort(), 'L') for c in o.c)
                self.wf_list(s, o.ek, comps)
                n = o.n
                if ('len', k) in info.keys: n = fint('n'); s.add(n >= 0)
                s.arrs[k] = CL(o.ek, n, comps)
            else: s.arrs[k] = type(o)(fresh(o.c.sort(), 'c'))
        for mname in info.maps:
            if mname == 'H': s.H = fresh(HS, 'H')
            else:
                fm = s.fields.get(mname)
                if fm is None: continue
                kd = info.fk.get(mname) if hasattr(info, 'fk') else None
                if kd is not None and kd.kind != fm.kind:
                    if kd.kind == 'u': s.fields[mname] = FM('u', (), None, kd.none); continue
                    if fm.kind == 'n' or (fm.kind == 'i' and kd.kind == 'f'):
                        fm = FM(kd.kind, kd.maps, kd.extra, True if fm.kind == 'n' else fm.none)
                nf = FM(fm.kind, tuple(fresh(x.sort(), 'F_' + mname) for x in fm.maps), fm.extra, fm.none or (kd.none if kd is not None else False))
                self.wf_field(s, nf)
                s.fields[mname] = nf
        for p, d in info.desc.items():
            if p[0] == 'f' and p[1] >= len(s.frames): continue
            self.put(s, p, self.instd(s, d, self.at(E, p)))
        if 'm' in info.ghosts:
            s.m = freal('m'); s.add(s.m <= E.m)
        if 'stopped' in info.ghosts:
            s.stopped = fbool('stopped'); s.add(z3.Implies(E.stopped, s.stopped))
        if 'evals' in info.ghosts:
            s.evals = fint('evals'); s.add(s.evals >= E.evals)
        if 'iters' in info.ghosts:
            s.iters = fint('iters'); s.add(s.iters >= E.iters)
        headfacts(s)
        return s

    def note_changes(self, E, h, back, info):
        """compare the head with a back-edge state; record modified state; True when something new was found"""
        changed = False
        rc = refcount(back)
        rce = refcount(E)
        hk = {}
        for p, v in roots(h):
            for k in keys_in(v): hk.setdefault(k, p)
        for p, v in list(roots(h)):
            if p[0] == 'o' and h.conc[p[1]].kind == 'task': continue
            w = self.at(back, p)
            if p[0] == 'o' and p[1] not in back.conc: continue
            if p[0] == 'o' and isinstance(h.conc[p[1]].f, list) and len(h.conc[p[1]].f) != len(back.conc[p[1]].f): continue   # handled through holders
            if same_val(v, w): continue
            if p[0] == 'o' and p[1] not in E.conc: continue    # record created at the head itself
            d0 = info.desc.get(p)
            if d0 is None: d0 = self.desc(E, self.at(E, p), rce)
            d1 = self.joind(d0, self.desc(back, w, rc))
            if p not in info.desc or not self.eq_desc(d0, d1):
                info.desc[p] = d1; changed = True
            for x in flat(w):
                if isinstance(x, (A1, A2)) and x.key in back.arrs and self.mentions_sym(d1): back.escape(x.key)
        # python lists that changed length
        for cid, r in h.conc.items():
            b = back.conc.get(cid)
            if b is None or r.kind != 'list' or cid not in E.conc: continue
            if len(b.f) != len(r.f):
                for p, v in list(roots(h)):
                    if isinstance(v, CO) and v.id == cid:
                        d0 = info.desc.get(p) or self.desc(E, self.at(E, p), rce)
                        d1 = self.joind(d0, ('plist', [self.desc(back, x, rc) for x in b.f]))
                        if p not in info.desc or not self.eq_desc(d0, d1): info.desc[p] = d1; changed = True
        for cid, r in h.conc.items():
            b = back.conc.get(cid)
            if b is None or r.kind != 'dict' or cid not in E.conc or r is b: continue
            if set(r.f) != set(b.f): raise Unsupported('dict changes its keys in a loop')
        # newly escaped objects that the head still owned
        for k in sorted(back.escaped - h.escaped):
            if k in h.arrs:
                p = hk.get(k)
                if p is None: continue
                if p in info.desc:
                    d = info.desc[p]
                    nd = self.symd(d)
                    if not self.eq_desc(d, nd): info.desc[p] = nd; changed = True
                elif p not in info.esc: info.esc.add(p); changed = True
        # in-place changes
        for k, o in h.arrs.items():
            b = back.arrs.get(k)
            if b is None or b is o: continue
            if isinstance(o, CL):
                if not same_term(o.n, b.n) and ('len', k) not in info.keys and k in E.arrs: info.keys.add(('len', k)); changed = True
                if k in E.arrs and k not in info.keys and (not o.n.eq(b.n) or any(not x.eq(y) for x, y in zip(o.c, b.c))): info.keys.add(k); changed = True
                if o.ek != b.ek:
                    p = hk.get(k)
                    if p is not None:
                        d0 = info.desc.get(p) or self.desc(h, self.at(h, p), refcount(h))
                        d1 = self.joind(d0, ('lv', b.ek, False, b.n))
                        if not self.eq_desc(d0, d1): info.desc[p] = d1; changed = True
                if k not in E.arrs:
                    p = hk.get(k)
                    if p is not None and p in info.desc and info.desc[p][0] == 'lv' and info.desc[p][3] is not None and not same_term(o.n, b.n):
                        d = info.desc[p]; info.desc[p] = (d[0], d[1], d[2], None); changed = True
            elif not o.c.eq(b.c) and k in E.arrs and k not in info.keys:
                info.keys.add(k); changed = True
        if not h.H.eq(back.H) and 'H' not in info.maps: info.maps.add('H'); changed = True
        for f, b in back.fields.items():
            if f not in h.fields and f not in info.newf: info.newf[f] = b; changed = True
        for f, fm in h.fields.items():
            b = back.fields[f]
            if b is fm: continue
            diff = b.kind != fm.kind or b.none != fm.none or any(not x.eq(y) for x, y in zip(fm.maps, b.maps))
            if diff:
                if not hasattr(info, 'fk'): info.fk = {}
                if f not in info.maps: info.maps.add(f); changed = True
                if b.kind != fm.kind or b.none != fm.none:
                    kd = b if not (b.kind == 'i' and fm.kind == 'f') else FM('f', (), None, b.none)
                    if b.kind not in (fm.kind, 'u') and fm.kind not in ('n', 'i'): kd = FM('u', (), None, True)
                    old = info.fk.get(f)
                    if old is None or old.kind != kd.kind or old.none != kd.none: info.fk[f] = kd; changed = True
        for gname in ('m', 'stopped', 'evals', 'iters'):
            if not getattr(h, gname).eq(getattr(back, gname)) and gname not in info.ghosts: info.ghosts.add(gname); changed = True
        return changed
    def mentions_sym(self, d):
        return d[0] in ('a1s', 'a2s', 'unk') or (d[0] in ('un',) and any(self.mentions_sym(x) for x in d[1])) or (d[0] == 'tup' and any(self.mentions_sym(x) for x in d[1]))
    def symd(self, d):
        if d[0] == 'a1': return ('a1s',) + d[1:] if d[1] == 'f' else ('unk',)
        if d[0] == 'a2': return ('a2s',) + d[1:] if d[1] == 'f' else ('unk',)
        if d[0] == 'un': return ('un', [self.symd(x) for x in d[1]])
        if d[0] == 'tup': return ('tup', tuple(self.symd(x) for x in d[1]))
        if d[0] == 'dict': return ('dict', {k: self.symd(x) for k, x in d[1].items()})
        return d

    # ---------------- comprehensions
    def e_ListComp(self, n, st): return self.comp(n.elt, n.generators, st, n)
    def e_GeneratorExp(self, n, st): return self.comp(n.elt, n.generators, st, n)
    def e_SetComp(self, n, st): return self.comp(n.elt, n.generators, st, n)
    def e_DictComp(self, n, st):
        if len(n.generators) != 1: raise Unsupported('dict comprehension')
        g = n.generators[0]
        it = self.np.iterate(st, self.ev(g.iter, st))
        if it.items is None: raise Unsupported('symbolic dict comprehension')
        f = {}
        for x in it.items:
            self.assign(g.target, x, st)
            ok = True
            for c in g.ifs:
                t = self.truth(st, self.ev(c, st))
                if not isinstance(t, bool): raise Unsupported('symbolic dict comprehension')
                ok = ok and t
            if ok: f[self.ev(n.key, st)] = self.ev(n.value, st)
        return st.newrec('dict', None, f)
    def comp(self, elt, gens, st, n):
        if len(gens) == 1 and not gens[0].ifs:
            g = gens[0]
            itv = self.ev(g.iter, st)
            if isinstance(itv, Un):
                return self.split(st, itv, lambda s, w: self.comp1(elt, g, w, s, n))
            return self.comp1(elt, g, itv, st, n)
        return self.comp_loop(elt, gens, st, n)
    def comp1(self, elt, g, itv, st, n):
        it = self.np.iterate(st, itv)
        saved = {t: st.frames[-1].get(t, UNK) for t in self.targets(g.target)}
        try:
            if it.items is not None or (isinstance(it.n, int) and it.n <= self.UNROLL):
                out = []
                for i in range(len(it.items) if it.items is not None else it.n):
                    x = it.items[i] if it.items is not None else it.get(st, z3.IntVal(i))
                    self.assign(g.target, x, st)
                    out.append(self.ev(elt, st))
                return st.newrec('list', None, out)
            r = self.pure_map(elt, g, it, st)
            if r is not None: return r
            return self.comp_loop(elt, [g], st, n, itv)
        finally:
            for t, v in saved.items():
                if v is UNK: st.frames[-1].pop(t, None)
                else: st.frames[-1][t] = v
    def pure_map(self, elt, g, it, st):
        """[e(x) for x in xs] with e free of effects: content given by one quantified equation"""
        t = st.copy()
        k = fint('kmap')
        npc = len(t.pc)
        self.quiet += 1; self.dry += 1
        try:
            self.assign(g.target, it.get(t, k), t)
            base_n = len(t.pc)
            v = self.ev(elt, t)
        except (Unsupported, Dead):
            return None
        finally:
            self.quiet -= 1; self.dry -= 1
        if not (t.H.eq(st.H) and t.m.eq(st.m) and t.stopped.eq(st.stopped) and t.evals.eq(st.evals)): return None
        if any(t.arrs.get(x) is not o for x, o in st.arrs.items()): return None
        if any(f not in st.fields or st.fields[f] is not fm for f, fm in t.fields.items()): return None
        for c, r in st.conc.items():
            if t.conc.get(c) is not r: return None
        if is_z(v) or is_num(v) or is_bool(v):
            if not is_z(v):
                dt = 'b' if isinstance(v, bool) else ('i' if isinstance(v, int) else 'f')
            else: dt = {'Int': 'i', 'Real': 'f', 'Bool': 'b'}[str(v.sort())]
            if len(t.pc) > npc or len(t.path) > len(st.path):
                # facts about values created for the generic element: content stays unknown when effects are pure but random
                if self.pure_random(elt): 
                    if dt == 'b': return None
                    return st.newlist((dt,), T(it.n), (fresh(VS[dt], 'L'),))
                return None
            if dt == 'b': return None
            c = fresh(VS[dt], 'L')
            st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < T(it.n)), c[k] == Td(v, dt)), patterns=[c[k]] + self.at_index(Td(v, dt), k)))
            return st.newlist((dt,), T(it.n), (c,))
        if isinstance(v, ObjV) and len(t.pc) == npc:
            c = fresh(AII, 'L')
            st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < T(it.n)), c[k] == v.ref), patterns=[c[k]]))
            return st.newlist(('obj', v.cls), T(it.n), (c,))
        return None
    def at_index(self, v, k):
        """the term A[k] in v (A an array constant), as a second trigger"""
        todo, seen = [v], set()
        while todo:
            f = todo.pop()
            if f.get_id() in seen: continue
            seen.add(f.get_id())
            if z3.is_select(f) and f.arg(1).eq(k) and f.arg(0).num_args() == 0: return [f]
            if z3.is_app(f): todo.extend(f.children())
        return []
    def pure_random(self, elt): return False
    def comp_loop(self, elt, gens, st, n, itv=None):
        """general comprehension = explicit accumulation loop"""
        o = self.loop_key(n).rsplit('#', 1)[1]         # a name that does not depend on line numbers
        name = '%%acc%s' % o; itn = '%%it%s' % o
        cache = self.__dict__.setdefault('_comp_ast', {})
        ck = (id(n), itv is not None)
        if ck not in cache:
            app = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [elt if not isinstance(elt, ast.ListComp) else ast.Call(ast.Name('%asarr', ast.Load()), [elt], [])], []))
            body = [app]
            for gi, g in reversed(list(enumerate(gens))):
                for c in reversed(g.ifs): body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter if not (gi == 0 and itv is not None) else ast.Name(itn, ast.Load()), body, [])]
            mod = ast.Module(body, [])
            for x in ast.walk(mod):
                if not hasattr(x, 'lineno'): x.lineno = n.lineno; x.col_offset = n.col_offset
            cache[ck] = (n, body)
        body = cache[ck][1]
        N0 = None
        if itv is not None:
            t_ = self.np.iterate(st, itv)
            N0 = T(t_.n) if t_.items is None else None
        st.frames[-1][name] = st.newrec('list', None, [])
        if itv is not None: st.frames[-1][itn] = itv
        outs = self.block(body, st)
        outs = [o for o in outs if o.kind == 'next']
        if not outs: raise Dead()
        s, _ = merge_all([(o.st, None) for o in outs])
        if s is not st: st.become(s)
        v = st.frames[-1].pop(name); st.frames[-1].pop(itn, None)
        if isinstance(v, LV) and len(gens) == 1 and not gens[0].ifs and N0 is not None and v.key in st.arrs:
            # one append per element: the length of the result is the length of the iterable
            cl = st.arrs[v.key]
            n2 = N0 if self.np.is_nn(N0) or (z3.is_int_value(N0) and N0.as_long() >= 0) or N0.eq(D) else z3.If(N0 < 0, z3.IntVal(0), N0)
            st.add(cl.n == n2); st.arrs[v.key] = CL(cl.ek, n2, cl.c)
        return v

def flat(v):
    if isinstance(v, Un):
        for g, x in v.alts: yield from flat(x)
    elif isinstance(v, tuple):
        for x in v: yield from flat(x)
    else: yield v
