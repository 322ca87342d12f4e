"""State joins."""
import z3
from .core import *

def roots(st):
    """yield (path, value) for every live root"""
    for i, fr in enumerate(st.frames):
        dead = st.dead[i]
        for n, v in fr.items():
            if n in dead: continue
            yield ('f', i, n), v
    for cid, r in st.conc.items():
        if r.kind in ('task',): continue
        it = r.f.items() if isinstance(r.f, dict) else enumerate(r.f)
        for k, v in it:
            yield ('o', cid, k), v

def keys_in(v):
    if isinstance(v, (A1, A2, LV)):
        if v.key is not None: yield v.key
    elif isinstance(v, tuple):
        for x in v: yield from keys_in(x)
    elif isinstance(v, Un):
        # the alternatives exclude each other: a key counts as often as in the alternative that holds it most often
        c = {}
        for g, x in v.alts:
            d = {}
            for k in keys_in(x): d[k] = d.get(k, 0) + 1
            for k, m in d.items(): c[k] = max(c.get(k, 0), m)
        for k, m in c.items():
            for _ in range(m): yield k
    elif isinstance(v, BoundV):
        yield from keys_in(v.self)
    elif isinstance(v, IterV) and v.items is not None:
        for x in v.items: yield from keys_in(x)

def cos_in(v):
    if isinstance(v, CO): yield v.id
    elif isinstance(v, tuple):
        for x in v: yield from cos_in(x)
    elif isinstance(v, Un):
        for g, x in v.alts: yield from cos_in(x)
    elif isinstance(v, BoundV): yield from cos_in(v.self)
    elif isinstance(v, ExtV) and isinstance(v.recv, (CO, tuple)): yield from cos_in(v.recv)
    elif isinstance(v, IterV) and v.items is not None:
        for x in v.items: yield from cos_in(x)
def reachable(st):
    """records reachable from the live variables (only dead python dicts and lists are ever left out)"""
    todo = [c for fr, dead in zip(st.frames, st.dead) for n, v in fr.items() if n not in dead for c in cos_in(v)]
    todo += [c for c, r in st.conc.items() if r.kind not in ('dict', 'list')]
    seen = set()
    while todo:
        c = todo.pop()
        if c in seen or c not in st.conc: continue
        seen.add(c); f = st.conc[c].f
        for v in (f.values() if isinstance(f, dict) else f): todo += cos_in(v)
    return seen
def refcount(st):
    c = {}
    live = reachable(st)
    for p, v in roots(st):
        if p[0] == 'o' and p[1] not in live: continue
        for k in keys_in(v): c[k] = c.get(k, 0) + 1
    return c

def same_val(a, b):
    if a is b: return True
    if is_z(a) or is_z(b):
        if (is_num(a) and is_num(b)) or (is_bool(a) and is_bool(b)):
            ta, tb = T(a), T(b)
            return ta.sort() == tb.sort() and ta.eq(tb)
        return False
    if type(a) is not type(b): return False
    if isinstance(a, (A1,)):
        return a.key == b.key and a.ref.eq(b.ref) and ((a.row is None and b.row is None) or (a.row is not None and b.row is not None and T(a.row).eq(T(b.row)))) \
            and T(a.off).eq(T(b.off)) and isinstance(a.off, int) == isinstance(b.off, int) and a.n.eq(b.n) and a.dt == b.dt and a.mask is b.mask
    if isinstance(a, A2):
        return a.key == b.key and a.ref.eq(b.ref) and T(a.off).eq(T(b.off)) and isinstance(a.off, int) == isinstance(b.off, int) and a.n.eq(b.n) and a.cols.eq(b.cols)
    if isinstance(a, LV): return a.key == b.key
    if isinstance(a, AN): return a.dt == b.dt and a.ro == b.ro and a.wsum == b.wsum and len(a.shape) == len(b.shape) and all(x.eq(y) for x, y in zip(a.shape, b.shape))
    if isinstance(a, ObjV): return a.ref.eq(b.ref) and a.cls is b.cls
    if isinstance(a, tuple): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Un): return len(a.alts) == len(b.alts) and all(g.eq(h) and same_val(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    try:
        return bool(a == b)
    except Exception:
        return False

def ite(g, a, b):
    if a is b: return a
    a, b = T(a), T(b)
    if a.sort() != b.sort():
        if B in (a.sort(), b.sort()): a, b = TR(a), TR(b)
        else: a, b = TR(a), TR(b)
    if a.eq(b): return a
    return z3.If(g, a, b)

DEFS = []       # definitions of joined terms, added to the joined state
def ite_c(g, a, b):
    if a.eq(b): return a
    t = z3.If(g, a, b)
    if a.sort() in (R, B): return t
    c = fresh(a.sort(), 'j')
    DEFS.append(c == t)
    return c

class Joiner:
    def __init__(self, g, s1, s2, out):
        self.g, self.s1, self.s2, self.out = g, s1, s2, out
        self.r1, self.r2 = refcount(s1), refcount(s2)
    def own(self, v, which, temp):
        st, rc = (self.s1, self.r1) if which == 1 else (self.s2, self.r2)
        return v.key is not None and v.key in st.arrs and rc.get(v.key, 0) <= (0 if temp else 1)
    def val(self, a, b, temp=False):
        g, s1, s2, out = self.g, self.s1, self.s2, self.out
        if same_val(a, b): return a
        if a is UNK or b is UNK: return UNK
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            return ite(g, a, b)
        if isinstance(a, A1) and isinstance(b, A1) and a.dt == b.dt and a.mask is None and b.mask is None:
            if a.row is None and b.row is None and isinstance(a.off, int) and isinstance(b.off, int) and self.own(a, 1, temp) and self.own(b, 2, temp):
                n = a.n if same_term(a.n, b.n) else ite(g, a.n, b.n)
                return out.new1(n, a.dt, ite_c(g, s1.arrs[a.key].c, s2.arrs[b.key].c))
            if a.dt == 'f' and isinstance(a.off, int) and isinstance(b.off, int):
                # alias through the symbolic heap
                self.escape(a); self.escape(b)
                return A1(None, ite_c(g, a.ref, b.ref), ite_c(g, T(a.row if a.row is not None else 0), T(b.row if b.row is not None else 0)), 0,
                          a.n if same_term(a.n, b.n) else ite(g, a.n, b.n), 'f')
        if isinstance(a, A2) and isinstance(b, A2) and a.dt == b.dt and a.mask is None and b.mask is None:
            n = a.n if same_term(a.n, b.n) else ite(g, a.n, b.n)
            c = a.cols if same_term(a.cols, b.cols) else ite(g, a.cols, b.cols)
            if isinstance(a.off, int) and isinstance(b.off, int) and self.own(a, 1, temp) and self.own(b, 2, temp):
                return out.new2(n, c, a.dt, ite_c(g, s1.arrs[a.key].c, s2.arrs[b.key].c))
            if a.dt == 'f' and isinstance(a.off, int) and isinstance(b.off, int):
                self.escape(a); self.escape(b)
                return A2(None, ite_c(g, a.ref, b.ref), 0, n, c, 'f')
        if isinstance(a, LV) and isinstance(b, LV) and a.nd == b.nd and self.own(a, 1, temp) and self.own(b, 2, temp):
            x, y = s1.arrs[a.key], s2.arrs[b.key]
            j = join_cl(g, x, y)
            if j is not None: return out.newlist(j.ek, j.n, j.c, a.nd)
        if isinstance(a, AN) and isinstance(b, AN) and a.dt == b.dt and len(a.shape) == len(b.shape):
            return AN([p if same_term(p, q) else ite(g, p, q) for p, q in zip(a.shape, b.shape)], a.dt, a.ro or b.ro)
        if isinstance(a, ObjV) and isinstance(b, ObjV) and a.cls is b.cls:
            return ObjV(ite_c(g, a.ref, b.ref), a.cls)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.val(x, y, temp) for x, y in zip(a, b))
        if isinstance(a, CO) and isinstance(b, CO):
            x, y = s1.conc.get(a.id), s2.conc.get(b.id)
            if x is not None and y is not None and x.kind == y.kind == 'dict' and a.id not in s2.conc and b.id not in s1.conc:
                ks = [k for k in x.f if k in y.f]
                return out.newrec('dict', None, {k: self.val(x.f[k], y.f[k], temp) for k in ks})
            if x is not None and y is not None and x.kind == y.kind == 'list' and len(x.f) == len(y.f) and a.id not in s2.conc and b.id not in s1.conc:
                return out.newrec('list', None, [self.val(p, q, temp) for p, q in zip(x.f, y.f)])
        alts = []
        for gg, v in ((g, a), (z3.Not(g), b)):
            if isinstance(v, Un): alts += [(z3.And(gg, h), w) for h, w in v.alts]
            else: alts.append((gg, v))
        if len(alts) > 8: return UNK
        return Un(alts)
    def escape(self, v):
        if v.key is None: return
        if v.key in self.s1.arrs: self.s1.escape(v.key)
        if v.key in self.s2.arrs: self.s2.escape(v.key)
        self.esc.append(v.key)

def join_cl(g, x, y):
    if x.ek == ('empty',): x = CL(y.ek, x.n, y.c) if y.ek != ('empty',) else x
    if y.ek == ('empty',): y = CL(x.ek, y.n, x.c)
    if x.ek != y.ek: return None
    n = x.n if same_term(x.n, y.n) else ite(g, x.n, y.n)
    return CL(x.ek, n, tuple(ite_c(g, p, q) for p, q in zip(x.c, y.c)))

def guard_of(path):
    if not path: return z3.BoolVal(True)
    return path[0] if len(path) == 1 else z3.And(*path)

def common(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is y or x.eq(y): n += 1
        else: break
    return n

def complementary(p, q):
    return len(p) == 1 and len(q) == 1 and (p[0].eq(z3.Not(q[0])) or q[0].eq(z3.Not(p[0])))

def list_kind(items):
    """element kind of a python list that becomes a symbolic list, or None"""
    ek = ('empty',)
    for o in items:
        if isinstance(o, ObjV): k = ('obj', o.cls)
        elif isinstance(o, A1) and o.dt == 'f' and o.mask is None and o.key is not None and isinstance(o.off, int): k = ('vec', o.n)
        elif is_num(o): k = ('f',) if isinstance(o, float) or (is_z(o) and o.sort() == R) else ('i',)
        else: return None
        if ek == ('empty',): ek = k
        elif {ek[0], k[0]} == {'i', 'f'} or (ek[0] == k[0] and ek[0] in 'if'): ek = k if ek[0] == 'i' else ek
        elif ek[0] != k[0] or (k[0] == 'obj' and ek[1] is not k[1]) or (k[0] == 'vec' and not same_term(ek[1], k[1])): return None
    return ek
def list_cl(st, items, ek):
    n = z3.IntVal(len(items)); k = z3.Int('k!wf')
    if ek == ('empty',): return CL(ek, n, ())
    if ek[0] in ('obj', 'vec'):
        c = fresh(AII, 'L0'); st.add(z3.ForAll([k], c[k] < st.base, patterns=[c[k]]))
        for i, o in enumerate(items): c = z3.Store(c, i, o.ref)
        if ek[0] == 'obj': return CL(ek, n, (c,))
        b = fresh(AII, 'L0')
        for i, o in enumerate(items):
            st.escape(o.key) if o.key in st.arrs else None
            b = z3.Store(b, i, T(o.row if o.row is not None else 0))
        return CL(ek, n, (c, b))
    c = fresh(VS[ek[0]], 'L0')
    for i, o in enumerate(items): c = z3.Store(c, i, Td(o, ek[0]))
    return CL(ek, n, (c,))
def subst_co(v, cid, lv):
    if isinstance(v, CO): return lv if v.id == cid else v
    if isinstance(v, tuple): return tuple(subst_co(x, cid, lv) for x in v)
    if isinstance(v, Un): return Un([(g, subst_co(x, cid, lv)) for g, x in v.alts])
    return v
def to_symbolic(st, c, lv):
    """every reference to the python list c becomes the symbolic list lv"""
    st.frames = [{n: subst_co(v, c, lv) for n, v in fr.items()} for fr in st.frames]
    del st.conc[c]; st.ghost['sym', c] = lv
    for cid, q in list(st.conc.items()):
        if q.kind == 'task': continue
        f = {n: subst_co(v, c, lv) for n, v in q.f.items()} if isinstance(q.f, dict) else [subst_co(v, c, lv) for v in q.f]
        st.conc[cid] = Rec(q.kind, q.cls, f)
def symbolic_lists(s1, v1, s2, v2):
    """python lists whose lengths differ in the two states become symbolic lists in both"""
    for a, b in ((s1, s2), (s2, s1)):
        for c, r in list(a.conc.items()):
            lv = b.ghost.get(('sym', c))
            if lv is None or r.kind != 'list' or c in b.conc or lv.key not in b.arrs: continue
            ek, k = b.arrs[lv.key].ek, list_kind(r.f)
            if k is None or not (k == ek or k == ('empty',) or (k[0] == ek[0] == 'vec' and same_term(k[1], ek[1]))): continue
            a.arrs[lv.key] = list_cl(a, r.f, k); to_symbolic(a, c, lv)
            if a is s1: v1 = subst_co(v1, c, lv)
            else: v2 = subst_co(v2, c, lv)
    for c in list(s1.conc):
        x, y = s1.conc.get(c), s2.conc.get(c)
        if x is None or y is None or x is y or x.kind != 'list' or y.kind != 'list' or len(x.f) == len(y.f): continue
        k1, k2 = list_kind(x.f), list_kind(y.f)
        if k1 is None or k2 is None: continue
        ek = k1 if k2 == ('empty',) else k2
        if k1 != ('empty',) and k2 != ('empty',) and k1 != k2:
            if {k1, k2} == {('i',), ('f',)}: ek = ('f',)
            elif k1[0] == k2[0] == 'vec' and same_term(k1[1], k2[1]): ek = k1
            else: continue
        g, _ = s1.newref(); lv = LV(g, False)
        for st, r in ((s1, x), (s2, y)):
            st.arrs[g] = list_cl(st, r.f, ek)
            to_symbolic(st, c, lv)
        v1, v2 = subst_co(v1, c, lv), subst_co(v2, c, lv)
    return v1, v2

def merge2(s1, v1, s2, v2):
    """join two states (same call depth) and the two values they carry; s1/s2 are consumed"""
    v1, v2 = symbolic_lists(s1, v1, s2, v2)
    cp = common(s1.path, s2.path)
    g1, g2 = s1.path[cp:], s2.path[cp:]
    if not g1 and not g2:
        g = fbool('choice')      # both reachable for unrelated reasons
    else:
        g = guard_of(g1) if g1 else z3.Not(guard_of(g2))
    cc = common(s1.pc, s2.pc)
    # escape sets must agree before contents are joined
    for k in sorted(s1.escaped - s2.escaped):
        if k in s2.arrs: s2.escape(k)
    for k in sorted(s2.escaped - s1.escaped):
        if k in s1.arrs: s1.escape(k)
    for attempt in range(2):
        # joins that need aliasing escape objects in both states first; second attempt then builds the result
        out = s1.copy(); del DEFS[:]
        out.pc = list(s1.pc[:cc]); out.path = list(s1.path[:cp])
        j = Joiner(g, s1, s2, out); j.esc = []
        out.arrs = {}
        for k in {**s1.arrs, **s2.arrs}:
            x, y = s1.arrs.get(k), s2.arrs.get(k)
            if x is None or y is None: out.arrs[k] = x if y is None else y
            elif x is y: out.arrs[k] = x
            elif isinstance(x, CL):
                z = join_cl(g, x, y)
                if z is None: raise Unsupported('join of lists of different element kinds')
                out.arrs[k] = z
            else: out.arrs[k] = x if x.c.eq(y.c) else type(x)(ite_c(g, x.c, y.c))
        out.H = ite_c(g, s1.H, s2.H)
        if not s1.base.eq(s2.base):              # everything allocated on either side lies below
            out.base = fint('base'); DEFS.extend([out.base >= s1.base, out.base >= s2.base])
        out.fields = {}
        for k in {**s1.fields, **s2.fields}:
            x, y = s1.fields.get(k), s2.fields.get(k)
            if x is None or y is None: out.fields[k] = x or y
            elif x is y: out.fields[k] = x
            else: out.fields[k] = join_fm(g, x, y)
        out.m = ite_c(g, s1.m, s2.m); out.stopped = ite_c(g, s1.stopped, s2.stopped)
        out.evals = ite_c(g, s1.evals, s2.evals); out.iters = ite_c(g, s1.iters, s2.iters)
        out.ghost = {}
        for k in {**s1.ghost, **s2.ghost}:
            x, y = s1.ghost.get(k), s2.ghost.get(k)
            out.ghost[k] = x if (y is None or x is y) else (y if x is None else (ite_c(g, x, y) if is_z(x) and is_z(y) else x))
        fr = []
        for i in range(len(s1.frames)):
            a, b = s1.frames[i], s2.frames[i]
            d = {}
            for n in list(a) + [n for n in b if n not in a]:
                if n in a and n in b:
                    if n in s1.dead[i]: d[n] = a[n]
                    else: d[n] = j.val(a[n], b[n])
                else: d[n] = a[n] if n in a else b[n]
            fr.append(d)
        out.frames = fr; out.dead = list(s1.dead)
        out.conc = {}
        for c in list(s1.conc) + [c for c in s2.conc if c not in s1.conc]:
            x, y = s1.conc.get(c), s2.conc.get(c)
            if x is None or y is None or x is y: out.conc[c] = x or y; continue
            if isinstance(x.f, list) or isinstance(y.f, list):
                if not (isinstance(x.f, list) and isinstance(y.f, list)) or len(x.f) != len(y.f): raise Unsupported('join of lists of different length')
                out.conc[c] = Rec(x.kind, x.cls, [j.val(p, q) for p, q in zip(x.f, y.f)])
            else:
                f = {}
                for n in list(x.f) + [n for n in y.f if n not in x.f]:
                    if n in x.f and n in y.f: f[n] = j.val(x.f[n], y.f[n])
                    elif x.kind == 'dict': raise Unsupported('join of dicts with different keys')
                    else: f[n] = x.f[n] if n in x.f else y.f[n]
                out.conc[c] = Rec(x.kind, x.cls, f)
        v = j.val(v1, v2, temp=True)
        if not j.esc: break
    out.escaped = s1.escaped | s2.escaped
    for f in s1.pc[cc:]: out.pc.append(z3.Implies(g, f))
    ng = z3.Not(g)
    for f in s2.pc[cc:]: out.pc.append(z3.Implies(ng, f))
    out.pc.extend(DEFS); del DEFS[:]
    if (g1 or g2) and not complementary(g1, g2):
        out.pc.append(z3.Or(guard_of(g1), guard_of(g2)))
    return out, v

def join_fm(g, x, y):
    if x.kind == 'n' and y.kind != 'n': x = FM(y.kind, y.maps, y.extra, True)
    if y.kind == 'n' and x.kind != 'n': y = FM(x.kind, x.maps, x.extra, True)
    if {x.kind, y.kind} == {'i', 'f'}:
        def up(m):
            if m.kind == 'f': return m
            c = fresh(AIR, 'fldr'); k = z3.Int('k!f')
            DEFS.append(z3.ForAll([k], c[k] == z3.ToReal(m.maps[0][k]), patterns=[c[k]]))
            return FM('f', (c,), None, m.none)
        x, y = up(x), up(y)
    if x.kind != y.kind or (x.kind in ('v', 'o') and not _eqx(x.extra, y.extra)):
        return FM('u', (), None, x.none or y.none)
    return FM(x.kind, tuple(ite_c(g, a, b) for a, b in zip(x.maps, y.maps)), x.extra, x.none or y.none)

def _eqx(a, b):
    if is_z(a) and is_z(b): return a.eq(b)
    return a is b

def merge_all(outs):
    """outs: list of (state, value) -> one (state, value)"""
    s, v = outs[-1]
    for t, w in reversed(outs[:-1]):
        s, v = merge2(t, w, s, v)
    return s, v
