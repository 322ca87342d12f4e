"""Contracts (trusted, listed in the evidence) of numpy, numpy.random.Generator, math and the Python builtins used by /repo."""
import ast
import z3
from .core import *
from .merge import *
from .interp import Dead
from . import src

MUL = z3.Function('mul', R, R, R)
DIV = z3.Function('div', R, R, R)
ISMIN = z3.Bool('is_min')
SGN = z3.If(ISMIN, z3.RealVal(1), z3.RealVal(-1))

def mul_axioms():
    a, b = z3.Reals('a!m b!m')
    m = MUL(a, b); d = DIV(a, b)
    return [
        z3.ForAll([a, b], z3.And(
            z3.Implies(z3.And(a >= 0, a <= 1, b >= 0), z3.And(m >= 0, m <= b)),
            z3.Implies(z3.And(a >= 0, a <= 1, b <= 0), z3.And(m <= 0, m >= b)),
            z3.Implies(z3.And(b >= 0, b <= 1, a >= 0), z3.And(m >= 0, m <= a)),
            z3.Implies(z3.And(b >= 0, b <= 1, a <= 0), z3.And(m <= 0, m >= a)),
            z3.Implies(z3.And(a >= 0, b >= 0), m >= 0),
            z3.Implies(z3.And(a <= 0, b <= 0), m >= 0)), patterns=[m]),
        z3.ForAll([a, b], z3.And(
            z3.Implies(z3.And(a >= 0, b > 0), d >= 0),
            z3.Implies(z3.And(a >= 0, b > 0, a <= b), d <= 1)), patterns=[d]),
    ]

def isconst(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool): return True
    return is_z(v) and (z3.is_rational_value(v) or z3.is_int_value(v))

SCALED = {}          # content id of a matrix -> (constant w, content t): its elements are w * t[i][k] with t in [0, 1]
def mul(a, b):
    if not is_z(a) and not is_z(b): return a * b
    a, b = pair(a, b)
    if a.eq(SGN) : return z3.simplify(z3.If(ISMIN, b, -b)) if b.eq(SGN) else z3.If(ISMIN, b, -b)
    if b.eq(SGN): return z3.If(ISMIN, a, -a)
    if isconst(a) or isconst(b): return a * b
    for p, q in ((a, b), (b, a)):
        if q.sort() == R and z3.is_select(q) and z3.is_select(q.arg(0)) and q.arg(0).arg(0).get_id() in SCALED:
            w, t = SCALED[q.arg(0).arg(0).get_id()]
            return mul(p, t[q.arg(0).arg(1)][q.arg(1)]) * w
    if a.sort() == I: return a * b if False else z3.ToInt(MUL(z3.ToReal(a), z3.ToReal(b)))
    return MUL(a, b)
def div(a, b):
    if not is_z(a) and not is_z(b):
        if b == 0: return freal('nan')
        return a / b
    a, b = TR(a), TR(b)
    if z3.is_to_real(b) and z3.is_int_value(b.arg(0)): b = z3.RealVal(b.arg(0).as_long())
    if z3.is_rational_value(b) and b.numerator_as_long() != 0: return a / b
    return DIV(a, b)

def zmin(a, b): return z3.If(a <= b, a, b)
def zmax(a, b): return z3.If(a >= b, a, b)

OPN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'MatMult': '@', 'LShift': '<<', 'RShift': '>>'}

class NpModel:
    x = None
    def __init__(self):
        self.nn = set()         # ids of terms known to be >= 0
        self.keep = []          # keeps terms alive so that ids stay unique
        self.ro = set()         # keys of arrays that stand for numpy copies-or-views we do not track writes to
        self.cvals = {}         # content id -> elements, where they are known constants
        self.sumof = {}         # content id -> (matrix content, n)
        self.selcache = {}
        self.shape_tags = {}
    def mark_nn(self, t):
        if is_z(t): self.nn.add(t.get_id()); self.keep.append(t)
        return t
    def is_nn(self, t):
        if isinstance(t, int): return t >= 0
        if not is_z(t): return False
        if t.get_id() in self.nn: return True
        if z3.is_int_value(t): return t.as_long() >= 0
        if z3.is_add(t): return all(self.is_nn(c) for c in t.children())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return self.is_nn(t.arg(1)) and self.is_nn(t.arg(2))
        if z3.is_const(t) and t.decl().name().startswith('k!'): return True
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT: return t.arg(0).get_id() in self.nn
        return False
    def index(self, st, i, n):
        """normalised index with 0 <= r < n (an IndexError ends the path)"""
        if isinstance(i, bool): i = int(i)
        if is_bool(i): i = TI(i)
        if isinstance(i, int):
            if i >= 0:
                st.add(z3.IntVal(i) < n); return z3.IntVal(i)
            st.add(n + i >= 0); return z3.simplify(n + i)
        if not is_z(i): raise Unsupported('index %r' % (i,))
        if i.sort() == R:
            i = z3.ToInt(i)
        if self.is_nn(i):
            st.add(i >= 0, i < n); return i
        r = z3.If(i < 0, i + n, i)
        st.add(r >= 0, r < n)
        f = self.x.__dict__.setdefault('nnfacts', None)
        return r

    # ---------------- construction helpers
    def fa(self, st, n, body, dt='f', name='v'):
        """new array content c with c[k] == body(k) for 0<=k<n"""
        c = fresh(VS[dt], name); k = z3.Int('k!e')
        b = Td(body(k), dt); trig = [c[k]]
        if z3.is_app_of(b, z3.Z3_OP_ITE):        # a selection: also when a term of either side is at hand
            trig += [t for t in b.children()[1:] if z3.is_select(t) and t.arg(1).eq(k) and z3.is_const(t.arg(0))]
        st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), c[k] == b), patterns=trig))
        return c
    def fm(self, st, n, cols, body, dt='f', name='M'):
        c = fresh(MS[dt], name); i, k = z3.Ints('i!e k!e')
        st.add(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < n, 0 <= k, k < cols), c[i][k] == Td(body(i, k), dt)), patterns=[c[i][k]]))
        return c
    def rows(self, st, n, body, dt='f'):
        """matrix content with row i == body(i)"""
        c = fresh(MS[dt], 'M'); i = z3.Int('i!e')
        st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), c[i] == body(i)), patterns=[c[i]]))
        return c
    def unk1(self, st, n, dt='f'): return st.new1(n, dt)
    def unk2(self, st, n, c, dt='f'): return st.new2(n, c, dt)

    def content(self, st, a):
        return st.vec(a) if isinstance(a, A1) else st.mat(a)

    # ---------------- elementwise
    def elem(self, st, fn, args, dt):
        """fn over scalars/A1/A2 with broadcasting; dt result type; fn=None -> unknown content"""
        args = [self.as_arr(st, a) for a in args]
        if any(a is UNK for a in args): return UNK
        A = [a for a in args if isinstance(a, (A1, A2))]
        if any(isinstance(a, AN) for a in args):
            if any(a.mask is not None for a in A): return UNK
            sh = []
            for a in args:
                s_ = list(self.shp(a)); k = max(len(s_), len(sh))
                p, q = [z3.IntVal(1)] * (k - len(sh)) + sh, [z3.IntVal(1)] * (k - len(s_)) + s_
                sh = [self.bc(st, u, v) for u, v in zip(p, q)]
            return self.mk_shape(st, sh, dt)
        if not A:
            if fn is None: return {'f': freal, 'i': fint, 'b': fbool}[dt]('u')
            return fn(*args)
        masks = [a.mask for a in A if a.mask is not None]
        mask = masks[0] if masks else None
        if any(m is not mask and not (is_z(m) and m.eq(mask)) for m in masks): return UNK
        if mask is not None and any(a.mask is None for a in A if not (isinstance(a, A1) and any(isinstance(b, A2) for b in A) and is_z(a.n))):
            pass
        a2 = [a for a in A if isinstance(a, A2)]
        if a2:
            n, c = a2[0].n, a2[0].cols
            ok = True
            for b in a2[1:]:
                if not same_term(b.n, n) or not same_term(b.cols, c):
                    if same_term(b.cols, c): st.add(z3.Or(b.n == n, b.n == 1, n == 1))
                    n = self.bc(st, n, b.n); c = self.bc(st, c, b.cols); ok = False
            for b in A:
                if isinstance(b, A1) and not same_term(b.n, c): ok = False
            if any(getattr(b, 'key', None) in self.shape_tags for b in A): ok = False
            if fn is None or not ok:
                r = st.new2(n, c, dt)
            else:
                cs = [self.content(st, a) if isinstance(a, (A1, A2)) else T(a) for a in args]
                def body(i, k):
                    return fn(*[(cc[i][k] if isinstance(a, A2) else (cc[k] if isinstance(a, A1) else cc)) for a, cc in zip(args, cs)])
                r = st.new2(n, c, dt, self.fm(st, n, c, body, dt))
            r.mask = mask
            return r
        n = A[0].n; ok = True
        for b in A[1:]:
            if not same_term(b.n, n):
                n = self.bc(st, n, b.n); ok = False
        if fn is None or not ok:
            r = st.new1(n, dt)
        else:
            cs = [st.vec(a) if isinstance(a, A1) else T(a) for a in args]
            r = st.new1(n, dt, self.fa(st, n, lambda k: fn(*[(cc[k] if isinstance(a, A1) else cc) for a, cc in zip(args, cs)]), dt))
        r.mask = mask
        return r
    def bc(self, st, a, b):
        if same_term(a, b): return a
        if z3.is_int_value(a) and a.as_long() == 1: return b
        if z3.is_int_value(b) and b.as_long() == 1: return a
        n = fint('bc')
        st.add(z3.Or(z3.And(a == b, n == a), z3.And(a == 1, n == b), z3.And(b == 1, n == a)))
        return n
    def as_arr(self, st, v):
        """numbers, arrays; lists are converted"""
        if is_num(v) or is_bool(v) or isinstance(v, (A1, A2, AN)): return v
        if isinstance(v, (CO, tuple, LV)): return self.asarray(st, v)
        if v is UNK: return UNK
        if v is None: raise Dead()
        if isinstance(v, IdxOf):
            n = fint('cnt'); st.add(n >= 0); return st.new1(n, 'i')
        return UNK

    def mk_shape(self, st, shape, dt):
        """fresh array (own memory, unknown content) of a shape"""
        if len(shape) <= 2: return self.new_shape(st, tuple(shape), dt)
        return AN(shape, dt)
    def shp(self, v):
        if isinstance(v, A1): return (v.n,)
        if isinstance(v, A2): return (v.n, v.cols)
        if isinstance(v, AN): return v.shape
        return ()
    def an_item(self, st, o, i):
        """o[i] of an array of unknown content: (shape, view?) of the result; None when not known"""
        items = list(i) if isinstance(i, tuple) else [i]
        if any(isinstance(x, str) for x in items):
            return None
        rest = list(o.shape); out = []; view = True; fancy = False
        for x in items:
            if x is None: out.append(z3.IntVal(1)); continue
            if isinstance(x, IdxOf): x = x.mask
            if isinstance(x, (CO, LV)): x = self.asarray(st, x)
            if not rest: raise Dead()
            if isinstance(x, SliceV):
                n = rest.pop(0)
                out.append(n if x.lo is None and x.hi is None and x.step is None else T(self.slice_bounds(st, x, n)[1])); continue
            if is_num(x) or is_bool(x): self.index(st, x, rest.pop(0)); continue
            if isinstance(x, (A1, A2, AN)):
                if fancy: return None
                fancy, view = True, False; k = 1
                if x.dt == 'b': k = len(self.shp(x))
                if len(rest) < k: raise Dead()
                del rest[:k]
                if x.dt == 'b':
                    n = fint('cnt'); st.add(n >= 0); out.append(n)
                else: out += list(self.shp(x))
                continue
            return None
        return out + rest, view
    def an_get(self, st, o, i):
        r = self.an_item(st, o, i)
        if r is None: return UNK
        sh, view = r
        if not sh: return {'f': freal, 'i': fint, 'b': fbool}[o.dt]('an')
        return AN(sh, o.dt, o.ro) if view else self.mk_shape(st, sh, o.dt)
    def asarray(self, st, v, copy=False):
        if isinstance(v, (A1, A2)):
            return self.copy(st, v) if copy else v
        if isinstance(v, AN): return self.copy(st, v) if copy else v
        if isinstance(v, ObjV) and v.cls.find('__getitem__') and v.cls.find('__len__'):
            # a sequence: its elements in order
            n = T(self.length(st, v)); k = fint('kseq'); t = st.copy(); x = self.x
            x.quiet += 1; x.dry += 1
            try: w = x.get_item(t, v, k)
            except (Unsupported, Dead): return UNK
            finally: x.quiet -= 1; x.dry -= 1
            if not (is_z(w) and w.sort() in (I, R)) or not t.H.eq(st.H) or not t.m.eq(st.m): return UNK
            if any(k.get_id() in vars_of(f) for f in t.pc[len(st.pc):] if z3.is_quantifier(f)): return UNK
            st.add(*[f for f in t.pc[len(st.pc):] if k.get_id() not in vars_of(f)])
            return st.new1(n, 'f', self.fa(st, n, lambda q: z3.substitute(w, (k, q)), 'f'))
        if is_num(v) or is_bool(v): return v
        if v is UNK: return UNK
        if isinstance(v, LV):
            cl = st.arrs[v.key]
            if cl.ek[0] in ('f', 'i'):
                return st.new1(cl.n, cl.ek[0], cl.c[0])
            if cl.ek[0] == 'vec':
                H = st.H; a, b = cl.c
                return st.new2(cl.n, cl.ek[1], 'f', self.rows(st, cl.n, lambda i: H[a[i]][b[i]]))
            if cl.ek[0] == 'obj':
                if copy or not v.nd: return st.newlist(cl.ek, cl.n, cl.c, True)
                return v
            if cl.ek[0] == 'empty': return st.new1(0, 'f')
            if cl.ek[0] == 'nda': return self.mk_shape(st, (cl.n,) + tuple(cl.ek[1]), cl.ek[2])
            return UNK
        items = None
        if isinstance(v, tuple): items = list(v)
        elif isinstance(v, CO) and st.rec(v).kind == 'list': items = list(st.rec(v).f)
        if items is not None:
            if not items: return st.new1(0, 'f')
            if all(is_num(i) for i in items):
                dt = 'i' if all((isinstance(i, int) or (is_z(i) and i.sort() == I)) for i in items) else 'f'
                c = z3.K(I, Td(0, dt))
                for k, i in enumerate(items): c = z3.Store(c, k, Td(i, dt))
                return st.new1(len(items), dt, c)
            if all(is_bool(i) for i in items):
                c = z3.K(I, z3.BoolVal(False))
                for k, i in enumerate(items): c = z3.Store(c, k, TB(i))
                return st.new1(len(items), 'b', c)
            if all(isinstance(i, A1) and i.dt == 'f' and i.mask is None for i in items):
                c = fresh(M, 'stk')
                c0 = c
                for k, i in enumerate(items): c = z3.Store(c, k, st.vec(i))
                return st.new2(len(items), items[0].n, 'f', c)
            if all(isinstance(i, ObjV) for i in items):
                return self.to_lv(st, v if isinstance(v, CO) else st.newrec('list', None, items), ('obj', items[0].cls), True)
        return UNK

    def copy(self, st, v):
        if isinstance(v, A1):
            r = st.new1(v.n, v.dt, st.vec(v)); r.mask = v.mask; return r
        if isinstance(v, A2):
            r = st.new2(v.n, v.cols, v.dt, st.mat(v)); r.mask = v.mask; return r
        if isinstance(v, AN): return self.mk_shape(st, v.shape, v.dt)
        if isinstance(v, LV):
            cl = st.arrs[v.key]; return st.newlist(cl.ek, cl.n, cl.c, v.nd)
        if isinstance(v, CO):
            r = st.rec(v)
            if r.kind == 'list': return st.newrec('list', None, list(r.f))
            if r.kind == 'dict': return st.newrec('dict', None, dict(r.f))
        if is_num(v) or is_bool(v) or v is UNK or v is None or isinstance(v, (str, tuple)): return v
        if isinstance(v, IdxOf): return v
        raise Unsupported('copy of %r' % (v,))

    # ---------------- lists
    def to_lv(self, st, v, ek, nd):
        items = list(st.rec(v).f) if isinstance(v, CO) else list(v)
        if ek == ('empty',) or ek[0] in ('unk', 'nda'):
            return st.newlist(ek, len(items), (), nd)
        if ek[0] == 'obj':
            c = z3.K(I, z3.IntVal(-1)) if False else fresh(AII, 'L0')
            st.add(z3.ForAll([z3.Int('k!wf')], c[z3.Int('k!wf')] < st.base, patterns=[c[z3.Int('k!wf')]]))
            for k, o in enumerate(items): c = z3.Store(c, k, o.ref)
            return st.newlist(ek, len(items), (c,), nd)
        if ek[0] == 'vec':
            a, b = fresh(AII, 'L0'), fresh(AII, 'L0')
            st.add(z3.ForAll([z3.Int('k!wf')], a[z3.Int('k!wf')] < st.base, patterns=[a[z3.Int('k!wf')]]))
            for k, o in enumerate(items):
                st.escape_val(o)
                a = z3.Store(a, k, o.ref); b = z3.Store(b, k, T(o.row if o.row is not None else 0))
            return st.newlist(ek, len(items), (a, b), nd)
        dt = ek[0]
        c = fresh(VS[dt], 'L0')
        for k, o in enumerate(items): c = z3.Store(c, k, Td(o, dt))
        return st.newlist(ek, len(items), (c,), nd)
    def conv_cl(self, st, cl, ek):
        if cl.ek == ek: return cl
        if cl.ek == ('empty',):
            comps = tuple(fresh(s, 'L') for s in self.x.EKS[ek[0]])
            self.x.wf_list(st, ek, comps)
            return CL(ek, cl.n, comps)
        if cl.ek == ('i',) and ek == ('f',):
            c = cl.c[0]
            return CL(ek, cl.n, (self.fa(st, cl.n, lambda k: z3.ToReal(c[k])),))
        return CL(('unk',), cl.n, ())
    def list_elem(self, st, cl, i):
        """element i (normalised) of a list content"""
        k = cl.ek[0]
        if k == 'obj': return ObjV(cl.c[0][i], cl.ek[1])
        if k == 'vec': return A1(None, cl.c[0][i], cl.c[1][i], 0, cl.ek[1], 'f')
        if k in 'fi': return cl.c[0][i]
        if k == 'nda': return AN(cl.ek[1], cl.ek[2])
        return UNK
    def elem_ek(self, st, v):
        if isinstance(v, ObjV): return ('obj', v.cls)
        if isinstance(v, A1) and v.dt == 'f' and v.mask is None and isinstance(v.off, int): return ('vec', v.n)
        if is_num(v): return ('i',) if (isinstance(v, int) or (is_z(v) and v.sort() == I)) else ('f',)
        if isinstance(v, A2) and v.mask is None: return ('nda', (v.n, v.cols), v.dt)
        if isinstance(v, AN) and not v.ro: return ('nda', v.shape, v.dt)
        return ('unk',)
    def comps_of(self, st, ek, v):
        if ek[0] == 'obj': return (v.ref,)
        if ek[0] == 'vec':
            st.escape_val(v); return (v.ref, T(v.row if v.row is not None else 0))
        if ek[0] in ('f', 'i'): return (Td(v, ek[0]),)
        return ()
    def compat(self, a, b):
        if a[0] == b[0] == 'nda': return a[2] == b[2] and len(a[1]) == len(b[1]) and all(same_term(p, q) for p, q in zip(a[1], b[1]))
        if 'nda' in (a[0], b[0]): return False
        return a == b or (a[0] == b[0] == 'vec' and same_term(a[1], b[1]))
    def lv_write(self, st, lv, i, v):
        cl = st.arrs[lv.key]
        if lv.key in self.ro: raise Unsupported('write through an object-array view')
        if isinstance(v, Un): raise Unsupported('union into list')
        ek = self.elem_ek(st, v)
        if cl.ek == ('empty',): cl = self.conv_cl(st, cl, ek)
        if not self.compat(cl.ek, ek):
            if cl.ek == ('f',) and ek == ('i',): ek = ('f',)
            elif cl.ek == ('i',) and ek == ('f',): cl = self.conv_cl(st, cl, ('f',))
            else:
                st.arrs[lv.key] = CL(('unk',), cl.n, ()); return
        st.arrs[lv.key] = CL(cl.ek, cl.n, tuple(st.nm(z3.Store(c, i, t)) for c, t in zip(cl.c, self.comps_of(st, cl.ek, v))))
    def list_append(self, st, o, v):
        if isinstance(o, CO):
            st.wrec(o).f.append(v); return
        if isinstance(v, Un):
            self.x.split(st, v, lambda s, w: self.list_append(s, o, w)); return
        cl = st.arrs[o.key]
        ek = self.elem_ek(st, v)
        if cl.ek == ('empty',): cl = self.conv_cl(st, cl, ek)
        if not self.compat(cl.ek, ek):
            if cl.ek == ('f',) and ek == ('i',): ek = ('f',)
            elif cl.ek == ('i',) and ek == ('f',): cl = self.conv_cl(st, cl, ('f',))
            else:
                st.arrs[o.key] = CL(('unk',), cl.n + 1, ()); return
        st.arrs[o.key] = CL(cl.ek, cl.n + 1, tuple(st.nm(z3.Store(c, cl.n, t)) for c, t in zip(cl.c, self.comps_of(st, cl.ek, v))))
    def list_extend(self, st, o, v):
        if isinstance(v, CO):
            for w in st.rec(v).f: self.list_append(st, o, w)
            return
        if isinstance(v, tuple):
            for w in v: self.list_append(st, o, w)
            return
        if isinstance(o, CO) and isinstance(v, LV):
            ek = list_kind(st.rec(o).f)
            if ek is not None:
                # the python list becomes a symbolic list
                g, _ = st.newref(); lv = LV(g, False)
                st.arrs[g] = list_cl(st, st.rec(o).f, ek); to_symbolic(st, o.id, lv); o = lv
        r = self.concat(st, [o, v], nd=False)
        if isinstance(o, LV) and isinstance(r, LV):
            st.arrs[o.key] = st.arrs[r.key]; return
        raise Unsupported('list extend')
    def list_pop(self, st, o, i=-1):
        if isinstance(o, CO):
            if not isinstance(i, int): raise Unsupported('symbolic pop')
            if not st.rec(o).f: raise Dead()
            return st.wrec(o).f.pop(i)
        cl = st.arrs[o.key]
        j = self.index(st, i, cl.n)
        v = self.list_elem(st, cl, j)
        if isinstance(v, A1): pass
        comps = tuple(self.gat(st, c, cl.n - 1, lambda k: z3.If(k < j, k, k + 1)) for c in cl.c)
        st.arrs[o.key] = CL(cl.ek, cl.n - 1, comps)
        return v
    def gat(self, st, c, n, f):
        d = fresh(c.sort(), 'g'); k = z3.Int('k!e')
        st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), d[k] == c[f(k)]), patterns=[d[k]]))
        return d
    def lv_of(self, st, v):
        """list-like value as (ek, n, comps)"""
        if isinstance(v, LV): return st.arrs[v.key]
        if isinstance(v, CO) or isinstance(v, tuple):
            items = list(st.rec(v).f) if isinstance(v, CO) else list(v)
            ek = ('empty',)
            for w in items:
                k = self.elem_ek(st, w)
                ek = k if ek == ('empty',) or self.compat(ek, k) else (('f',) if {ek, k} == {('f',), ('i',)} else ('unk',))
            l = self.to_lv(st, st.newrec('list', None, items), ek, False)
            return st.arrs[l.key]
        if isinstance(v, A1) and v.mask is None and v.dt in 'fi': return CL((v.dt,), v.n, (st.vec(v),))
        return CL(('unk',), self.length_t(st, v), ())

    # ---------------- operators
    def binop(self, st, op, a, b):
        o = OPN[type(op).__name__]
        if isinstance(a, str) or isinstance(b, str): return '<str>' if not (isinstance(a, str) and isinstance(b, str) and o == '+') else a + b
        islist = lambda v: isinstance(v, CO) and st.rec(v).kind == 'list' or (isinstance(v, LV) and not v.nd)
        if isinstance(a, tuple) and isinstance(b, tuple) and o == '+': return a + b
        if o == '+' and islist(a) and islist(b):
            if isinstance(a, CO) and isinstance(b, CO): return st.newrec('list', None, list(st.rec(a).f) + list(st.rec(b).f))
            return self.concat(st, [a, b], nd=False)
        if o == '*' and (islist(a) or islist(b)) and (is_num(a) or is_num(b)):
            l, n = (a, b) if islist(a) else (b, a)
            if isinstance(l, CO):
                if isinstance(n, int): return st.newrec('list', None, list(st.rec(l).f) * n)
                if len(st.rec(l).f) == 1:
                    w = st.rec(l).f[0]
                    ek = self.elem_ek(st, w)
                    if ek[0] in ('f', 'i'): return st.newlist(ek, self.pos(st, n), (z3.K(I, Td(w, ek[0])),))
                    return st.newlist(('unk',), self.pos(st, n), ())
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)): return self.scal(st, o, a, b)
        if a is UNK or b is UNK: return UNK
        if isinstance(a, CO) and st.rec(a).kind in ('inst', 'task') or isinstance(a, ObjV): return UNK
        a, b = self.as_arr(st, a), self.as_arr(st, b)
        if a is UNK or b is UNK: return UNK
        if is_num(a) and is_num(b): return self.scal(st, o, a, b)
        dts = [v.dt if isinstance(v, (A1, A2, AN)) else ('b' if is_bool(v) else ('i' if (isinstance(v, int) or (is_z(v) and v.sort() == I)) else 'f')) for v in (a, b)]
        if o in '&|^':
            if dts == ['b', 'b']:
                f = {'&': lambda p, q: z3.And(TB(p), TB(q)), '|': lambda p, q: z3.Or(TB(p), TB(q)), '^': lambda p, q: z3.Xor(TB(p), TB(q))}[o]
                return self.elem(st, f, [a, b], 'b')
            return UNK
        dt = 'f' if ('f' in dts or o in ('/', '**')) else 'i'
        fn = {'+': lambda p, q: self.p2(p, q, lambda u, v: u + v), '-': lambda p, q: self.p2(p, q, lambda u, v: u - v),
              '*': lambda p, q: mul(self.n1(p), self.n1(q)), '/': lambda p, q: div(self.n1(p), self.n1(q))}.get(o)
        if o == '%':
            fn = self.mod_fn
        if o == '@': return self.matmul(st, a, b)
        if o == '/' and isinstance(a, A1) and is_num(b):
            t = self.sumof.get(st.vec(a).get_id())
            if t is not None and same_term(TI(b), t[1]): return self.mean_of(st, t[0], t[1], a.n)
        if o == '*' and isinstance(a, AN) and isinstance(b, A1) and a.dt == 'b' and b.mask is None and len(self.cvals.get(st.vec(b).get_id(), ())) > 1 and min(self.cvals[st.vec(b).get_id()]) >= 0 and same_term(a.shape[-1], b.n):
            r = self.elem(st, None, [a, b], dt); r.ro = True; r.wsum = sum(self.cvals[st.vec(b).get_id()]); return r
        if o == '**' and isinstance(b, A1) and b.mask is None and isinstance(a, int) and a > 0 and st.vec(b).get_id() in self.cvals and 0 <= min(self.cvals[st.vec(b).get_id()]) and max(self.cvals[st.vec(b).get_id()]) < 62:
            return self.known(st, [a ** v for v in self.cvals[st.vec(b).get_id()]])
        if dt == 'i' and o == '*': fn = None if (is_z(a) and not isconst(a)) or (is_z(b) and not isconst(b)) or not (is_num(a) or is_num(b)) else fn
        return self.elem(st, fn, [a, b], dt)
    def known(self, st, vals):
        """integer array of known elements"""
        c = fresh(AII, 'known')
        for k, v in enumerate(vals): st.add(c[k] == v)
        self.cvals[c.get_id()] = tuple(vals); self.keep.append(c)
        if all(v >= 0 for v in vals): self.mark_nn(c)
        return st.new1(z3.IntVal(len(vals)), 'i', c)
    def matmul(self, st, a, b):
        a, b = self.as_arr(st, a), self.as_arr(st, b)
        if not all(isinstance(v, (A1, A2)) and v.mask is None for v in (a, b)): return UNK
        sh = self.shp(a)[:-1] + (self.shp(b)[1:] if isinstance(b, A2) else ())
        dt = 'f' if 'f' in (a.dt, b.dt) else 'i'
        if not sh: return freal('dot') if dt == 'f' else fint('dot')
        return self.mk_shape(st, sh, dt)
    def n1(self, p): return TI(p) if is_bool(p) else p
    def p2(self, p, q, f):
        p, q = pair(p, q); return f(p, q)
    MODF = z3.Function('pymod', R, R, R)
    def mod_fn(self, p, q):
        # result of a floating modulo with a non-negative divisor lies in [0, divisor]
        return self.MODF(TR(p), TR(q))
    def scal(self, st, o, a, b):
        if not is_z(a) and not is_z(b):
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: a // b, '%': lambda: a % b, '**': lambda: a ** b,
                        '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[o]()
            except ZeroDivisionError: return freal('nan')
            except TypeError: raise Dead()
            except OverflowError: return freal('ovf')
        if o in ('&', '|', '^'):
            if is_bool(a) and is_bool(b):
                return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[o](TB(a), TB(b))
            return fint('bits')
        if is_bool(a): a = TI(a)
        if is_bool(b): b = TI(b)
        if o == '+': return self.p2(a, b, lambda u, v: u + v)
        if o == '-': return self.p2(a, b, lambda u, v: u - v)
        if o == '*':
            r = mul(a, b)
            if isinstance(a, int) and isinstance(b, z3.ArithRef) and b.sort() == I or isinstance(b, int) and is_z(a) and a.sort() == I:
                if (isinstance(a, int) and a >= 0 and self.is_nn(b)) or (isinstance(b, int) and b >= 0 and self.is_nn(a)): self.mark_nn(r)
            return r
        if o == '/': return div(a, b)
        if o == '//':
            if isinstance(b, int) and b > 0 and is_z(a) and a.sort() == I:
                r = a / z3.IntVal(b)
                if self.is_nn(a): self.mark_nn(r)
                return r
            if is_z(T(a)) and T(a).sort() == I and T(b).sort() == I: return fint('fdiv')
            return freal('fdiv')
        if o == '%':
            if isinstance(b, int) and b > 0 and is_z(a) and a.sort() == I: return self.mark_nn(a % z3.IntVal(b))
            if T(a).sort() == I and T(b).sort() == I:
                r = fint('mod'); st.add(z3.Implies(TI(b) > 0, z3.And(r >= 0, r < TI(b)))); return r
            r = self.MODF(TR(a), TR(b))
            st.add(z3.Implies(TR(b) >= 0, z3.And(r >= 0, r <= TR(b)))); return r
        if o == '**':
            r = freal('pow')
            if isinstance(b, int) and b == 2: st.add(r >= 0)
            st.add(z3.Implies(TR(a) >= 0, r >= 0))
            return r
        return freal('op')

    def compare(self, st, op, a, b):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            r = self.ident(st, a, b)
            if r is None: r = fbool('is')
            return r if o == 'Is' else ((not r) if isinstance(r, bool) else z3.Not(r))
        if o in ('In', 'NotIn'):
            r = self.contains(st, a, b)
            return r if o == 'In' else ((not r) if isinstance(r, bool) else (z3.Not(r)))
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            if not is_z(a) and not is_z(b):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b}[o]
            if is_bool(a) and is_bool(b):
                if o == 'Eq': return TB(a) == TB(b)
                if o == 'NotEq': return TB(a) != TB(b)
            return self.cmp(o, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {'Eq': a == b, 'NotEq': a != b}.get(o, fbool('strcmp'))
        if o in ('Eq', 'NotEq'):
            if a is None or b is None:
                if a is None and b is None: return o == 'Eq'
                if not (a is UNK or b is UNK): return o == 'NotEq'
            if isinstance(a, (ObjV, )) or isinstance(b, ObjV):
                e = fbool('eq')
                if isinstance(a, ObjV) and isinstance(b, ObjV): pass
                return e if o == 'Eq' else z3.Not(e)
            if isinstance(a, (Opaque, ClsV, FuncV)) or isinstance(b, (Opaque, ClsV, FuncV)):
                e = (a == b)
                return e if o == 'Eq' else not e
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b): return o == 'NotEq'
                rs = [self.compare(st, ast.Eq(), p, q) for p, q in zip(a, b)]
                if all(isinstance(r, bool) for r in rs): return all(rs) == (o == 'Eq')
                if all(is_bool(r) for r in rs):
                    e = z3.And(*[TB(r) for r in rs]); return e if o == 'Eq' else z3.Not(e)
                return fbool('eq')
        if a is UNK or b is UNK: return UNK
        if a is None or b is None: raise Dead()
        a, b = self.as_arr(st, a), self.as_arr(st, b)
        if a is UNK or b is UNK: return UNK
        return self.elem(st, lambda p, q: self.cmp(o, p, q), [a, b], 'b')
    def cmp(self, o, a, b):
        if is_bool(a): a = TI(a)
        if is_bool(b): b = TI(b)
        a, b = pair(a, b)
        return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'Eq': lambda: a == b, 'NotEq': lambda: a != b}[o]()
    def ident(self, st, a, b):
        if a is None and b is None: return True
        if a is UNK or b is UNK: return None
        if a is None or b is None: return False
        if isinstance(a, ObjV) and isinstance(b, ObjV): return a.ref == b.ref
        if isinstance(a, (bool,)) and isinstance(b, bool): return a == b
        if isinstance(a, (Opaque, ClsV, FuncV, BoundV, CO)) : return a == b
        if isinstance(a, (A1, A2, LV)) and type(a) is type(b):
            if same_val(a, b): return True
            return None
        return None
    def contains(self, st, a, b):
        if isinstance(b, tuple) or (isinstance(b, CO) and st.rec(b).kind == 'list'):
            items = list(b) if isinstance(b, tuple) else st.rec(b).f
            rs = [self.compare(st, ast.Eq(), a, w) for w in items]
            if all(isinstance(r, bool) for r in rs): return any(rs)
            if all(is_bool(r) for r in rs): return z3.Or(*[TB(r) for r in rs])
            return fbool('in')
        if isinstance(b, CO) and st.rec(b).kind == 'dict':
            return a in st.rec(b).f
        if isinstance(b, str) and isinstance(a, str): return a in b
        if is_num(a) and isinstance(b, A1) and b.mask is None and b.dt in 'if':
            # membership: exact in both directions through a witness
            r = fbool('in'); w = fint('inw'); c = st.vec(b); k = z3.Int('k!in')
            t = Td(a, b.dt) if b.dt == 'f' or T(a).sort() == I else None
            if t is None: return r
            st.add(z3.Implies(r, z3.And(0 <= w, w < b.n, c[w] == t)), z3.ForAll([k], z3.Implies(z3.And(z3.Not(r), 0 <= k, k < b.n), c[k] != t), patterns=[c[k]]))
            return r
        return fbool('in')

    # ---------------- subscripts
    def get_item(self, st, o, i):
        if o is UNK: return UNK
        if o is None: raise Dead()
        if isinstance(o, tuple):
            if isinstance(i, int):
                if -len(o) <= i < len(o): return o[i]
                raise Dead()
            if isinstance(i, SliceV): return o[self.cslice(i)]
            return self.pick(st, list(o), i)
        if isinstance(o, CO):
            r = st.rec(o)
            if r.kind == 'dict':
                if is_z(i): raise Unsupported('symbolic dict key')
                if i in r.f: return r.f[i]
                raise Dead()
            if r.kind == 'list':
                if isinstance(i, bool): i = int(i)
                if isinstance(i, int):
                    if -len(r.f) <= i < len(r.f): return r.f[i]
                    raise Dead()
                if isinstance(i, SliceV):
                    try: return st.newrec('list', None, r.f[self.cslice(i)])
                    except Unsupported:
                        return self.get_item(st, LV(self.lvkey(st, o), False), i)
                return self.pick(st, r.f, i)
            raise Unsupported('subscript of %s' % r.kind)
        if isinstance(o, IdxOf):
            if isinstance(i, int) and i == 0: 
                # first hit of the mask; undefined (IndexError) when there is none
                m = o.mask; k = fint('hit'); c = st.vec(m)
                st.add(k >= 0, k < m.n, c[k]); q = z3.Int('k!h')
                return self.mark_nn(k)
            return fint('hit')
        if isinstance(i, IdxOf): i = i.mask
        if isinstance(i, tuple) and len(i) == 1: return self.get_item(st, o, i[0])
        if isinstance(o, LV):
            cl = st.arrs[o.key]
            if is_num(i) or is_bool(i) and not isinstance(i, bool):
                return self.list_elem(st, cl, self.index(st, i, cl.n))
            if isinstance(i, SliceV):
                lo, n = self.slice_bounds(st, i, cl.n)
                if lo is None: return self.gather_lv(st, cl, self.fresh_sel(st, n, cl.n), n, o.nd)
                r = self.gather_lv(st, cl, lambda k: k + lo, n, o.nd)
                if o.nd: self.ro.add(r.key)
                return r
            if isinstance(i, (A1, CO, LV)):
                if isinstance(i, A1) and i.dt == 'b':
                    n = fint('cnt'); st.add(n >= 0, n <= cl.n)
                    return self.gather_lv(st, cl, self.mask_sel(st, i, n, cl.n), n, True)
                f, n = self.sel_of(st, i, cl.n)
                return self.gather_lv(st, cl, f, n, True)
            if i is UNK: return UNK
            raise Unsupported('list index %r' % (i,))
        if isinstance(o, AN): return self.an_get(st, o, i)
        if isinstance(o, A1):
            if isinstance(i, tuple):
                if len(i) == 2 and any(x is None for x in i):
                    r = st.new2(o.n, 1, o.dt) if i[1] is None else st.new2(1, o.n, o.dt)
                    return r
                raise Unsupported('2-d index of 1-d array')
            if is_num(i) or is_bool(i):
                if o.mask is not None: return {'f': freal, 'i': fint, 'b': fbool}[o.dt]('mk')
                j = self.index(st, i, o.n)
                return self.rd1(st, o, j)
            if isinstance(i, SliceV):
                if i.lo is None and i.hi is None and i.step is None: return o
                if o.mask is not None: return UNK
                lo, n = self.slice_bounds(st, i, o.n)
                if lo is None:
                    r = st.new1(n, o.dt); self.ro.add(r.key); return r
                off = lo if isinstance(o.off, int) and o.off == 0 else o.off + lo
                if z3.is_int_value(T(lo)) and T(lo).as_long() == 0 and isinstance(o.off, int): off = 0
                return A1(o.key, o.ref, o.row, off if not isinstance(off, int) or off == 0 else z3.IntVal(off), n, o.dt)
            if isinstance(i, A1) and i.dt == 'b':
                return self.masked(st, o, i)
            if isinstance(i, (A1, CO, LV)):
                f, n = self.sel_of(st, i, o.n)
                c = st.vec(o)
                return st.new1(n, o.dt, self.gat(st, c, n, f))
            if i is None: return st.new2(1, o.n, o.dt)
            if i is UNK: return UNK
            if i == '...': return o
            raise Unsupported('index %r' % (i,))
        if isinstance(o, A2):
            if isinstance(i, tuple) and len(i) == 2:
                a, b = i
                if (is_num(a)) and is_num(b):
                    ra = self.index(st, a, o.n); cb = self.index(st, b, o.cols)
                    return self.rd2(st, o, ra, cb)
                if is_num(a) and isinstance(b, SliceV):
                    row = self.get_item(st, o, a)
                    return self.get_item(st, row, b)
                if is_num(a): 
                    return self.get_item(st, self.get_item(st, o, a), b)
                if isinstance(a, SliceV) and a.lo is None and a.hi is None and a.step is None and is_num(b):
                    j = self.index(st, b, o.cols); c = st.mat(o)
                    r = st.new1(o.n, o.dt, self.fa(st, o.n, lambda k: c[k][j], o.dt)); self.ro.add(r.key); return r
                if isinstance(a, SliceV) and isinstance(b, SliceV) and b.lo is None and b.hi is None and b.step is None:
                    return self.get_item(st, o, a)
                if isinstance(a, (A1, CO, LV, IdxOf)) and isinstance(b, SliceV) and b.lo is None and b.hi is None and b.step is None:
                    return self.get_item(st, o, a)
                if isinstance(a, SliceV) and isinstance(b, SliceV):
                    _, n1 = self.slice_bounds(st, a, o.n); _, n2 = self.slice_bounds(st, b, o.cols)
                    r = st.new2(n1, n2, o.dt); self.ro.add(r.key); return r
                return self.an_get(st, AN((o.n, o.cols), o.dt, True), i) if o.mask is None else UNK
            if isinstance(i, tuple): return self.an_get(st, AN((o.n, o.cols), o.dt, True), i) if o.mask is None else UNK
            if is_num(i):
                if o.mask is not None: return UNK
                j = self.index(st, i, o.n)
                row = j if isinstance(o.off, int) and o.off == 0 else j + o.off
                return A1(o.key, o.ref, row, 0, o.cols, o.dt)
            if isinstance(i, SliceV):
                if i.lo is None and i.hi is None and i.step is None: return o
                lo, n = self.slice_bounds(st, i, o.n)
                if lo is None:
                    c = st.mat(o); f = self.fresh_sel(st, n, o.n)
                    r = st.new2(n, o.cols, o.dt, self.gat(st, c, n, f)); self.ro.add(r.key); return r
                off = lo if isinstance(o.off, int) and o.off == 0 else o.off + lo
                if z3.is_int_value(T(lo)) and T(lo).as_long() == 0 and isinstance(o.off, int): off = 0
                return A2(o.key, o.ref, off if not isinstance(off, int) or off == 0 else z3.IntVal(off), n, o.cols, o.dt)
            if isinstance(i, A1) and i.dt == 'b':
                return self.masked(st, o, i)
            if isinstance(i, (A1, CO, LV)):
                f, n = self.sel_of(st, i, o.n)
                c = st.mat(o)
                return st.new2(n, o.cols, o.dt, self.gat(st, c, n, f))
            if isinstance(i, A2): return UNK
            if i is UNK: return UNK
            raise Unsupported('index %r' % (i,))
        if isinstance(o, str): return '<str>'
        if is_num(o): raise Dead()
        raise Unsupported('subscript of %r' % (o,))
    def lvkey(self, st, o):
        cl = self.lv_of(st, o)
        return st.newlist(cl.ek, cl.n, cl.c).key
    def cslice(self, s):
        vs = (s.lo, s.hi, s.step)
        if all(v is None or isinstance(v, int) for v in vs): return slice(*vs)
        raise Unsupported('symbolic slice')
    def pick(self, st, items, i):
        if not is_z(i) and not is_bool(i): raise Unsupported('index %r' % (i,))
        if not items: raise Dead()
        n = len(items)
        j = self.index(st, i, z3.IntVal(n))
        if all(is_num(v) for v in items):
            r = T(items[-1])
            ts = [T(v) for v in items]
            if any(t.sort() == R for t in ts): ts = [TR(t) for t in ts]
            r = ts[-1]
            for k in range(n - 2, -1, -1): r = z3.If(j == k, ts[k], r)
            return r
        if n > 8: raise Unsupported('symbolic choice among many')
        return Un([(j == k, items[k]) for k in range(n)])
    def slice_bounds(self, st, s, n):
        """(lo, length); lo None for a stepped slice"""
        def norm(v, dflt):
            if v is None: return dflt
            if isinstance(v, int):
                if v >= 0: return zmin(z3.IntVal(v), n) if not (v == 0) else z3.IntVal(0)
                return zmax(n + v, z3.IntVal(0))
            v = TI(v)
            if same_term(v, n): return n
            w = v if self.is_nn(v) else z3.If(v < 0, zmax(v + n, z3.IntVal(0)), v)
            return zmin(w, n)
        if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
            m = fint('sl'); st.add(m >= 0, m <= n)
            if isinstance(s.step, int) and s.step == -1 and s.lo is None and s.hi is None: return None, n
            return None, m
        lo, hi = norm(s.lo, z3.IntVal(0)), norm(s.hi, n)
        ln = z3.simplify(hi - lo)
        if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0 and (hi is n or True):
            # hi is in [0, n] by construction
            L = z3.simplify(hi)
            if not (z3.is_int_value(L) or L.eq(n)):
                t = fint('n'); st.add(t == L, t >= 0); return 0, self.mark_nn(t)
            return 0, L
        t = fint('n'); st.add(t == z3.If(ln < 0, z3.IntVal(0), ln))
        l2 = fint('lo'); st.add(l2 == lo, l2 >= 0)
        self.mark_nn(t); self.mark_nn(l2)
        return l2, t
    def fresh_sel(self, st, n, m):
        f = z3.Function('sel!%d' % nextid(), I, I); k = z3.Int('k!s')
        st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= f(k), f(k) < m)), patterns=[f(k)]))
        return f
    def mask_sel(self, st, mask, n, m):
        c = st.vec(mask)
        key = ('mask', c.get_id(), m.get_id()); self.keep.append((c, m))
        f = self.fresh_sel(st, n, m); k = z3.Int('k!s')
        st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), c[f(k)]), patterns=[f(k)]))
        return f
    def sel_of(self, st, i, m):
        """index array -> (function position->row, length); in-range by partial correctness"""
        if not isinstance(i, A1):
            i = self.asarray(st, i)
            if not isinstance(i, A1): raise Unsupported('index array')
        if i.mask is not None: raise Unsupported('masked index array')
        if i.dt == 'f': raise Dead()
        c = st.vec(i); k = z3.Int('k!s')
        if c.get_id() in self.nn:
            st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i.n), z3.And(0 <= c[k], c[k] < m)), patterns=[c[k]]))
            return (lambda t: c[t]), i.n
        ck = ('norm', c.get_id(), m.get_id()); 
        d = self.selcache.get(ck)
        if d is None:
            d = fresh(AII, 'idx'); self.selcache[ck] = d; self.keep.append((c, m)); self.nn.add(d.get_id()); self.keep.append(d)
        st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i.n), z3.And(0 <= d[k], d[k] < m, d[k] == z3.If(c[k] < 0, c[k] + m, c[k]))), patterns=[d[k]]))
        return (lambda t: d[t]), i.n
    def gather_lv(self, st, cl, f, n, nd):
        if cl.ek[0] in ('unk', 'empty'): return st.newlist(cl.ek, n, cl.c, nd)
        return st.newlist(cl.ek, n, tuple(self.gat(st, c, n, f) for c in cl.c), nd)
    def masked(self, st, o, m):
        if o.mask is not None: return UNK
        r = self.copy(st, o); r.mask = st.vec(m)
        return r
    def rd1(self, st, a, j):
        o = st.obj_content(a)
        off = (lambda t: t) if isinstance(a.off, int) and a.off == 0 else (lambda t: t + a.off)
        if o is not None:
            c = o.c if isinstance(o, C1) else o.c[a.row]
            return c[off(j)]
        if a.dt != 'f': return {'i': fint, 'b': fbool}[a.dt]('lost')
        return st.H[a.ref][a.row if a.row is not None else z3.IntVal(0)][off(j)]
    def rd2(self, st, a, i, j):
        c = st.raw2(a)
        i = i if isinstance(a.off, int) and a.off == 0 else i + a.off
        return c[i][j]

    def guard_write(self, st, o):
        if getattr(o, 'key', None) in self.ro: raise Unsupported('write to a derived array whose aliasing is not tracked')
        self.x.contracts.on_write(self.x, st, o)
    def pos(self, st, n):
        if isinstance(n, (int, float)): return z3.IntVal(int(n))
        t = TI(n)
        return t

    def set_item(self, st, o, i, v):
        if o is UNK: return self.unk_write(st, o)
        if o is None: raise Dead()
        if isinstance(o, CO):
            r = st.wrec(o)
            if r.kind == 'dict':
                if is_z(i): raise Unsupported('symbolic dict key')
                r.f[i] = v; return
            if isinstance(i, int):
                if -len(r.f) <= i < len(r.f): r.f[i] = v; return
                raise Dead()
            if is_z(i):
                n = len(r.f)
                j = self.index(st, i, z3.IntVal(n))
                if all(is_num(w) for w in r.f) and is_num(v):
                    r.f = [ite(j == k, v, w) for k, w in enumerate(r.f)]; return
                for k in range(n):
                    r.f[k] = Un([(j == k, v), (z3.Not(j == k), r.f[k])])
                return
            raise Unsupported('list store')
        if isinstance(i, IdxOf): i = i.mask
        if isinstance(i, tuple) and len(i) == 1: i = i[0]
        if isinstance(i, IdxOf): i = i.mask
        if isinstance(o, LV):
            cl = st.arrs[o.key]
            if is_num(i): self.lv_write(st, o, self.index(st, i, cl.n), v); return
            if isinstance(i, SliceV) and i.lo is None and i.hi is None and isinstance(v, LV):
                c2 = st.arrs[v.key]; st.arrs[o.key] = CL(c2.ek, cl.n if o.nd else c2.n, c2.c); return
            if isinstance(i, A1) and i.dt == 'b' and isinstance(v, LV): 
                st.arrs[o.key] = CL(('unk',), cl.n, ()); return
            if isinstance(i, (A1, LV, CO)) and isinstance(v, (LV, CO)):
                src_ = self.lv_of(st, v)
                if self.compat(src_.ek, cl.ek):
                    hit, inv = self.scatter(st, i, cl.n)
                    st.arrs[o.key] = CL(cl.ek, cl.n, tuple(self.scat(st, a, b, hit, inv, cl.n) for a, b in zip(cl.c, src_.c))); return
            if isinstance(i, SliceV):
                lo, n = self.slice_bounds(st, i, cl.n)
                src_ = self.lv_of(st, v)
                if lo is not None and self.compat(src_.ek, cl.ek) and o.nd:
                    lo = T(lo)
                    def mk(a, b):
                        d = fresh(a.sort(), 'g'); k = z3.Int('k!e')
                        st.add(z3.ForAll([k], d[k] == z3.If(z3.And(k >= lo, k < lo + n), b[k - lo], a[k]), patterns=[d[k]])); return d
                    st.arrs[o.key] = CL(cl.ek, cl.n, tuple(mk(a, b) for a, b in zip(cl.c, src_.c))); return
            raise Unsupported('list store %r' % (i,))
        if isinstance(v, (CO, LV, tuple)) and isinstance(o, (A1, A2)): v = self.asarray(st, v)
        if isinstance(o, (A1, A2)) and v is None: raise Dead()
        if isinstance(o, A1):
            self.guard_write(st, o)
            if is_num(i) or (is_bool(i)):
                if isinstance(v, A1): v = self.rd1(st, v, z3.IntVal(0))
                if isinstance(v, AN): v = UNK
                if v is UNK: v = {'f': freal, 'i': fint, 'b': fbool}[o.dt]('u')
                if isinstance(v, ObjV): raise Unsupported('object into array')
                j = self.index(st, i, o.n)
                if not (isinstance(o.off, int) and o.off == 0): j = j + o.off
                base = A1(o.key, o.ref, o.row, 0, o.n, o.dt)
                st.put_row_object(base, z3.Store(st.vec(base), j, Td(v, o.dt)))
                return
            if isinstance(i, SliceV):
                w = self.get_item(st, o, i)
                if isinstance(w, A1) and (w.key == o.key):
                    self.assign_all(st, w, v); return
                self.havoc1(st, o); return
            if isinstance(i, A1) and i.dt == 'b':
                m = st.vec(i); c = st.vec(o)
                if is_num(v) or is_bool(v):
                    st.setvec(o, self.fa(st, o.n, lambda k: z3.If(m[k], Td(v, o.dt), c[k]), o.dt)); return
                if isinstance(v, A1) and v.mask is not None and v.mask.eq(m) and same_term(v.n, o.n):
                    d = st.vec(v)
                    st.setvec(o, self.fa(st, o.n, lambda k: z3.If(m[k], Td(d[k], o.dt), c[k]), o.dt)); return
                e = fresh(VS[o.dt], 'mk')
                st.setvec(o, self.fa(st, o.n, lambda k: z3.If(m[k], e[k], c[k]), o.dt)); return
            if isinstance(i, (A1, CO, LV)):
                hit, inv = self.scatter(st, i, o.n)
                if is_num(v) or is_bool(v): src_ = z3.K(I, Td(v, o.dt))
                elif isinstance(v, A1) and v.mask is None and v.dt == o.dt: src_ = st.vec(v)
                else: src_ = fresh(VS[o.dt], 'u')
                st.setvec(o, self.scat(st, st.vec(o), src_, hit, inv, o.n)); return
            if i is UNK: self.havoc1(st, o); return
            raise Unsupported('store index %r' % (i,))
        if isinstance(o, AN):
            if o.ro: raise Unsupported('write to a derived array whose aliasing is not tracked')
            return
        if isinstance(o, A2):
            self.guard_write(st, o)
            if isinstance(i, tuple) and len(i) == 2:
                a, b = i
                if isinstance(b, SliceV) and b.lo is None and b.hi is None and b.step is None and isinstance(a, (A1, CO, LV, IdxOf)):
                    self.set_item(st, o, a, v); return
                if is_num(a):
                    self.set_item(st, self.get_item(st, o, a), b, v); return
                c = st.mat(o)
                if isinstance(a, SliceV) and a.lo is None and a.hi is None and a.step is None and is_num(b) and isinstance(o.off, int):
                    j = self.index(st, b, o.cols)
                    if is_num(v): src_ = lambda r: Td(v, o.dt)
                    elif isinstance(v, A1) and v.mask is None: 
                        vv = st.vec(v); src_ = lambda r: Td(vv[r], o.dt)
                    else:
                        u = fresh(VS[o.dt], 'u'); src_ = lambda r: u[r]
                    st.setmat_raw(o, self.rows(st, o.n, lambda r: z3.Store(c[r], j, src_(r)), o.dt)); return
                self.havoc2(st, o); return
            if is_num(i):
                row = self.get_item(st, o, i)
                self.assign_all(st, row, v); return
            if not (isinstance(o.off, int) and o.off == 0):
                # windows: havoc the whole matrix
                self.havoc2(st, o); return
            if isinstance(i, A1) and i.dt == 'b':
                m = st.vec(i); c = st.mat(o)
                if isinstance(v, A2) and v.mask is not None and v.mask.eq(m) and v.dt == o.dt:
                    d = st.mat(v); st.setmat_raw(o, self.rows(st, o.n, lambda k: z3.If(m[k], d[k], c[k]), o.dt)); return
                if isinstance(v, A1) and v.mask is None and v.dt == o.dt and same_term(v.n, o.cols):
                    d = st.vec(v); st.setmat_raw(o, self.rows(st, o.n, lambda k: z3.If(m[k], d, c[k]), o.dt)); return
                e = fresh(MS[o.dt], 'mk')
                st.setmat_raw(o, self.rows(st, o.n, lambda k: z3.If(m[k], e[k], c[k]), o.dt)); return
            if isinstance(i, SliceV):
                lo, n = self.slice_bounds(st, i, o.n)
                c = st.mat(o)
                if lo is not None and isinstance(v, A2) and v.mask is None and v.dt == o.dt and same_term(v.cols, o.cols):
                    d = st.mat(v); lo = T(lo)
                    st.setmat_raw(o, self.rows(st, o.n, lambda k: z3.If(z3.And(k >= lo, k < lo + n), d[k - lo], c[k]), o.dt)); return
                if lo is not None and isinstance(v, A1) and v.dt == o.dt and same_term(v.n, o.cols):
                    d = st.vec(v); lo = T(lo)
                    st.setmat_raw(o, self.rows(st, o.n, lambda k: z3.If(z3.And(k >= lo, k < lo + n), d, c[k]), o.dt)); return
                self.havoc2(st, o); return
            if isinstance(i, (A1, CO, LV)) :
                hit, inv = self.scatter(st, i, o.n)
                if isinstance(v, A2) and v.mask is None and v.dt == o.dt: src_ = st.mat(v)
                elif isinstance(v, A1) and v.dt == o.dt and same_term(v.n, o.cols): src_ = z3.K(I, st.vec(v))
                else: src_ = fresh(MS[o.dt], 'u')
                st.setmat_raw(o, self.scat(st, st.mat(o), src_, hit, inv, o.n)); return
            self.havoc2(st, o); return
        if isinstance(o, IdxOf): raise Unsupported('store into index set')
        raise Unsupported('store into %r' % (o,))
    def unk_write(self, st, o):
        # an UNK value never aliases a tracked array (escaped arrays are only reachable through the symbolic heap)
        raise Unsupported('store into an unknown value')
    def havoc1(self, st, o): st.setvec(o, fresh(VS[o.dt], 'hv'))
    def havoc2(self, st, o): st.setmat_raw(o, fresh(MS[o.dt], 'hv'))
    def scatter(self, st, i, n):
        if not isinstance(i, A1): i = self.asarray(st, i)
        if not isinstance(i, A1) or i.dt != 'i': raise Unsupported('scatter index')
        f, m = self.sel_of(st, i, n)
        c = f(z3.IntVal(0)).arg(0)
        key = ('scat', c.get_id(), n.get_id())
        if key not in self.selcache:
            self.selcache[key] = (z3.Function('hit!%d' % nextid(), I, B), z3.Function('inv!%d' % nextid(), I, I)); self.keep.append((c, n))
        hit, inv = self.selcache[key]
        k = z3.Int('k!s')
        st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), hit(c[k])), patterns=[c[k]]),
               z3.ForAll([k], z3.Implies(hit(k), z3.And(0 <= inv(k), inv(k) < m, c[inv(k)] == k)), patterns=[hit(k)]))
        return hit, inv
    def scat(self, st, old, new, hit, inv, n):
        d = fresh(old.sort(), 'sc'); k = z3.Int('k!e')
        st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), d[k] == z3.If(hit(k), new[inv(k)], old[k])), patterns=[d[k]]))
        return d

    def assign_all(self, st, t, v):
        """t[:] = v"""
        if isinstance(t, AN):
            if t.ro: raise Unsupported('write to a derived array whose aliasing is not tracked')
            return
        self.guard_write(st, t)
        if isinstance(v, (CO, LV, tuple)): v = self.asarray(st, v)
        if isinstance(t, A1):
            if is_num(v) or is_bool(v): c = z3.K(I, Td(v, t.dt))
            elif isinstance(v, A1) and v.mask is None:
                c = st.vec(v)
                if v.dt != t.dt: c = self.fa(st, t.n, lambda k, c=c: c[k], t.dt)
                if not same_term(v.n, t.n):
                    st.add(z3.Or(v.n == t.n, v.n == 1))
                    n1 = v.n
                    c = self.fa(st, t.n, lambda k, c=c: z3.If(n1 == 1, c[0], c[k]), t.dt)
            else: c = fresh(VS[t.dt], 'u')
            st.setvec(t, c)
            return
        if not (isinstance(t.off, int) and t.off == 0):
            self.havoc2(st, t); return
        if isinstance(v, A2) and v.mask is None and v.dt == t.dt and same_term(v.n, t.n): st.setmat_raw(t, st.mat(v))
        elif isinstance(v, A1) and v.mask is None and v.dt == t.dt and same_term(v.n, t.cols): st.setmat_raw(t, z3.K(I, st.vec(v)))
        elif is_num(v): st.setmat_raw(t, z3.K(I, z3.K(I, Td(v, t.dt))))
        else: self.havoc2(st, t)

    # ---------------- lengths / iteration
    def length_t(self, st, v):
        if isinstance(v, (A1, A2)):
            if v.mask is not None:
                n = fint('cnt'); st.add(n >= 0, n <= v.n); return n
            return v.n
        if isinstance(v, AN): return v.shape[0]
        if isinstance(v, LV): return st.arrs[v.key].n
        if isinstance(v, tuple): return len(v)
        if isinstance(v, CO):
            r = st.rec(v)
            if r.kind in ('list', 'dict'): return len(r.f)
        if isinstance(v, ObjV) or (isinstance(v, CO) and st.rec(v).kind == 'inst'):
            return self.x.call_method(st, v, '__len__', [], {})
        if isinstance(v, str): return len(v)
        if v is UNK or isinstance(v, IdxOf):
            n = fint('len'); st.add(n >= 0); return self.mark_nn(n)
        if isinstance(v, IterV): return v.n
        if v is None or is_num(v): raise Dead()
        raise Unsupported('len of %r' % (v,))
    def length(self, st, v):
        if isinstance(v, Un): return self.x.split(st, v, self.length)
        n = self.length_t(st, v)
        if is_z(n):
            st.add(n >= 0)
            n2 = z3.simplify(n)
            if z3.is_int_value(n2): return n2.as_long()
            self.mark_nn(n)
        return n
    def iterate(self, st, v):
        if isinstance(v, IterV): return v
        if isinstance(v, tuple): return IterV(len(v), None, list(v))
        if isinstance(v, CO):
            r = st.rec(v)
            if r.kind == 'list': return IterV(len(r.f), None, list(r.f))
            if r.kind == 'dict': return IterV(len(r.f), None, list(r.f))
            raise Unsupported('iteration over %s' % r.kind)
        if isinstance(v, (A1, A2)):
            if v.mask is not None or v.n is None:
                n = fint('cnt'); st.add(n >= 0)
                return IterV(n, (lambda s, k: {'f': freal, 'i': fint, 'b': fbool}[v.dt]('it')) if isinstance(v, A1) else self._unsup)
            n = z3.simplify(v.n)
            nn = n.as_long() if z3.is_int_value(n) else v.n
            return IterV(nn, lambda s, k: self.raw_at(s, v, k))
        if isinstance(v, AN): return IterV(self.iv(v.shape[0]), lambda s, k: self.an_get(s, v, k))
        if isinstance(v, LV):
            n = st.arrs[v.key].n
            return IterV(n, lambda s, k: self.list_elem(s, s.arrs[v.key], k))
        if v is UNK:
            n = fint('cnt'); st.add(n >= 0); return IterV(n, lambda s, k: UNK)
        if isinstance(v, IdxOf):
            n = fint('cnt'); st.add(n >= 0)
            def g(s, k):
                t = fint('hit'); s.add(t >= 0, t < v.mask.n); 
                if v.mask.key in s.arrs: s.add(s.vec(v.mask)[t])
                return self.mark_nn(t)
            return IterV(n, g)
        if isinstance(v, ObjV): raise Unsupported('iteration over an object')
        if v is None or is_num(v): raise Dead()
        raise Unsupported('iteration over %r' % (v,))
    def _unsup(self, s, k): raise Unsupported('iteration over masked matrix')
    def raw_at(self, s, v, k):
        if isinstance(v, A1): return self.rd1(s, v, k)
        row = k if isinstance(v.off, int) and v.off == 0 else k + v.off
        return A1(v.key, v.ref, row, 0, v.cols, v.dt)

    # ---------------- concatenation etc.
    def demask(self, st, v):
        """a[mask] as an array of its own: the selected elements in order, their number unknown"""
        if not isinstance(v, (A1, A2)) or v.mask is None or v.n is None: return v
        m = v.mask; n = fint('cnt'); st.add(n >= 0, n <= v.n); self.mark_nn(n)
        f = self.fresh_sel(st, n, v.n); k = z3.Int('k!s')
        if is_z(m): st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), m[f(k)]), patterns=[f(k)]))
        if isinstance(v, A1): return st.new1(n, v.dt, self.gat(st, st.vec(v), n, f))
        c = st.mat(v)
        return st.new2(n, v.cols, v.dt, self.rows(st, n, lambda t: c[f(t)]))
    def concat(self, st, vs, nd=True):
        vs = [self.demask(st, v) for v in vs]
        if any(isinstance(v, AN) for v in vs):
            if all(isinstance(v, (AN, A1, A2)) and len(self.shp(v)) == len(self.shp(vs[0])) and not getattr(v, 'mask', None) for v in vs):
                n = self.shp(vs[0])[0]
                for v in vs[1:]: n = n + self.shp(v)[0]
                return self.mk_shape(st, (z3.simplify(n),) + tuple(self.shp(vs[0])[1:]), vs[0].dt)
            return UNK
        if all(isinstance(v, A1) and v.mask is None for v in vs):
            dt = 'f' if any(v.dt == 'f' for v in vs) else vs[0].dt
            c, n = st.vec(vs[0]), vs[0].n
            d0 = vs[0].dt
            for w in vs[1:]:
                e, m = st.vec(w), w.n; pre = c
                c = (lambda c, n, e: self.fa(st, n + m, lambda k: z3.If(k < n, Td(c[k], dt), Td(e[k - n], dt)), dt))(c, n, e)
                if dt == 'f':                 # where an element of a part is found in the whole
                    k = z3.Int('k!e')
                    for part, off, ln, pdt in ((pre, 0, n, d0), (e, n, m, w.dt)):
                        if pdt == 'f' and is_z(part) and z3.is_const(part) and part.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                            st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), c[off + k] == part[k]), patterns=[part[k]]))
                d0 = dt
                n = z3.simplify(n + m)
            return st.new1(n, dt, c)
        if all(isinstance(v, A2) and v.mask is None and v.dt == 'f' for v in vs):
            c, n = st.mat(vs[0]), vs[0].n
            for w in vs[1:]:
                e, m = st.mat(w), w.n
                c = (lambda c, n, e: self.rows(st, n + m, lambda k: z3.If(k < n, c[k], e[k - n])))(c, n, e)
                n = z3.simplify(n + m)
            return st.new2(n, vs[0].cols, 'f', c)
        if any(isinstance(v, (LV, CO, tuple)) for v in vs):
            cls = [self.lv_of(st, v) for v in vs]
            r = cls[0]
            for e in cls[1:]:
                if r.ek == ('empty',): r = CL(e.ek, e.n, e.c); continue
                if e.ek == ('empty',): continue
                if not self.compat(r.ek, e.ek):
                    if {r.ek, e.ek} == {('f',), ('i',)}:
                        r, e = self.conv_cl(st, r, ('f',)), self.conv_cl(st, e, ('f',))
                    else:
                        r = CL(('unk',), r.n + e.n, ()); continue
                n, m = r.n, e.n
                comps = []
                for a, b in zip(r.c, e.c):
                    d = fresh(a.sort(), 'cat'); k = z3.Int('k!e')
                    st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n + m), d[k] == z3.If(k < n, a[k], b[k - n])), patterns=[d[k]]))
                    comps.append(d)
                r = CL(r.ek, z3.simplify(n + m), tuple(comps))
            lst = st.newlist(r.ek, r.n, r.c, nd)
            if nd and r.ek[0] in ('f', 'i', 'vec'): return self.asarray(st, lst)
            return lst
        return UNK
    def mean_of(self, st, Mx, n, cols):
        r = st.new1(cols, 'f')
        c = st.vec(r); w = fint('mw')
        st.add(z3.Or(FEAS(c), z3.And(0 <= w, w < n, z3.Not(FEAS(Mx[w])))))
        self.x.assumed.add('lemma: the mean of feasible rows is feasible (induction over the rows, discharged in lemmas.py)')
        return r

    # ---------------- attributes of array-like values
    def val_attr(self, st, v, name):
        if is_num(v) or is_bool(v):
            if name in ('size',): return 1
            if name == 'shape': return ()
            if name == 'T': return v
            return ExtV('num.' + name, v)
        if isinstance(v, str): return ExtV('str.' + name, v)
        if isinstance(v, A1):
            if name in ('size',): return self.length(st, v)
            if name == 'shape': return (self.length(st, v),)
            if name == 'ndim': return 1
            if name == 'T': return v
            if name == 'dtype': return Opaque('dtype')
            return ExtV('arr.' + name, v)
        if isinstance(v, A2):
            if name == 'shape': return (self.length(st, v), self.iv(v.cols))
            if name == 'ndim': return 2
            if name == 'size': return fint('size')
            if name == 'T': 
                c = st.mat(v) if v.mask is None else None
                r = st.new2(v.cols, v.n, v.dt) if c is None else st.new2(v.cols, v.n, v.dt, self.fm(st, v.cols, v.n, lambda i, k: c[k][i], v.dt))
                self.ro.add(r.key); return r
            if name == 'dtype': return Opaque('dtype')
            return ExtV('arr.' + name, v)
        if isinstance(v, AN):
            if name == 'shape': return tuple(self.iv(q) for q in v.shape)
            if name == 'ndim': return len(v.shape)
            if name == 'size': return fint('size')
            if name == 'T': return AN(tuple(reversed(v.shape)), v.dt, v.ro)
            if name == 'dtype': return Opaque('dtype')
            return ExtV('arr.' + name, v)
        if isinstance(v, LV):
            if v.nd and name == 'shape': return (self.length(st, v),)
            if v.nd and name == 'size': return self.length(st, v)
            return ExtV('list.' + name, v)
        if isinstance(v, (tuple,)): return ExtV('tuple.' + name, v)
        if isinstance(v, (FuncV, BoundV)):
            if name == '__name__': return '<name>'
            raise Unsupported('function attribute')
        if isinstance(v, IdxOf):
            if name in ('size',): return self.length(st, v)
            return ExtV('idx.' + name, v)
        if v is UNK: return UNK
        raise Unsupported('attribute %s of %r' % (name, v))
    def iv(self, n):
        n2 = z3.simplify(n)
        return n2.as_long() if z3.is_int_value(n2) else n
    CONST = {'numpy.inf': float('inf'), 'numpy.pi': 3.141592653589793, 'math.pi': 3.141592653589793, 'numpy.e': 2.718281828459045, 'math.e': 2.718281828459045,
             'math.inf': float('inf'), 'numpy.newaxis': None, 'numpy.nan': float('nan')}
    def ext_attr(self, st, o, name):
        if o.recv is not None: 
            return ExtV(o.name + '.' + name, o.recv)
        q = o.name + '.' + name
        if q in self.CONST: return self.CONST[q]
        return ExtV(q)
    def opaque_attr(self, st, o, name):
        if o.name == 'dtype': return Opaque('dtype')
        if o.name == 'finfo':
            r = freal('eps'); st.add(r > 0, r < 1); return r
        return ExtV('opaque:%s.%s' % (o.name, name), o)
    def call_opaque(self, st, o, args, kw, n):
        return self.x.contracts.call_opaque(self.x, st, o, args, kw, n)

    # ---------------- external calls
    def call_ext(self, st, f, args, kw, n):
        # unions in arguments are split first
        for i, a in enumerate(args):
            if isinstance(a, Un):
                return self.x.split(st, a, lambda s, w: self.call_ext(s, f, args[:i] + [w] + args[i + 1:], kw, n))
        for k, a in kw.items():
            if isinstance(a, Un):
                return self.x.split(st, a, lambda s, w: self.call_ext(s, f, args, {**kw, k: w}, n))
        name = f.name
        c = self.x.contracts.ext(self.x, st, f, args, kw, n)
        if c is not NotImplemented: return c
        if name.startswith('numpy.'): name2 = 'np_' + name[6:].replace('.', '_')
        elif name.startswith('builtins.'): name2 = 'b_' + name[9:]
        elif name.startswith('math.'): name2 = 'np_' + name[5:]
        elif name.startswith('arr.'): name2 = 'm_' + name[4:]
        elif name.startswith('list.'): name2 = 'l_' + name[5:]
        elif name.startswith('dict.'): name2 = 'd_' + name[5:]
        elif name.startswith('opaque:'): return self.call_opaque_method(st, f, args, kw, n)
        elif name.startswith('num.'): name2 = 'n_' + name[4:]
        elif name.startswith('str.'): return '<str>'
        elif name.startswith('idx.'): name2 = 'i_' + name[4:]
        elif name.startswith('tuple.'): name2 = 't_' + name[6:]
        elif name.startswith('object.'): return None
        elif name in ('copy.deepcopy', 'copy.copy'): name2 = 'c_' + name[5:]
        elif name.startswith('warnings.') or name.startswith('logging.'): return None
        else: name2 = 'x_' + name.replace('.', '_')
        m = getattr(self, name2, None)
        if m is None: raise Unsupported('external call %s at line %s' % (name, getattr(n, 'lineno', '?')))
        self.x.assumed.add('contract of ' + name)
        if f.recv is not None and not name.startswith('opaque'):
            return m(st, f.recv, *args, **kw)
        return m(st, *args, **kw)
    def call_opaque_method(self, st, f, args, kw, n):
        o = f.recv; meth = f.name.split('.')[-1]
        if o.name == 'rng':
            m = getattr(self, 'r_' + meth, None)
            if m is None: raise Unsupported('rng.%s' % meth)
            self.x.assumed.add('contract of numpy.random.Generator.' + meth)
            return m(st, *args, **kw)
        if o.name == 'callbacks': return None
        if o.name == 'logger': return None
        if o.name == 'dtype': return Opaque('dtype')
        return self.x.contracts.call_opaque_method(self.x, st, o, meth, args, kw, n)

    # --- sizes
    def shape_of(self, st, size):
        if size is None: return None
        if isinstance(size, CO): size = tuple(st.rec(size).f)
        if isinstance(size, tuple):
            return tuple(self.dimt(st, s) for s in size)
        if isinstance(size, (A1,)):
            return UNK
        if size is UNK: return UNK
        return (self.dimt(st, size),)
    def dimt(self, st, s):
        if isinstance(s, bool): s = int(s)
        if isinstance(s, float): raise Dead()
        if isinstance(s, int):
            if s < 0: raise Dead()
            return z3.IntVal(s)
        t = TI(s); st.add(t >= 0)
        return t
    def new_shape(self, st, shape, dt, fact=None):
        """array of the given shape; fact(term) is assumed for every element"""
        if shape is UNK: return UNK
        if shape is None or len(shape) == 0:
            r = {'f': freal, 'i': fint, 'b': fbool}[dt]('s')
            if fact is not None: st.add(fact(r))
            return r
        if len(shape) == 1:
            r = st.new1(shape[0], dt); c = st.vec(r); k = z3.Int('k!e')
            if fact is not None: st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < shape[0]), fact(c[k])), patterns=[c[k]]))
            return r
        if len(shape) == 2:
            r = st.new2(shape[0], shape[1], dt); c = st.mat(r); i, k = z3.Ints('i!e k!e')
            if fact is not None: st.add(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < shape[0], 0 <= k, k < shape[1]), fact(c[i][k])), patterns=[c[i][k]]))
            return r
        return AN(shape, dt)
    # --- rng
    def r_random(self, st, size=None, **kw): return self.new_shape(st, self.shape_of(st, size), 'f', lambda t: z3.And(t >= 0, t < 1))
    def r_standard_normal(self, st, size=None): return self.new_shape(st, self.shape_of(st, size), 'f')
    def r_normal(self, st, loc=0.0, scale=1.0, size=None):
        sh = self.shape_of(st, size)
        if sh is None:
            return self.elem(st, None, [loc, scale], 'f')
        return self.new_shape(st, sh, 'f')
    def r_exponential(self, st, scale=1.0, size=None): return self.new_shape(st, self.shape_of(st, size), 'f', lambda t: t >= 0)
    r_standard_cauchy = r_standard_normal
    def r_uniform(self, st, low=0.0, high=1.0, size=None):
        sh = self.shape_of(st, size)
        low, high = self.as_arr(st, low), self.as_arr(st, high)
        if low is UNK or high is UNK:
            return self.new_shape(st, sh, 'f') if sh is not None else UNK
        def between(t, l, h):
            l, h = TR(l), TR(h)
            return z3.And(z3.Implies(l <= h, z3.And(l <= t, t <= h)), z3.Implies(h <= l, z3.And(h <= t, t <= l)))
        if sh is None:
            if not isinstance(low, (A1, A2)) and not isinstance(high, (A1, A2)):
                r = freal('u'); st.add(between(r, low, high)); return r
            tmp = self.elem(st, None, [low, high], 'f')
            if tmp is UNK: return UNK
            sh = (tmp.n,) if isinstance(tmp, A1) else (tmp.n, tmp.cols)
            r = tmp
        else:
            r = self.new_shape(st, sh, 'f')
            if sh is UNK or len(sh) > 2: return UNK
        k, i = z3.Ints('k!e i!e')
        if isinstance(r, A1):
            c = st.vec(r)
            ok = all(not isinstance(v, A2) and (not isinstance(v, A1) or (same_term(v.n, r.n))) for v in (low, high))
            if ok:
                l, h = [st.vec(v) if isinstance(v, A1) else None for v in (low, high)]
                st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r.n), between(c[k], l[k] if l is not None else low, h[k] if h is not None else high)), patterns=[c[k]]))
            m = [v.mask for v in (low, high) if isinstance(v, A1) and v.mask is not None]
            if m: r.mask = m[0]
        elif isinstance(r, A2):
            c = st.mat(r)
            ok = all(not isinstance(v, A1) or same_term(v.n, r.cols) for v in (low, high)) and all(not isinstance(v, A2) or (same_term(v.n, r.n) and same_term(v.cols, r.cols)) for v in (low, high))
            if ok:
                def at(v, cc):
                    if isinstance(v, A1): return cc[k]
                    if isinstance(v, A2): return cc[i][k]
                    return v
                l, h = [self.content(st, v) if isinstance(v, (A1, A2)) else None for v in (low, high)]
                st.add(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < r.n, 0 <= k, k < r.cols), between(c[i][k], at(low, l), at(high, h))), patterns=[c[i][k]]))
            m = [v.mask for v in (low, high) if isinstance(v, A2) and v.mask is not None]
            if m: r.mask = m[0]
        else:
            if not isinstance(low, (A1, A2)) and not isinstance(high, (A1, A2)): st.add(between(r, low, high))
        return r
    def r_integers(self, st, low, high=None, size=None, endpoint=False, **kw):
        if high is None: low, high = 0, low
        sh = self.shape_of(st, size)
        low, high = self.as_arr(st, low), self.as_arr(st, high)
        if sh is None and isinstance(low, (A1, A2)) or isinstance(high, (A1, A2)):
            r = self.elem(st, None, [low, high], 'i'); return r
        if low is UNK or high is UNK: 
            return self.new_shape(st, sh, 'i')
        lo, hi = TI(low), TI(high)
        st.add(lo < hi if not endpoint else lo <= hi)
        r = self.new_shape(st, sh, 'i', lambda t: z3.And(t >= lo, (t < hi) if not endpoint else (t <= hi)))
        if self.is_nn(low):
            if isinstance(r, A1): self.mark_nn(st.vec(r))
            elif is_z(r): self.mark_nn(r)
        return r
    def r_choice(self, st, a, size=None, replace=True, p=None, axis=0, **kw):
        sh = self.shape_of(st, size)
        if is_num(a):
            n = TI(a); st.add(n >= 1)
            r = self.new_shape(st, sh, 'i', lambda t: z3.And(t >= 0, t < n))
            if isinstance(r, A1): self.mark_nn(st.vec(r))
            elif is_z(r): self.mark_nn(r)
            if isinstance(r, A1) and replace is False:
                c = st.vec(r); i, j = z3.Ints('i!e j!e')
                st.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < r.n), c[i] != c[j]), patterns=[z3.MultiPattern(c[i], c[j])]), r.n <= n)
            return r
        if a is UNK: return self.new_shape(st, sh, 'i') if False else UNK
        if isinstance(a, IdxOf):
            if sh is None: return self.iterate(st, a).get(st, None)
            n = a.mask.n
            r = self.new_shape(st, sh, 'i', lambda t: z3.And(t >= 0, t < n)); self.mark_nn(st.vec(r)); return r
        n = self.length(st, a)
        st.add(T(n) >= 1)
        if sh is None or len(sh) == 0:
            i = fint('ch'); st.add(i >= 0, i < T(n)); self.mark_nn(i)
            v = self.get_item(st, a, i)
            if isinstance(v, A1) and isinstance(a, A2): return self.copy(st, v)
            return v
        if len(sh) == 1:
            c = fresh(AII, 'chs'); self.mark_nn(c); k = z3.Int('k!e')
            st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < sh[0]), z3.And(c[k] >= 0, c[k] < T(n))), patterns=[c[k]]))
            idx = st.new1(sh[0], 'i', c)
            if isinstance(a, tuple) or isinstance(a, CO): a = self.asarray(st, a)
            if a is UNK: return UNK
            return self.get_item(st, a, idx)
        return UNK
    def perm(self, st, n):
        p = fresh(AII, 'perm'); q = fresh(AII, 'inv'); k = z3.Int('k!e')
        st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= p[k], p[k] < n, q[p[k]] == k)), patterns=[p[k]]),
               z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= q[k], q[k] < n, p[q[k]] == k)), patterns=[q[k]]))
        self.mark_nn(p); self.mark_nn(q)
        return p, q
    def link(self, st, p, q, c, n):
        """reads of c[k] make q[k] visible (so that facts about permuted content reach the original)"""
        k = z3.Int('k!e')
        st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), p[q[k]] == k), patterns=[c[k]]))
    def r_permutation(self, st, a, axis=0):
        if is_num(a):
            n = TI(a); p, q = self.perm(st, n); return st.new1(n, 'i', p)
        n = T(self.length(st, a)); p, q = self.perm(st, n)
        r = self.get_item(st, self.asarray(st, a), st.new1(n, 'i', p))
        return r
    def r_shuffle(self, st, a, axis=0):
        n = T(self.length(st, a))
        if isinstance(a, CO):
            if all(is_num(v) for v in st.rec(a).f):
                r = st.wrec(a); m = len(r.f); p, q = self.perm(st, z3.IntVal(m))
                old = list(r.f); r.f[:] = [self.pick(st, old, p[k]) for k in range(m)]; return None
            raise Unsupported('shuffle')
        p, q = self.perm(st, n)
        if isinstance(a, A1): self.guard_write(st, a); st.setvec(a, self.gat(st, st.vec(a), n, lambda k: p[k]))
        elif isinstance(a, A2): self.guard_write(st, a); st.setmat_raw(a, self.gat(st, st.mat(a), n, lambda k: p[k]))
        elif isinstance(a, LV):
            cl = st.arrs[a.key]; st.arrs[a.key] = CL(cl.ek, cl.n, tuple(self.gat(st, c, n, lambda k: p[k]) for c in cl.c))
        else: raise Unsupported('shuffle')
        return None

    # --- creation
    def dt_of(self, st, dtype, dflt='f'):
        if dtype is None: return dflt
        s = dtype if isinstance(dtype, str) else (dtype.name if isinstance(dtype, (ExtV, Opaque)) else (dtype.cls.name if isinstance(dtype, ClsV) else str(dtype)))
        if 'object' in s: return 'o'
        if 'int' in s: return 'i'
        if 'bool' in s: return 'b'
        return 'f'
    def filled(self, st, shape, dt, val):
        sh = self.shape_of(st, shape)
        if dt == 'o':
            if sh is UNK or len(sh) != 1: return UNK
            return st.newlist(('empty',), sh[0], (), True)
        if sh is UNK: return UNK
        if len(sh) == 1: return st.new1(sh[0], dt, z3.K(I, Td(val, dt)))
        if len(sh) == 2: return st.new2(sh[0], sh[1], dt, z3.K(I, z3.K(I, Td(val, dt))))
        return AN(sh, dt)
    def np_zeros(self, st, shape, dtype=None, **kw):
        dt = self.dt_of(st, dtype); return self.filled(st, shape, dt, False if dt == 'b' else 0)
    def np_ones(self, st, shape, dtype=None, **kw):
        dt = self.dt_of(st, dtype); return self.filled(st, shape, dt, True if dt == 'b' else 1)
    def np_empty(self, st, shape, dtype=None, **kw):
        dt = self.dt_of(st, dtype)
        if dt == 'o': return self.filled(st, shape, 'o', 0)
        return self.new_shape(st, self.shape_of(st, shape), dt)
    def np_full(self, st, shape, fill_value, dtype=None, **kw):
        if isinstance(fill_value, (A1, CO, LV, tuple)) or fill_value is UNK:
            fv = self.asarray(st, fill_value)
            sh = self.shape_of(st, shape)
            if isinstance(fv, A1) and len(sh) == 2: return st.new2(sh[0], sh[1], fv.dt, z3.K(I, st.vec(fv)))
            return self.new_shape(st, sh, 'f')
        dt = self.dt_of(st, dtype, 'b' if is_bool(fill_value) else ('i' if (isinstance(fill_value, int) or (is_z(fill_value) and fill_value.sort() == I)) else 'f'))
        if dt == 'o': return self.filled(st, shape, 'o', 0)
        if fill_value is None: return self.filled(st, shape, 'o', 0)
        return self.filled(st, shape, dt, fill_value)
    def like(self, st, a, val, dtype=None):
        a = self.as_arr(st, a)
        if is_num(a): return val
        if a is UNK: return UNK
        dt = self.dt_of(st, dtype, a.dt)
        if isinstance(a, AN): return self.mk_shape(st, a.shape, dt)
        if isinstance(a, A1): return st.new1(a.n, dt, z3.K(I, Td(val, dt)) if val is not None else None)
        return st.new2(a.n, a.cols, dt, z3.K(I, z3.K(I, Td(val, dt))) if val is not None else None)
    def np_zeros_like(self, st, a, dtype=None, **kw): return self.like(st, a, 0, dtype)
    def np_ones_like(self, st, a, dtype=None, **kw): return self.like(st, a, 1, dtype)
    def np_empty_like(self, st, a, dtype=None, **kw): return self.like(st, a, None, dtype)
    def np_full_like(self, st, a, v, dtype=None, **kw): return self.like(st, a, v, dtype)
    def np_arange(self, st, a, b=None, step=None, dtype=None, **kw):
        if b is None: a, b = 0, a
        if step is None and all(isinstance(v, int) or (is_z(v) and v.sort() == I) for v in (a, b)):
            n = z3.simplify(zmax(TI(b) - TI(a), z3.IntVal(0)))
            t = fint('n'); st.add(t == n)
            c = self.fa(st, t, lambda k: k + TI(a), 'i')
            if self.is_nn(a): self.mark_nn(c)
            if isinstance(a, int) and isinstance(b, int) and 0 < b - a <= 64: self.cvals[c.get_id()] = tuple(range(a, b)); self.keep.append(c)
            return st.new1(t if not z3.is_int_value(n) else n, 'i', c)
        t = fint('n'); st.add(t >= 0)
        return st.new1(t, 'i' if step is not None and isinstance(step, int) else 'f')
    def np_linspace(self, st, a, b, num=50, **kw): return self.new_shape(st, self.shape_of(st, num), 'f')
    def np_asarray(self, st, v, dtype=None, **kw):
        r = self.asarray(st, v)
        if dtype is not None and isinstance(r, (A1, A2)): return self.cast(st, r, self.dt_of(st, dtype))
        return r
    def np_array(self, st, v, dtype=None, copy=True, **kw):
        r = self.asarray(st, v, copy=True)
        if dtype is not None and isinstance(r, (A1, A2)): return self.cast(st, r, self.dt_of(st, dtype))
        return r
    np_ascontiguousarray = np_asarray
    def np_copy(self, st, v, **kw): return self.copy(st, self.as_arr(st, v) if not isinstance(v, LV) else v)
    def cast(self, st, a, dt):
        if dt == 'o': return a
        if isinstance(a, AN): return self.mk_shape(st, a.shape, dt)
        if isinstance(a, (A1, A2)):
            if a.dt == dt: return self.copy(st, a)
            if dt == 'f': return self.elem(st, lambda t: TR(t), [a], 'f')
            if dt == 'i': return self.elem(st, (lambda t: self.trunc(TR(t))) if a.dt == 'f' else (lambda t: TI(t)), [a], 'i')
            return self.elem(st, lambda t: TB(t), [a], 'b')
        return a
    def trunc(self, t):
        return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
    def np_concatenate(self, st, vs, axis=0, **kw):
        vs = list(vs) if isinstance(vs, tuple) else list(st.rec(vs).f) if isinstance(vs, CO) else None
        if vs is None: return UNK
        vs = [v if isinstance(v, LV) else self.as_arr(st, v) for v in vs]
        if isinstance(axis, int) and axis == 0: return self.concat(st, vs)
        if isinstance(axis, int) and axis == 1 and all(isinstance(v, A2) for v in vs):
            c = vs[0].cols
            for v in vs[1:]: c = c + v.cols
            return st.new2(vs[0].n, z3.simplify(c), 'f')
        return UNK
    def np_vstack(self, st, vs, **kw):
        vs = list(vs) if isinstance(vs, tuple) else list(st.rec(vs).f) if isinstance(vs, CO) else None
        if vs is None: return UNK
        vs = [self.as_arr(st, v) for v in vs]
        vs = [st.new2(1, v.n, v.dt, z3.K(I, st.vec(v))) if isinstance(v, A1) else v for v in vs]
        return self.concat(st, vs)
    def np_hstack(self, st, vs, **kw):
        vs = list(vs) if isinstance(vs, tuple) else list(st.rec(vs).f) if isinstance(vs, CO) else None
        if vs is None: return UNK
        vs = [v if isinstance(v, LV) else self.as_arr(st, v) for v in vs]
        if all(isinstance(v, A1) or isinstance(v, LV) for v in vs): return self.concat(st, vs)
        return UNK
    def np_stack(self, st, vs, axis=0, **kw): return self.asarray(st, vs) if isinstance(axis, int) and axis == 0 else UNK
    def np_append(self, st, a, v, axis=None):
        if isinstance(a, (LV, CO)) and not (isinstance(a, CO)) :
            if isinstance(v, ObjV): v = st.newrec('list', None, [v])
            return self.concat(st, [a, v])
        a, v = self.as_arr(st, a), (v if isinstance(v, LV) else self.as_arr(st, v))
        if isinstance(a, A1):
            if is_num(v): v = st.new1(1, a.dt if not isinstance(v, float) else 'f', z3.K(I, Td(v, a.dt if not isinstance(v, float) else 'f')))
            if isinstance(v, A1): return self.concat(st, [a, v])
            if isinstance(v, A2) and axis is None: 
                n = fint('n'); st.add(n >= 0); return st.new1(n, 'f')
        if isinstance(a, A2) and isinstance(axis, int) and axis == 0:
            if isinstance(v, A2): return self.concat(st, [a, v])
            raise Dead()
        if isinstance(a, A2) and axis is None:
            n = fint('n'); st.add(n >= 0); return st.new1(n, 'f')
        return UNK
    def np_delete(self, st, a, obj, axis=None):
        if isinstance(a, (CO, tuple)): a = self.asarray(st, a)
        if a is UNK: return UNK
        if isinstance(a, A2) and axis is None:
            n = fint('n'); st.add(n >= 0); return st.new1(n, 'f')
        n = T(self.length(st, a))
        if isinstance(a, A2) and not (isinstance(axis, int) and axis == 0): return UNK
        if is_num(obj):
            j = self.index(st, obj, n); m = z3.simplify(n - 1); f = lambda k: z3.If(k < j, k, k + 1)
        else:
            if isinstance(obj, SliceV): okey = ('sl', repr((obj.lo, obj.hi, obj.step)))
            else:
                o2 = obj if isinstance(obj, (A1,)) else self.as_arr(st, obj)
                okey = ('ar', st.vec(o2).get_id() if isinstance(o2, A1) else nextid()); self.keep.append(st.vec(o2) if isinstance(o2, A1) else None)
            key = ('del', okey, n.get_id()); self.keep.append(n)
            if key not in self.selcache:
                self.selcache[key] = (z3.Function('sel!%d' % nextid(), I, I), fint('dn'))
            f, m = self.selcache[key]; k = z3.Int('k!s')
            st.add(m >= 0, m <= n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(k <= f(k), f(k) < n)), patterns=[f(k)]))
        if isinstance(a, A1): return st.new1(m, a.dt, self.gat(st, st.vec(a), m, f))
        if isinstance(a, A2): return st.new2(m, a.cols, a.dt, self.gat(st, st.mat(a), m, f))
        return self.gather_lv(st, st.arrs[a.key], f, m, True)
    def np_insert(self, st, a, i, v, axis=None): return UNK
    def np_tile(self, st, a, reps):
        a = self.as_arr(st, a)
        if isinstance(reps, CO): reps = tuple(st.rec(reps).f)
        if isinstance(a, A1) and isinstance(reps, tuple) and len(reps) == 2 and reps[1] == 1 and isinstance(reps[1], int):
            return st.new2(self.dimt(st, reps[0]), a.n, a.dt, z3.K(I, st.vec(a)))
        if isinstance(a, A2) and isinstance(reps, tuple) and len(reps) == 2 and isinstance(reps[0], int) and reps[0] == 1 and isinstance(reps[1], int) and reps[1] == 1: return self.copy(st, a)
        if isinstance(a, A2) and isinstance(reps, tuple) and len(reps) == 2 and isinstance(reps[1], int) and reps[1] == 1:
            n = fint('n'); r = self.dimt(st, reps[0]); st.add(n >= 0)
            st.add(n == a.n * r if z3.is_int_value(r) or z3.is_int_value(a.n) else n >= 0)
            c = st.mat(a); f = self.fresh_sel(st, n, a.n)
            return st.new2(n, a.cols, a.dt, self.gat(st, c, n, f))
        n = fint('n'); st.add(n >= 0)
        if is_num(reps) and isinstance(a, A1): return st.new1(n, a.dt)
        if is_num(reps) and is_num(a): return st.new1(self.dimt(st, reps), 'f', z3.K(I, TR(a)))
        return UNK
    def np_repeat(self, st, a, reps, axis=None):
        a = self.as_arr(st, a) if not isinstance(a, LV) else a
        n = fint('n'); st.add(n >= 0)
        if is_num(a):
            return st.new1(self.dimt(st, reps), 'i' if isinstance(a, int) else 'f', z3.K(I, Td(a, 'i' if isinstance(a, int) else 'f')))
        if isinstance(a, A1):
            f = self.fresh_sel(st, n, a.n); c = st.vec(a)
            return st.new1(n, a.dt, self.gat(st, c, n, f))
        if isinstance(a, A2) and isinstance(axis, int) and axis == 0:
            f = self.fresh_sel(st, n, a.n); c = st.mat(a)
            if isinstance(reps, int): st.add(n == a.n * reps)
            return st.new2(n, a.cols, a.dt, self.gat(st, c, n, f))
        if isinstance(a, AN) and isinstance(axis, int) and axis == 0: return self.mk_shape(st, (n,) + tuple(a.shape[1:]), a.dt)
        return UNK
    def np_reshape(self, st, a, shape, **kw):
        return self.m_reshape(st, a, shape)
    # --- elementwise functions
    def ew(self, fn, dt='f'):
        return lambda st, *a, **kw: self.elem(st, fn, [self.as_arr(st, x) for x in a], dt)
    def np_abs(self, st, a):
        if isinstance(a, (int, float)): return abs(a)
        a = self.as_arr(st, a)
        dt = a.dt if isinstance(a, (A1, A2)) else ('i' if is_z(a) and a.sort() == I else 'f')
        return self.elem(st, lambda t: z3.If(t >= 0, t, -t), [a], dt)
    np_absolute = np_abs; np_fabs = np_abs
    def rangefn(self, st, a, fact):
        """unknown content with fact(argument, result) for each element"""
        a = self.as_arr(st, a)
        if a is UNK: return UNK
        if is_num(a) or is_bool(a):
            r = freal('fn')
            if fact is not None: st.add(fact(TR(a), r))
            return r
        if fact is None: return self.elem(st, None, [a], 'f')
        F = z3.Function('fn!%d' % nextid(), R, R); x = z3.Real('x!f')
        st.add(z3.ForAll([x], fact(x, F(x)), patterns=[F(x)]))
        return self.elem(st, lambda t: F(TR(t)), [a], 'f')
    def np_exp(self, st, a): return self.rangefn(st, a, lambda x, r: z3.And(r > 0, z3.Implies(x <= 0, r <= 1), z3.Implies(x >= 0, r >= 1)))
    def np_log(self, st, a, *b): return self.rangefn(st, a, None)
    np_log10 = np_log; np_log2 = np_log; np_log1p = np_log
    def np_sqrt(self, st, a): return self.rangefn(st, a, lambda x, r: r >= 0)
    def np_square(self, st, a): return self.rangefn(st, a, lambda x, r: r >= 0)
    def np_sin(self, st, a): return self.rangefn(st, a, lambda x, r: z3.And(r >= -1, r <= 1))
    np_cos = np_sin
    np_tanh = np_sin
    def np_tan(self, st, a): return self.rangefn(st, a, None)
    def np_arccos(self, st, a): return self.rangefn(st, a, None)
    np_arcsin = np_arccos; np_arctan = np_arccos
    def np_gamma(self, st, a):
        if isinstance(a, (int, float)):
            import math
            return math.gamma(a)
        return freal('gamma')
    np_power = lambda self, st, a, b: self.binop(st, ast.Pow(), a, b)
    np_add = lambda self, st, a, b: self.binop(st, ast.Add(), a, b)
    np_subtract = lambda self, st, a, b: self.binop(st, ast.Sub(), a, b)
    np_multiply = lambda self, st, a, b: self.binop(st, ast.Mult(), a, b)
    np_divide = lambda self, st, a, b: self.binop(st, ast.Div(), a, b)
    np_mod = lambda self, st, a, b: self.binop(st, ast.Mod(), a, b)
    np_fmod = np_mod
    def np_sign(self, st, a): return self.rangefn(st, a, lambda x, r: z3.And(r >= -1, r <= 1))
    def np_floor(self, st, a):
        if is_num(a): return z3.ToInt(TR(a)) if is_z(a) else int(a // 1)
        return self.elem(st, lambda t: z3.ToReal(z3.ToInt(TR(t))), [self.as_arr(st, a)], 'f')
    def np_ceil(self, st, a):
        if is_num(a): return -z3.ToInt(-TR(a))
        return self.elem(st, lambda t: z3.ToReal(-z3.ToInt(-TR(t))), [self.as_arr(st, a)], 'f')
    def np_round(self, st, a, decimals=0, **kw):
        if is_num(a):
            if isinstance(decimals, int) and decimals == 0:
                r = fint('rnd'); st.add(z3.ToReal(r) >= TR(a) - z3.Q(1, 2), z3.ToReal(r) <= TR(a) + z3.Q(1, 2)); return z3.ToReal(r)
            return freal('rnd')
        return self.elem(st, None, [self.as_arr(st, a)], 'f')
    np_around = np_round; np_rint = np_round
    def np_trunc(self, st, a): return self.elem(st, lambda t: z3.ToReal(self.trunc(TR(t))), [self.as_arr(st, a)], 'f')
    def np_minimum(self, st, a, b, **kw):
        return self.elem(st, lambda p, q: self.p2(p, q, zmin), [self.as_arr(st, a), self.as_arr(st, b)], self.rdt(st, a, b))
    def np_maximum(self, st, a, b, **kw):
        return self.elem(st, lambda p, q: self.p2(p, q, zmax), [self.as_arr(st, a), self.as_arr(st, b)], self.rdt(st, a, b))
    np_fmin = np_minimum; np_fmax = np_maximum
    def rdt(self, st, *vs):
        ds = []
        for v in vs:
            v = self.as_arr(st, v)
            ds.append(v.dt if isinstance(v, (A1, A2, AN)) else ('i' if isinstance(v, int) or (is_z(v) and v.sort() == I) else 'f'))
        return 'f' if 'f' in ds else 'i'
    def np_clip(self, st, a, lo, hi, out=None, **kw):
        args = [self.as_arr(st, v) for v in (a, lo, hi)]
        def f(x, l, h):
            x, l, h = TR(x), TR(l), TR(h)
            y = z3.If(x < l, l, x)
            return z3.If(y > h, h, y)
        r = self.elem(st, f, args, 'f')
        if out is not None:
            if isinstance(out, (A1, A2)) :
                self.assign_all(st, out, r); return out
            raise Unsupported('clip out')
        return r
    def np_where(self, st, c, a=None, b=None):
        if a is None and b is None:
            c = self.as_arr(st, c)
            if isinstance(c, A1) and c.dt == 'b': return (IdxOf(c),)
            if isinstance(c, (A2, AN)):
                # positions of the true elements, one index array per axis
                n = fint('cnt'); st.add(n >= 0); out = []
                for m in self.shp(c):
                    r = self.new_shape(st, (n,), 'i', lambda t, m=m: z3.And(t >= 0, t < m)); self.mark_nn(st.vec(r)); out.append(r)
                return tuple(out)
            if isinstance(c, A1): return (IdxOf(self.elem(st, lambda t: TB(t), [c], 'b')),)
            return (UNK,)
        c, a, b = self.as_arr(st, c), self.as_arr(st, a), self.as_arr(st, b)
        if c is UNK or a is UNK or b is UNK: return UNK
        return self.elem(st, lambda p, u, v: z3.If(TB(p), *self.pp(u, v)), [c, a, b], self.rdt(st, a, b))
    def pp(self, u, v): return pair(u, v)
    def np_select(self, st, conds, choices, default=0):
        cs, vs = st.rec(conds).f, st.rec(choices).f
        r = default
        for c, v in reversed(list(zip(cs, vs))): r = self.np_where(st, c, v, r)
        return r
    def np_nonzero(self, st, a): return self.np_where(st, a)
    def np_flatnonzero(self, st, a): return self.np_where(st, a)[0]
    def np_argwhere(self, st, a):
        r = self.np_where(st, a)
        if len(r) == 1 and isinstance(r[0], IdxOf): return UNK
        return UNK
    def np_logical_not(self, st, a): return self.elem(st, lambda t: z3.Not(TB(t)), [self.as_arr(st, a)], 'b')
    def np_logical_and(self, st, a, b): return self.elem(st, lambda p, q: z3.And(TB(p), TB(q)), [self.as_arr(st, a), self.as_arr(st, b)], 'b')
    def np_logical_or(self, st, a, b): return self.elem(st, lambda p, q: z3.Or(TB(p), TB(q)), [self.as_arr(st, a), self.as_arr(st, b)], 'b')
    def np_isfinite(self, st, a): return self.elem(st, lambda t: z3.And(TR(t) < INF, TR(t) > -INF), [self.as_arr(st, a)], 'b')
    def np_isinf(self, st, a): return self.elem(st, lambda t: z3.Or(TR(t) == INF, TR(t) == -INF), [self.as_arr(st, a)], 'b')
    def np_isnan(self, st, a): return self.elem(st, None, [self.as_arr(st, a)], 'b')
    def np_isscalar(self, st, a): return not isinstance(a, (A1, A2, LV, CO, tuple))
    def np_array_equal(self, st, a, b, **kw):
        a, b = self.as_arr(st, a), self.as_arr(st, b)
        r = fbool('aeq')
        if isinstance(a, A1) and isinstance(b, A1) and a.dt == b.dt:
            c, d = st.vec(a), st.vec(b); k = z3.Int('k!e')
            st.add(z3.ForAll([k], z3.Implies(z3.And(r, 0 <= k, k < a.n), c[k] == d[k]), patterns=[c[k]]))
        return r
    def np_isclose(self, st, a, b, **kw): return self.elem(st, None, [self.as_arr(st, a), self.as_arr(st, b)], 'b')
    def np_allclose(self, st, a, b, **kw): return fbool('close')
    def np_any(self, st, a, axis=None, **kw):
        a = self.as_arr(st, a)
        if axis is not None: 
            if isinstance(a, A2): return st.new1(a.n if axis == 1 else a.cols, 'b')
            if isinstance(a, AN): r = self.red(st, a, axis); return self.cast(st, r, 'b') if isinstance(r, (A1, A2, AN)) else UNK
        if isinstance(a, A1) and a.dt == 'b' and a.mask is None:
            r = fbool('any'); w = fint('w'); c = st.vec(a); k = z3.Int('k!e')
            st.add(z3.Implies(r, z3.And(0 <= w, w < a.n, c[w])), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.n, c[k]), r), patterns=[c[k]]))
            return r
        if is_bool(a): return a
        return fbool('any')
    def np_all(self, st, a, axis=None, **kw):
        a = self.as_arr(st, a)
        if axis is not None:
            if isinstance(a, A2): return st.new1(a.n if axis == 1 else a.cols, 'b')
            if isinstance(a, AN): r = self.red(st, a, axis); return self.cast(st, r, 'b') if isinstance(r, (A1, A2, AN)) else UNK
        if isinstance(a, A1) and a.dt == 'b' and a.mask is None:
            r = fbool('all'); w = fint('w'); c = st.vec(a); k = z3.Int('k!e')
            st.add(z3.Or(r, z3.And(0 <= w, w < a.n, z3.Not(c[w]))), z3.ForAll([k], z3.Implies(z3.And(r, 0 <= k, k < a.n), c[k]), patterns=[c[k]]))
            return r
        if is_bool(a): return a
        return fbool('all')
    np_alltrue = np_all
    # --- reductions
    def red(self, st, a, axis, keepdims=False):
        a = self.as_arr(st, a)
        if a is UNK: return UNK
        if isinstance(a, AN):
            if axis is None: return freal('red')
            if not isinstance(axis, int): return UNK
            sh = list(a.shape)
            if not -len(sh) <= axis < len(sh): raise Dead()
            if keepdims is True: sh[axis] = z3.IntVal(1)
            else: del sh[axis]
            return self.mk_shape(st, sh, 'f')
        if isinstance(a, A2) and axis is not None and not isinstance(axis, tuple):
            if isinstance(axis, int):
                if keepdims is True: return st.new2(a.n if axis in (1, -1) else 1, 1 if axis in (1, -1) else a.cols, 'f')
                return st.new1(a.n if axis in (1, -1) else a.cols, 'f')
        return freal('red') if not (isinstance(a, (A1, A2)) and a.dt in 'ib') else fint('red')
    def np_sum(self, st, a, axis=None, keepdims=False, **kw):
        if isinstance(a, (CO,)) or isinstance(a, LV): a = self.asarray(st, a)
        r = self.red(st, a, axis, keepdims)
        if isinstance(a, AN) and a.wsum and isinstance(r, A2) and r.mask is None and axis in (-1, 2):
            t = fresh(M, 'part'); i, k = z3.Ints('i!e k!e'); w = z3.RealVal(a.wsum)
            st.add(z3.ForAll([i, k], z3.And(0 <= t[i][k], t[i][k] <= 1), patterns=[t[i][k]]))
            c = self.fm(st, r.n, r.cols, lambda i, k: w * t[i][k])
            SCALED[c.get_id()] = (w, t); self.keep.append((c, t))
            return st.new2(r.n, r.cols, 'f', c)
        if isinstance(a, A2) and isinstance(axis, int) and axis == 0 and isinstance(r, A1) and a.mask is None:
            c = st.vec(r); self.sumof[c.get_id()] = (st.mat(a), a.n); self.keep.append(c)
        if isinstance(a, A1) and a.dt == 'b' and is_z(r): st.add(r >= 0, r <= a.n); self.mark_nn(r)
        return r
    def np_mean(self, st, a, axis=None, **kw):
        a = self.as_arr(st, a)
        if isinstance(a, A2) and isinstance(axis, int) and axis == 0 and a.mask is None: return self.mean_of(st, st.mat(a), a.n, a.cols)
        r = self.red(st, a, axis)
        return TR(r) if is_z(r) else r
    np_average = np_mean
    def np_median(self, st, a, axis=None, **kw): return self.red(st, a, axis)
    def np_std(self, st, a, axis=None, **kw):
        r = self.red(st, a, axis)
        if is_z(r): r = TR(r); st.add(r >= 0)
        return r
    np_var = np_std
    def np_prod(self, st, a, axis=None, **kw): return self.red(st, a, axis)
    def np_cumsum(self, st, a, axis=None, **kw):
        a = self.as_arr(st, a)
        return self.elem(st, None, [a], 'f') if isinstance(a, A1) else UNK
    def np_diff(self, st, a, **kw):
        a = self.as_arr(st, a)
        return st.new1(a.n - 1, a.dt) if isinstance(a, A1) else UNK
    def np_dot(self, st, a, b, **kw): return self.x.binop(st, ast.Mult(), a, b) if is_num(a) or is_num(b) else self.matmul(st, a, b)
    def np_matmul(self, st, a, b, **kw): return self.matmul(st, a, b)
    def np_linalg_norm(self, st, a, ord=None, axis=None, **kw):
        r = self.red(st, a, axis)
        if is_z(r): r = TR(r); st.add(r >= 0)
        return r
    def np_ptp(self, st, a, axis=None, **kw): return self.red(st, a, axis)
    def np_unique(self, st, a, **kw):
        if kw: return UNK
        a = self.as_arr(st, a)
        n = fint('n'); st.add(n >= 0)
        if isinstance(a, A1):
            f = self.fresh_sel(st, n, a.n); st.add(n <= a.n)
            r = st.new1(n, a.dt, self.gat(st, st.vec(a), n, f))
            if st.vec(a).get_id() in self.nn: self.mark_nn(st.vec(r))
            return r
        return UNK
    def np_flip(self, st, a, axis=None):
        if isinstance(a, (A1, LV)) or (isinstance(a, A2) and axis == 0):
            n = T(self.length(st, a))
            if isinstance(a, A1) and a.mask is None and st.vec(a).get_id() in self.cvals: return self.known(st, self.cvals[st.vec(a).get_id()][::-1])
            idx = self.fa(st, n, lambda k: n - 1 - k, 'i'); self.mark_nn(idx)
            k = z3.Int('k!e')
            return self.get_item(st, a, st.new1(n, 'i', idx))
        return UNK
    def np_tril(self, st, a, k=0): return self.elem(st, None, [a], 'f')
    def np_meshgrid(self, st, *a, **kw): return UNK
    def best_index(self, st, a, mx):
        c, n = st.vec(a), a.n
        key = ('argbest', c.get_id(), n.get_id(), mx)
        j = self.selcache.get(key)
        if j is None:
            j = fint('argm'); self.selcache[key] = j; self.keep.append((c, n)); self.mark_nn(j)
        k = z3.Int('k!e')
        st.add(n >= 1, j >= 0, j < n, c[j] >= c[0] if mx else c[j] <= c[0], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), (c[j] >= c[k]) if mx else (c[j] <= c[k])), patterns=[c[k]]))
        N = z3.simplify(T(n))
        if z3.is_int_value(N) and N.as_long() <= 8 and not z3.is_const(c):      # the instances the trigger would not find in a list written out
            for i in range(N.as_long()):
                v = z3.simplify(c[i]); st.add(c[j] >= v if mx else c[j] <= v)
        return j
    def np_argmin(self, st, a, axis=None, mx=False, **kw):
        if isinstance(a, (LV, CO, tuple)): a = self.asarray(st, a)
        if isinstance(a, A1) and a.mask is None and a.dt != 'b': return self.best_index(st, a, mx)
        if is_num(a): return 0
        if isinstance(a, A2) and axis is not None:
            r = st.new1(a.n if axis == 1 else a.cols, 'i', None); m = a.cols if axis == 1 else a.n
            c = st.vec(r); k = z3.Int('k!e'); self.mark_nn(c)
            st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r.n), z3.And(0 <= c[k], c[k] < m)), patterns=[c[k]]))
            return r
        j = fint('arg'); st.add(j >= 0); return self.mark_nn(j)
    def np_argmax(self, st, a, axis=None, **kw): return self.np_argmin(st, a, axis, mx=True)
    np_nanargmin = np_argmin
    def np_amin(self, st, a, axis=None, mx=False, **kw):
        if isinstance(a, (LV, CO, tuple)): a = self.asarray(st, a)
        if isinstance(a, A1) and a.mask is None and a.dt != 'b':
            return st.vec(a)[self.best_index(st, a, mx)]
        if isinstance(a, A2) and isinstance(axis, int) and axis == 0:
            # each component of the result is a component of some row
            r = st.new1(a.cols, a.dt); c = st.vec(r); Mx = st.mat(a); n = a.n; cols = a.cols
            w = z3.Function('amw!%d' % nextid(), I, I); k, i = z3.Ints('k!e i!e')
            st.add(n >= 1, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cols), z3.And(0 <= w(k), w(k) < n, c[k] == Mx[w(k)][k])), patterns=[c[k]]),
                   z3.ForAll([i, k], z3.Implies(z3.And(0 <= k, k < cols, 0 <= i, i < n), (c[k] >= Mx[i][k]) if mx else (c[k] <= Mx[i][k])), patterns=[z3.MultiPattern(c[k], Mx[i][k])]))
            m = a.mask
            if m is not None: r.mask = m
            return r
        return self.red(st, a, axis)
    def np_amax(self, st, a, axis=None, **kw): return self.np_amin(st, a, axis, mx=True)
    np_min = np_amin; np_max = np_amax
    def np_argsort(self, st, a, axis=-1, **kw):
        if isinstance(a, AN): return self.mk_shape(st, a.shape, 'i')
        if isinstance(a, (LV, CO, tuple)): a = self.asarray(st, a)
        if isinstance(a, A1) and a.mask is None:
            c, n = st.vec(a), a.n
            key = ('argsort', c.get_id(), n.get_id())
            if key not in self.selcache:
                p, q = fresh(AII, 'perm'), fresh(AII, 'inv')
                self.selcache[key] = (p, q); self.keep.append((c, n)); self.mark_nn(p); self.mark_nn(q)
            p, q = self.selcache[key]
            k = z3.Int('k!e'); i, j = z3.Ints('i!e j!e')
            st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= p[k], p[k] < n, q[p[k]] == k)), patterns=[p[k]]),
                   z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= q[k], q[k] < n, p[q[k]] == k)), patterns=[q[k]]))
            st.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), c[p[i]] <= c[p[j]]), patterns=[z3.MultiPattern(p[i], p[j])]))
            if n is not None: st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), c[p[0]] <= c[k]), patterns=[c[k]]))
            return st.new1(n, 'i', p)
        if isinstance(a, A2):
            r = st.new2(a.n, a.cols, 'i'); return r
        return UNK
    def np_sort(self, st, a, axis=-1, **kw):
        if isinstance(a, (LV, CO, tuple)): a = self.asarray(st, a)
        if isinstance(a, A1) and a.mask is None:
            return self.get_item(st, a, self.np_argsort(st, a))
        return self.elem(st, None, [a], 'f')
    def np_partition(self, st, a, kth, **kw): return self.elem(st, None, [a], 'f')
    def np_argpartition(self, st, a, kth, **kw):
        if not isinstance(a, A1): return UNK
        p, q = self.perm(st, a.n); return st.new1(a.n, 'i', p)
    def np_searchsorted(self, st, a, v, **kw):
        j = fint('ss'); st.add(j >= 0, j <= T(self.length(st, a))); return self.mark_nn(j)
    def np_finfo(self, st, *a): return Opaque('finfo')
    def np_float64(self, st, a=0.0): return TR(a) if is_num(a) else a
    np_float32 = np_float64; np_float_ = np_float64
    def np_int64(self, st, a=0): return self.b_int(st, a)
    np_int_ = np_int64; np_int32 = np_int64
    def np_vectorize(self, st, f, **kw): return ExtV('vectorized', (f,))
    def x_vectorized(self, st, recv, *args, **kw):
        f = recv[0]
        a = self.as_arr(st, args[0])
        rest = [self.as_arr(st, v) if isinstance(v, (A1, A2, AN, LV, CO, tuple)) else v for v in args[1:]]
        if isinstance(a, A1) and any(isinstance(v, A1) for v in rest) and all(not isinstance(v, (A2, AN)) for v in rest):
            return self.zip_loop(st, f, a, rest, kw)
        if isinstance(a, A1):
            return self.map_loop(st, f, a, args[1:])
        if isinstance(a, (A2, AN)) and not rest and not kw:
            # a function of one number that changes nothing: an array of the same shape
            t = st.copy()
            r = self.x.call(t, f, [{'f': freal, 'i': fint, 'b': fbool}[a.dt]('el')], {})
            vs = [w for g, w in r.alts] if isinstance(r, Un) else [r]
            if all(is_num(w) for w in vs) and t.H.eq(st.H) and t.evals.eq(st.evals) and t.m.eq(st.m) and all(t.arrs.get(k) is v for k, v in st.arrs.items()) and all(t.conc.get(k) is v for k, v in st.conc.items()):
                return self.mk_shape(st, self.shp(a), 'f' if any(isinstance(w, float) or (is_z(w) and w.sort() == R) for w in vs) else 'i')
        return UNK
    def np_apply_along_axis(self, st, f, axis, arr, *args, **kw):
        arr = self.as_arr(st, arr)
        if isinstance(arr, A1): return self.x.call(st, f, [arr] + list(args), kw)
        if not isinstance(arr, A2): raise Unsupported('apply_along_axis over %r' % (arr,))
        if not (isinstance(axis, int) and axis in (1, -1)):
            if isinstance(axis, int) and axis == 0:
                arr = self.val_attr(st, arr, 'T')
            else: raise Unsupported('apply_along_axis axis')
        c = self.x.contracts.map_rows(self.x, st, f, arr, args, kw)
        if c is not NotImplemented: return c
        return self.map_loop(st, f, arr, args, kw)
    _zl = {}
    def zip_loop(self, st, f, a, rest, kw={}):
        """np.vectorize over several arrays = explicit loop over the positions"""
        x = self.x
        pat = ''.join('v' if isinstance(v, A1) else 's' for v in rest)
        for v in rest:
            if isinstance(v, A1) and not same_term(v.n, a.n): st.add(v.n == a.n)     # other lengths raise (or broadcast 1)
        if pat not in self._zl:
            ps = ', '.join('__a%d' % i for i in range(len(rest))); es = ', '.join('__a%d%s' % (i, '[__i]' if c == 'v' else '') for i, c in enumerate(pat))
            self._zl[pat] = ast.parse('def __zipmap(__f, __arr, __kw, %s):\n    __out = []\n    for __i in range(len(__arr)):\n        __out.append(__f(__arr[__i], %s, **__kw))\n    return __out\n' % (ps, es)).body[0]
        fn = FuncV(x.modstack[-1], self._zl[pat], name='zipmap')
        return self.asarray(st, x.inline(st, fn, [f, a, st.newrec('dict', None, dict(kw))] + list(rest), {}))
    def x_operator_sub(self, st, a, b): return self.x.binop(st, ast.Sub(), a, b)
    def x_operator_add(self, st, a, b): return self.x.binop(st, ast.Add(), a, b)
    def x_operator_mul(self, st, a, b): return self.x.binop(st, ast.Mult(), a, b)
    _ml = None
    def map_loop(self, st, f, arr, args=(), kw={}):
        """rowwise application = explicit loop over the rows"""
        x = self.x
        if self._ml is None:
            self._ml = ast.parse('def __rowmap(__f, __arr, __args, __kw):\n    __out = []\n    for __row in __arr:\n        __out.append(__f(__row, *__args, **__kw))\n    return __out\n').body[0]
        fn = FuncV(x.modstack[-1], self._ml, name='rowmap')
        r = x.inline(st, fn, [f, arr, tuple(args), st.newrec('dict', None, dict(kw))], {})
        return self.asarray(st, r)

    # --- array methods
    def m_copy(self, st, a, **kw): return self.copy(st, a)
    def m_sum(self, st, a, axis=None, **kw): return self.np_sum(st, a, axis)
    def m_mean(self, st, a, axis=None, **kw): return self.np_mean(st, a, axis)
    def m_std(self, st, a, axis=None, **kw): return self.np_std(st, a, axis)
    def m_min(self, st, a, axis=None, **kw): return self.np_amin(st, a, axis)
    def m_max(self, st, a, axis=None, **kw): return self.np_amax(st, a, axis)
    def m_argmin(self, st, a, axis=None): return self.np_argmin(st, a, axis)
    def m_argmax(self, st, a, axis=None): return self.np_argmax(st, a, axis)
    def m_argsort(self, st, a, **kw): return self.np_argsort(st, a)
    def m_sort(self, st, a, **kw):
        self.assign_all(st, a, self.np_sort(st, a)); return None
    def m_astype(self, st, a, dtype, **kw): return self.cast(st, a, self.dt_of(st, dtype))
    def m_tolist(self, st, a):
        if isinstance(a, A1): return st.newlist((a.dt,), a.n, (st.vec(a),)) if a.dt != 'b' else UNK
        return UNK
    def m_flatten(self, st, a, *k):
        if isinstance(a, A1): return self.copy(st, a)
        n = fint('n'); st.add(n >= 0); return st.new1(n, a.dt)
    m_ravel = m_flatten
    def m_reshape(self, st, a, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, CO)): shape = shape[0] if isinstance(shape[0], tuple) else tuple(st.rec(shape[0]).f)
        if len(shape) == 2:
            def d(v, other):
                if isinstance(v, int) and v == -1:
                    n = fint('n'); st.add(n >= 0); return n
                return self.dimt(st, v)
            if isinstance(a, A1) and isinstance(shape[0], int) and shape[0] == 1: 
                r = st.new2(1, a.n, a.dt, z3.K(I, st.vec(a))); self.ro.add(r.key); return r
            if isinstance(a, A1) and isinstance(shape[1], int) and shape[1] == 1:
                r = st.new2(a.n, 1, a.dt); self.ro.add(r.key); return r
            if isinstance(a, A1) and same_term(T(shape[1]), a.n) if not isinstance(shape[1], int) else False:
                r = st.new2(d(shape[0], None), a.n, a.dt, z3.K(I, st.vec(a))); self.ro.add(r.key); return r
            r = st.new2(d(shape[0], 1), d(shape[1], 0), a.dt if isinstance(a, (A1, A2)) else 'f'); self.ro.add(r.key); return r
        n = fint('n'); st.add(n >= 0)
        r = st.new1(n, a.dt); self.ro.add(r.key); return r
    def m_dot(self, st, a, b): return self.np_dot(st, a, b)
    def m_any(self, st, a, axis=None): return self.np_any(st, a, axis)
    def m_all(self, st, a, axis=None): return self.np_all(st, a, axis)
    def m_fill(self, st, a, v): self.assign_all(st, a, v)
    def m_item(self, st, a, *i): return self.rd1(st, a, z3.IntVal(0)) if isinstance(a, A1) else freal('item')
    def m_clip(self, st, a, lo, hi, out=None, **kw): return self.np_clip(st, a, lo, hi, out)
    def m_round(self, st, a, *k): return self.np_round(st, a, *k)
    def m_cumsum(self, st, a, **kw): return self.np_cumsum(st, a)
    def m_transpose(self, st, a, *k): return self.val_attr(st, a, 'T')
    def m_nonzero(self, st, a): return self.np_where(st, a)
    def i_copy(self, st, a): return a
    def i_tolist(self, st, a): return self.as_arr(st, a)
    # --- numbers
    def n_copy(self, st, v, **kw): return v
    def n_item(self, st, v): return v
    def n_astype(self, st, v, d, **kw): return v
    def n_is_integer(self, st, v): return fbool('isint')
    # --- lists
    def l_append(self, st, o, v): self.list_append(st, o, v)
    def l_extend(self, st, o, v): self.list_extend(st, o, v)
    def l_pop(self, st, o, i=-1): return self.list_pop(st, o, i)
    def l_copy(self, st, o, **kw): return self.copy(st, o)
    def l_insert(self, st, o, i, v):
        if isinstance(o, CO) and isinstance(i, int): st.wrec(o).f.insert(i, v); return
        cl = st.arrs[o.key]
        if isinstance(i, int) and i == 0:
            ek = self.elem_ek(st, v)
            if cl.ek == ('empty',): cl = self.conv_cl(st, cl, ek)
            if self.compat(cl.ek, ek):
                cs = self.comps_of(st, ek, v); comps = []
                for c, t in zip(cl.c, cs):
                    d = fresh(c.sort(), 'ins'); k = z3.Int('k!e')
                    st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= cl.n), d[k] == z3.If(k == 0, t, c[k - 1])), patterns=[d[k]])); comps.append(d)
                st.arrs[o.key] = CL(cl.ek, cl.n + 1, tuple(comps)); return
        raise Unsupported('list insert')
    def l_remove(self, st, o, v):
        if isinstance(o, LV):
            j = fint('rm'); cl = st.arrs[o.key]; st.add(j >= 0, j < cl.n); self.mark_nn(j)
            self.list_pop(st, o, j); return
        raise Unsupported('list remove')
    def l_sort(self, st, o, key=None, reverse=False):
        if isinstance(o, CO): o2 = self.sorted_(st, o, key, reverse); st.wrec(o).f[:] = st.rec(o2).f if isinstance(o2, CO) else [UNK] * len(st.rec(o).f); return
        r = self.sorted_(st, o, key, reverse)
        st.arrs[o.key] = st.arrs[r.key]
    def l_index(self, st, o, v):
        j = fint('ix'); st.add(j >= 0, j < T(self.length(st, o))); return self.mark_nn(j)
    def l_count(self, st, o, v): return fint('cnt')
    def l_clear(self, st, o):
        if isinstance(o, CO): st.wrec(o).f[:] = []
        else: st.arrs[o.key] = CL(('empty',), z3.IntVal(0), ())
    def l_reverse(self, st, o): raise Unsupported('reverse')
    def l_tolist(self, st, o): return self.copy(st, o)
    def l_flatten(self, st, o): return self.copy(st, o)
    def l_argsort(self, st, o): return self.np_argsort(st, o)
    def t_index(self, st, o, v): return self.l_index(st, o, v)
    # --- dicts
    def d_pop(self, st, o, k, *d):
        r = st.wrec(o)
        if k in r.f: return r.f.pop(k)
        if d: return d[0]
        raise Dead()
    def d_get(self, st, o, k, d=None):
        return st.rec(o).f.get(k, d)
    def d_update(self, st, o, e=None, **kw):
        r = st.wrec(o)
        if e is not None:
            if isinstance(e, CO) and st.rec(e).kind == 'dict': r.f.update(st.rec(e).f)
            else: raise Unsupported('dict update')
        r.f.update(kw)
    def d_items(self, st, o): return tuple((k, v) for k, v in st.rec(o).f.items())
    def d_keys(self, st, o): return tuple(st.rec(o).f)
    def d_values(self, st, o): return tuple(st.rec(o).f.values())
    def d_copy(self, st, o): return st.newrec('dict', None, dict(st.rec(o).f))
    def d_setdefault(self, st, o, k, d=None):
        r = st.wrec(o)
        return r.f.setdefault(k, d)
    # --- copy module
    def c_copy(self, st, v): 
        if isinstance(v, ObjV): return self.x.contracts.copy_obj(self.x, st, v)
        return self.copy(st, v)
    def c_deepcopy(self, st, v):
        if isinstance(v, ObjV): return self.x.contracts.copy_obj(self.x, st, v)
        if isinstance(v, LV):
            cl = st.arrs[v.key]
            if cl.ek[0] == 'obj': return self.x.contracts.copy_objs(self.x, st, v)
            if cl.ek[0] == 'vec':
                raise Unsupported('deepcopy of a list of arrays')
        if isinstance(v, CO) and st.rec(v).kind == 'list':
            return st.newrec('list', None, [self.c_deepcopy(st, w) for w in st.rec(v).f])
        return self.copy(st, v)

    # --- builtins
    def arr_of_list(self, st, v):
        r = self.asarray(st, v)
        return v if r is UNK else r
    def num_list(self, st, v):
        """element of a list that is turned into an array: a list of numbers is a row"""
        if isinstance(v, LV) and not v.nd and st.arrs[v.key].ek[0] in 'fi' or isinstance(v, CO) and st.rec(v).kind == 'list' and st.rec(v).f and all(is_num(x) for x in st.rec(v).f): return self.arr_of_list(st, v)
        return v
    def b_range(self, st, a, b=None, step=1):
        it = self._range(st, a, b, step); it.rng = True
        return it
    def _range(self, st, a, b=None, step=1):
        if b is None: a, b = 0, a
        def iv(v):
            if isinstance(v, bool): return int(v)
            if isinstance(v, float): raise Dead()
            if is_z(v) and v.sort() == R: return z3.ToInt(v)
            return v
        a, b = iv(a), iv(b)
        if a is UNK or b is UNK:
            n = fint('cnt'); st.add(n >= 0); return IterV(n, lambda s, k: fint('it'))
        if not isinstance(step, int):
            n = fint('cnt'); st.add(n >= 0); return IterV(n, lambda s, k: fint('it'))
        if isinstance(a, int) and isinstance(b, int):
            r = range(a, b, step)
            if len(r) <= 64: return IterV(len(r), (lambda s, k: z3.simplify(z3.IntVal(a) + k * step)), list(r) if len(r) <= 6 else None)
            n = len(r)
            return IterV(n, lambda s, k: k + a if step == 1 else z3.IntVal(a) + k * step)
        if step == 1:
            n = z3.simplify(TI(b) - TI(a))
            def g(s, k):
                t = k if isinstance(a, int) and a == 0 else k + TI(a)
                return t
            return IterV(n, g)
        if step == -1:
            n = z3.simplify(TI(a) - TI(b))
            def g2(s, k):
                return TI(a) - k
            return IterV(n, g2)
        n = fint('cnt'); st.add(n >= 0)
        ai, bi = TI(a), TI(b)
        def g3(s, k):
            t = fint('it')
            s.add(t == ai + k * step, t < bi if step > 0 else t > bi)
            if step > 0 and self.is_nn(a): self.mark_nn(t)
            return t
        return IterV(n, g3)
    def b_len(self, st, v): return self.length(st, v)
    def b_int(self, st, v=0, *a):
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isinstance(v, float): 
            try: return int(v)
            except (OverflowError, ValueError): raise Dead()
        if isinstance(v, str): raise Unsupported('int of str')
        if is_bool(v): return TI(v)
        if is_z(v):
            if v.sort() == I: return v
            t = fint('int'); s = TR(v)
            st.add(z3.Implies(s >= 0, z3.And(z3.ToReal(t) <= s, s < z3.ToReal(t) + 1, t >= 0)), z3.Implies(s < 0, z3.And(z3.ToReal(t) >= s, s > z3.ToReal(t) - 1, t <= 0)))
            return t
        if isinstance(v, A1): return self.b_int(st, self.rd1(st, v, z3.IntVal(0)))
        if v is UNK: return fint('int')
        if v is None: raise Dead()
        raise Unsupported('int of %r' % (v,))
    def b_float(self, st, v=0.0):
        if isinstance(v, str): return float(v)
        if isinstance(v, (int, float)): return float(v)
        if is_z(v): return TR(v)
        if isinstance(v, A1): return self.rd1(st, v, z3.IntVal(0))
        if v is UNK: return freal('f')
        raise Dead()
    def b_bool(self, st, v=False): return self.x.truth(st, v)
    def b_str(self, st, v=''): return '<str>'
    b_repr = b_str
    def b_abs(self, st, v): return self.np_abs(st, v)
    def b_round(self, st, v, nd=None):
        if isinstance(v, (int, float)):
            try: return round(v) if nd is None else round(v, nd)
            except (OverflowError, ValueError): raise Dead()
        if is_z(v) and nd is None:
            if v.sort() == I: return v
            r = fint('rnd'); st.add(z3.ToReal(r) >= TR(v) - z3.Q(1, 2), z3.ToReal(r) <= TR(v) + z3.Q(1, 2)); return r
        if v is UNK: return fint('rnd')
        return self.np_round(st, v)
    def minmax(self, st, args, kw, mx):
        if len(args) == 1:
            v = args[0]
            if isinstance(v, (CO, tuple)):
                items = list(v) if isinstance(v, tuple) else list(st.rec(v).f)
                if not items: 
                    if 'default' in kw: return kw['default']
                    raise Dead()
                if 'key' in kw: return self.key_best(st, v, kw['key'], mx)
                args = items
            else:
                if 'key' in kw: return self.key_best(st, v, kw['key'], mx)
                if isinstance(v, LV) or isinstance(v, A1): return self.np_amin(st, v, mx=mx)
                if v is UNK: return UNK
                if isinstance(v, IdxOf): return self.mark_nn(fint('mi'))
                raise Unsupported('min/max of %r' % (v,))
        if all(not is_z(a) and is_num(a) for a in args): return (max if mx else min)(args)
        if all(is_num(a) or is_bool(a) for a in args):
            r = args[0]
            for b in args[1:]:
                p, q = pair(r, b)
                # python keeps the first on ties
                r = z3.If(q > p, q, p) if mx else z3.If(q < p, q, p)
                if self.is_nn(p) and self.is_nn(q) or (mx and (self.is_nn(p) or self.is_nn(q))): self.mark_nn(r)
            return r
        if any(a is UNK for a in args): return UNK
        if all(isinstance(a, ObjV) for a in args): 
            i = fint('mm'); st.add(i >= 0, i < len(args))
            r = args[-1].ref
            for k in range(len(args) - 2, -1, -1): r = z3.If(i == k, args[k].ref, r)
            return ObjV(r, args[0].cls)
        raise Unsupported('min/max')
    def key_best(self, st, v, key, mx):
        if isinstance(v, (CO, tuple)):
            items = list(v) if isinstance(v, tuple) else list(st.rec(v).f)
            ks = [self.x.call(st, key, [w], {}) for w in items]
            if not all(is_num(k) for k in ks): raise Unsupported('key function')
            i = fint('mm'); st.add(i >= 0, i < len(items))
            best = self.pick(st, ks, i)
            for k in ks: st.add((TR(best) >= TR(k)) if mx else (TR(best) <= TR(k)))
            return self.pick(st, items, i)
        kf, n = self.key_fn(st, v, key)
        j = fint('mm'); st.add(n >= 1, j >= 0, j < n); self.mark_nn(j); k = z3.Int('k!e')
        e = kf(k)
        if e is not None:
            pat = self.list_term(st, v, k)
            ej = z3.substitute(e, (k, j))
            st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), (ej >= e) if mx else (ej <= e)), patterns=[pat]))
        return self.get_item(st, v, j)
    def list_term(self, st, v, k):
        if isinstance(v, LV): return st.arrs[v.key].c[0][k]
        if isinstance(v, A1): return st.vec(v)[k]
        return st.mat(v)[k]
    def key_fn(self, st, v, key):
        n = T(self.length(st, v))
        def kf(k):
            t = st.copy(); self.x.quiet += 1; self.x.dry += 1
            try:
                m = len(t.pc)
                e = self.iterate(t, v).get(t, k)
                r = self.x.call(t, key, [e], {})
                if not is_num(r) or len(t.pc) != m: return None
                return TR(r)
            except (Unsupported, Dead): return None
            finally: self.x.quiet -= 1; self.x.dry -= 1
        return kf, n
    def b_min(self, st, *a, **kw): return self.minmax(st, list(a), kw, False)
    def b_max(self, st, *a, **kw): return self.minmax(st, list(a), kw, True)
    def b_sum(self, st, v, start=0):
        if isinstance(v, (tuple, CO)):
            items = list(v) if isinstance(v, tuple) else st.rec(v).f
            r = start
            for w in items: r = self.x.binop(st, ast.Add(), r, w)
            return r
        if isinstance(v, A2): return self.np_sum(st, v, axis=0)
        if isinstance(v, A1) and v.dt in 'bi' or isinstance(v, LV) and st.arrs[v.key].ek == ('i',):
            return fint('sum')
        return freal('sum')
    def b_enumerate(self, st, v, start=0):
        it = self.iterate(st, v)
        if it.items is not None: return IterV(it.n, None, [(i + start, x) for i, x in enumerate(it.items)])
        if isinstance(start, int) and start == 0: return IterV(it.n, lambda s, k: (k, it.get(s, k)))
        return IterV(it.n, lambda s, k: (k + T(start), it.get(s, k)))
    def b_zip(self, st, *vs):
        its = [self.iterate(st, v) for v in vs]
        if all(i.items is not None for i in its): return IterV(min(i.n for i in its), None, list(zip(*[i.items for i in its])))
        def get(s, k):
            out = []
            for i in its:
                if i.items is not None: out.append(self.pick(s, i.items, k) if not z3.is_int_value(k) else i.items[k.as_long()])
                else: out.append(i.get(s, k))
            return tuple(out)
        n = T(its[0].n)
        for i in its[1:]:
            m = T(i.n)
            if not same_term(n, m): n = zmin(n, m)
        return IterV(n, get)
    def b_map(self, st, f, v):
        it = self.iterate(st, v)
        if it.items is not None: return st.newrec('list', None, [self.x.call(st, f, [x], {}) for x in it.items])
        r = self.map_loop(st, f, v)
        return r
    def b_reversed(self, st, v):
        it = self.iterate(st, v)
        if it.items is not None: return IterV(it.n, None, list(reversed(it.items)))
        n = T(it.n)
        return IterV(it.n, lambda s, k: it.get(s, n - 1 - k))
    def b_list(self, st, v=None):
        if v is None: return st.newrec('list', None, [])
        if isinstance(v, A1) and v.mask is None and v.dt in 'fi': return st.newlist((v.dt,), v.n, (st.vec(v),))
        if isinstance(v, A2) and v.mask is None and v.dt == 'f':
            st.escape_val(v); ref = v.ref; off = v.off
            return st.newlist(('vec', v.cols), v.n, (z3.K(I, ref), self.fa(st, v.n, lambda k: k + off, 'i')))
        if isinstance(v, LV):
            r = self.copy(st, v); r.nd = False; return r
        it = self.iterate(st, v)
        if it.items is not None: return st.newrec('list', None, list(it.items))
        if isinstance(v, IterV):
            # range-like: materialise through the element function when it is a pure integer
            t = st.copy(); k = z3.Int('k!e')
            e = it.get(t, k)
            if is_z(e) and e.sort() == I and len(t.pc) == len(st.pc):
                c = fresh(AII, 'L'); n = T(it.n)
                st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), c[k] == e), patterns=[c[k]]))
                if e.eq(k): self.mark_nn(c)
                return st.newlist(('i',), z3.If(n < 0, z3.IntVal(0), n) if is_z(it.n) else n, (c,))
            n = fint('n'); st.add(n >= 0)
            return st.newlist(('unk',), n, ())
        if v is UNK: return UNK
        raise Unsupported('list of %r' % (v,))
    def b_tuple(self, st, v=()):
        it = self.iterate(st, v)
        if it.items is not None: return tuple(it.items)
        return self.b_list(st, v)
    def b_set(self, st, v=None): 
        if v is None: return st.newrec('list', None, [])
        if isinstance(v, (CO, tuple)): return self.b_list(st, v)
        return UNK
    def b_dict(self, st, v=None, **kw):
        f = {}
        if v is not None:
            if isinstance(v, CO) and st.rec(v).kind == 'dict': f.update(st.rec(v).f)
            else: raise Unsupported('dict()')
        f.update(kw)
        return st.newrec('dict', None, f)
    def b_isinstance(self, st, v, t):
        ts = list(t) if isinstance(t, tuple) else [t]
        return self.inst(st, v, ts)
    def inst(self, st, v, ts):
        if v is UNK: return fbool('isinst')
        if isinstance(v, Un): return self.x.split(st, v, lambda s, w: self.inst(s, w, ts))
        res = False
        for t in ts:
            nm = t.name.split('.')[-1] if isinstance(t, ExtV) else (t.cls.name if isinstance(t, ClsV) else None)
            if nm is None: return fbool('isinst')
            if isinstance(v, ObjV): r = isinstance(t, ClsV) and v.cls.isa(nm)
            elif isinstance(v, CO):
                rec = st.rec(v)
                if rec.kind in ('inst',): r = rec.cls is not None and rec.cls.isa(nm)
                else: r = nm == rec.kind
            elif isinstance(v, bool) or isinstance(v, z3.BoolRef): r = nm in ('bool', 'int', 'bool_')
            elif isinstance(v, int) or (is_z(v) and v.sort() == I): r = nm in ('int', 'int64', 'integer', 'Number', 'Integral')
            elif isinstance(v, float) or (is_z(v) and v.sort() == R): r = nm in ('float', 'float64', 'floating', 'Number', 'Real')
            elif isinstance(v, (A1, A2)): r = nm == 'ndarray'
            elif isinstance(v, LV): r = (nm == 'ndarray') if v.nd else nm == 'list'
            elif isinstance(v, str): r = nm == 'str'
            elif isinstance(v, tuple): r = nm == 'tuple'
            elif v is None: r = False
            else: r = False
            res = res or bool(r)
        return res
    def b_sorted(self, st, v, key=None, reverse=False): return self.sorted_(st, v, key, reverse)
    def sorted_(self, st, v, key, reverse):
        if isinstance(v, (CO, tuple)):
            items = list(v) if isinstance(v, tuple) else list(st.rec(v).f)
            if all(not is_z(w) and (is_num(w) or isinstance(w, str)) for w in items) and key is None:
                return st.newrec('list', None, sorted(items, reverse=bool(reverse)))
            if not items: return st.newrec('list', None, [])
            cl = self.lv_of(st, v); v = st.newlist(cl.ek, cl.n, cl.c)
        if isinstance(v, IterV) or v is UNK: return UNK
        n = T(self.length(st, v))
        p, q = self.perm(st, n)
        if isinstance(v, A1): r = st.newlist((v.dt,), n, (self.gat(st, st.vec(v), n, lambda k: p[k]),)); kf = (lambda k: TR(st.vec(v)[k])) if key is None else self.key_fn(st, v, key)[0]
        elif isinstance(v, A2):
            st.escape_val(v)
            off = v.off
            r = st.newlist(('vec', v.cols), n, (z3.K(I, v.ref), self.fa(st, n, lambda k: p[k] + off, 'i')))
            kf = self.key_fn(st, v, key)[0] if key is not None else (lambda k: None)
        else:
            cl = st.arrs[v.key]
            r = self.gather_lv(st, cl, lambda k: p[k], n, False)
            if key is not None: kf = self.key_fn(st, v, key)[0]
            elif cl.ek[0] in 'fi': kf = lambda k: TR(cl.c[0][k])
            else: kf = lambda k: None
        k = z3.Int('k!e'); i, j = z3.Ints('i!e j!e')
        e = kf(k)
        if e is not None and isinstance(reverse, bool):
            ei, ej = z3.substitute(e, (k, p[i])), z3.substitute(e, (k, p[j]))
            st.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), (ei >= ej) if reverse else (ei <= ej)), patterns=[z3.MultiPattern(p[i], p[j])]))
            e0 = z3.substitute(e, (k, p[0]))
            try:
                pat = self.list_term(st, v, k)
                st.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), (e0 >= e) if reverse else (e0 <= e)), patterns=[pat]))
            except Exception: pass
        return r
    def b_any(self, st, v):
        if isinstance(v, CO):
            rs = [self.x.truth(st, w) for w in st.rec(v).f]
            if all(isinstance(r, bool) for r in rs): return any(rs)
            return z3.Or(*[T(r) for r in rs])
        if isinstance(v, A1): return self.np_any(st, v)
        return fbool('any')
    def b_all(self, st, v):
        if isinstance(v, CO):
            rs = [self.x.truth(st, w) for w in st.rec(v).f]
            if all(isinstance(r, bool) for r in rs): return all(rs)
            return z3.And(*[T(r) for r in rs])
        if isinstance(v, A1): return self.np_all(st, v)
        return fbool('all')
    def b_print(self, st, *a, **kw): return None
    def b_callable(self, st, v): return isinstance(v, (FuncV, BoundV, ClsV, ExtV))
    def b_type(self, st, v, *a):
        if isinstance(v, ObjV): return ClsV(v.cls)
        if isinstance(v, CO) and st.rec(v).cls is not None: return ClsV(st.rec(v).cls)
        return Opaque('type')
    def b_hasattr(self, st, v, name):
        if isinstance(v, CO) and st.rec(v).kind == 'inst': return name in st.rec(v).f or bool(st.rec(v).cls.find(name))
        if isinstance(v, ObjV): return name in st.fields or bool(v.cls.find(name))
        return fbool('hasattr')
    def b_getattr(self, st, v, name, *d):
        return self.x.get_attr(st, v, name)
    def b_setattr(self, st, v, name, w): self.x.set_attr(st, v, name, w)
    def b_filter(self, st, f, v):
        it = self.iterate(st, v)
        if it.items is not None:
            out = []
            for w in it.items:
                t = self.x.truth(st, self.x.call(st, f, [w], {})) if f is not None else self.x.truth(st, w)
                if not isinstance(t, bool): raise Unsupported('symbolic filter')
                if t: out.append(w)
            return st.newrec('list', None, out)
        raise Unsupported('filter')
    def b_pow(self, st, a, b): return self.scal(st, '**', a, b)
    def b_next(self, st, it, *d): raise Unsupported('next')
    def b_object(self, st): return Opaque('object')
    def b_slice(self, st, a, b=None, c=None): return SliceV(a, b, c) if b is not None else SliceV(None, a, None)
    def b_id(self, st, v): return fint('id')
    def b_issubclass(self, st, a, b): return fbool('issub')

setattr(NpModel, 'b_%asarr', NpModel.arr_of_list)
setattr(NpModel, 'b_%row', NpModel.num_list)
