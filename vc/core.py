"""Values, symbolic state, solver access of the VC generator."""
import itertools, time
import z3
from fractions import Fraction

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SORT = {'f': R, 'i': I, 'b': B}
V = z3.ArraySort(I, R)
M = z3.ArraySort(I, V)
HS = z3.ArraySort(I, M)
AIR = z3.ArraySort(I, R)
AII = z3.ArraySort(I, I)
VS = {'f': V, 'i': AII, 'b': z3.ArraySort(I, B)}
MS = {d: z3.ArraySort(I, s) for d, s in VS.items()}

_c = itertools.count()
def fresh(sort, name='t'):
    return z3.Const('%s!%d' % (name, next(_c)), sort)
def fint(n='i'): return fresh(I, n)
def freal(n='r'): return fresh(R, n)
def fbool(n='b'): return fresh(B, n)
def nextid(): return next(_c)

INF = z3.Real('INF')
D = z3.Int('D')
LO, HI, RG = z3.Const('LO', V), z3.Const('HI', V), z3.Const('RG', V)
G = z3.Function('G', V, R)            # sign-adjusted objective
FEAS = z3.Function('feas', V, B)
WIT = z3.Function('feas_wit', V, I)
EQV = z3.Function('eqv', V, V, B)     # agree on [0,D)

def axioms():
    k = z3.Int('k!ax'); a = z3.Const('a!ax', V); b = z3.Const('b!ax', V)
    return [
        D >= 1, INF > 1000000,
        z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < D), LO[k] <= HI[k]), patterns=[LO[k]]),
        z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < D), LO[k] <= HI[k]), patterns=[HI[k]]),
        z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < D), RG[k] == HI[k] - LO[k]), patterns=[RG[k]]),
        z3.ForAll([a, k], z3.Implies(z3.And(FEAS(a), 0 <= k, k < D), z3.And(LO[k] <= a[k], a[k] <= HI[k])),
                  patterns=[z3.MultiPattern(FEAS(a), a[k])]),
        z3.ForAll([a], z3.Or(FEAS(a), z3.And(0 <= WIT(a), WIT(a) < D,
                  z3.Or(a[WIT(a)] < LO[WIT(a)], a[WIT(a)] > HI[WIT(a)]))), patterns=[FEAS(a)]),
        z3.ForAll([a], z3.And(G(a) < INF, G(a) > -INF), patterns=[G(a)]),
        z3.And(FEAS(LO), FEAS(HI)),
    ]
# the objective reads only the first D coordinates
EXT = None
def ext_axiom():
    a = z3.Const('a!ax', V); b = z3.Const('b!ax', V)
    w = z3.Function('eqv_wit', V, V, I)
    return [z3.ForAll([a, b], z3.Implies(EQV(a, b), z3.And(G(a) == G(b), FEAS(a) == FEAS(b))), patterns=[EQV(a, b)]),
            z3.ForAll([a, b], z3.Or(EQV(a, b), z3.And(0 <= w(a, b), w(a, b) < D, a[w(a, b)] != b[w(a, b)])), patterns=[EQV(a, b)])]

class Unsupported(Exception):
    pass

class _U:
    def __repr__(self): return 'UNK'
UNK = _U()

class A1:
    __slots__ = ('key', 'ref', 'row', 'off', 'n', 'dt', 'mask')
    def __init__(s, key, ref, row, off, n, dt, mask=None):
        s.key, s.ref, s.row, s.off, s.n, s.dt, s.mask = key, ref, row, off, n, dt, mask
    def __repr__(s): return 'A1(%s,%s,n=%s,%s)' % (s.key, s.row, s.n, s.dt)
class A2:
    __slots__ = ('key', 'ref', 'off', 'n', 'cols', 'dt', 'mask')
    def __init__(s, key, ref, off, n, cols, dt, mask=None):
        s.key, s.ref, s.off, s.n, s.cols, s.dt, s.mask = key, ref, off, n, cols, dt, mask
    def __repr__(s): return 'A2(%s,n=%s,c=%s,%s)' % (s.key, s.n, s.cols, s.dt)
class AN:
    """array of known shape and unknown content (rank >= 1); reads are fresh, writes have no tracked effect"""
    __slots__ = ('shape', 'dt', 'ro', 'wsum')
    def __init__(s, shape, dt, ro=False): s.shape, s.dt, s.ro, s.wsum = tuple(T(d) for d in shape), dt, ro, None     # ro: view of a tracked array; wsum: every sum along the last axis lies in [0, wsum]
    def __repr__(s): return 'AN(%s,%s)' % (s.shape, s.dt)
class LV:
    __slots__ = ('key', 'nd')
    def __init__(s, key, nd=False): s.key, s.nd = key, nd
    def __repr__(s): return 'LV(%s)' % (s.key,)
class ObjV:
    __slots__ = ('ref', 'cls')
    def __init__(s, ref, cls): s.ref, s.cls = ref, cls
    def __repr__(s): return 'Obj(%s,%s)' % (s.ref, s.cls.name)
class CO:
    __slots__ = ('id',)
    def __init__(s, id): s.id = id
    def __repr__(s): return 'CO(%s)' % s.id
    def __eq__(s, o): return isinstance(o, CO) and o.id == s.id
    def __hash__(s): return hash(s.id)
class Rec:
    __slots__ = ('kind', 'cls', 'f')
    def __init__(s, kind, cls, f): s.kind, s.cls, s.f = kind, cls, f
    def copy(s): return Rec(s.kind, s.cls, dict(s.f) if isinstance(s.f, dict) else list(s.f))
class FuncV:
    __slots__ = ('mod', 'node', 'env', 'owner', 'name')
    def __init__(s, mod, node, env=None, owner=None, name=None):
        s.mod, s.node, s.env, s.owner, s.name = mod, node, env, owner, name or getattr(node, 'name', '<lambda>')
    def __repr__(s): return 'Func(%s)' % s.name
    def __eq__(s, o): return isinstance(o, FuncV) and o.node is s.node and o.env is s.env
    def __hash__(s): return hash(id(s.node))
class BoundV:
    __slots__ = ('self', 'fn')
    def __init__(s, self_, fn): s.self, s.fn = self_, fn
    def __eq__(s, o): return isinstance(o, BoundV) and o.self == s.self and o.fn == s.fn
    def __hash__(s): return 1
class ClsV:
    __slots__ = ('cls',)
    def __init__(s, cls): s.cls = cls
    def __eq__(s, o): return isinstance(o, ClsV) and o.cls is s.cls
    def __hash__(s): return hash(id(s.cls))
    def __repr__(s): return 'ClsV(%s)' % s.cls.name
class ModV:
    def __init__(s, mod): s.mod = mod
class ExtV:
    __slots__ = ('name', 'recv')
    def __init__(s, name, recv=None): s.name, s.recv = name, recv
    def __repr__(s): return 'Ext(%s)' % s.name
    def __eq__(s, o): return isinstance(o, ExtV) and o.name == s.name and o.recv is s.recv
    def __hash__(s): return hash(s.name)
class Opaque:
    """named opaque value (rng, callbacks, logger, type objects)"""
    def __init__(s, name): s.name = name
    def __eq__(s, o): return isinstance(o, Opaque) and o.name == s.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return 'Opaque(%s)' % s.name
class SuperV:
    def __init__(s, self_, after): s.self, s.after = self_, after
class Un:
    """guarded union; guards are exhaustive on the current path"""
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return 'Un(%s)' % (s.alts,)
class IdxOf:
    """np.where(mask)[0]-like index set kept as its mask"""
    def __init__(s, mask): s.mask = mask
class OSet(dict):
    """a set that remembers the order of insertion (facts must come in the same order in every run)"""
    def add(s, x): s[x] = True
class IterV:
    rng = False           # values of a range
    def __init__(s, n, get, items=None): s.n, s.get, s.items = n, get, items
class SliceV:
    def __init__(s, lo, hi, step): s.lo, s.hi, s.step = lo, hi, step

RNG = Opaque('rng')

class C1:
    __slots__ = ('c',)
    def __init__(s, c): s.c = c
class C2:
    __slots__ = ('c',)
    def __init__(s, c): s.c = c
class CL:
    """list / object-array content. ek: ('obj',cls) ('vec',n) ('f',) ('i',) ('unk',)"""
    __slots__ = ('ek', 'n', 'c')
    def __init__(s, ek, n, c): s.ek, s.n, s.c = ek, n, c
class FM:
    __slots__ = ('kind', 'maps', 'extra', 'none')
    def __init__(s, kind, maps, extra=None, none=False): s.kind, s.maps, s.extra, s.none = kind, maps, extra, none

def is_z(v): return isinstance(v, z3.ExprRef)
def is_num(v): return (isinstance(v, (int, float)) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef))
def is_bool(v): return isinstance(v, bool) or isinstance(v, z3.BoolRef)

def T(v):
    """z3 term of a number/bool"""
    if isinstance(v, z3.ExprRef): return v
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, float):
        if v == float('inf'): return INF
        if v == float('-inf'): return -INF
        if v != v: return freal('nan')
        fr = Fraction(v)
        return z3.Q(fr.numerator, fr.denominator)
    raise Unsupported('term of %r' % (v,))
def TI(v):
    t = T(v)
    if t.sort() == B: return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if t.sort() == R:
        t = z3.ToInt(t)
    return t
def TR(v):
    t = T(v)
    if t.sort() == B: return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if t.sort() == I: return z3.ToReal(t)
    return t
def TB(v):
    t = T(v)
    if t.sort() == B: return t
    return t != 0
def Td(v, dt): return {'f': TR, 'i': TI, 'b': TB}[dt](v)
def pair(a, b):
    a, b = T(a), T(b)
    if a.sort() == B: a = TI(a)
    if b.sort() == B: b = TI(b)
    if a.sort() == b.sort(): return a, b
    return TR(a), TR(b)
def same_term(a, b):
    a, b = T(a), T(b)
    if a.eq(b): return True
    if a.sort() != b.sort(): return False
    return z3.simplify(a == b).eq(z3.BoolVal(True)) if a.sort() in (I, R) else False

KEYREF = {}
def vars_of(f, seen=None):
    seen = {} if seen is None else seen
    if f.get_id() in seen: return seen
    seen[f.get_id()] = f
    for c in ([f.body()] if z3.is_quantifier(f) else f.children()): vars_of(c, seen)
    return seen

class State:
    def __init__(s):
        s.escaped = frozenset()
        s.frames = []; s.dead = []; s.conc = {}; s.arrs = {}; s.H = z3.Const('H0', HS)
        s.fields = {}; s.pc = []; s.path = []; s.base = z3.Int('BASE0'); s.gid0 = 0
        s.m = z3.Real('m0'); s.stopped = z3.Bool('stopped0'); s.evals = z3.Int('evals0'); s.iters = z3.Int('iters0')
        s.ghost = {}
    def copy(s):
        t = State.__new__(State)
        t.frames = [dict(f) for f in s.frames]; t.dead = list(s.dead); t.conc = dict(s.conc)
        t.arrs = dict(s.arrs); t.H = s.H; t.fields = dict(s.fields); t.pc = list(s.pc); t.path = list(s.path)
        t.base, t.gid0 = s.base, s.gid0
        t.m, t.stopped, t.evals, t.iters = s.m, s.stopped, s.evals, s.iters
        t.ghost = dict(s.ghost); t.escaped = s.escaped
        return t
    def become(s, t):
        for k in ('frames', 'dead', 'conc', 'arrs', 'H', 'fields', 'pc', 'path', 'base', 'gid0', 'm', 'stopped', 'evals', 'iters', 'ghost', 'escaped'):
            setattr(s, k, getattr(t, k))
    def add(s, *fs):
        for f in fs:
            if f is None or (isinstance(f, bool) and f): continue
            if isinstance(f, bool): f = z3.BoolVal(f)
            if z3.is_true(f): continue
            s.pc.append(f)
    # records
    def rec(s, co): return s.conc[co.id]
    def wrec(s, co):
        r = s.conc[co.id].copy(); s.conc[co.id] = r
        return r
    def newrec(s, kind, cls, f):
        i = nextid(); s.conc[i] = Rec(kind, cls, f)
        return CO(i)
    # allocation
    def newref(s):
        g = nextid(); r = s.base + g
        KEYREF[g] = r
        return g, r
    def alloc_bound(s):
        return s.base + nextid()
    def facts(s): return s.pc + s.path
    def new1(s, n, dt='f', c=None):
        g, r = s.newref()
        s.arrs[g] = C1(c if c is not None else fresh(VS[dt], 'v'))
        return A1(g, r, None, 0, T(n) if not is_z(n) else n, dt)
    def new2(s, n, cols, dt='f', c=None):
        g, r = s.newref()
        s.arrs[g] = C2(c if c is not None else fresh(MS[dt], 'M'))
        return A2(g, r, 0, T(n), T(cols), dt)
    def newlist(s, ek, n, c, nd=False):
        g, r = s.newref()
        s.arrs[g] = CL(ek, T(n), c)
        return LV(g, nd)
    def nm(s, t):
        """name a compound array term (definitional extension: keeps select terms available to triggers)"""
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return t
        if t.decl().kind() == z3.Z3_OP_CONST_ARRAY: return t
        c = fresh(t.sort(), 'd'); s.pc.append(c == t)
        return c
    # array content
    def obj_content(s, a):
        return s.arrs.get(a.key) if a.key is not None else None
    def raw2(s, a):
        """matrix content of the whole object behind a (A2, or A1 row view)"""
        o = s.obj_content(a)
        if o is not None:
            return o.c
        if a.dt != 'f': return fresh(MS[a.dt], 'lost')
        return s.H[a.ref]
    def vec(s, a):
        """content of A1 as an array term indexed from 0"""
        o = s.obj_content(a)
        if o is not None:
            c = o.c if isinstance(o, C1) else o.c[a.row]
        elif a.dt != 'f':
            c = fresh(VS[a.dt], 'lost')
        else:
            c = s.H[a.ref][a.row if a.row is not None else z3.IntVal(0)]
        if isinstance(a.off, int) and a.off == 0: return c
        k = z3.Int('k!o'); d = fresh(VS[a.dt], 'sh')
        s.add(z3.ForAll([k], d[k] == c[k + a.off], patterns=[d[k]]))
        return d
    def mat(s, a):
        c = s.raw2(a)
        if isinstance(a.off, int) and a.off == 0: return c
        k = z3.Int('k!o'); d = fresh(MS[a.dt], 'shM')
        s.add(z3.ForAll([k], d[k] == c[k + a.off], patterns=[d[k]]))
        return d
    def put_row_object(s, a, newrowc):
        """replace whole 1-D object / row content (no offset)"""
        o = s.obj_content(a)
        if o is not None:
            if isinstance(o, C1): s.arrs[a.key] = C1(s.nm(newrowc))
            else: s.arrs[a.key] = C2(s.nm(z3.Store(o.c, a.row, newrowc)))
        elif a.dt == 'f':
            row = a.row if a.row is not None else z3.IntVal(0)
            s.H = s.nm(z3.Store(s.H, a.ref, z3.Store(s.H[a.ref], row, newrowc)))
        else:
            raise Unsupported('write to escaped non-float array')
    def setvec(s, a, newc):
        """content of the A1 window := newc (indexed from 0 in the window)"""
        if isinstance(a.off, int) and a.off == 0:
            # windows always start at 0 of the object; elements past the window keep their value only if the window is partial
            s.put_row_object(a, newc)
            return
        base = A1(a.key, a.ref, a.row, 0, a.n, a.dt)
        old = s.vec(base); k = z3.Int('k!w'); d = fresh(VS[a.dt], 'w')
        s.add(z3.ForAll([k], d[k] == z3.If(z3.And(k >= a.off, k < a.off + a.n), newc[k - a.off], old[k]), patterns=[d[k]]))
        if z3.is_const(newc): s.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a.n), d[k + a.off] == newc[k]), patterns=[newc[k]]))
        s.put_row_object(base, d)
    def setmat_raw(s, a, newM):
        o = s.obj_content(a)
        if o is not None: s.arrs[a.key] = C2(s.nm(newM))
        elif a.dt == 'f': s.H = s.nm(z3.Store(s.H, a.ref, newM))
        else: raise Unsupported('write to escaped non-float matrix')
    def escape(s, key):
        """move an array object to the symbolic heap (it may now be aliased by symbolic references)"""
        o = s.arrs.get(key)
        if o is None: return
        if isinstance(o, CL): raise Unsupported('escape of list')
        ref = KEYREF[key]
        if o.c.sort() == V: s.H = s.nm(z3.Store(s.H, ref, z3.Store(s.H[ref], 0, o.c)))
        elif o.c.sort() == M: s.H = s.nm(z3.Store(s.H, ref, o.c))
        del s.arrs[key]
        s.escaped = s.escaped | {key}
    def escape_val(s, a):
        if a.key is not None: s.escape(a.key)

class Solver:
    """z3 with quantifier instantiation by triggers only; cvc5 second opinion on open goals."""
    def __init__(self, timeout_ms=4000):
        self.timeout = timeout_ms
        self.n = 0; self.t = 0.0; self.results = {}; self.late = 0
        self.base = axioms()
    VARIANTS = ({'smt.random_seed': 1}, {'smt.relevancy': 0}, {'smt.random_seed': 3, 'smt.relevancy': 1})
    def make(self, facts, extra_axioms=(), opts=None):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('auto_config', False); s.set('smt.mbqi', False); s.set('timeout', self.timeout)
        s.set('smt.random_seed', 7)
        for k, v in (opts or {}).items(): s.set(k, v)
        for f in self.base: s.add(f)
        for f in extra_axioms: s.add(f)
        for f in facts: s.add(f)
        return s
    # existential facts get a named witness, and existential goals are offered the witnesses by name (z3's triggers miss them)
    sk = {}
    def skolem(self, f, ws):
        i = f.get_id()
        if i not in self.sk:
            l = []; self.sk[i] = (f, self.skolem1(f, l), l)
        ws.extend(w for w in self.sk[i][2] if not any(w.eq(u) for u in ws))
        return self.sk[i][1]
    def skolem1(self, f, l):
        if z3.is_quantifier(f):
            if not f.is_exists(): return f
            c = [z3.FreshConst(f.var_sort(k), 'w') for k in range(f.num_vars())]
            l += [x for x in c if x.sort() == I]
            return z3.substitute_vars(f.body(), *reversed(c))
        if z3.is_and(f) or z3.is_or(f):
            a = [self.skolem1(x, l) for x in f.children()]
            return z3.And(*a) if z3.is_and(f) else z3.Or(*a)
        if z3.is_implies(f): return z3.Implies(f.arg(0), self.skolem1(f.arg(1), l))
        return f
    def offer(self, g, ws):
        if z3.is_quantifier(g):
            if not g.is_exists() or g.num_vars() != 1 or g.var_sort(0) != I: return g
            return z3.Or(g, *[z3.substitute_vars(g.body(), w) for w in ws])
        if z3.is_and(g) or z3.is_or(g):
            a = [self.offer(x, ws) for x in g.children()]
            return z3.And(*a) if z3.is_and(g) else z3.Or(*a)
        if z3.is_implies(g): return z3.Implies(g.arg(0), self.offer(g.arg(1), ws))
        return g
    def valid_many(self, facts, goals, rlimit=None, retry=False):
        """-> list of 'valid'|'sat'|'open:<reason>' for each goal; retry: a goal left open is tried under other search settings"""
        out = self.valid_many1(facts, goals, rlimit)
        if retry:
            for o in self.VARIANTS:
                again = [i for i, r in enumerate(out) if r.startswith('open')]
                if not again or len(again) > 12: break
                for i, r in zip(again, self.valid_many1(facts, [goals[i] for i in again], rlimit, o)):
                    if r == 'valid': out[i] = r; self.retried += 1
        return out
    retried = 0
    def valid_many1(self, facts, goals, rlimit=None, opts=None):
        t0 = time.time()
        ws = []
        facts = [self.skolem(f, ws) for f in facts]
        if ws: goals = [self.offer(g, ws[-8:]) for g in goals]
        s = self.make(facts, (), opts)
        if rlimit: s.set('rlimit', rlimit)
        out = []
        for g in goals:
            t1 = time.time(); s.push(); s.add(z3.Not(g))
            r = s.check()
            self.n += 1
            if r == z3.unsat: out.append('valid')
            elif r == z3.sat: out.append('sat')
            else:
                out.append('open:' + s.reason_unknown())
                if s.reason_unknown() in ('timeout', 'canceled') and time.time() - t1 > self.timeout / 1000 * 0.9: self.late += 1
            s.pop()
        self.t += time.time() - t0
        return out
    def reachable(self, facts):
        """vacuity guard: the facts must not be contradictory"""
        s = self.make(facts)
        s.set('rlimit', 4000000)
        r = s.check(); self.n += 1
        return r != z3.unsat
