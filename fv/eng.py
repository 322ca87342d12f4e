"""Functional verifier: symbolic evaluation of the real function bodies (parsed from /repo on every run) over arrays of
symbolic length, with sums/products as binders and accumulation loops by the inductive rule.  Arithmetic is real."""
import ast, itertools, math, time
from fractions import Fraction
import z3
from vc import src

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
class Unsupported(Exception): pass
class Raised(Exception):
    def __init__(self, what): self.what = what
class Return(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass

_cnt = itertools.count()
IDX = {}                      # id of bound/index variables -> term
def ivar(n='i'):
    v = z3.Int('%s!%d' % (n, next(_cnt))); IDX[v.get_id()] = v; return v
def fresh(sort, n='t'): return z3.Const('%s!%d' % (n, next(_cnt)), sort)
PI = z3.Real('PI')
_uf = {}
def UF(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _uf: _uf[k] = z3.Function(name, *sorts)
    return _uf[k]
REAL_FUNS = ('sin', 'cos', 'exp', 'sqrt', 'log', 'log10', 'log2', 'tanh', 'tan', 'gamma', 'round', 'arctan', 'cosh', 'sinh')

def isz(v): return isinstance(v, z3.ExprRef)
def isnum(v): return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) or isz(v) and v.sort() in (I, R) or isinstance(v, bool)
def frac(v): return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)
def toreal(v):
    if isz(v):
        if v.sort() == R: return v
        if v.sort() == I: return z3.ToReal(v)
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, float) and v in (math.inf, -math.inf): return z3.Real('INF') if v > 0 else -z3.Real('INF')
    if isinstance(v, float) and v != v: raise Unsupported('nan')
    if isinstance(v, bool): v = int(v)
    if isinstance(v, (int, float, Fraction)):
        if isinstance(v, float) and v == math.pi: return PI
        return z3.RealVal(str(frac(v)))
    raise Unsupported('real value of %r' % (v,))
def toint(v):
    if isz(v):
        if v.sort() == I: return v
        if v.sort() == B: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return z3.ToInt(v)
    if isinstance(v, (int, bool)): return z3.IntVal(int(v))
    if isinstance(v, float) and v == int(v): return z3.IntVal(int(v))
    raise Unsupported('integer value of %r' % (v,))
def tobool(v):
    if isz(v):
        if v.sort() == B: return v
        return v != 0
    return z3.BoolVal(bool(v))
def isint(v): return isinstance(v, (int, bool)) and not isz(v) or isz(v) and v.sort() in (I, B)
def simp(t): return z3.simplify(t) if isz(t) else t
def conc(t):
    """concrete python number of a term if it is one"""
    if not isz(t): return t
    s = z3.simplify(t)
    if z3.is_int_value(s): return s.as_long()
    if z3.is_rational_value(s): return Fraction(s.numerator_as_long(), s.denominator_as_long())
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return t

class Arr:
    """array value: shape terms and element closure; `mask` for boolean-selected arrays; identity = object identity"""
    def __init__(self, shape, fn, isint_=False, mask=None, alias=None):
        self.shape, self.fn, self.int, self.mask, self.alias = list(shape), fn, isint_, mask, alias
        self.views = False
    def at(self, *ix):
        assert len(ix) == len(self.shape), (ix, self.shape)
        return self.fn(*ix)
    @property
    def nd(self): return len(self.shape)
class Lst:
    def __init__(self, items): self.items = items
class SymList:
    """list of symbolic length built by comprehension or append loop: items by closure"""
    def __init__(self, n, fn): self.n, self.fn = n, fn
class Obj:
    def __init__(self, cls, f=None): self.cls, self.f = cls, f if f is not None else {}
class Ext:
    def __init__(self, name, recv=None): self.name, self.recv = name, recv
    def __repr__(self): return 'Ext(%s)' % self.name
class Fn:
    def __init__(self, mod, node, env=None, owner=None): self.mod, self.node, self.env, self.owner = mod, node, env, owner
class Bound:
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_
class ClsRef:
    def __init__(self, cls): self.cls = cls
class ModRef:
    def __init__(self, mod): self.mod = mod
class Opaque:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Opaque(%s)' % self.name
class Where:
    """np.where(mask) / index of a boolean mask"""
    def __init__(self, mask): self.mask = mask
class Super:
    def __init__(self, owner, self_): self.owner, self.self_ = owner, self_
class RangeV:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step

# ------------------------------------------------------------------ binders
class Binder:
    def __init__(self, kind, fun, params, n, var, body):
        self.kind, self.fun, self.params, self.n, self.var, self.body = kind, fun, params, n, var, body
    def inst(self, args):
        k = ivar('b')
        s = list(zip(self.params, args)) + [(self.var, k)]
        return (z3.substitute(self.n, *s), k, z3.substitute(self.body, *s))
BIND = {}       # decl id -> Binder
_memo = {}
_keep = []
CAN_J = z3.Int('j!canon')
def _canp(i, s): return z3.Const('p!canon%d_%s' % (i, s.name()), s)

def free_idx(t, acc=None, seen=None):
    out, st, seen = [], [t], set()
    order = []
    def walk(u):
        if u.get_id() in seen: return
        seen.add(u.get_id())
        if u.get_id() in IDX: order.append(u)
        for c in u.children(): walk(c)
    walk(t)
    return order

def binder(kind, n, fn):
    """sum/prod/max/min over i in [0, n) of fn(i), as a term"""
    n = simp(toint(n))
    j = ivar('j')
    body = simp(toreal(fn(j)))
    free = []
    for v in free_idx(body) + free_idx(n):
        if v.get_id() != j.get_id() and all(v.get_id() != w.get_id() for w in free): free.append(v)
    sub = [(v, _canp(i, v.sort())) for i, v in enumerate(free)]
    cb = z3.substitute(body, (j, CAN_J), *sub)
    cn = z3.substitute(n, *sub) if sub else n
    k = (kind, cn.get_id(), cb.get_id())
    if k not in _memo:
        f = z3.Function('%s!%d' % (kind, next(_cnt)), *([v.sort() for v in free] + [R]))
        params = [p for _, p in sub]
        IDX[CAN_J.get_id()] = CAN_J
        for p in params: IDX[p.get_id()] = p
        _memo[k] = Binder(kind, f, params, cn, CAN_J, cb); BIND[f.get_id()] = _memo[k]; _keep.append((cb, cn, f))
    b = _memo[k]
    return b.fun(*free) if free else b.fun()

def apps(t, deep=False):
    """binder applications in t (top ones)"""
    out, seen = [], set()
    def walk(u):
        if u.get_id() in seen: return
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().get_id() in BIND and not any(u.eq(o) for o in out): out.append(u)
        for c in u.children(): walk(c)
    walk(t)
    return out

AX_MAX = 40
def math_axioms(ts):
    """facts about the uninterpreted real functions that occur"""
    out = [PI > z3.RealVal('3.14159'), PI < z3.RealVal('3.1416')]
    seen = set()
    def walk(u):
        if u.get_id() in seen: return
        seen.add(u.get_id())
        for c in u.children(): walk(c)
        if z3.is_app(u):
            nm = u.decl().name()
            if nm == 'sqrt':
                a = u.arg(0); out.append(z3.Implies(a >= 0, z3.And(u >= 0, u * u == a)))
            elif nm in ('sin', 'cos'):
                out.append(z3.And(u <= 1, u >= -1))
            elif nm == 'exp': out.append(u > 0)
            elif nm == 'fpow': pass
    for t in ts: walk(t)
    return out[:AX_MAX]

class Prover:
    def __init__(self, timeout=4000):
        self.n, self.t, self.timeout, self.sat = 0, 0.0, timeout, False
    def valid(self, hyps, goal, timeout=None):
        g = simp(goal)
        if z3.is_true(g): return True
        s = z3.Solver(); s.set('timeout', timeout or self.timeout)
        hy = [h for h in hyps]
        s.add(*hy); s.add(*math_axioms(hy + [g])); s.add(z3.Not(g))
        t = time.time(); r = s.check(); self.t += time.time() - t; self.n += 1
        self.last = str(r)
        return r == z3.unsat
    def sats(self, hyps):
        s = z3.Solver(); s.set('timeout', self.timeout); s.add(*hyps)
        t = time.time(); r = s.check(); self.t += time.time() - t; self.n += 1
        return r != z3.unsat
    # equality of two real terms under hypotheses, using extensionality of the binders
    def equal(self, a, b, hyps, depth=0, split=True):
        a, b = simp(toreal(a)), simp(toreal(b))
        if a.eq(b): return True
        if z3.simplify(a - b, som=True).eq(z3.RealVal(0)): return True
        eqs = self.lemmas(a, b, hyps, depth)
        if self.valid(hyps + eqs, a == b): return True
        if split:
            a2, b2 = self.expand(a), self.expand(b)
            if not (a2.eq(a) and b2.eq(b)):
                if z3.simplify(a2 - b2, som=True).eq(z3.RealVal(0)): return True
                eqs = self.lemmas(a2, b2, hyps, depth)
                if self.valid(hyps + eqs, a2 == b2): return True
                a, b = a2, b2
            # ranges that differ by one: peel first or last term
            peel = self.peels(a, b, hyps)
            if peel:
                extra = eqs + [p for p, _ in peel]
                ts = [t for _, t in peel]
                more = []
                for t in ts:
                    for u in apps(a) + apps(b):
                        if not u.eq(t) and self.same(u, t, hyps, depth + 1): more.append(u == t)
                if self.valid(hyps + extra + more, a == b): return True
        return False
    def lemmas(self, a, b, hyps, depth):
        A, Bs = apps(a), apps(b)
        eqs = []
        if depth > 3: return eqs
        for u in A:
            for v in Bs:
                if u.eq(v): continue
                if self.same(u, v, hyps, depth + 1): eqs.append(u == v)
        return eqs
    def same(self, u, v, hyps, depth):
        p, q = BIND[u.decl().get_id()], BIND[v.decl().get_id()]
        if p.kind != q.kind: return False
        n1, j1, b1 = p.inst([u.arg(i) for i in range(u.num_args())])
        n2, j2, b2 = q.inst([v.arg(i) for i in range(v.num_args())])
        if p.kind == 'sum' and self.double(p, q, u, v, hyps, depth): return True
        if not self.valid(hyps, n1 == n2, 2000): return False
        k = ivar('k')
        b1, b2 = z3.substitute(b1, (j1, k)), z3.substitute(b2, (j2, k))
        return self.equal(b1, b2, hyps + [k >= 0, k < n1], depth, split=depth < 3)
    def double(self, p, q, u, v, hyps, depth):
        """exchange of the order of summation: both are sums of sums; equal if the summands agree on the union of the
        index sets, extended by zero, for one of the two orders"""
        if depth > 2: return False
        def parts(t):
            b = BIND[t.decl().get_id()]
            n, j, body = b.inst([t.arg(i) for i in range(t.num_args())])
            if not (z3.is_app(body) and body.decl().get_id() in BIND): return None
            c = BIND[body.decl().get_id()]
            if c.kind != 'sum': return None
            m, k, inner = c.inst([body.arg(i) for i in range(body.num_args())])
            return n, j, m, k, inner
        a, b = parts(u), parts(v)
        if a is None or b is None: return False
        i, j = ivar('d'), ivar('d')
        def region(w, x, y):
            n, vj, m, vk, inner = w
            s = [(vj, x), (vk, y)]
            m, inner = z3.substitute(m, *s), z3.substitute(inner, *s)
            return z3.If(z3.And(x >= 0, x < n, y >= 0, y < m), inner, 0)
        for x, y in ((i, j), (j, i)):
            if self.equal(region(a, i, j), region(b, x, y), hyps, 3, split=False): return True
        return False
    def expand(self, t):
        """linearity: every sum becomes a combination of sums of monomials"""
        for u in apps(t):
            p = BIND[u.decl().get_id()]
            if p.kind != 'sum': continue
            n, j, body = p.inst([u.arg(i) for i in range(u.num_args())])
            body = self.expand(body)
            k = ivar('k'); body = z3.substitute(body, (j, k))
            body = z3.simplify(body, som=True)
            terms = body.children() if z3.is_add(body) else [body]
            total = z3.RealVal(0)
            for m in terms:
                fs = []
                def flat(w):
                    if z3.is_mul(w):
                        for c in w.children(): flat(c)
                    else: fs.append(w)
                flat(m)
                out, inn = [], []
                for f in fs: (inn if any(x.get_id() == k.get_id() for x in free_idx(f)) else out).append(f)
                c = z3.RealVal(1)
                for f in out: c = c * f
                if not inn: total = total + c * z3.ToReal(z3.If(n >= 0, n, 0)); continue
                b = inn[0]
                for f in inn[1:]: b = b * f
                total = total + c * binder('sum', n, lambda i, b=b: z3.substitute(b, (k, i)))
            t = z3.substitute(t, (u, total))
        return simp(t)
    def peels(self, a, b, hyps):
        out = []
        A, Bs = apps(a), apps(b)
        for X, Y in ((A, Bs), (Bs, A)):
            for u in X:
                p = BIND[u.decl().get_id()]
                for v in Y:
                    q = BIND[v.decl().get_id()]
                    if p.kind != q.kind or p.kind not in ('sum', 'prod'): continue
                    n1, j, body = p.inst([u.arg(i) for i in range(u.num_args())])
                    n2, _, _ = q.inst([v.arg(i) for i in range(v.num_args())])
                    dn = conc(n1 - n2)
                    if isz(dn) or dn != 1: continue
                    if not self.valid(hyps, n1 >= 1, 1000): continue
                    last = binder(p.kind, n1 - 1, lambda i: z3.substitute(body, (j, i)))
                    first = binder(p.kind, n1 - 1, lambda i: z3.substitute(body, (j, i + 1)))
                    op = (lambda s, e: s + e) if p.kind == 'sum' else (lambda s, e: s * e)
                    out.append((u == op(last, z3.substitute(body, (j, n1 - 1))), last))
                    out.append((u == op(first, z3.substitute(body, (j, z3.IntVal(0)))), first))
        return out

# ------------------------------------------------------------------ scalar operations
def num(v):
    """exact python number or z3 term; floats stay floats for folding"""
    return v
def both_conc(a, b): return not isz(a) and not isz(b)
def add(a, b):
    if both_conc(a, b) and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)): return a + b
    if isint(a) and isint(b): return simp(toint(a) + toint(b))
    return toreal(a) + toreal(b)
def sub(a, b):
    if both_conc(a, b) and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)): return a - b
    if isint(a) and isint(b): return simp(toint(a) - toint(b))
    return toreal(a) - toreal(b)
def mul(a, b):
    if both_conc(a, b) and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)): return a * b
    if isint(a) and isint(b): return simp(toint(a) * toint(b))
    return toreal(a) * toreal(b)
def div(a, b):
    ca, cb = conc(a), conc(b)
    if both_conc(ca, cb) and all(isinstance(x, (int, float, Fraction)) for x in (ca, cb)) and cb != 0 and not any(isinstance(x, float) and x == math.pi for x in (ca, cb)):
        return frac(ca) / frac(cb)
    if isinstance(cb, (int, Fraction)) and cb != 0: return toreal(a) * z3.RealVal(str(Fraction(1) / cb))
    return toreal(a) / toreal(b)
def neg(a):
    if not isz(a): return -a
    return -toint(a) if isint(a) else -toreal(a)
def fun(name, a):
    c = conc(a)
    if name == 'sqrt' and isinstance(c, (int, Fraction)) and c >= 0:
        c = Fraction(c); p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator: return Fraction(p, q)
    if name in ('sin',) and c == 0 and not isz(c): return 0
    if name in ('cos', 'exp') and c == 0 and not isz(c): return 1
    return UF(name, R, R)(simp(toreal(a)))
def absv(a):
    if not isz(a): return abs(a)
    t = toint(a) if isint(a) else toreal(a)
    return z3.If(t >= 0, t, -t)
def floor(a):
    if not isz(a): return math.floor(a)
    return z3.ToReal(z3.ToInt(toreal(a))) if not isint(a) else toreal(a)
def ceil(a):
    if not isz(a): return math.ceil(a)
    return -z3.ToReal(z3.ToInt(-toreal(a))) if not isint(a) else toreal(a)
def power(a, b):
    ca, cb = conc(a), conc(b)
    if isinstance(cb, float): cb = frac(cb)
    if isinstance(cb, Fraction) and cb.denominator == 1: cb = int(cb)
    if isinstance(ca, float) and ca != math.pi: ca = frac(ca)
    if isinstance(cb, int) and not isz(cb):
        if isinstance(ca, (int, Fraction)) and not isz(ca): return Fraction(ca) ** cb if cb < 0 or isinstance(ca, Fraction) else ca ** cb
        if 0 <= cb <= 12:
            if cb == 0: return 1
            isi = isint(a)
            r = a if not isz(a) else (toint(a) if isi else toreal(a)); x = r
            for _ in range(cb - 1): r = mul(r, x)
            return r
        if -12 <= cb < 0: return div(1, power(a, -cb))
    if not isz(cb) and cb == Fraction(1, 2): return fun('sqrt', a)
    # symbolic exponent
    tb = simp(toreal(b))
    if z3.is_mul(tb) and z3.is_rational_value(tb.arg(0)) and tb.arg(0).numerator_as_long() == -1 and tb.num_args() == 2:
        return div(1, power(a, tb.arg(1)))
    if z3.is_app(tb) and tb.decl().kind() == z3.Z3_OP_UMINUS: return div(1, power(a, tb.arg(0)))
    inner = tb.arg(0) if z3.is_app(tb) and tb.decl().kind() == z3.Z3_OP_TO_REAL else None
    if inner is not None:
        si = z3.simplify(-inner)
        if z3.is_mul(inner) and z3.is_int_value(inner.arg(0)) and inner.arg(0).as_long() == -1:
            return div(1, power(a, si))
    if isinstance(ca, Fraction) and not isz(ca) and ca.numerator == 1 and ca.denominator != 1: return div(1, power(ca.denominator, b))
    return UF('fpow', R, R, R)(simp(toreal(ca if not isz(ca) else a)), tb)
def mod(a, b):
    ca, cb = conc(a), conc(b)
    if both_conc(ca, cb) and isinstance(ca, int) and isinstance(cb, int) and cb: return ca % cb
    if isint(a) and isint(b): return toint(a) % toint(b)
    a, b = toreal(a), toreal(b)
    if not isz(cb) and cb > 0 or isz(cb): return a - b * z3.ToReal(z3.ToInt(a / b))
    raise Unsupported('modulo')
def fmod(a, b):
    a, b = toreal(a), toreal(b)
    q = a / b
    t = z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q)))
    return a - b * t
def floordiv(a, b):
    ca, cb = conc(a), conc(b)
    if both_conc(ca, cb): return ca // cb
    if isint(a) and isint(b) and not isz(cb) and cb > 0: return toint(a) / toint(b)
    return z3.ToReal(z3.ToInt(toreal(a) / toreal(b)))
def vmin(a, b):
    if both_conc(a, b): return min(a, b)
    if isint(a) and isint(b): a, b = toint(a), toint(b)
    else: a, b = toreal(a), toreal(b)
    return z3.If(a <= b, a, b)
def vmax(a, b):
    if both_conc(a, b): return max(a, b)
    if isint(a) and isint(b): a, b = toint(a), toint(b)
    else: a, b = toreal(a), toreal(b)
    return z3.If(a >= b, a, b)
def cmpop(op, a, b):
    if both_conc(a, b):
        return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'Eq': lambda: a == b, 'NotEq': lambda: a != b}[op]()
    if isz(a) and a.sort() == B or isz(b) and b.sort() == B:
        x, y = tobool(a), tobool(b)
        return {'Eq': x == y, 'NotEq': x != y}[op]
    if isint(a) and isint(b): x, y = toint(a), toint(b)
    else: x, y = toreal(a), toreal(b)
    return simp({'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y, 'Eq': lambda: x == y, 'NotEq': lambda: x != y}[op]())
def ite(c, a, b):
    """conditional of two values"""
    c = conc(c)
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isnum(a) and isnum(b):
        if isz(a) and a.sort() == B and isz(b) and b.sort() == B or isinstance(a, bool) and isinstance(b, bool): return z3.If(c, tobool(a), tobool(b))
        if isint(a) and isint(b): return z3.If(c, toint(a), toint(b))
        return z3.If(c, toreal(a), toreal(b))
    if isz(a) and a.sort() == B or isz(b) and b.sort() == B: return z3.If(c, tobool(a), tobool(b))
    raise Unsupported('join of %r and %r' % (type(a).__name__, type(b).__name__))
