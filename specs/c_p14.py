"""Parameters of the algorithms.  One contract per algorithm class C, whose constructor and set_parameters are executed with a
symbolic value v for one parameter p of their signatures (every class, every parameter, every v):
  C(p=v).get_parameters()[p] is v, if p is reported, and the attribute p is v, if there is one;
  every other parameter reported has the value it has in C();
  o.set_parameters(p=v) does the same for an existing algorithm, whatever it was constructed with."""
from fv.eng import *
from vc import src
SKIP = ('self', 'args', 'kwargs', 'seed', 'callbacks', 'logger')
def names(cls, meth):
    """[(name, default)] of the signature"""
    c, node = cls.find(meth); a = node.args; out = []
    ps = a.posonlyargs + a.args; ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
    for p, d in list(zip(ps, ds)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg not in SKIP: out.append((p.arg, d))
    return out
class NumV(Opaque): pass
def value(p, d):
    """a symbolic value of the kind of the default"""
    v = d.operand if isinstance(d, ast.UnaryOp) else d
    if isinstance(v, ast.Constant):
        if isinstance(v.value, bool): return z3.Bool('v_' + p)
        if isinstance(v.value, int): return z3.Int('v_' + p)
        if isinstance(v.value, float): return z3.Real('v_' + p)
    if isinstance(v, ast.Attribute) and v.attr == 'inf' or isinstance(v, ast.BinOp) and not isinstance(v.op, ast.Mult): return z3.Real('v_' + p)
    return Opaque('v_' + p)
def same(s, hy, a, b):
    if a is b: return True
    if isnum(a) and isnum(b) or isz(a) and isz(b):
        if isinstance(a, float) and isinstance(b, float): return a == b
        if isz(a) and a.sort() == B or isz(b) and b.sort() == B: return s.pv.valid(hy, tobool(a) == tobool(b))
        return s.pv.valid(hy, toreal(a) == toreal(b))
    if isinstance(a, Fn) and isinstance(b, Fn): return a.node is b.node
    if isinstance(a, Bound) and isinstance(b, Bound): return a.fn.node is b.fn.node
    if isinstance(a, ClsRef) and isinstance(b, ClsRef): return a.cls is b.cls
    if isinstance(a, (tuple, Lst)) and isinstance(b, (tuple, Lst)):
        x, y = list(a if isinstance(a, tuple) else a.items), list(b if isinstance(b, tuple) else b.items)
        return len(x) == len(y) and all(same(s, hy, p, q) for p, q in zip(x, y))
    if isinstance(a, Ext) and isinstance(b, Ext): return a.name == b.name
    return type(a) == type(b) and not isinstance(a, (Obj, Arr, Opaque, Fn, Bound)) and a == b
def contract(mod, name):
    def c(s):
        cls = s.cls(mod, name)
        INF = z3.Real('INF')
        def hook(f, fn, args, kw):
            if isinstance(fn, ClsRef) and fn.cls.name == 'CallbackList':
                o = Opaque('callbacks'); o.attrs = {'set_algorithm': lambda *a: None}; return o
            return NotImplemented
        def run(p, v, setp, old):
            """reported parameters and attributes; the algorithm is constructed with `old` before set_parameters"""
            def th():
                if not setp: o = f.new(cls, [], {p: v} if p else {})
                else:
                    o = f.new(cls, [], old); f.method(o, 'set_parameters', [], {p: v} if p else {})
                return f.method(o, 'get_parameters'), dict(o.f)
            return f.paths(th)
        f = s.fv([INF > 10 ** 9]); f.hook = hook
        for setp in (False, True):
            w = 'set_parameters' if setp else 'the constructor'
            meth = 'set_parameters' if setp else '__init__'
            sig = names(cls, meth)
            base = run(None, None, setp, {})
            for pc, r in base: s.fact('%s without arguments raises no exception' % w, not isinstance(r, Raised), getattr(r, 'what', ''))
            base = [(pc, r) for pc, r in base if not isinstance(r, Raised)]
            if not base: continue
            if len(base) != 1: raise Unsupported('branches in ' + meth)
            d0, _ = base[0][1]
            for p, d in sig:
                v = value(p, d)
                hy0 = [v > 0] if isz(v) and v.sort() != B else []
                f.hyps = [INF > 10 ** 9] + hy0 + ([v < INF] if hy0 and v.sort() == R else [])
                if d is None: hy0 = hy0
                for pc, r in run(p, v, setp, {}):
                    hy = f.hyps + pc
                    if isinstance(r, Raised): s.fact('%s accepts %s' % (w, p), False, r.what); continue
                    g, at = r
                    if not isinstance(g, dict): raise Unsupported('get_parameters')
                    if p in g: s.fact('%s: get_parameters reports the %s given' % (w, p), same(s, hy, g[p], v), g[p])
                    if p in at: s.fact('%s: the attribute is the %s given' % (w, p), same(s, hy, at[p], v), at[p])
                    s.fact('%s(%s): the same parameters are reported' % (w, p), set(g) == set(d0), sorted(set(g) ^ set(d0)))
                    for q, _ in sig:
                        if q != p and q in g and q in d0: s.fact('%s(%s): the parameter %s keeps its default' % (w, p, q), same(s, hy, g[q], d0[q]), g[q])
                if not setp: continue
                old = {q: value('old_' + q, e) for q, e in names(cls, '__init__')}
                f.hyps += [x > 0 for x in old.values() if isz(x) and x.sort() != B]
                for pc, r in run(p, v, True, old):
                    if isinstance(r, Raised): s.fact('set_parameters accepts %s whatever the algorithm was constructed with' % p, False, r.what); continue
                    g, at = r
                    if p in g: s.fact('set_parameters: get_parameters reports the %s given, whatever the algorithm was constructed with' % p, same(s, f.hyps + pc, g[p], v), g[p])
    return c
CONTRACTS = {}
for _c in src.all_algorithm_classes(): CONTRACTS[_c.name] = contract(_c.mod.name, _c.name)
