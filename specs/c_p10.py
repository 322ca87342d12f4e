"""Problems: dimension, bounds and the dimension check."""
from fv.eng import *
from vc import src
from specs.domains import *
ARR = 'niapy.util.array'
A = z3.Function('a', I, R)
def full(kind):
    def c(s):
        D, n, v = z3.Int('D'), z3.Int('n'), z3.Real('v')
        hy = [D >= 1, n >= 1]
        hy += {'longer': [n > D], 'equal': [n == D], 'shorter': [n < D]}.get(kind, [])
        f = s.fv(hy); fn = s.fn(ARR, 'full_array')
        forms = [('scalar', lambda: v), ('integer', lambda: z3.Int('vi')), ('literal', lambda: 3), ('float literal', lambda: 2.5)] if kind == 'scalar' else [('array', lambda: Arr([n], lambda i: A(toint(i)))), ('list', lambda: SymList(n, lambda i: A(toint(i))))]
        for nm, mk in forms:
            for pc, r in f.paths(lambda: f.call_fn(fn, [mk(), D], {})):
                if isinstance(r, Raised): s.fact('%s (%s): accepted' % (kind, nm), False, r.what); continue
                if not isinstance(r, Arr): s.fact('%s (%s): an array is returned' % (kind, nm), False, r); continue
                i = ivar('i'); h = f.hyps + pc + [i >= 0, i < D]
                if kind == 'shorter':
                    q, m = z3.Int('q'), z3.Int('m')
                    h0 = f.hyps + pc
                    # division with remainder, the only fact the solver is given about it
                s.ob('%s (%s): as many components as the dimension' % (kind, nm), f.hyps + pc, toint(r.shape[0]) == D)
                got = toreal(r.at(i))
                if kind == 'scalar': s.ob('%s (%s): every component is the value' % (kind, nm), h, got == toreal(mk()))
                elif kind == 'shorter': s.ob('shorter (%s): the values are repeated cyclically' % nm, h, got == A(i % n))
                else: s.ob('%s (%s): the leading values are used' % (kind, nm), h, got == A(i))
    return c
def full_bad(s):
    f = s.fv(); fn = s.fn(ARR, 'full_array')
    for v in (None, 'text'):
        for pc, r in f.paths(lambda: f.call_fn(fn, [v, z3.Int('D')], {})): s.fact('what is neither a number nor a sequence is refused', isinstance(r, Raised) and r.what == 'TypeError', r)
def objs(s):
    """objects_to_array: every object at its position"""
    n = z3.Int('n'); O = z3.Function('obj', I, R)
    f = s.fv([n >= 1]); fn = s.fn(ARR, 'objects_to_array')
    for pc, r in f.paths(lambda: f.call_fn(fn, [SymList(n, lambda k: O(toint(k)))], {})):
        if not isinstance(r, Arr): s.fact('an array is returned', False, r); continue
        i = ivar('i')
        s.ob('as many entries as objects', f.hyps + pc, toint(r.shape[0]) == n)
        s.ob('every object is at its position', f.hyps + pc + [i >= 0, i < n], toreal(r.at(i)) == O(i))
def pbase(s):
    """Problem.__init__ by the contract of full_array"""
    pc_ = s.cls('niapy.problems', 'Problem'); f = s.fv([z3.Int('D') >= 1])
    calls = []
    def hook(fv, fn, args, kw):
        if isinstance(fn, Fn) and fn.node.name == 'full_array':
            a = list(args) + [kw[k] for k in ('a', 'dimension') if k in kw]
            r = Opaque('full'); r.src = (a[0], a[1]); return r
        return NotImplemented
    f.hook = hook
    D, l, u = z3.Int('D'), Opaque('l'), Opaque('u')
    for how in ('pos', 'kw'):
        for pc, o in f.paths(lambda: f.new(pc_, [D, l, u] if how == 'pos' else [], {} if how == 'pos' else dict(dimension=D, lower=l, upper=u))):
            if isinstance(o, Raised): s.fact('constructor raises no exception', False, o.what); continue
            s.fact('the dimension is the one given', o.f.get('dimension') is D)
            for nm, v in (('lower', l), ('upper', u)):
                x = o.f.get(nm)
                s.fact('%s bounds: the given ones, one per component' % nm, isinstance(x, Opaque) and getattr(x, 'src', (None, None))[0] is v and x.src[1] is D, x)
def pevaluate(s):
    pc_ = s.cls('niapy.problems', 'Problem'); D, n = z3.Int('D'), z3.Int('n')
    for how in ('evaluate', '__call__'):
        f = s.fv([D >= 1, n >= 0]); v = fresh(R, 'value')
        def hook(fv, fn, args, kw):
            if isinstance(fn, Fn) and fn.node.name == '_evaluate': fv.events.append(('_evaluate', args[-1])); return v
            return NotImplemented
        f.hook = hook
        x = Arr([n], lambda i: A(toint(i)))
        def th():
            f.events.clear(); o = Obj(pc_, {'dimension': D, 'lower': None, 'upper': None})
            return f.method(o, how, [x]), list(f.events)
        def th2():
            try: return th()
            except Raised as e: return e, list(f.events)
        for pc, (r, ev) in f.paths(th2):
            if isinstance(r, Raised):
                s.fact('%s: a wrong number of components is a ValueError' % how, r.what == 'ValueError', r.what)
                s.fact('%s: a refused point is not evaluated' % how, not [e for e in ev if e[0] == '_evaluate'])
                s.ob('%s: only points of another dimension are refused' % how, f.hyps + pc, n != D)
            else:
                s.ob('%s: points of another dimension are refused' % how, f.hyps + pc, n == D)
                s.fact('%s: the function is evaluated once, at the point' % how, [e for e in ev if e[0] != 'set'] == [('_evaluate', x)], ev)
                s.fact('%s: its value is returned' % how, r is v)
def pname(s):
    for c in ('Sphere', 'Ackley'):
        cl = s.cls('niapy.problems', c); f = s.fv()
        s.fact('the name is the name of the class', f.method(Obj(cl, {}), 'name') == c)
def domain(name):
    def c(s):
        cl = s.cls('niapy.problems', name); D = FIXED.get(name) or z3.Int('D')
        f = s.fv([toint(D) >= 1]); got = {}
        def hook(fv, fn, args, kw):
            if isinstance(fn, Fn) and fn.owner is not None and fn.owner.name == 'Problem' and fn.node.name == '__init__':
                b = dict(dimension=1, lower=None, upper=None); b.update(zip(['dimension', 'lower', 'upper'], args[1:])); b.update({k: v for k, v in kw.items() if k in b})
                got.update(b); args[0].f.update(dimension=b['dimension'], lower=b['lower'], upper=b['upper']); return None
            return NotImplemented
        f.hook = hook
        def run(kw):
            got.clear(); o = f.new(cl, [], kw); return o, dict(got)
        base = {} if name in FIXED else {'dimension': D}
        lo, up = z3.Real('lo'), z3.Real('up')
        for given in ((False,) if name in OWN else (False, True)):
            kw = dict(base, lower=lo, upper=up) if given else dict(base)
            for pc, r in f.paths(lambda: run(dict(kw))):
                if isinstance(r, Raised): s.fact('constructor raises no exception', False, r.what); continue
                o, g = r; h = f.hyps + pc
                if not g: s.fact('the constructor of the base class is used', False); continue
                s.ob('the dimension is the one asked for', h, toint(g['dimension']) == toint(D))
                for w, x, y in (('lower', g['lower'], lo), ('upper', g['upper'], up)):
                    if x is None: s.fact('%s bounds are set' % w, False); continue
                    if given: s.ob('%s bounds as given' % w, h, toreal(x) == y)
                    elif name in DOM:
                        want = DOM[name](D)[0 if w == 'lower' else 1]
                        s.ob('%s bounds of the documented domain by default' % w, h, toreal(x) == toreal(want))
                for k in ('dimension', 'lower', 'upper'): s.fact('the constructor keeps %s' % k, o.f.get(k) is g[k])
    return c
CONTRACTS = {'full_array(%s)' % k: full(k) for k in ('scalar', 'equal', 'longer', 'shorter')}
CONTRACTS.update({'full_array(other)': full_bad, 'objects_to_array': objs, 'Problem.__init__': pbase, 'Problem.evaluate': pevaluate, 'Problem.name': pname})
for nm in list(DOM) + ['Sphere']: CONTRACTS['domain.' + nm] = domain(nm)
