"""Loads /repo's current source: every run parses the files afresh; nothing is cached or copied by hand."""
import ast, os
ROOT = os.environ.get('VERIF_REPO', '/repo') + '/src/'

class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.text = open(path, encoding='utf8').read()
        self.tree = ast.parse(self.text, path)
        self.defs = {}      # name -> node | ('import', mod) | ('from', mod, name)
        self._scan(self.tree.body)
    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.defs[a.asname or a.name] = ('from', n.module, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('expr', n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.defs[n.target.id] = ('expr', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)

_mods = {}
def path_of(name):
    p = ROOT + name.replace('.', '/')
    if os.path.isfile(p + '.py'):
        return p + '.py'
    if os.path.isfile(p + '/__init__.py'):
        return p + '/__init__.py'
    return None

def module(name):
    if name not in _mods:
        p = path_of(name)
        _mods[name] = Mod(name, p) if p else None
    return _mods[name]

def resolve(modname, name, seen=()):
    """-> ('class', Mod, node) | ('func', Mod, node) | ('ext', dotted) | ('mod', Mod) | ('expr', Mod, node) | None"""
    m = module(modname)
    if m is None:
        return ('ext', modname + '.' + name)
    d = m.defs.get(name)
    if d is None:
        sub = module(modname + '.' + name)
        return ('mod', sub) if sub else None
    if isinstance(d, ast.ClassDef):
        return ('class', m, d)
    if isinstance(d, ast.FunctionDef):
        return ('func', m, d)
    if d[0] == 'import':
        mm = module(d[1])
        return ('mod', mm) if mm else ('ext', d[1])
    if d[0] == 'from':
        if path_of(d[1]):
            return resolve(d[1], d[2])
        return ('ext', d[1] + '.' + d[2])
    return ('expr', m, d[1])

class Cls:
    """A class of the repository (or an external base, node None)."""
    def __init__(self, mod, node, name=None):
        self.mod, self.node = mod, node
        self.name = node.name if node is not None else name
        self.bases = []
        self.own = {}
        self.attrs = {}
        if node is not None:
            for b in node.bases:
                c = cls_of(mod, b)
                if c is not None:
                    self.bases.append(c)
            for n in node.body:
                if isinstance(n, ast.FunctionDef):
                    self.own[n.name] = n
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    self.attrs[n.targets[0].id] = n.value
        self.mro = self._mro()
    def _mro(self):
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise TypeError('mro')
                out.append(c)
                for t in seqs:
                    if t and t[0] is c:
                        t.pop(0)
                seqs = [t for t in seqs if t]
            return out
        return [self] + merge([b.mro for b in self.bases] + [self.bases])
    def find(self, name, after=None):
        l = self.mro
        if after is not None:
            l = l[l.index(after) + 1:]
        for c in l:
            if name in c.own:
                return c, c.own[name]
        return None
    def attr(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None
    def isa(self, name):
        return any(c.name == name for c in self.mro)
    def __repr__(self):
        return '<Cls %s>' % self.name

_cls = {}
def get_class(mod, node):
    k = (mod.name, node.name, id(node))
    if k not in _cls:
        _cls[k] = Cls(mod, node)
    return _cls[k]

def cls_of(mod, expr):
    if isinstance(expr, ast.Name):
        r = resolve(mod.name, expr.id)
        if r and r[0] == 'class':
            return get_class(r[1], r[2])
        k = ('ext', expr.id)
        if k not in _cls:
            _cls[k] = Cls(None, None, expr.id)
        return _cls[k]
    return None

def all_algorithm_classes():
    out = []
    import glob
    for f in sorted(glob.glob(ROOT + 'niapy/algorithms/*/*.py')):
        if f.endswith('__init__.py'):
            continue
        name = f[len(ROOT):-3].replace('/', '.')
        m = module(name)
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                c = get_class(m, n)
                if c.isa('Algorithm'):
                    out.append(c)
    return out

def _strip(node):
    """structure of the code without positions and docstrings"""
    import copy
    node = copy.deepcopy(node)
    for x in ast.walk(node):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Module)) and x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant) and isinstance(x.body[0].value.value, str):
            x.body = x.body[1:] or [ast.Pass()]
    return ast.dump(node)
def fingerprints(names):
    """hash of the structure of every function in names ('module:Class.method') and of the rest of their modules"""
    import hashlib
    H = lambda s: hashlib.sha1(s.encode()).hexdigest()[:16]
    out, mods = {}, set()
    for q in sorted(names):
        mn, qn = q.split(':', 1); m = module(mn)
        if m is None: continue
        mods.add(mn)
        body = m.tree.body; node = None
        for part in qn.split('.'):
            node = next((x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part), None)
            if node is None: break
            body = node.body
        if isinstance(node, ast.FunctionDef): out[q] = H(_strip(node))
    for mn in mods:
        rest = []
        for x in module(mn).tree.body:
            if isinstance(x, ast.FunctionDef): rest.append(x.name + ast.dump(x.args))
            elif isinstance(x, ast.ClassDef):
                rest.append('class %s %s' % (x.name, [ast.dump(b) for b in x.bases]))
                rest += [y.name if isinstance(y, ast.FunctionDef) else ast.dump(y) for y in x.body if not (isinstance(y, ast.Expr) and isinstance(y.value, ast.Constant))]
            elif not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)): rest.append(ast.dump(x))
        out[mn + ':*'] = H('\n'.join(rest))
    return out
