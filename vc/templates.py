"""Name-independent invariant templates (candidates for Houdini; each survivor is re-proved inductive on every run)."""
import z3
from .core import *
from .merge import *

def alts(st, v):
    return v.alts if isinstance(v, Un) else [(z3.BoolVal(True), v)]

def is_dim(n): return n is not None and same_term(n, D)

class Templates:
    maxpairs = 60
    families = None          # None: all templates; otherwise only those whose name starts with one of these
    def kindof(self, v):
        if isinstance(v, Un):
            ks = {self.kindof(w) for g, w in v.alts if w is not None}
            ks.discard(None)
            return ks.pop() if len(ks) == 1 else None
        if isinstance(v, A1) and v.mask is None and v.dt == 'f': return 'vec' if is_dim(v.n) else 'farr'
        if isinstance(v, A1) and v.mask is None and v.dt == 'i': return 'iarr'
        if isinstance(v, A2) and v.dt == 'f' and v.mask is None: return 'mat'
        if isinstance(v, z3.ArithRef): return 'num' if v.sort() == R else 'int'
        if isinstance(v, float) : return 'num'
        if isinstance(v, LV): return 'list'
        if isinstance(v, ObjV): return 'obj'
        return None

    def visible(self, st, info):
        """root paths considered: locals of the current function, fields of concrete objects, and anything the loop changes"""
        out = []; seen = set()
        top = len(st.frames) - 1
        def walk():
            inner = set()
            rs = list(roots(st))
            for p, v in rs:
                if p[0] == 'f': yield from expand(p, v, inner, 0)
            for p, v in rs:
                if p[0] == 'o' and p[1] not in inner: yield from expand(p, v, inner, 0)
        def expand(p, v, inner, d):
            if isinstance(v, CO) and v.id in st.conc and st.conc[v.id].kind in ('dict', 'list') and d < 3 and v.id not in inner:
                inner.add(v.id)
                f = st.conc[v.id].f
                if len(f) <= 12:
                    for k, w in (f.items() if isinstance(f, dict) else enumerate(f)): yield from expand(('n', p, k), w, inner, d + 1)
            elif isinstance(v, tuple) and d < 3 and len(v) <= 6:
                for k, w in enumerate(v): yield from expand(('n', p, k), w, inner, d + 1)
            else: yield p, v
        for p, v in walk():
            if p[0] == 'f' and p[1] != top and not self.changed_root(p, v, info): continue
            k = self.kindof(v)
            if k is None:
                if isinstance(v, tuple): continue
                continue
            ident = (k, v.key, str(v.row), str(v.off)) if isinstance(v, (A1,)) and v.key is not None else ((k, v.key) if isinstance(v, (A2, LV)) and v.key is not None else None)
            if ident is not None:
                if ident in seen: continue
                seen.add(ident)
            elif is_z(v):
                i2 = ('z', v.get_id())
                if i2 in seen: continue
                seen.add(i2)
            out.append((p, k, v))
        return out
    def changed_root(self, p, v, info):
        if p[0] == 'n': return self.changed_root(p[1], v, info)
        if p in info.desc: return True
        for k in keys_in(v):
            if k in info.keys: return True
        return False

    def lst(self, st, v):
        return st.arrs.get(v.key)

    # every formula builder: st -> z3 Bool or None
    def candidates(self, E, info, h, kid, N, only=None):
        vis = self.visible(h, info)
        cands = {}
        hf_seen = {}
        kk = (lambda s: s.ghost[kid]) if kid is not None else None
        wv = self.widx if kid is None else None
        if wv is not None and z3.is_expr(T(h.frames[-1].get(wv))) and T(h.frames[-1][wv]).sort() == I: kk = lambda s: T(s.frames[-1][wv])
        def add(name, fn):
            if only is not None and name not in only: return
            if self.families is not None and not name.startswith(self.families): return
            try: f = fn(h)
            except Exception: f = None
            if f is None: return
            try: fe = fn(E)
            except Exception: fe = None
            if fe is None: return
            f0 = f
            if f.eq(fe) : return                  # untouched by the loop
            key = f.sexpr() if len(cands) < 0 else f.get_id()
            if key in hf_seen: return
            hf_seen[key] = f
            def safe(s, fn=fn):
                try: return fn(s)
                except (KeyError, AttributeError, IndexError, Unsupported): return None
            cands[name] = safe
        i, j = z3.Int('i!q'), z3.Int('j!q')
        A = self.at
        def rng(lo, hi, body, pats):
            try: return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), body), patterns=pats)
            except z3.Z3Exception: return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), body))      # a term that may not be a pattern
        def onvec(p, fn):
            def g(s):
                out = []
                for gd, v in alts(s, A(s, p)):
                    if v is None: continue
                    if not isinstance(v, A1): return None
                    out.append(z3.Implies(gd, fn(s, s.vec(v), v)) if not z3.is_true(gd) else fn(s, s.vec(v), v))
                return z3.And(*out) if len(out) > 1 else (out[0] if out else z3.BoolVal(True))
            return g
        def num(s, p):
            v = A(s, p)
            if isinstance(v, (int, float)) and not isinstance(v, bool): return TR(v)
            if isinstance(v, z3.ArithRef): return TR(v)
            if isinstance(v, Un):
                r = None
                for gd, w in reversed(v.alts):
                    if not is_num(w): return None
                    r = TR(w) if r is None else z3.If(gd, TR(w), r)
                return r
            return None
        vecs = [p for p, k, v in vis if k == 'vec']
        nums = [p for p, k, v in vis if k == 'num']
        ints = [p for p, k, v in vis if k == 'int']
        mats = [p for p, k, v in vis if k == 'mat']
        farrs = [p for p, k, v in vis if k == 'farr'] + vecs
        iarrs = [p for p, k, v in vis if k == 'iarr']
        objs = [p for p, k, v in vis if k == 'obj']
        lists = [(p, v) for p, k, v in vis if k == 'list' and isinstance(v, LV)]
        # also numeric locals that are +inf constants at entry become 'num' at head (already real)
        def ln(s, p):
            v = A(s, p)
            if isinstance(v, A1): return v.n
            if isinstance(v, A2): return v.n
            if isinstance(v, LV): return s.arrs[v.key].n
            raise KeyError
        def el(s, p):
            """content term of farr / numeric list"""
            v = A(s, p)
            if isinstance(v, A1):
                if v.dt != 'f': raise KeyError
                return s.vec(v)
            if isinstance(v, LV):
                cl = s.arrs[v.key]
                if cl.ek == ('f',): return cl.c[0]
            raise KeyError
        def mt(s, p):
            v = A(s, p)
            if isinstance(v, A2): return s.mat(v)
            raise KeyError
        olists, vlists, flists, ilists = [], [], [], []
        for p, v in lists:
            ek = h.arrs[v.key].ek if v.key in h.arrs else ('unk',)
            if ek[0] == 'obj': olists.append(p)
            elif ek[0] == 'vec': vlists.append(p)
            elif ek[0] == 'f': flists.append(p)
            elif ek[0] == 'i': ilists.append(p)
        holder = {}
        for hp, hv in roots(h):
            if isinstance(hv, CO) and hv.id not in holder: holder[hv.id] = hp
        def P(p, depth=0):
            if p[0] == 'n': return '%s[%s]' % (P(p[1]), p[2])
            if p[0] == 'f': return '%s%s' % ('' if p[1] == len(h.frames) - 1 else '^%d.' % (len(h.frames) - 1 - p[1]), p[2])
            hp = holder.get(p[1])
            return '%s.%s' % (P(hp, depth + 1) if hp is not None and depth < 4 else 'obj', p[2])
        PAIRW = lambda g, f: z3.Or(g == f, f == INF)
        PAIRS = lambda s, g, f: z3.Or(g == f, z3.And(f == INF, s.stopped))
        # --- points
        for p in vecs:
            add('feas:' + P(p), onvec(p, lambda s, c, v: FEAS(c)))
        for p in vecs:
            for q in nums:
                def pw(s, q=q, p=p):
                    f = num(s, q)
                    return onvec(p, lambda s2, c, v: PAIRW(G(c), f))(s)
                add('pair:%s,%s' % (P(p), P(q)), pw)
                def ps(s, q=q, p=p):
                    f = num(s, q)
                    return onvec(p, lambda s2, c, v: PAIRS(s2, G(c), f))(s)
                add('pairs:%s,%s' % (P(p), P(q)), ps)
        ranges = [('all', lambda s, p: (z3.IntVal(0), ln(s, p)))]
        if kk:
            ranges.append(('pre', lambda s, p: (z3.IntVal(0), kk(s))))
        # --- matrices
        for p in mats:
            for rn, rg in ranges:
                def fm(s, p=p, rg=rg):
                    Mx = mt(s, p); lo, hi = rg(s, p)
                    return rng(lo, hi, FEAS(Mx[i]), [Mx[i]])
                add('feasrows.%s:%s' % (rn, P(p)), fm)
                for q in farrs + flists:
                    def al(s, p=p, q=q, rg=rg):
                        Mx = mt(s, p); f = el(s, q); lo, hi = rg(s, p)
                        return rng(lo, hi, PAIRS(s, G(Mx[i]), f[i]), [z3.MultiPattern(Mx[i]), z3.MultiPattern(f[i])])
                    add('align.%s:%s,%s' % (rn, P(p), P(q)), al)
                    def al2(s, p=p, q=q, rg=rg):
                        Mx = mt(s, p); f = el(s, q); lo, hi = rg(s, p)
                        return rng(lo, hi, PAIRW(G(Mx[i]), f[i]), [z3.MultiPattern(Mx[i]), z3.MultiPattern(f[i])])
                    add('alignw.%s:%s,%s' % (rn, P(p), P(q)), al2)
            if kk:
                def suf(s, p=p):
                    Mx, M0 = mt(s, p), mt(E, p)
                    return rng(kk(s), ln(s, p), Mx[i] == M0[i], [Mx[i]])
                add('matsuffix:' + P(p), suf)
        for q in farrs + flists:
            def mono(s, q=q):
                a, b = el(s, q), el(E, q)
                return rng(z3.IntVal(0), ln(s, q), a[i] <= b[i], [a[i]])
            if q not in vecs: add('farrmono:' + P(q), mono)
            if kk:
                def fsuf(s, q=q):
                    a, b = el(s, q), el(E, q)
                    return rng(kk(s), ln(s, q), a[i] == b[i], [a[i]])
                add('farrsuffix:' + P(q), fsuf)
            if q not in vecs: add('first:' + P(q), lambda s, q=q: (lambda a: rng(z3.IntVal(0), ln(s, q), a[0] <= a[i], [a[i]]))(el(s, q)))
            if q not in vecs:
                for rn, rg in ranges:
                    add('ge.%s:m,%s' % (rn, P(q)), lambda s, q=q, rg=rg: (lambda a, r: rng(r[0], r[1], s.m <= a[i], [a[i]]))(el(s, q), rg(s, q)))
            for w in nums if q not in vecs else ():
                for rn, rg in ranges + ([('suf', lambda s, p: (kk(s), ln(s, p)))] if kk else []):
                    add('le.%s:%s,%s' % (rn, P(w), P(q)), lambda s, q=q, w=w, rg=rg: (lambda a, r, f: rng(r[0], r[1], f <= a[i], [a[i]]))(el(s, q), rg(s, q), num(s, w)))
        # two fitness arrays (personal bests)
        fa2 = [q for q in farrs + flists]
        if len(fa2) <= 4:
            for a in fa2:
                for b in fa2:
                    if a != b:
                        add('lele:%s,%s' % (P(a), P(b)), lambda s, a=a, b=b: (lambda x, y: rng(z3.IntVal(0), ln(s, a), x[i] <= y[i], [x[i], y[i]]))(el(s, a), el(s, b)))
        # --- object lists
        nf = [f for f, fm in h.fields.items() if fm.kind == 'f']
        vf = [f for f, fm in h.fields.items() if fm.kind == 'v' and is_dim(fm.extra)]
        def okey(s, p):
            return s.arrs[A(s, p).key].c[0]
        def fx(s, f, o):
            fm = s.fields[f]
            if fm.kind != 'v': raise KeyError
            return s.H[fm.maps[0][o]][fm.maps[1][o]]
        def fn_(s, f, o):
            fm = s.fields[f]
            if fm.kind not in ('f', 'i'): raise KeyError
            t = fm.maps[0][o]
            return TR(t)
        for p in olists:
            for rn, rg in ranges:
                for x in vf:
                    add('ofeas.%s:%s.%s' % (rn, P(p), x), lambda s, p=p, x=x, rg=rg: (lambda L, r: rng(r[0], r[1], FEAS(fx(s, x, L[i])), [L[i]]))(okey(s, p), rg(s, p)))
                    for f in nf:
                        add('opair.%s:%s.%s.%s' % (rn, P(p), x, f), lambda s, p=p, x=x, f=f, rg=rg: (lambda L, r: rng(r[0], r[1], PAIRS(s, G(fx(s, x, L[i])), fn_(s, f, L[i])), [L[i]]))(okey(s, p), rg(s, p)))
                        add('opairw.%s:%s.%s.%s' % (rn, P(p), x, f), lambda s, p=p, x=x, f=f, rg=rg: (lambda L, r: rng(r[0], r[1], PAIRW(G(fx(s, x, L[i])), fn_(s, f, L[i])), [L[i]]))(okey(s, p), rg(s, p)))
                for f in nf:
                    for q in farrs + flists:
                        add('oalign.%s:%s.%s,%s' % (rn, P(p), f, P(q)), lambda s, p=p, q=q, f=f, rg=rg: (lambda L, a, r: rng(r[0], r[1], fn_(s, f, L[i]) == a[i], [z3.MultiPattern(L[i]), z3.MultiPattern(a[i])]))(okey(s, p), el(s, q), rg(s, p)))
                    add('oge.%s:m,%s.%s' % (rn, P(p), f), lambda s, p=p, f=f, rg=rg: (lambda L, r: rng(r[0], r[1], s.m <= fn_(s, f, L[i]), [L[i]]))(okey(s, p), rg(s, p)))
                    for w in nums:
                        add('ole.%s:%s,%s.%s' % (rn, P(w), P(p), f), lambda s, p=p, w=w, f=f, rg=rg: (lambda L, r, u: rng(r[0], r[1], u <= fn_(s, f, L[i]), [L[i]]))(okey(s, p), rg(s, p), num(s, w)))
            if kk and len(olists) <= 4:
                for q in olists:
                    if q == p: continue
                    for f in nf:
                        add('oole:%s,%s.%s' % (P(p), P(q), f), lambda s, p=p, q=q, f=f: (lambda L, M, r: rng(z3.IntVal(0), kk(s), fn_(s, f, L[i]) <= fn_(s, f, M[i]), [z3.MultiPattern(L[i]), z3.MultiPattern(M[i])]))(okey(s, p), okey(s, q), 0))
            add('odistinct:' + P(p), lambda s, p=p: (lambda L, n: z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), L[i] != L[j]), patterns=[z3.MultiPattern(L[i], L[j])]))(okey(s, p), ln(s, p)))
            add('onew:' + P(p), lambda s, p=p: (lambda L, n: rng(z3.IntVal(0), n, L[i] >= E.base + info.id0, [L[i]]))(okey(s, p), ln(s, p)))
            for x in vf:
                add('oxdistinct:%s.%s' % (P(p), x), lambda s, p=p, x=x: (lambda L, n, r: z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), r[L[i]] != r[L[j]]), patterns=[z3.MultiPattern(L[i], L[j])]))(okey(s, p), ln(s, p), s.fields[x].maps[0]))
                add('oxnew:%s.%s' % (P(p), x), lambda s, p=p, x=x: (lambda L, n, r: rng(z3.IntVal(0), n, r[L[i]] >= E.base + info.id0, [L[i]]))(okey(s, p), ln(s, p), s.fields[x].maps[0]))
            if kk:
                for f in nf + vf:
                    def osuf(s, p=p, f=f):
                        L = okey(s, p); a, b = s.fields[f], E.fields[f]
                        return rng(kk(s), ln(s, p), z3.And(*[x[L[i]] == y[L[i]] for x, y in zip(a.maps, b.maps)]), [L[i]])
                    add('osuffix:%s.%s' % (P(p), f), osuf)
                def lsuf(s, p=p):
                    L, L0 = okey(s, p), okey(E, p)
                    return rng(kk(s), ln(s, p), L[i] == L0[i], [L[i]])
                add('lsuffix:' + P(p), lsuf)
        for p in vlists:
            def loc(s, p):
                c = s.arrs[A(s, p).key].c
                return c
            for rn, rg in ranges:
                add('vfeas.%s:%s' % (rn, P(p)), lambda s, p=p, rg=rg: (lambda c, r: rng(r[0], r[1], FEAS(s.H[c[0][i]][c[1][i]]), [c[0][i]]))(loc(s, p), rg(s, p)))
                for q in farrs + flists:
                    add('valign.%s:%s,%s' % (rn, P(p), P(q)), lambda s, p=p, q=q, rg=rg: (lambda c, a, r: rng(r[0], r[1], PAIRS(s, G(s.H[c[0][i]][c[1][i]]), a[i]), [z3.MultiPattern(c[0][i]), z3.MultiPattern(a[i])]))(loc(s, p), el(s, q), rg(s, p)))
        for p in objs:
            def ob(s, p, fn):
                out = []
                for g, v in alts(s, A(s, p)):
                    if v is None: continue
                    if not isinstance(v, ObjV): raise KeyError
                    out.append(z3.Implies(g, fn(v.ref)))
                return z3.And(*out)
            for x in vf:
                add('obfeas:%s.%s' % (P(p), x), lambda s, p=p, x=x: ob(s, p, lambda o: FEAS(fx(s, x, o))))
                for f in nf:
                    add('obpair:%s.%s.%s' % (P(p), x, f), lambda s, p=p, x=x, f=f: ob(s, p, lambda o: PAIRS(s, G(fx(s, x, o)), fn_(s, f, o))))
            for f in nf:
                for w in nums:
                    add('oble:%s,%s.%s' % (P(w), P(p), f), lambda s, p=p, f=f, w=w: ob(s, p, lambda o: num(s, w) <= fn_(s, f, o)))
        # --- frames of the symbolic heap
        info_id = info.id0
        r = z3.Int('r!q')
        bound = E.base + info_id
        if 'H' in info.maps:
            add('frameH', lambda s: z3.ForAll([r], z3.Implies(r < bound, s.H[r] == E.H[r]), patterns=[s.H[r]]))
            symroots = [p for p, k, v in vis if isinstance(v, (A1, A2)) and v.key is None or (isinstance(v, (A1, A2)) and v.key not in h.arrs)]
            for p in symroots[:8]:
                add('frameH-%s' % P(p), lambda s, p=p: z3.ForAll([r], z3.Implies(z3.And(r < bound, r != A(s, p).ref), s.H[r] == E.H[r]), patterns=[s.H[r]]))
                for q in symroots[:8]:
                    if p < q:
                        add('refne:%s,%s' % (P(p), P(q)), lambda s, p=p, q=q: A(s, p).ref != A(s, q).ref)
                add('refnew:' + P(p), lambda s, p=p: A(s, p).ref >= bound)
                # x stored in objects never aliases a named array
                for x in vf:
                    for o in olists:
                        add('orefne:%s,%s.%s' % (P(p), P(o), x), lambda s, p=p, o=o, x=x: (lambda L, n: rng(z3.IntVal(0), n, s.fields[x].maps[0][L[i]] != A(s, p).ref, [L[i]]))(okey(s, o), ln(s, o)))
        for f in info.maps:
            if f == 'H': continue
            def ff(s, f=f):
                a, b = s.fields[f], E.fields[f]
                if a.kind != b.kind: return None
                return z3.ForAll([r], z3.Implies(r < bound, z3.And(*[x[r] == y[r] for x, y in zip(a.maps, b.maps)])), patterns=[x[r] for x in a.maps])
            add('frame.' + f, ff)
        # --- scalars
        for w in nums:
            add('num<=E:' + P(w), lambda s, w=w: num(s, w) <= num(E, w))
            add('num<=m:' + P(w), lambda s, w=w: num(s, w) <= s.m)
            add('num>=m:' + P(w), lambda s, w=w: num(s, w) >= s.m)
            add('num>=0:' + P(w), lambda s, w=w: num(s, w) >= 0)
            add('num<=1:' + P(w), lambda s, w=w: num(s, w) <= 1)
        for w in nums:
            for u in nums:
                if w != u and len(nums) <= 7: add('num<=num:%s,%s' % (P(w), P(u)), lambda s, w=w, u=u: num(s, w) <= num(s, u))
        def iv(s, p):
            t = A(s, p)
            if is_z(t) and t.sort() == I: return t
            if isinstance(t, int): return z3.IntVal(t)
            raise KeyError
        ints2 = ints
        for w in ints2:
            add('int>=0:' + P(w), lambda s, w=w: iv(s, w) >= 0)
            add('int>=E:' + P(w), lambda s, w=w: iv(s, w) >= iv(E, w))
            add('int<=E:' + P(w), lambda s, w=w: iv(s, w) <= iv(E, w))
            for q in mats + farrs[:4] + olists:
                add('int<=len:%s,%s' % (P(w), P(q)), lambda s, w=w, q=q: iv(s, w) <= ln(s, q))
                add('int<len:%s,%s' % (P(w), P(q)), lambda s, w=w, q=q: iv(s, w) < ln(s, q))
            if kk:
                add('int==E+k:' + P(w), lambda s, w=w: iv(s, w) == iv(E, w) + kk(s))
                add('int<=k:' + P(w), lambda s, w=w: iv(s, w) <= kk(s))
        # --- lengths
        conts = mats + [q for q in farrs if q not in vecs] + olists + vlists + flists + ilists + iarrs
        for q in conts:
            add('len=E:' + P(q), lambda s, q=q: ln(s, q) == ln(E, q))
            if kk:
                add('len=E+k:' + P(q), lambda s, q=q: ln(s, q) == ln(E, q) + kk(s))
                add('len<=E+k:' + P(q), lambda s, q=q: ln(s, q) <= ln(E, q) + kk(s))
            add('len>=1:' + P(q), lambda s, q=q: ln(s, q) >= 1)
            add('len>=E:' + P(q), lambda s, q=q: ln(s, q) >= ln(E, q))
        for a in range(len(conts)):
            for b in range(a + 1, len(conts)):
                add('len=:%s,%s' % (P(conts[a]), P(conts[b])), lambda s, x=conts[a], y=conts[b]: ln(s, x) == ln(s, y))
        for q in mats:
            add('cols=D:' + P(q), lambda s, q=q: A(s, q).cols == D)
        for p in ilists + iarrs:
            pass
        # --- best value seen so far
        if 'm' in info.ghosts or True:
            scal = [('n', w) for w in nums]
            arrs = [('a', q) for q in farrs + flists if q not in vecs] + [('o', (p, f)) for p in olists for f in nf] + [('b', (p, f)) for p in objs for f in nf]
            def carr(s, c, pre):
                t, q = c
                if t == 'n': return num(s, q) <= s.m
                if t == 'a':
                    a = el(s, q); hi = kk(s) if pre else ln(s, q)
                    return z3.Or(z3.Exists([i], z3.And(0 <= i, i < hi, a[i] <= s.m)), z3.And(hi >= 1, a[hi - 1] <= s.m))
                if t == 'o':
                    p, f = q; L = okey(s, p); hi = kk(s) if pre else ln(s, p)
                    return z3.Or(z3.Exists([i], z3.And(0 <= i, i < hi, fn_(s, f, L[i]) <= s.m)), z3.And(hi >= 1, fn_(s, f, L[hi - 1]) <= s.m))
                if t == 'b':
                    p, f = q; v = A(s, p)
                    if not isinstance(v, ObjV): raise KeyError
                    return fn_(s, f, v.ref) <= s.m
            all_c = scal + arrs
            def CN(c): return c[0] + '.' + (P(c[1][0]) + '.' + c[1][1] if c[0] in ('o', 'b') else P(c[1]))
            if 'm' in info.ghosts:
                pres = (False, True) if kk else (False,)
                for a in range(len(all_c)):
                    for pre in pres:
                        if pre and all_c[a][0] in 'nb': continue
                        add('best:%s:%s' % (CN(all_c[a]), pre), lambda s, c=all_c[a], pre=pre: carr(s, c, pre))
                        add('bestE:%s:%s' % (CN(all_c[a]), pre), lambda s, c=all_c[a], pre=pre: z3.Or(s.m == E.m, carr(s, c, pre)))
                all_c = [c for c in all_c if c[0] != 'n' or 'self.' not in CN(c)]
                few = all_c if len(all_c) <= 12 else [c for c in all_c if c[0] == 'a'][:4] + [c for c in all_c if c[0] != 'a'][:8]
                for a in range(len(few)):
                    for b in range(a + 1, len(few)):
                        for pre in pres:
                            if pre and few[a][0] in 'nb' and few[b][0] in 'nb': continue
                            add('best2:%s,%s:%s' % (CN(few[a]), CN(few[b]), pre), lambda s, c=few[a], d=few[b], pre=pre: z3.Or(carr(s, c, pre), carr(s, d, pre)))
                            add('best2E:%s,%s:%s' % (CN(few[a]), CN(few[b]), pre), lambda s, c=few[a], d=few[b], pre=pre: z3.Or(s.m == E.m, carr(s, c, pre), carr(s, d, pre)))
        return [(n, f) for n, f in cands.items()]
