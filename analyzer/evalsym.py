"""Random interpretation of abstract values (Gulwani & Necula style).

Two value summaries that differ as normal forms may still denote the same function.  They are
interpreted over randomly chosen valuations of their free symbols; only a valuation on which they
differ refutes their equality.  Nothing of the analysed program is executed: what is interpreted are
the closed-form summaries.
"""
import random, math, time
from sym import *
import sym as S

class Ambiguous(Exception): pass       # comparison too close to decide in floating point
class Opaque(Exception): pass          # value the analysis could not summarise
class UndefVal(Exception): pass        # value undefined in the analysed program
class Skip(Exception): pass            # valuation not admissible

def key_of(v):
    if isinstance(v, float):
        if v != v: return 'nan'
        if v in (float('inf'), float('-inf')): return str(v)
        if abs(v) < 1e-11: return '0'
        if v == int(v) and abs(v) < 1e15: return str(int(v))
        return '%.7e' % v
    if isinstance(v, Fraction): return key_of(float(v))
    return str(v)
def norm_num(v):
    if isinstance(v, Fraction) and v.denominator == 1: return int(v)
    return v

class EArr:
    """evaluated array: overlay over a lazily generated base"""
    __slots__ = ('base', 'ov', 'ln')
    def __init__(s, base, ov, ln): s.base = base; s.ov = ov; s.ln = ln
    def get(s, i):
        if i in s.ov:
            v = s.ov[i]
            if isinstance(v, Exception): raise v
            return v
        return s.base(i)
    def key(s, n):
        out = []
        for i in range(n):
            try:
                v = s.get(i)
                if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))): raise Skip()   # division by zero upstream: not a valuation of interest
                out.append(key_of(v))
            except UndefVal: out.append('U')
        return ','.join(out)

LIMIT = 12.0       # seconds spent on the valuations of one obligation
BUDGET = 60000       # evaluation steps per valuation
class Sample:
    exact = False       # compare rationals exactly (values that are only copied and compared)
    def __init__(self, seed, dims=None, hooks=None, profile=None):
        self.seed = seed; self.rng = random.Random(seed)
        self.vals = {}; self.arrs = {}; self.memo = {}
        self.hooks = hooks or {}
        self.dims = dims or {}
        self.profile = profile or {}
        self.busy = set()
        self.env = {}
        self.tie = None
        self.consts = CONSTS[0]; self.fconsts = CONSTS[1]
        # the terms compare with very small or large numbers: rational arithmetic, so that a tiny difference is one
        self.rat = any(f < 1e-3 or f > 1e4 for f in self.fconsts)
        self.parent = None; self.rv = {}; self.rvs = frozenset()
        self.fuel = [BUDGET]
    # ---- random primitives
    def r(self, *key): return random.Random('%s|%s' % (self.seed, '|'.join(map(str, key))))
    def fval(self, *key):
        v = self.fval0(*key)
        return Fraction(v) if self.rat else v
    def fval0(self, *key):
        g = self.r(*key)
        u = g.random()
        if u < self.profile.get('zero', 0.08): return 0.0
        if self.fconsts and u > (0.75 if self.rat else 0.9): return g.choice(self.fconsts) * g.choice((1.0, 1.0, 0.5, 2.0, -1.0))
        v = g.choice((-1, 1)) * g.choice((0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 3.0)) * (1 + g.randrange(0, 64) / 256.0)
        return v
    def pos(self, *key):
        g = self.r(*key)
        v = g.choice((0.25, 0.5, 0.75, 1.0, 1.5, 2.0)) * (1 + g.randrange(0, 64) / 256.0)
        return Fraction(v) if self.rat else v
    def ival(self, *key, ch=(0, 0, 1, 1, 2, 3, -1, 5)):
        g = self.r(*key)
        if self.consts and g.random() < 0.3: return g.choice(self.consts) + g.choice((-1, 0, 0, 1))
        return g.choice(ch)
    # ---- evaluation
    def v(self, p):
        if isinstance(p, BDD): return self.b(p)
        if isinstance(p, Atom): p = P(p)
        tot = 0
        try:
            for m, c in p.terms:
                t = self.mono(m)
                if t == 0 and not isinstance(t, float): continue
                t = t * (c if not (isinstance(c, Fraction) and isinstance(t, float)) else float(c))
                tot = tot + t
            return norm_num(tot)
        except (UndefVal, Opaque, Skip):
            return self.grouped(p)
    def grouped(self, p):
        """a factor whose guards cancel is not evaluated: x - x*[g] needs x only where g is false"""
        if len(p.terms) < 2 or not any(a.kind == 'Ind' for m, c in p.terms for a, e in m): 
            if self.fuel[0] < 0: raise Skip()
            return norm_num(sum(self.mono(m) * (float(c) if isinstance(c, Fraction) else c) for m, c in p.terms))
        co = {}
        for m, c in p.terms:
            rest = tuple((a, e) for a, e in m if a.kind != 'Ind')
            on = all(self.b(a.args[0]) for a, e in m if a.kind == 'Ind')
            co[rest] = co.get(rest, 0) + (c if on else 0)
        tot = 0
        for rest, c in co.items():
            if c == 0: continue
            t = self.mono(rest)
            if t == 0 and not isinstance(t, float): continue
            tot = tot + t * (c if not (isinstance(c, Fraction) and isinstance(t, float)) else float(c))
        return norm_num(tot)
    def terms_scale(self, p):
        return sum(abs(float(self.mono(m)) * float(c)) for m, c in p.terms)
    def mono(self, m):
        t = 1
        for a, e in m:      # indicators first: a false guard hides undefined factors
            if a.kind == 'Ind':
                if not self.b(a.args[0]): return 0
        for a, e in m:
            if a.kind == 'Ind': continue
            x = self.a(a)
            if e > 0:
                for _ in range(e): t = t * x
            else:
                for _ in range(-e): t = fdiv(t, x)
        return t
    def mkey(self, x):
        if not x.bs: return x.id
        return (x.id,) + tuple(self.env.get(i) for i in bits(x.bs))
    def a(self, a):
        if self.parent is not None and not a.bs and not (a.fk & self.rvs): return self.parent.a(a)
        k = self.mkey(a)
        r = self.memo.get(k)
        if r is None:
            r = self.a0(a)
            self.memo[k] = r
        return r
    def a0(self, a):
        k = a.kind; g = a.args
        self.fuel[0] -= 1
        if self.fuel[0] < 0: raise Skip()
        h = self.hooks.get(k)
        if h is not None:
            r = h(self, a)
            if r is not None: return r
        if k == 'Sym': return self.sym(a)
        if k == 'Mu':
            return self.free(a)
        if k == 'K':
            if a in self.vals: return self.vals[a]
            T = a.attr.get('T')
            hi = self.v(T) if T is not None else 6
            if hi <= 0: raise Skip()
            self.vals[a] = self.r('K', a.args[0]).randrange(0, hi)
            return self.vals[a]
        if k == 'B':
            if g[0] not in self.env: raise Opaque('unbound')
            return self.env[g[0]]
        if k == 'Ind': return 1 if self.b(g[0]) else 0
        if k == 'RV': return self.rvget(a)
        if k == 'Rec': return self.rec(a)
        if k == 'Inv': return fdiv(1, self.v(g[0]))
        if k == 'Rd':
            arr = self.arr(g[0]); i = self.v(g[1])
            if not isinstance(i, int): raise Opaque('index')
            return arr.get(i)
        if k == 'Sum':
            T = self.v(g[0]); L = a.lvl - 1; tot = 0
            if T > 4000: raise Skip()
            for i in range(T): tot = tot + self.at(L, i, g[1])
            return tot
        if k in ('CMin', 'CMax'):
            cur = self.v(g[0]); T = self.v(g[1]); L = S.x_level(a)
            for i in range(T):
                if self.at(L, i, g[2]):
                    w = self.at(L, i, g[3])
                    close(w, cur)
                    if (w < cur) if k == 'CMin' else (w > cur): cur = w
            return cur
        if k == 'Min': return min(self.v(x) for x in g)
        if k == 'Fn': return self.fn(a)
        if k == 'Ret':
            app = g[0]
            return self.ret(app)
        if k == 'Time': return self.r('time', a.args[0], a.args[1]).random()
        if k == 'Undef': raise UndefVal(a)
        if k in ('Opq', 'OpqX'): raise Opaque(str(g))
        raise Opaque(k)
    def at(self, L, i, x):
        self.fuel[0] -= 1
        if self.fuel[0] < 0: raise Skip()
        old = self.env.get(L)
        self.env[L] = i
        try: return self.b(x) if isinstance(x, BDD) else self.v(x)
        finally:
            if old is None: self.env.pop(L, None)
            else: self.env[L] = old
    def with_env(self, L, i, f):
        old = self.env.get(L)
        self.env[L] = i
        try: return f()
        finally:
            if old is None: self.env.pop(L, None)
            else: self.env[L] = old
    def sym(self, a):
        if a in self.vals: return self.vals[a]
        n = a.args[0]
        if n in self.dims: v = self.dims[n]
        elif a.attr.get('ty') in ('double', 'float'): v = self.fval('sym', n)
        elif a.attr.get('nonneg'): v = self.r('sym', n).randrange(0, 4)
        else: v = self.ival('sym', n)
        self.vals[a] = v
        return v
    def free(self, a):
        if a in self.vals: return self.vals[a]
        if a.attr.get('ty') in ('double', 'float'): v = self.fval('mu', a.args)
        else: v = self.r('mu', a.args).choice((0, 1, 2, 3))
        self.vals[a] = v
        return v
    def fn(self, a):
        f = a.args[0]; xs = [self.v(x) for x in a.args[1:]]
        if f == 'sqrt':
            x = float(xs[0])
            return math.sqrt(x) if x >= 0 else float('nan')
        if f == 'abs': return abs(xs[0])
        if f == 'max0': return max(0, xs[0])
        if f == 'ceildiv': return -((-xs[0]) // xs[1])
        if f == 'inf': return float('inf')
        if f == '-inf': return float('-inf')
        if f == 'nan': return float('nan')
        if f == 'div0': return fdiv(float(xs[0]), 0.0)
        if f == 'udiv' and xs[1] != 0 and xs[0] >= 0 and xs[1] > 0: return xs[0] // xs[1]
        if f == 'urem' and xs[1] != 0 and xs[0] >= 0 and xs[1] > 0: return xs[0] % xs[1]
        if f == 'sdiv' and xs[1] != 0: return int(xs[0] / xs[1])
        if f == 'srem' and xs[1] != 0: return xs[0] - xs[1] * int(xs[0] / xs[1])
        if f == 'and': return xs[0] & xs[1]
        if f == 'or': return xs[0] | xs[1]
        if f == 'xor': return xs[0] ^ xs[1]
        if f == 'shl': return xs[0] << xs[1]
        if f in ('ashr', 'lshr'): return xs[0] >> xs[1]
        if f == 'ftoi': return int(xs[0])
        if f.startswith('trunci'):
            b = int(f[6:]); v = int(xs[0]) & ((1 << b) - 1)
            return v - (1 << b) if v >= 1 << (b - 1) else v
        if f == 'f32':
            import struct
            return struct.unpack('f', struct.pack('f', xs[0]))[0]
        if f == 'memset': raise Opaque('memset')
        return self.fval('fn', f, *[key_of(x) for x in xs])
    # ---- booleans
    def b(self, x):
        while x.var is not None:
            try: c = self.batom(x.var)
            except (UndefVal, Opaque):
                # the test is undetermined: fine when the remaining tests give the same answer either way
                h = self.b(x.hi)
                if h == self.b(x.lo): return h
                raise
            x = x.hi if c else x.lo
        return x is S.TRUE
    def batom(self, a):
        if self.parent is not None and not a.bs and not (a.fk & self.rvs): return self.parent.batom(a)
        k = self.mkey(a)
        r = self.memo.get(('b', k))
        if r is None:
            r = self.batom0(a); self.memo[('b', k)] = r
        return r
    def batom0(self, a):
        k = a.kind
        self.fuel[0] -= 1
        if self.fuel[0] < 0: raise Skip()
        h = self.hooks.get(k)
        if h is not None:
            r = h(self, a)
            if r is not None: return r
        if k == 'LT': return self.v(a.args[0]) < 0
        if k == 'RV': return self.rvget(a)
        if k == 'Rec': return self.rec(a)
        if k in ('FLT', 'FLE', 'FEQ', 'FNAN'):
            p = a.args[0]
            if self.tie:
                q, sg = canon(p)
                rel = self.tie.get(q)
                if rel is not None:
                    if rel == 'nan': return k == 'FNAN'
                    x = {'eq': 0, 'lt': -1, 'gt': 1}[rel] * sg
                    return False if k == 'FNAN' else (x < 0 if k == 'FLT' else (x <= 0 if k == 'FLE' else x == 0))
            x = self.v(p)
            if not self.exact: x = float(x)
            if x != x: return k == 'FNAN'
            if k == 'FNAN': return False
            if not self.exact and x != 0 and abs(x) < 1e-9 * self.terms_scale(p): raise Ambiguous()
            return x < 0 if k == 'FLT' else (x <= 0 if k == 'FLE' else x == 0)
        if k == 'EX':
            T = self.v(a.args[0]); L = a.lvl - 1
            return any(self.at(L, i, a.args[1]) for i in range(T))
        if k == 'Mu':
            if a not in self.vals: self.vals[a] = self.r('mub', a.args).random() < 0.5
            return self.vals[a]
        if k in ('SymB', 'NULL', 'PEQ', 'RetB'):
            if a not in self.vals: self.vals[a] = self.r('b', a.args).random() < 0.5
            return self.vals[a]
        if k == 'UndefB': raise UndefVal(a)
        raise Opaque(k)
    # ---- arrays
    def alen(self, a):
        ln = a.attr.get('len')
        return self.v(ln) if ln is not None else None
    def arr(self, a):
        if self.parent is not None and not a.bs and not (a.fk & self.rvs): return self.parent.arr(a)
        k = self.mkey(a)
        r = self.arrs.get(k)
        if r is None:
            r = self.arr0(a); self.arrs[k] = r
        return r
    def arr0(self, a):
        k = a.kind
        h = self.hooks.get(k)
        if h is not None:
            r = h(self, a)
            if r is not None: return r
        if k == 'RV': return self.rvget(a)
        if k == 'Rec': return self.rec(a)
        if k == 'ArrIte': return self.arr(a.args[1]) if self.b(a.args[0]) else self.arr(a.args[2])
        if k == 'Arr':
            base = self.arr(a.args[0])
            ov = dict(base.ov); cur = EArr(base.base, ov, base.ln)
            start = 1; ln = a.args[0].attr.get('len')
            if ln is not None:          # what a later layer overwrites completely is not evaluated
                for q in range(len(a.args) - 1, 1, -1):
                    l = a.args[q]
                    if l.kind == 'map' and l.args[3] is S.TRUE and l.args[0].const == 0:
                        try: full = self.v(l.args[1]) >= self.v(ln)
                        except (UndefVal, Opaque): full = False
                        if full: start = q; break
            for l in a.args[start:]: self.layer(l, cur)
            return cur
        if k == 'ArrSym':
            return EArr(self.named_base(a.args[0], a), {}, None)
        if k == 'Mu':
            o = a.attr.get('obj')
            return EArr(self.named_base('mu:%s:%s' % (a.args[0], o.name if o else ''), a, o), {}, None)
        if k in ('ArrUndef', 'ArrBase'):
            def f(i): raise UndefVal(a)
            return EArr(f, {}, None)
        if k == 'ArrZero': return EArr(lambda i: 0, {}, None)
        if k == 'ArrApp':
            app, j = a.args
            key = self.appkey(app)
            return EArr(self.app_out(app, j, key), {}, None)
        if k in ('ArrOpq', 'ArrNull', 'ArrOff'):
            def f(i): raise Opaque(str(a.args))
            return EArr(f, {}, None)
        raise Opaque(k)
    # ---- recurrences
    def rvget(self, a):
        v = self.rv[a]
        if isinstance(v, Exception): raise v
        return v
    def rec(self, a):
        sysm, j, T, inits, params = a.args
        st, k = self.recrun(sysm, T, inits, params)
        if j == 'k': return k
        v = st[j]
        if isinstance(v, Exception): raise v
        return v
    def recrun(self, sysm, T, inits, params):
        key = ('rec', self.mkey(mk('RecKey', sysm, T, inits, params)))
        r = self.memo.get(key)
        if r is not None: return r
        n = self.v(T) if T is not None else None
        if n is not None and n > 3000: raise Skip()
        sub = Sample.__new__(Sample); sub.__dict__.update(self.__dict__)
        sub.env = {}; sub.parent = self; sub.rvs = sysm.rvs; sub.rv = {}
        def ev(smp, t, k):
            try: return smp.arr(t) if k == 'a' else (smp.b(t) if k == 'b' else smp.v(t))
            except (UndefVal, Opaque) as x: return x
        for r_, t in zip(sysm.par, params): sub.rv[r_] = ev(self, t, r_.args[1])
        state = [ev(self, t, k) for t, k in zip(inits, sysm.kinds)]
        k = 0
        while True:
            sub.memo = {}; sub.arrs = {}
            for r_, v in zip(sysm.own, state): sub.rv[r_] = v
            sub.rv[sysm.rk] = k
            if n is not None:
                if k >= n: break
            else:
                try:
                    if not sub.b(sysm.cond): break
                except UndefVal as u:
                    u.at = getattr(u, 'at', ()) + ((sysm, k),)
                    raise
            state = [ev(sub, t, kd) for t, kd in zip(sysm.nexts, sysm.kinds)]
            k += 1
            if k > 3000: raise Skip()
        r = (state, k)
        self.memo[key] = r
        return r
    def layer(self, l, cur):
        k = l.kind
        if k == 'q':
            T = self.v(l.args[0]); L = l.lvl - 1
            for i in range(T): self.with_env(L, i, lambda: self.layer(l.args[1], cur))
            return
        if k == 'blk':
            for x in l.args: self.layer(x, cur)
            return
        if k == 'cnd':
            if self.b(l.args[0]): self.layer(l.args[1], cur)
            return
        if k == 'map':
            lo = self.v(l.args[0]); ln = self.v(l.args[1])
            L = max(S._lvl(l.args[2]), S._lvl(l.args[3]))
            for i in range(ln):
                if self.at(L, i, l.args[3]):
                    try: cur.ov[lo + i] = self.at(L, i, l.args[2])
                    except UndefVal as x: cur.ov[lo + i] = x
            return
        if k == 'acc':
            if self.b(l.args[2]):
                i = self.v(l.args[0])
                try: cur.ov[i] = cur.get(i) + self.v(l.args[1])
                except UndefVal as x: cur.ov[i] = x
            return
        if k == 'sct':
            if self.b(l.args[2]):
                i = self.v(l.args[0])
                try: cur.ov[i] = self.v(l.args[1])
                except UndefVal as x: cur.ov[i] = x
            return
        if k == 'fold':
            # the fold reads the current content: interpret step by step
            K, mu, T, ls = S.fold_open(l)
            n = self.v(T)
            if n > 400: raise Skip()
            for i in range(n):
                sub = Sample.__new__(Sample)
                sub.__dict__.update(self.__dict__)
                sub.memo = {}; sub.arrs = {}
                sub.vals = dict(self.vals); sub.vals[K] = i
                if sub.parent is not None: sub.rvs = self.rvs | {K, mu}
                hooks = dict(self.hooks)
                snap = cur
                old = hooks.get('Mu')
                def muh(s2, a2, mu=mu, snap=snap, old=old):
                    if a2 is mu: return snap
                    return old(s2, a2) if old else None
                hooks['Mu'] = muh; sub.hooks = hooks
                for x in ls: sub.layer(x, cur); sub.memo = {}; sub.arrs = {}
            return
        raise Opaque('layer ' + k)
    def named_base(self, name, a, o=None):
        """generator for the elements of an unconstrained caller array"""
        cache = {}
        gen = self.profile.get('array')
        att = dict(a.attr)
        if o is not None: att.update({k: v for k, v in o.info.items() if k in ('elt', 'role', 'lo', 'hi', 'mono', 'zero0', 'jc', 'cols', 'rows', 'min')})
        bname = o.name if o is not None else name
        def f(i):
            if i not in cache: cache[i] = self.elem(name, bname, att, i, cache)
            return cache[i]
        return f
    def elem(self, name, bname, att, i, cache):
        if i < 0: raise UndefVal(name)
        h = self.profile.get('elem')
        if h is not None:
            r = h(self, name, bname, att, i)
            if r is not None: return r
        if 'mono' in att:
            if i > self.v(att['mono']): raise UndefVal(name)
            if i == 0: return 0 if 'zero0' in att else self.r('arr', name, 0).randrange(0, 3)
            prev = self.named(name, i - 1, att, bname, cache)
            mx = self.profile.get('maxcol', {}).get(bname)
            w = self.v(mx) if mx is not None else 3
            mn = self.profile.get('mincol', {}).get(bname, 0)
            if 'rows' in att: w = min(w, self.v(att['rows']))
            d = self.density(bname)
            ch = (0, 0, 0, 0, 1) if d < 0.15 else ((w, w, w, w - 1) if d > 0.9 else (0, 0, 1, 1, 2, 2, 3))
            return prev + self.r('arr', name, i).choice([x for x in ch if mn <= x <= w] or [min(mn, w)])
        if att.get('role') == 'ir':
            jc = att['jc']; cols = self.v(att['cols']); rows = self.v(att['hi']) + 1
            J = self.arr(jc)
            for c in range(cols):
                lo, hi = J.get(c), J.get(c + 1)
                if lo <= i < hi:
                    if hi - lo > rows: raise Skip()
                    g = self.r('ir', name, c)
                    rowsel = g.sample(range(rows), hi - lo)
                    if self.r('srt', name).random() < 0.7: rowsel.sort()
                    return rowsel[i - lo]
            raise UndefVal(name)
        if att.get('role') == 'perm':
            n = self.v(att['hi']) + 1
            if i >= n: raise UndefVal(name)
            ps = list(range(n)); self.r('perm', bname.replace('Pinv', 'P')).shuffle(ps)
            if bname.endswith('Pinv'):
                inv = [0] * n
                for k, x in enumerate(ps): inv[x] = k
                return inv[i]
            return ps[i]
        if 'hi' in att and 'lo' in att:
            lo, hi = self.v(att['lo']), self.v(att['hi'])
            if hi < lo: raise UndefVal(name)
            return self.r('arr', name, i).randrange(lo, hi + 1)
        if att.get('elt') == 'int' or 'lo' in att: return self.r('arr', name, i).randrange(0, 4)
        if self.density(bname) < 0.12 and self.r('emp', name, i).random() < 0.75: return 0.0
        return self.fval('arr', name, i)
    def density(self, name):
        """how full an array of this valuation is: few of the valuations have nearly empty or full matrices"""
        return self.r('dens', name).random()
    def named(self, name, i, att, bname, cache):
        if i not in cache: cache[i] = self.elem(name, bname, att, i, cache)
        return cache[i]
    # ---- uninterpreted kernels
    def appkey(self, app):
        k = self.mkey(app)
        r = self.memo.get(('app', k))
        if r is not None: return r
        lens = self.profile.get('applen', {}).get(app.args[0])
        out = [app.args[0]]
        n = None
        for t, x in enumerate(app.args[1:]):
            if isinstance(x, Poly):
                y = self.v(x); out.append(key_of(y))
                if n is None and isinstance(y, int): n = y
            else:
                ln = None
                if lens is not None and t in lens: ln = lens[t](self, app, n)
                if ln is None: ln = self.alen(x)
                if ln is None: ln = n
                if ln is None: raise Opaque('length of kernel argument')
                out.append(self.arr(x).key(ln))
        r = '/'.join(out)
        self.memo[('app', k)] = r
        return r
    def ret(self, app):
        key = self.appkey(app)
        h = self.profile.get('ret')
        if h is not None:
            r = h(self, app, key)
            if r is not None: return r
        return self.r('ret', key).choice((0, 1, 2, -1))
    def app_out(self, app, j, key):
        h = self.profile.get('appout')
        cache = {}
        def f(i):
            if i not in cache:
                v = h(self, app, j, key, i) if h is not None else None
                cache[i] = v if v is not None else self.fval('app', key, j, i)
            return cache[i]
        return f

def bits(n):
    out = []; i = 0
    while n:
        if n & 1: out.append(i if i < 500 else ('ab', i - 500))
        n >>= 1; i += 1
    return out
def fdiv(x, y):
    if y == 0:
        if x == 0 or x != x: return float('nan')
        return math.copysign(float('inf'), float(x) * (math.copysign(1, float(y))))
    if isinstance(x, float) or isinstance(y, float): return float(x) / float(y)
    return norm_num(Fraction(x) / Fraction(y))
def close(a, b):
    """ambiguity guard for order-dependent selections"""
    return None
def same(a, b, tol=1e-6):
    """True / False / None (ambiguous)"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if a == b: return True
        return False if abs(a - b) > 1e-15 * max(abs(a), abs(b)) else None      # decimal constants are exact to 1e-16
    a = float(a); b = float(b)
    if a != a or b != b: return (a != a) == (b != b)
    if a == b: return True
    if math.isinf(a) or math.isinf(b): return False
    d = abs(a - b) / (1e-3 + max(abs(a), abs(b)))
    if d < tol: return True
    if d > 1e-4: return False
    return None

def canon(p):
    if [c for m, c in p.terms if m != ()][-1] < 0: return -p, -1
    return p, 1
CONSTS = [(), ()]
def harvest(*xs):
    """numbers the compared terms mention: valuations are also drawn around them"""
    ints = set(); fl = set(); seen = set()
    def num(c, real):
        c = abs(c)
        if c.denominator == 1 and 3 < c < 100000: ints.add(int(c))
        if real and c not in (0, 1, 2) and float(c) not in (0.5, 0.99) and c < 10**12: fl.add(float(c))
    def go(x, real):
        if isinstance(x, tuple):
            for y in x: go(y, real)
            return
        if isinstance(x, RecSys):
            if x in seen: return
            seen.add(x); go(x.nexts, False)
            if x.cond is not None: go(x.cond, False)
            return
        if not isinstance(x, (Atom, Poly, BDD)): return
        k = (type(x), x.id)
        if k in seen: return
        seen.add(k)
        if isinstance(x, Poly):
            for m, c in x.terms:
                num(c, real)
                for a, e in m: go(a, False)
        elif isinstance(x, BDD):
            for a in x.sup: go(a, False)
        else:
            for y in x.args: go(y, x.kind in ('FLT', 'FLE', 'FEQ'))
    for x in xs: go(x, False)
    return tuple(sorted(ints))[:12], tuple(sorted(fl))[:12]

class Verdict:
    def __init__(s, kind, detail=None): s.kind = kind; s.detail = detail     # proved / agree / refuted / undecided
    def __repr__(s): return '<%s %s>' % (s.kind, s.detail if s.detail else '')
def compare(lhs, rhs, mk_sample, guard=TRUE, n=24, need=2, index=None, seed=1):
    """lhs == rhs under guard, for arrays: at indices 0..index-1"""
    if lhs is rhs: return Verdict('proved')
    if guard is FALSE: return Verdict('proved')
    CONSTS[:] = harvest(lhs, rhs, guard)
    agree = 0; diff = []; opq = 0; und = 0; skipped = 0; t0 = time.time()
    for t in range(n * 40):
        if time.time() - t0 > LIMIT and (agree + len(diff) >= 4 and not diff or time.time() - t0 > 3 * LIMIT): break
        if agree + len(diff) >= n and not diff: break
        if t > n * 6 and agree + len(diff) >= 6 and not (diff and time.time() - t0 < 3 * LIMIT): break
        sm = mk_sample(seed * 1000 + t)
        try:
            if not sm.b(guard): skipped += 1; continue
            if index is not None:
                A, B_ = sm.arr(lhs), sm.arr(rhs)
                res = True
                for i in range(sm.v(index)):
                    x = y = None
                    try: y = B_.get(i)
                    except UndefVal: continue            # reference leaves it undefined: anything goes
                    try: x = A.get(i)
                    except UndefVal:
                        res = ('undefined element %d' % i); break
                    q = same(x, y)
                    if q is None: raise Ambiguous()
                    if not q: res = ('element %d is %s, expected %s' % (i, key_of(x), key_of(y))); break
                if res is True: agree += 1
                else: diff.append((sm, res))
            else:
                try: y = sm.v(rhs)
                except UndefVal: skipped += 1; continue
                try: x = sm.v(lhs)
                except UndefVal: diff.append((sm, 'undefined value, expected %s' % key_of(y))); continue
                q = same(x, y)
                if q is None: continue
                if q: agree += 1
                else: diff.append((sm, 'value %s, expected %s' % (key_of(x), key_of(y))))
        except (Ambiguous, Skip): skipped += 1
        except Opaque as o:
            opq += 1; last = str(o)
            if opq > 8: break
        except UndefVal: und += 1
        except (ZeroDivisionError, OverflowError): skipped += 1
        if len(diff) >= need: return Verdict('refuted', diff)
    if len(diff) >= need: return Verdict('refuted', diff)
    if opq > 8 or (opq and not agree): return Verdict('undecided', 'not summarised: ' + last)
    if agree >= 4 and not diff: return Verdict('agree', agree)
    return Verdict('undecided', 'agree %d differ %d skipped %d opaque %d undefined %d' % (agree, len(diff), skipped, opq, und))
def implied(pre, post, mk_sample, n=40, need=2, seed=1):
    """pre => post for BDDs"""
    if not sat(pre & ~post): return Verdict('proved')
    CONSTS[:] = harvest(pre, post)
    bad = []; ok = 0; opq = 0; last = ''; t0 = time.time()
    for t in range(n * 40):
        if time.time() - t0 > LIMIT and (ok + len(bad) >= 4 or time.time() - t0 > 3 * LIMIT): break
        if ok + len(bad) >= n: break
        if t > n * 8 and ok + len(bad) >= 6: break
        sm = mk_sample(seed * 1000 + t)
        try:
            if not sm.b(pre): continue
            if sm.b(post): ok += 1
            else: bad.append((sm, 'guard holds, condition does not'))
        except (Ambiguous, Skip, UndefVal, ZeroDivisionError, OverflowError): continue
        except Opaque as o:
            opq += 1; last = str(o)
            if opq > 12: break
        if len(bad) >= need: return Verdict('refuted', bad)
    if opq and not ok: return Verdict('undecided', 'not summarised: ' + last)
    if ok < 4: return Verdict('undecided', ok)
    # the same quantity compared on both sides: ties and NaN are separate cases of the comparison
    FK = ('FLT', 'FLE', 'FEQ', 'FNAN')
    pp = {canon(a.args[0])[0] for a in pre.sup if a.kind in FK}
    for q in sorted({canon(a.args[0])[0] for a in post.sup if a.kind in FK} & pp, key=lambda q: q.id):
        for rel in ('eq', 'nan'):
            bad = []; tot = 0
            for t in range(n * 4):
                sm = mk_sample(seed * 7000 + t)
                others = sm.r('tie').random() < 0.5
                sm.tie = {q: rel}
                if others:
                    for a in pre.sup:
                        if a.kind in FK:
                            q2 = canon(a.args[0])[0]
                            if q2 is not q: sm.tie[q2] = sm.r('tie', q2.id).choice(('lt', 'gt'))
                try:
                    if not sm.b(pre): continue
                    tot += 1
                    if not sm.b(post): bad.append((sm, 'when the compared quantity is ' + ('exactly at the bound' if rel == 'eq' else 'NaN') + ' the guard holds, the condition does not'))
                except (Ambiguous, Skip, UndefVal, ZeroDivisionError, OverflowError, Opaque): continue
                if len(bad) >= need: return Verdict('refuted', bad)
    return Verdict('agree', ok)
