"""Hash-consed symbolic values: polynomials over atoms, guards (BDDs), functional array contents.

Everything is interned inside one process, so semantic equality (up to the normal form) is `is`.
Integers are mathematical integers, floating point is treated as the reals for algebraic
normalisation; comparisons keep NaN-relevant distinctions (FLT / FLE / FEQ are separate atoms).
"""
from fractions import Fraction
import itertools, struct, sys
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('kind', 'args', 'id', 'lvl', 'fk', 'bs', 'attr', '__weakref__')
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id

_atoms = {}
_ctr = itertools.count(1)
EMPTY = frozenset()

def _lvl(x):
    if isinstance(x, (Atom, Poly, BDD)): return x.lvl
    if isinstance(x, tuple): return max((_lvl(y) for y in x), default=0)
    return 0
def _fk(x):
    if isinstance(x, (Atom, Poly, BDD)): return x.fk
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            f = _fk(y)
            if f: r = r | f
        return r
    return EMPTY

def _bs(x):
    if isinstance(x, (Atom, Poly, BDD)): return x.bs
    if isinstance(x, tuple):
        r = 0
        for y in x: r |= _bs(y)
        return r
    return 0

def mk(kind, *args, attr=None):
    key = (kind,) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.kind = kind; a.args = args; a.id = next(_ctr); a.attr = attr or {}
        a.lvl = max((_lvl(x) for x in args), default=0)
        a.fk = _fk(args)
        a.bs = _bs(args) if kind not in ('B', 'AB') else (1 << args[0] if kind == 'B' else 1 << (500 + args[0]))
        if kind in BINDERS: a.lvl += 1
        _atoms[key] = a
    elif attr: a.attr.update(attr)
    return a

# binder kinds: the bound variable is B(level) with level == lvl of the body before binding
BINDERS = {'Sum', 'CMin', 'CMax', 'EX', 'map', 'fold', 'q'}

def B(level):
    a = mk('B', level)
    a.lvl = 0     # bound variables themselves add no height
    return a

_kc = itertools.count()
def newK(T=None, hint='k', loop=None):
    n = next(_kc)
    a = mk('K', n, hint)
    a.fk = frozenset([a]); a.attr = {'T': T, 'loop': loop}
    return a
def newMu(hint, loop=None, init=None):
    n = next(_kc)
    a = mk('Mu', n, hint)
    a.fk = frozenset([a]); a.attr = {'loop': loop, 'init': init}
    return a

# ------------------------------------------------------------------ polynomials
_mh = {}
_rng = __import__('random').Random(12345)
_PR = (1 << 61) - 1
def mono_hash(m):
    r = _mh.get(m)
    if r is None: r = _mh[m] = _rng.randrange(1, _PR)
    return r
def lhash(p):
    """linear hash modulo the constant term: lhash(a+b) == lhash(a)+lhash(b)"""
    if p.h is None:
        r = 0
        for m, c in p.terms:
            if m == (): continue
            if type(c) is int: r += c * mono_hash(m)
            else: r += c.numerator * pow(c.denominator, -1, _PR) * mono_hash(m)
        p.h = r % _PR
    return p.h
class Poly:
    __slots__ = ('terms', 'id', 'lvl', 'fk', 'bs', '__weakref__', 'd', 'h')
    def __repr__(self): return show(self)
    def __add__(self, o): return padd(self, P(o))
    def __radd__(self, o): return padd(P(o), self)
    def __sub__(self, o): return padd(self, pscale(P(o), -1))
    def __rsub__(self, o): return padd(P(o), pscale(self, -1))
    def __neg__(self): return pscale(self, -1)
    def __mul__(self, o): return pmul(self, P(o))
    def __rmul__(self, o): return pmul(P(o), self)
    @property
    def const(self):
        """Fraction if constant else None"""
        if not self.terms: return 0
        if len(self.terms) == 1 and self.terms[0][0] == (): return self.terms[0][1]
        return None
    def atoms(self):
        return {a for m, c in self.terms for a, e in m}
    def c0(self):
        return self.d.get((), 0)
    def lin(self, a):
        """coefficient poly q, rest r with self == q*a + r, a not in r; None if nonlinear in a"""
        q = {}; r = {}
        nest = a in a.fk
        for m, c in self.terms:
            if nest:
                for x, _ in m:
                    if x is not a and a in x.fk: return None
            e = dict(m).get(a, 0)
            if e == 0: r[m] = c
            elif e == 1: q[tuple(x for x in m if x[0] is not a)] = c
            else: return None
        return mkpoly(q), mkpoly(r)

_polys = {}
def mono_key(m): return tuple((a.id, e) for a, e in m)
def mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        p = Poly(); p.d = d
        p.terms = tuple(sorted(d.items(), key=lambda t: mono_key(t[0]))) if len(d) > 1 else tuple(d.items())
        p.h = None; p.id = next(_ctr)
        fk = EMPTY; lvl = 0; bs = 0
        for m in d:
            for a, e in m:
                if a.fk: fk = fk | a.fk
                if a.lvl > lvl: lvl = a.lvl
                bs |= a.bs
        p.fk = fk; p.lvl = lvl; p.bs = bs
        _polys[key] = p
    return p

def normc(c):
    if type(c) is int:
        if -10**17 < c < 10**17: return c
    elif isinstance(c, float):
        if c != c or c in (float('inf'), float('-inf')): return c
        c = Fraction(c)
    if c.denominator == 1 and abs(c.numerator) <= 10**17: return int(c)
    if c.denominator > 10**9 or abs(c.numerator) > 10**17:
        if c == 0: return c
        c = Fraction('%.12e' % float(c))
        return int(c) if c.denominator == 1 else c
    return c
def qinv(c): return Fraction(1) / c

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom):
        r = _pa.get(x.id)
        if r is None: r = _pa[x.id] = mkpoly({((x, 1),): 1})
        return r
    return mkpoly({(): normc(x)})
_pa = {}
def padd(a, b):
    if not a.terms: return b
    if not b.terms: return a
    d = dict(a.terms)
    for m, c in b.terms:
        n = d.get(m, 0) + c
        d[m] = normc(n) if n else n
    return mkpoly(d)
def pscale(a, c):
    c = normc(c)
    return mkpoly({m: normc(x * c) for m, x in a.terms})
def mmul(m1, m2):
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) + e
    # indicator idempotence
    r = []
    for a, e in d.items():
        if e == 0: continue
        if a.kind == 'Ind' and e > 1: e = 1
        r.append((a, e))
    r.sort(key=lambda t: t[0].id)
    return tuple(r)
def pmul(a, b):
    if not a.terms: return a
    if not b.terms: return b
    d = {}
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            m = mmul(m1, m2)
            # sqrt(x)*sqrt(x) = x
            extra = None
            for t, (at, e) in enumerate(m):
                if at.kind == 'Fn' and at.args[0] == 'sqrt' and e >= 2:
                    extra = (t, at, e); break
            if extra:
                t, at, e = extra
                rest = mkpoly({m[:t] + (((at, e - 2),) if e > 2 else ()) + m[t+1:]: c1 * c2})
                for mm, cc in pmul(rest, at.args[1]).terms:
                    d[mm] = normc(d.get(mm, 0) + cc)
                continue
            d[m] = normc(d.get(m, 0) + c1 * c2)
    return mkpoly(d)
def ppow(a, n):
    r = P(1)
    for _ in range(n): r = r * a
    return r
ZERO = None
def pinv(a):
    """1/a over the reals"""
    c = a.const
    if c is not None:
        if c == 0: return P(mk('Fn', 'inf'))
        return P(qinv(c))
    if len(a.terms) == 1:
        m, c = a.terms[0]
        return mkpoly({tuple((x, -e) for x, e in m): normc(qinv(c))})
    lc = a.terms[-1][1]
    n = pscale(a, qinv(lc))
    return mkpoly({((mk('Inv', n), 1),): normc(qinv(lc))})
def pdiv(a, b): return pmul(a, pinv(b))
ZERO = mkpoly({}); ONE = P(1)

def Sym(name, nonneg=False, **attr):
    a = mk('Sym', name)
    if nonneg: a.attr['nonneg'] = True
    a.attr.update(attr)
    return a
def Fn(name, *args): return mk('Fn', name, *args)

# ------------------------------------------------------------------ guards (BDDs over boolean atoms)
class BDD:
    __slots__ = ('var', 'hi', 'lo', 'id', 'lvl', 'fk', 'bs', 'sup')
    def __repr__(self): return show(self)
    def __and__(self, o): return band(self, o)
    def __or__(self, o): return bor(self, o)
    def __invert__(self): return bnot(self)
_bdds = {}
def _leaf():
    b = BDD(); b.var = None; b.hi = b.lo = None; b.id = next(_ctr); b.lvl = 0; b.fk = EMPTY; b.bs = 0; b.sup = EMPTY
    return b
TRUE = _leaf(); FALSE = _leaf()
def mkb(var, hi, lo):
    if hi is lo: return hi
    key = (var.id, hi.id, lo.id)
    b = _bdds.get(key)
    if b is None:
        b = BDD(); b.var = var; b.hi = hi; b.lo = lo; b.id = next(_ctr)
        b.lvl = max(var.lvl, hi.lvl, lo.lvl); b.fk = var.fk | hi.fk | lo.fk; b.bs = var.bs | hi.bs | lo.bs
        b.sup = hi.sup | lo.sup | frozenset([var])
        _bdds[key] = b
    return b
def bvar(a): return mkb(a, TRUE, FALSE)
_ite = {}
def ite(f, g, h):
    if f is TRUE: return g
    if f is FALSE: return h
    if g is h: return g
    if g is TRUE and h is FALSE: return f
    key = (f.id, g.id, h.id)
    r = _ite.get(key)
    if r is not None: return r
    v = min((x.var for x in (f, g, h) if x.var is not None), key=lambda a: a.id)
    def co(x, s):
        if x.var is v: return x.hi if s else x.lo
        return x
    r = mkb(v, ite(co(f, 1), co(g, 1), co(h, 1)), ite(co(f, 0), co(g, 0), co(h, 0)))
    _ite[key] = r
    return r
def band(a, b): return ite(a, b, FALSE)
def bor(a, b): return ite(a, TRUE, b)
def bnot(a): return ite(a, FALSE, TRUE)
def cofactor(b, var, val):
    if b.var is None or var not in b.sup: return b
    if b.var is var: return b.hi if val else b.lo
    # ordering by id
    return ite(bvar(b.var), cofactor(b.hi, var, val), cofactor(b.lo, var, val))
def conj(it):
    r = TRUE
    for x in it: r = r & x
    return r
def disj(it):
    r = FALSE
    for x in it: r = r | x
    return r

# ---- theory: lemmas between atoms
_lem = {}
def _famkey(a):
    """LT atoms: family (poly without constant) and bound c : e + c0 < 0  <=>  e < -c0"""
    p = a.args[0]
    c = p.c0()
    e = p - P(c)
    return e, -c
def lemmas(a, b):
    """BDD that is valid relating boolean atoms a, b (a is not b)"""
    if a.id > b.id: a, b = b, a
    key = (a.id, b.id)
    r = _lem.get(key)
    if r is not None: return r
    r = TRUE
    ka, kb = a.kind, b.kind
    A_, B_ = bvar(a), bvar(b)
    if ka == kb and ka in ('LT', 'FLT', 'FLE'):
        ea, ca = _famkey(a); eb, cb = _famkey(b)
        if ea is eb:
            # e<ca , e<cb
            if ca <= cb: r = r & (~A_ | B_)
            if cb <= ca: r = r & (~B_ | A_)
        elif ea is pscale(eb, -1):
            # e < ca ; -e < cb  => e > -cb
            if ka in ('FLT',):
                if ca <= -cb: r = r & ~(A_ & B_)
            elif ka == 'FLE':
                if ca < -cb: r = r & ~(A_ & B_)
            else:
                if ca <= -cb + 1: r = r & ~(A_ & B_)
                if ca > -cb: r = r & (A_ | B_)
    elif {ka, kb} == {'FLT', 'FLE'}:
        lt, le = (a, b) if ka == 'FLT' else (b, a)
        el, cl = _famkey(lt); ee, ce = _famkey(le)
        L_, E_ = bvar(lt), bvar(le)
        if el is ee:
            # e<cl, e<=ce
            if cl <= ce: r = r & (~L_ | E_)
            if ce < cl: r = r & (~E_ | L_)
        elif el is pscale(ee, -1):
            # e<cl ; -e<=ce => e>=-ce
            if cl <= -ce: r = r & ~(L_ & E_)
    if ka == 'FEQ' or kb == 'FEQ':
        eq, o = (a, b) if ka == 'FEQ' else (b, a)
        if o.kind in ('FLT', 'FLE'):
            pe = eq.args[0]; po = o.args[0]
            for s in (1, -1):
                q = pscale(pe, s)
                d = po - q
                if d.const is not None:
                    # eq: q==0 ; po = q + d
                    t = d.const
                    val = (t < 0) if o.kind == 'FLT' else (t <= 0)
                    r = r & (~bvar(eq) | (bvar(o) if val else ~bvar(o)))
        elif o.kind == 'FEQ':
            d1 = eq.args[0] - o.args[0]; d2 = eq.args[0] + o.args[0]
            for d in (d1, d2):
                if d.const is not None and d.const != 0: r = r & ~(A_ & B_)
    if ka == 'FNAN' or kb == 'FNAN':
        na, o = (a, b) if ka == 'FNAN' else (b, a)
        if o.kind in ('FLT', 'FLE', 'FEQ') and any(x in o.args[0].atoms() for x in na.args[0].atoms()) and na.args[0] is not o.args[0]:
            pass
        if o.kind in ('FLT', 'FLE', 'FEQ') and (na.args[0] is o.args[0] or na.args[0] is pscale(o.args[0], -1)):
            r = r & ~(A_ & B_)
    if ka == 'NULL' and kb == 'NULL':
        pass
    _lem[key] = r
    return r
_satc = {}
EXTRA_LEMMAS = []   # callables(support list) -> BDD
def sat(b):
    """satisfiable modulo pairwise lemmas"""
    if b is TRUE: return True
    if b is FALSE: return False
    r = _satc.get(b.id)
    if r is not None: return r
    sup = sorted((a for a in b.sup if a.kind in ('LT', 'FLT', 'FLE', 'FEQ', 'FNAN')), key=lambda a: a.id)
    x = b
    for i in range(len(sup)):
        for j in range(i):
            l = lemmas(sup[j], sup[i])
            if l is not TRUE:
                x = x & l
                if x is FALSE: break
        if x is FALSE: break
    if x is not FALSE:
        x = x & trans_lemmas(sup)
    r = x is not FALSE
    _satc[b.id] = r
    return r
def trans_lemmas(sup):
    """three-way transitivity for FLT/LT atoms: p+q+r relations"""
    r = TRUE
    fs = [a for a in sup if a.kind in ('FLT', 'FLE')]
    ls = [a for a in sup if a.kind == 'LT']
    if 3 <= len(fs) <= 40:
        idx = {}
        for a in fs: idx.setdefault(lhash(a.args[0]), []).append(a)
        for i, a in enumerate(fs):
            for b in fs[:i]:
                h = (lhash(a.args[0]) + lhash(b.args[0])) % _PR
                pos, ng = idx.get(h), idx.get((-h) % _PR)
                if not pos and not ng: continue
                s = a.args[0] + b.args[0]
                st = a.kind == 'FLT' or b.kind == 'FLT'
                pre = bvar(a) & bvar(b)
                for c in pos or ():       # c.p = s + d
                    d = (c.args[0] - s).const
                    if d is None or c is a or c is b: continue
                    if d < 0 or (d == 0 and (st or c.kind == 'FLE')): r = r & (~pre | bvar(c))
                for c in ng or ():        # c.p = -s + d
                    d = (c.args[0] + s).const
                    if d is None or c is a or c is b: continue
                    if d > 0 or (d == 0 and (st or c.kind == 'FLT')): r = r & ~(pre & bvar(c))
    if 3 <= len(ls) <= 60:
        idx = {}
        for a in ls: idx.setdefault(lhash(a.args[0]), []).append(a)
        lits = [(a, a.args[0], bvar(a), -1) for a in ls] + [(a, -a.args[0], ~bvar(a), 0) for a in ls]   # p <= bound
        for i, (a, pa, la, ba) in enumerate(lits):
            for (b, pb, lb, bb) in lits[:i]:
                if a is b: continue
                h = (lhash(pa) + lhash(pb)) % _PR
                pos, ng = idx.get(h), idx.get((-h) % _PR)
                if not pos and not ng: continue
                s = pa + pb; bound = ba + bb          # s <= bound
                for c in pos or ():
                    d = (c.args[0] - s).const
                    if d is not None and c is not a and c is not b and bound + d < 0: r = r & (~(la & lb) | bvar(c))
                for c in ng or ():
                    d = (c.args[0] + s).const          # c.p = -s + d >= -bound + d
                    if d is not None and c is not a and c is not b and -bound + d >= 0: r = r & ~(la & lb & bvar(c))
    return r
def implies(a, b): return not sat(a & ~b)
def unsat(a): return not sat(a)

# ------------------------------------------------------------------ boolean atoms
def _ind_atom(p):
    n = 0; r = None
    for m, c in p.terms:
        for a, e in m:
            if a.kind == 'Ind':
                if r is None: r = a
                elif a is not r: n += 1
    return r if n <= 3 else None
def _ind_split(p, f):
    """case split comparisons on indicator atoms; None when there are none"""
    a = _ind_atom(p)
    if a is None: return None
    d1 = ZERO; d0 = ZERO
    for m, c in p.terms:
        if any(x is a for x, e in m):
            d1 = d1 + mkpoly({tuple(t for t in m if t[0] is not a): c})
        else:
            t = mkpoly({m: c}); d1 = d1 + t; d0 = d0 + t
    return ite(a.args[0], f(d1), f(d0))
def _normsign_int(p):
    """p<0 for ints -> BDD"""
    c = p.const
    if c is not None: return TRUE if c < 0 else FALSE
    r = _ind_split(p, _normsign_int)
    if r is not None: return r
    if prove_ge0(p): return FALSE
    if prove_ge0(-p - ONE): return TRUE
    # gcd
    from math import gcd
    g = 0
    for m, x in p.terms:
        if m != ():
            if x.denominator != 1: g = 0; break
            g = gcd(g, abs(x.numerator))
    if g > 1:
        c0 = p.c0()
        e = pscale(p - P(c0), Fraction(1, g))
        # e < -c0/g  -> e < ceil(-c0/g)
        import math
        b = math.ceil(Fraction(-c0) / g)
        p = e - P(b)
    lead = [x for m, x in p.terms if m != ()][-1]
    if lead < 0:
        # p<0 <=> not(-p-1 < 0) ; since p<=-1 <=> -p-1>=0
        return ~bvar(mk('LT', -p - ONE))
    return bvar(mk('LT', p))
def LT(a, b):  # a<b ints
    return _normsign_int(P(a) - P(b))
def LE(a, b): return LT(P(a), P(b) + ONE)
def EQ(a, b):
    p = P(a) - P(b)
    return ~LT(p, 0) & LT(p, 1)
def _fscale(p):
    nc = [x for m, x in p.terms if m != ()]
    lead = abs(nc[-1])
    return pscale(p, qinv(lead)) if lead != 1 else p
def FLT(a, b):
    p = P(a) - P(b); c = p.const
    if c is not None: return TRUE if c < 0 else FALSE
    r = _ind_split(p, lambda q: FLT(q, 0))
    if r is not None: return r
    return bvar(mk('FLT', _fscale(p)))
def FLE(a, b):
    p = P(a) - P(b); c = p.const
    if c is not None: return TRUE if c <= 0 else FALSE
    r = _ind_split(p, lambda q: FLE(q, 0))
    if r is not None: return r
    return bvar(mk('FLE', _fscale(p)))
def FEQ(a, b):
    p = P(a) - P(b); c = p.const
    if c is not None: return TRUE if c == 0 else FALSE
    r = _ind_split(p, lambda q: FEQ(q, 0))
    if r is not None: return r
    p = _fscale(p)
    if [x for m, x in p.terms if m != ()][-1] < 0: p = -p
    return bvar(mk('FEQ', p))
def FNAN(a, b):
    p = P(a) - P(b); c = p.const
    if c is not None: return FALSE
    p = _fscale(p)
    if [x for m, x in p.terms if m != ()][-1] < 0: p = -p
    return bvar(mk('FNAN', p))
def Ind(b):
    """0/1 valued poly of a guard"""
    if b is TRUE: return ONE
    if b is FALSE: return ZERO
    return P(mk('Ind', b))

# ------------------------------------------------------------------ bounds prover
def atom_nonneg(a):
    if a.attr.get('nonneg'): return True
    k = a.kind
    if k == 'K' or k == 'B': return True
    if k == 'Ind': return True
    if k == 'Rd':
        lo = arr_attr(a.args[0], 'lo')
        return lo is not None and lo.const is not None and lo.const >= 0
    if k == 'Sum':
        return all(c >= 0 and all(atom_nonneg(x) for x, e in m) for m, c in a.args[1].terms)
    if k == 'Fn' and a.args[0] in ('sqrt', 'max1', 'abs'): return True
    if k in ('Min',): return all(poly_nonneg(x) for x in a.args)
    return False
def arr_attr(arr, name):
    """attribute of the array an element is read from"""
    v = arr.attr.get(name)
    return v
def poly_nonneg(p):
    for m, c in p.terms:
        if c < 0: return False
        for a, e in m:
            if not (atom_nonneg(a) or e % 2 == 0): return False
    return True
_pg = {}
def prove_ge0(p, depth=0):
    r = _pg.get(p.id)
    if r is not None: return r
    if depth > 12: return False
    _pg[p.id] = False
    r = _prove(p, depth)
    if r: _pg[p.id] = r
    else: _pg.pop(p.id, None)
    return r
def ub_of(a):
    if a.kind == 'K' and a.attr.get('T') is not None: return a.attr['T'] - ONE
    if a.kind == 'Rd':
        h = arr_attr(a.args[0], 'hi')
        if h is not None: return h
        mo = arr_attr(a.args[0], 'mono')     # nondecreasing up to index mo
        if mo is not None and a.args[1] is not mo:
            if prove_ge0(mo - a.args[1], 3): return P(mk('Rd', a.args[0], mo))
    return a.attr.get('ub')
def lb_of(a):
    if a.kind == 'K': return a.attr.get('lb', ZERO)
    if a.attr.get('lb') is not None: return a.attr['lb']
    if atom_nonneg(a): return ZERO
    return None
def _prove(p, depth):
    if poly_nonneg(p): return True
    if p.const is not None: return p.const >= 0
    # pick atoms bounded, newest first
    cands = sorted(p.atoms(), key=lambda a: -a.id)
    # monotone pairs: c*(Rd(j,x) - Rd(j,y)) with x>=y is nonneg
    for a in cands:
        lin = p.lin(a)
        if lin is None: continue
        q, r = lin
        if not q.terms: continue
        negs = poly_nonneg(-q)
        if negs:
            u = ub_of(a)
            if u is not None and a not in u.atoms():
                if prove_ge0(q * u + r, depth + 1): return True
    for a in cands:
        lin = p.lin(a)
        if lin is None: continue
        q, r = lin
        if poly_nonneg(q):
            l = lb_of(a)
            if l is not None:
                if a.kind == 'Rd' and arr_attr(a.args[0], 'mono') is not None:
                    # try dropping against smaller index entries of the same array
                    for b in cands:
                        if b is not a and b.kind == 'Rd' and b.args[0] is a.args[0] and prove_ge0(a.args[1] - b.args[1], depth + 2):
                            if prove_ge0(q * P(b) + r, depth + 1): return True
                if prove_ge0(q * l + r, depth + 1): return True
    return False
def prove_lt(a, b): return prove_ge0(P(b) - P(a) - ONE)
def prove_le(a, b): return prove_ge0(P(b) - P(a))

# ------------------------------------------------------------------ substitution
def subst(x, mp):
    """replace K/Mu/Sym atoms by polys (or arrays for array-valued Mu)"""
    keys = frozenset(mp)
    memo = {}
    return _subst(x, mp, keys, memo)
def _subst(x, mp, keys, memo):
    if isinstance(x, tuple): return tuple(_subst(y, mp, keys, memo) for y in x)
    if not isinstance(x, (Atom, Poly, BDD)): return x
    if not (x.fk & keys): return x
    r = memo.get(x.id)
    if r is not None: return r
    if isinstance(x, Poly):
        d = {}; r = ZERO
        for m, c in x.terms:
            if not any(a.fk & keys for a, e in m): d[m] = c; continue
            keep = tuple((a, e) for a, e in m if not (a.fk & keys))
            t = mkpoly({keep: c})
            for a, e in m:
                if not (a.fk & keys): continue
                v = _subst(a, mp, keys, memo)
                v = P(v) if not isinstance(v, Poly) else v
                if e > 0: t = t * (v if e == 1 else ppow(v, e))
                else: t = t * ppow(pinv(v), -e)
            r = r + t
        if d: r = r + mkpoly(d)
    elif isinstance(x, BDD):
        v = _subst_bool(x.var, mp, keys, memo)
        r = ite(v, _subst(x.hi, mp, keys, memo), _subst(x.lo, mp, keys, memo))
    else:
        if x in mp: r = mp[x]
        else: r = rebuild(x, lambda y: _subst(y, mp, keys, memo))
    memo[x.id] = r
    return r
def _subst_bool(a, mp, keys, memo):
    if not (a.fk & keys): return bvar(a)
    if a in mp: return mp[a]
    k = a.kind
    if k in REBUILD_BOOL:
        return REBUILD_BOOL[k](*[_subst(y, mp, keys, memo) for y in a.args])
    if k == 'EX':
        T, body = a.args
        K = newK(T); b2 = open_(body, a.lvl - 1, K)
        b2 = _subst(b2, mp, keys, {}); T2 = _subst(T, mp, keys, memo)
        return EX(K, T2, b2)
    return bvar(rebuild(a, lambda y: _subst(y, mp, keys, memo)))
def mentions(x, a, memo):
    """boolean atom a occurs anywhere inside x"""
    if isinstance(x, tuple): return any(mentions(y, a, memo) for y in x)
    if x is a: return True
    if not isinstance(x, (Atom, Poly, BDD)): return False
    r = memo.get(x.id)
    if r is not None: return r
    if isinstance(x, Poly): r = any(mentions(b, a, memo) for m, c in x.terms for b, e in m)
    elif isinstance(x, BDD): r = any(mentions(b, a, memo) for b in x.sup)
    else: r = any(mentions(y, a, memo) for y in x.args)
    memo[x.id] = r
    return r
def assume(x, a, val, memo=None, mm=None):
    """x under the assumption that boolean atom a is val (also inside indicator values)"""
    if memo is None: memo = {}
    if mm is None: mm = memo.setdefault('mm', {})
    if isinstance(x, tuple): return tuple(assume(y, a, val, memo, mm) for y in x)
    if not isinstance(x, (Atom, Poly, BDD)): return x
    if not mentions(x, a, mm): return x
    r = memo.get(x.id)
    if r is not None: return r
    f = lambda y: assume(y, a, val, memo, mm)
    if isinstance(x, Poly):
        r = ZERO
        for m, c in x.terms:
            t = P(c)
            for b, e in m:
                v = P(f(b))
                t = t * (ppow(v, e) if e > 0 else ppow(pinv(v), -e))
            r = r + t
    elif isinstance(x, BDD):
        b = x.var
        if b is a: return f(x.hi if val else x.lo)
        if not mentions(b, a, mm): v = bvar(b)
        elif b.kind in REBUILD_BOOL: v = REBUILD_BOOL[b.kind](*[f(y) for y in b.args])
        elif b.kind == 'EX':
            K = newK(b.args[0]); v = EX(K, f(b.args[0]), f(open_(b.args[1], b.lvl - 1, K)))
        else: v = bvar(rebuild(b, f))
        r = ite(v, f(x.hi), f(x.lo))
    else: r = rebuild(x, f)
    memo[x.id] = r
    return r
REBUILD_BOOL = {
    'LT': lambda p: _normsign_int(p), 'FLT': lambda p: FLT(p, 0), 'FLE': lambda p: FLE(p, 0),
    'FEQ': lambda p: FEQ(p, 0), 'FNAN': lambda p: FNAN(p, 0),
}
REBUILD = {}
def rebuild(x, f):
    k = x.kind
    if k in REBUILD: return REBUILD[k](x, f)
    if k in BINDERS: raise Exception('no rebuild for binder ' + k)
    n = mk(k, *[f(y) if isinstance(y, (Atom, Poly, BDD, tuple)) else y for y in x.args])
    if n is not x and x.attr and not n.attr: n.attr = dict(x.attr)
    return n
def open_(body, level, to):
    """replace B(level) (bound var of the binder of this height) by poly `to`, not descending below? all inner binders have smaller levels"""
    b = mk('B', level)
    return _openb(body, b, P(to), {})
def _hasb(x, b, memo=None):
    return (_bs(x) & b.bs) != 0
def _openb(x, b, to, memo, hm=None):
    if hm is None: hm = {}
    if isinstance(x, tuple): return tuple(_openb(y, b, to, memo, hm) for y in x)
    if not isinstance(x, (Atom, Poly, BDD)): return x
    if not _hasb(x, b, hm): return x
    r = memo.get(x.id)
    if r is not None: return r
    if isinstance(x, Poly):
        d = {}; r = ZERO; bb = b.bs
        for m, c in x.terms:
            if not any(a.bs & bb for a, e in m): d[m] = c; continue
            t = mkpoly({tuple((a, e) for a, e in m if not (a.bs & bb)): c})
            for a, e in m:
                if not (a.bs & bb): continue
                if a is b: v = to
                else:
                    v = _openb(a, b, to, memo, hm); v = P(v) if not isinstance(v, Poly) else v
                t = t * ((v if e == 1 else ppow(v, e)) if e > 0 else ppow(pinv(v), -e))
            r = r + t
        if d: r = r + mkpoly(d)
    elif isinstance(x, BDD):
        a = x.var
        if not _hasb(a, b, hm): v = bvar(a)
        elif a.kind in REBUILD_BOOL: v = REBUILD_BOOL[a.kind](*[_openb(y, b, to, memo, hm) for y in a.args])
        elif a.kind == 'EX':
            T, body = a.args
            K = newK(T); b2 = open_(body, a.lvl - 1, K)
            v = EX(K, _openb(T, b, to, memo, hm), _openb(b2, b, to, {}, None))
        else: v = bvar(rebuild(a, lambda y: _openb(y, b, to, memo, hm)))
        r = ite(v, _openb(x.hi, b, to, memo, hm), _openb(x.lo, b, to, memo, hm))
    elif x is b: r = to
    elif x.kind in BINDERS:
        r = REBUILD[x.kind](x, lambda y: _openb(y, b, to, {}, None))
    else:
        r = rebuild(x, lambda y: _openb(y, b, to, memo, hm))
    memo[x.id] = r
    return r
def close_(body, K):
    """abstract K: returns (level, body') with K replaced by B(level)"""
    lv = _lvl(body)
    b = B(lv)
    return lv, subst(body, {K: P(b)}) if (K in _fk(body)) else body

# ------------------------------------------------------------------ sums etc.
def Sum(K, T, body):
    """sum_{K<T} body"""
    T = P(T)
    if T.const is not None and T.const <= 0: return ZERO
    if not body.terms: return ZERO
    if K not in body.fk: return body * T
    if T.const is not None and T.const == 1: return subst(body, {K: ZERO})
    # telescoping over linear Rd terms
    res = ZERO; rest = body
    changed = True
    while changed:
        changed = False
        for m, c in rest.terms:
            if len(m) >= 1:
                # find a single K-dependent Rd factor with exponent 1, others K-free
                kd = [(a, e) for a, e in m if K in a.fk]
                if len(kd) == 1 and kd[0][1] == 1 and kd[0][0].kind == 'Rd' and K not in kd[0][0].args[0].fk:
                    a = kd[0][0]; idx = a.args[1]
                    up = subst(idx, {K: P(K) + ONE})
                    a_up = Rd(a.args[0], up)
                    if len(a_up.terms) != 1: continue
                    others = tuple(x for x in m if x[0] is not a)
                    mu = mkpoly({others: 1}) * a_up
                    if len(mu.terms) != 1 or mu.terms[0][1] != 1: continue
                    m_up = mu.terms[0][0]
                    cu = rest.d.get(m_up)
                    if cu is not None and cu == -c:
                        pref = mkpoly({others: cu})
                        res = res + pref * (Rd(a.args[0], subst(idx, {K: T})) - Rd(a.args[0], subst(idx, {K: ZERO})))
                        rest = rest - mkpoly({m: c}) - mkpoly({m_up: cu})
                        changed = True
                        break
    # linear split
    groups = {}
    for m, c in rest.terms:
        free = tuple(x for x in m if K not in x[0].fk)
        dep = tuple(x for x in m if K in x[0].fk)
        groups.setdefault(dep, {})[free] = c
    for dep, fr in groups.items():
        coef = mkpoly(fr)
        if dep == (): res = res + coef * T
        else:
            b = mkpoly({dep: 1})
            # multiple terms with the same dep are merged by linearity
            lv, cb = close_(b, K)
            res = res + coef * P(mk('Sum', T, cb))
    return res
def _rb_sum(x, f):
    T, body = x.args
    K = newK(T); b = open_(body, x.lvl - 1, K)
    return Sum(K, f(T), f(b))
REBUILD['Sum'] = _rb_sum
def EX(K, T, body):
    """exists K<T body"""
    if body is FALSE: return FALSE
    T = P(T)
    if T.const is not None and T.const <= 0: return FALSE
    if K not in body.fk: return body & LT(0, T)
    lv, cb = close_(body, K)
    return bvar(mk('EX', T, cb))
def CMin(kind, init, K, T, cond, val):
    """running conditional minimum/maximum: fold over K<T: if cond(K) and val(K) < acc then val(K)"""
    T = P(T)
    if T.const is not None and T.const <= 0: return init
    lv = max(_lvl(cond), _lvl(val)); b = B(lv)
    return P(mk(kind, init, T, subst(cond, {K: P(b)}), subst(val, {K: P(b)})))
def _rb_cmin(x, f):
    init, T, c, v = x.args
    K = newK(T); c2, v2 = open_((c, v), max(_lvl(c), _lvl(v)) if False else x_level(x), K)
    return CMin(x.kind, f(init), K, f(T), f(c2), f(v2))
def x_level(x):
    """bound level of a CMin/CMax node"""
    return max(_lvl(x.args[2]), _lvl(x.args[3]))
REBUILD['CMin'] = _rb_cmin; REBUILD['CMax'] = _rb_cmin

def Min(*ps):
    fl = []
    for p in ps:
        p = P(p)
        if len(p.terms) == 1 and p.terms[0][1] == 1 and len(p.terms[0][0]) == 1 and p.terms[0][0][0][0].kind == 'Min' and p.terms[0][0][0][1] == 1:
            fl += list(p.terms[0][0][0][0].args)
        else: fl.append(p)
    fl = sorted(set(fl), key=lambda p: p.id)
    if len(fl) == 1: return fl[0]
    return P(mk('Min', *fl))

# ------------------------------------------------------------------ arrays
# array content atoms:
#   ArrSym(name)                      initial content of caller memory / havoc
#   Arr(base, layers...)              layers are atoms: map / acc / sct / blk / app
#   map(lo, len, body, cond)          a[lo+t] = body(t) for t<len where cond(t)
#   acc(quants, idx, val, cond)       for all quants: if cond: a[idx] += val    (commutative)
#   sct(quants, idx, val, cond)       ordered scatter assignment
# quantified layers are represented as nested 'q' binders: q(T, inner)
def ArrSym(name, **attr):
    a = mk('ArrSym', name)
    a.attr.update(attr)
    return a
def Arr(base, layers):
    if not layers: return base
    if base.kind == 'Arr':
        layers = base.args[1:] + tuple(layers); base = base.args[0]
    return mk('Arr', base, *layers)
def arr_parts(a):
    if a.kind == 'Arr': return a.args[0], a.args[1:]
    return a, ()

def mk_map(K, lo, ln, body, cond=TRUE):
    """K: bound K atom or None (single point)"""
    if K is None:
        return mk('map', P(lo), P(ln), P(body) if not isinstance(body, Poly) else body, cond)
    lv = max(_lvl(body), _lvl(cond)); b = B(lv)
    return mk('map', P(lo), P(ln), subst(body, {K: P(b)}), subst(cond, {K: P(b)}))
def map_at(m, t):
    """(body, cond) of map layer at offset t"""
    lo, ln, body, cond = m.args
    lv = max(_lvl(body), _lvl(cond))
    return open_(body, lv, t), open_(cond, lv, t)
def _rb_map(x, f):
    lo, ln, body, cond = x.args
    K = newK(ln); b, c = map_at(x, K)
    return mk_map(K, f(lo), f(ln), f(b), f(c))
REBUILD['map'] = _rb_map
def mk_q(K, T, inner):
    lv = _lvl(inner); b = B(lv)
    return mk('q', P(T), subst(inner, {K: P(b)}))
def q_open(x):
    T, inner = x.args
    K = newK(T)
    return K, T, open_(inner, _lvl(inner), K)
def _rb_q(x, f):
    K, T, inner = q_open(x)
    return mk_q(K, f(T), f(inner))
REBUILD['q'] = _rb_q
def _rb_arr(x, f):
    r = f(x.args[0])
    for l in x.args[1:]: r = push(r, f(l))
    if x.attr and not r.attr: r.attr = dict(x.attr)
    return r
REBUILD['Arr'] = _rb_arr
def _rb_rd(x, f): return Rd(f(x.args[0]), f(x.args[1]))
REBUILD['Rd'] = _rb_rd
def _rb_ind(x, f): return Ind(f(x.args[0]))
REBUILD['Ind'] = _rb_ind
def _rb_inv(x, f): return pinv(f(x.args[0]))
REBUILD['Inv'] = _rb_inv
def _rb_min(x, f): return Min(*[f(a) for a in x.args])
REBUILD['Min'] = _rb_min

def unq(layer):
    """strip q binders: list of (K,T), core"""
    qs = []
    while layer.kind == 'q':
        K, T, layer = q_open(layer)
        qs.append((K, T))
    return qs, layer
def has_prefix_sum(body, b):
    """body contains a Sum whose range depends on bound var"""
    hm = {}
    def rec(x, seen):
        if isinstance(x, Poly): return any(rec(a, seen) for m, c in x.terms for a, e in m)
        if x.id in seen: return False
        seen.add(x.id)
        if not (x.bs & b.bs): return False
        if x.kind == 'Sum' and _hasb(x.args[0], b, hm): return True
        return any(rec(y, seen) for y in x.args if isinstance(y, (Atom, Poly)))
    return rec(body, set())

def push(arr, layer):
    """append a write layer to an array content with normalisation"""
    base, layers = arr_parts(arr)
    layers = list(layers)
    if layer.kind == 'q':
        qs, core = unq(layer)
        if any(T.const is not None and T.const <= 0 for K, T in qs): return arr
    elif layer.kind == 'map':
        ln = layer.args[1]
        if ln.const is not None and ln.const <= 0: return arr
        if layer.args[3] is FALSE: return arr
    elif layer.kind in ('acc', 'sct'):
        if layer.args[2] is FALSE: return arr
    if layer.kind == 'map' and layer.args[3] is TRUE:
        lo, ln = layer.args[0], layer.args[1]
        # drop map layers below that are entirely covered, as long as only acc/map layers between are covered as well
        size = base.attr.get('len')
        if size is None: size = arr.attr.get('len')
        if size is not None and lo is ZERO and (ln is size or prove_le(size, ln)):
            layers = []
            if base.kind != 'ArrSym' or base.args[0] != 'undef':
                nb = mk('ArrSym', 'undef'); nb2 = mk('ArrBase', size); nb2.attr['len'] = size
                base = nb2
            layers = []
        else:
            keep = []
            for l in layers:
                if l.kind == 'map' and prove_le(lo, l.args[0]) and prove_le(l.args[0] + l.args[1], lo + ln): continue
                keep.append(l)
            # only legal if nothing kept above a dropped one overlaps -- dropped are overwritten anyway
            layers = keep
            # merge with adjacent previous map of compatible body: [a,b) + [b,c) with same function
            if layers and layers[-1].kind == 'map' and layers[-1].args[3] is TRUE:
                m = try_merge(layers[-1], layer)
                if m is not None:
                    layers.pop()
                    return push(Arr(base, tuple(layers)) if layers else base, m)
            # sort among trailing unconditional disjoint maps by id for canonical order
            i = len(layers)
            while i > 0 and layers[i-1].kind == 'map' and disjoint_maps(layers[i-1], layer) and layers[i-1].id > layer.id:
                i -= 1
            layers.insert(i, layer)
            # coverage by pieces
            full = cover_check(base, layers, arr)
            if full is not None: return full
            return Arr(base, tuple(layers))
        layers.append(layer)
        return Arr(base, tuple(layers))
    if layer.kind == 'acc':
        idx, val, cond = layer.args
        # fold point accumulation into point map
        if layers and layers[-1].kind == 'map':
            m = layers[-1]
            if m.args[1] is ONE and m.args[0] is idx and cond is TRUE and m.args[3] is TRUE:
                b, c = map_at(m, ZERO)
                layers[-1] = mk_map(None, idx, ONE, b + val)
                return Arr(base, tuple(layers))
        i = len(layers)
        while i > 0 and is_acc(layers[i-1]) and layers[i-1].id > layer.id: i -= 1
        layers.insert(i, layer)
        return Arr(base, tuple(layers))
    if layer.kind == 'q':
        qs, core = unq(layer)
        if core.kind == 'acc':
            idx, val, cond = core.args
            # quantifiers not in idx: fold into a Sum
            ks = [K for K, T in qs]
            inner = [(K, T) for K, T in qs if K not in idx.fk]
            # sum out innermost quantifiers absent from idx if no other quantifier's T depends on them
            v = val * Ind(cond)
            rem = list(qs); done = True
            while rem and rem[-1][0] not in idx.fk:
                K, T = rem.pop()
                v = Sum(K, T, v)
            if len(rem) != len(qs):
                l = mk('acc', idx, v, TRUE)
                for K, T in reversed(rem): l = mk_q(K, T, l)
                return push(arr, l)
            if len(qs) == 1:
                # dense accumulate over a unit stride region equal to an existing map region
                K, T = qs[0]
                li = idx.lin(K)
                if li is not None and li[0].const in (1, -1):
                    if li[0].const == 1: lo = li[1]; sub = None
                    else:
                        lo = li[1] - (T - ONE); sub = {K: T - ONE - P(K)}
                        val = subst(val, sub); cond = subst(cond, sub)
                    # look for map below with only acc layers in between
                    j = len(layers) - 1
                    while j >= 0 and is_acc(layers[j]): j -= 1
                    while j >= 0 and layers[j].kind == 'map' and not (layers[j].args[0] is lo and layers[j].args[1] is T):
                        if disjoint_maps2(layers[j], lo, T): j -= 1
                        else: break
                    if j >= 0 and layers[j].kind == 'map' and layers[j].args[0] is lo and layers[j].args[1] is T and layers[j].args[3] is TRUE:
                        b, c = map_at(layers[j], K)
                        layers[j] = mk_map(K, lo, T, b + val * Ind(cond))
                        return Arr(base, tuple(layers))
                    # dense add on the base content: canonical acc with ascending index
                    l = mk_q(K, T, mk('acc', lo + P(K), val * Ind(cond), TRUE))
                    layer = l
            i = len(layers)
            while i > 0 and is_acc(layers[i-1]) and layers[i-1].id > layer.id: i -= 1
            # merge same-index dense accs
            layers.insert(i, layer)
            return Arr(base, tuple(layers))
    layers.append(layer)
    return Arr(base, tuple(layers))
def is_acc(l):
    while l.kind == 'q': l = l.args[1]
    return l.kind == 'acc'
def disjoint_maps(a, b): return disjoint_maps2(a, b.args[0], b.args[1])
def disjoint_maps2(a, lo, ln):
    return prove_le(a.args[0] + a.args[1], lo) or prove_le(lo + ln, a.args[0])
def try_merge(m1, m2):
    """merge adjacent maps computing the same function of the absolute index"""
    lo1, n1 = m1.args[0], m1.args[1]; lo2, n2 = m2.args[0], m2.args[1]
    if (lo1 + n1) is lo2: lo, n, first, second = lo1, n1 + n2, m1, m2
    elif (lo2 + n2) is lo1: lo, n, first, second = lo2, n1 + n2, m2, m1
    else: return None
    K = newK(n)
    bf, _ = map_at(first, K); bs, _ = map_at(second, P(K) - first.args[1])
    if first.args[1] is ONE and second.args[1] is not ONE:
        # point: compare at 0
        b0, _ = map_at(first, ZERO)
        if subst(bs, {K: ZERO}) is b0: return mk_map(K, lo, n, bs)
        return None
    if second.args[1] is ONE and first.args[1] is not ONE:
        b0, _ = map_at(second, ZERO)
        if subst(bf, {K: n - ONE}) is b0: return mk_map(K, lo, n, bf)
        return None
    if bf is bs: return mk_map(K, lo, n, bf)
    return None
def cover_check(base, layers, arr):
    """if the maps at the top partition [0,size) drop everything else"""
    size = base.attr.get('len')
    if size is None or base.kind == 'ArrBase': return None
    top = []
    for l in reversed(layers):
        if l.kind == 'map' and l.args[3] is TRUE: top.append(l)
        else: break
    pos = ZERO; used = []
    pool = list(top)
    while pos is not size:
        nx = next((l for l in pool if l.args[0] is pos), None)
        if nx is None: return None
        pool.remove(nx); used.append(nx); pos = pos + nx.args[1]
    if pool: return None
    nb = mk('ArrBase', size); nb.attr['len'] = size
    used.sort(key=lambda l: l.id)
    return Arr(nb, tuple(used))

def Rd(arr, idx):
    """element read as Poly; resolves through the layers when the index is decidable"""
    idx = P(idx)
    v = _resolve(arr, idx)
    if v is not None: return v
    return P(mk('Rd', arr, idx))
def _resolve(arr, idx):
    if arr.kind == 'ArrIte':
        g, a, b = arr.args
        x, y = Rd(a, idx), Rd(b, idx)
        return y + Ind(g) * (x - y)
    base, layers = arr_parts(arr)
    for i in range(len(layers) - 1, -1, -1):
        l = layers[i]
        if l.kind == 'map':
            lo, ln, body, cond = l.args
            if cond is TRUE and prove_le(lo, idx) and prove_lt(idx, lo + ln):
                b = mk('B', max(_lvl(body), _lvl(cond)))
                if has_prefix_sum(body, b) : 
                    t = idx - lo
                    v, c = map_at(l, t)
                    if v.const is None: return None if i == len(layers) - 1 else P(mk('Rd', Arr(base, layers[:i+1]), idx))
                    return v
                v, c = map_at(l, idx - lo)
                return v
            if prove_lt(idx, lo) or prove_le(lo + ln, idx): continue
            return None if i == len(layers) - 1 else P(mk('Rd', Arr(base, layers[:i+1]), idx))
        return None if i == len(layers) - 1 else P(mk('Rd', Arr(base, layers[:i+1]), idx))
    if layers:
        return Rd(base, idx)
    if base.kind == 'ArrIte': return _resolve(base, idx)
    if base.kind == 'ArrZero': return ZERO
    if base.kind == 'ArrSym' and 'zero0' in base.attr and idx is ZERO: return ZERO
    return None

def ArrIte(g, a, b):
    if g is TRUE or a is b: return a
    if g is FALSE: return b
    r = mk('ArrIte', g, a, b)
    if 'len' in a.attr and a.attr.get('len') is b.attr.get('len'): r.attr['len'] = a.attr['len']
    return r
def mk_fold(layers, mu, K, T):
    """ordered iteration: for K<T apply layers, reads of mu see the current content"""
    lv = max(_lvl(x) for x in layers)
    b = B(lv); ab = mk('AB', lv); ab.lvl = 0
    return mk('fold', P(T), *[subst(x, {K: P(b), mu: ab}) for x in layers])
def fold_open(x):
    lv = x.lvl - 1
    T = x.args[0]
    K = newK(T); mu = newMu('fold')
    ab = mk('AB', lv)
    out = []
    for l in x.args[1:]:
        y = _openb(l, mk('B', lv), P(K), {})
        y = _openb(y, ab, mu, {})
        out.append(y)
    return K, mu, T, out
def _rb_fold(x, f):
    K, mu, T, ls = fold_open(x)
    return mk_fold([f(l) for l in ls], mu, K, f(T))
REBUILD['fold'] = _rb_fold
REBUILD['ArrIte'] = lambda x, f: ArrIte(f(x.args[0]), f(x.args[1]), f(x.args[2]))

# ------------------------------------------------------------------ recurrences without a closed form
class RecSys:
    """x_i(0) = init_i ; x_i(k+1) = next_i(x(k), k, params), iterated T times or while cond holds"""
    __slots__ = ('kinds', 'nexts', 'cond', 'npar', 'ident', 'own', 'par', 'rk', 'rvs')
_recs = {}
def RVar(j, ty):
    a = mk('RV', j, ty)
    if not a.fk: a.fk = frozenset([a])
    return a
def rv_term(a):
    return a if a.args[1] == 'a' else (bvar(a) if a.args[1] == 'b' else P(a))
def sym_kind(f): return f.attr.get('mt', 'n') if f.kind in ('Mu',) else (f.args[1] if f.kind == 'RV' else 'n')
def mk_rec(K, mus, nexts, inits, cond=None):
    """mus: header symbols; returns (make, ) where make(j, T) is the j-th value after T iterations (T None: at loop exit)"""
    kinds = tuple(sym_kind(m) for m in mus)
    terms = tuple(nexts) + ((cond,) if cond is not None else ())
    free = sorted(_fk(terms) - set(mus) - {K}, key=lambda a: a.id)
    own = [RVar(i, k) for i, k in enumerate(kinds)]
    par = [RVar(len(own) + i, sym_kind(f)) for i, f in enumerate(free)]
    rk = RVar('k', 'n')
    mp = {m: rv_term(r) for m, r in zip(mus, own)}
    mp.update({f: rv_term(r) for f, r in zip(free, par)})
    mp[K] = P(rk)
    nx = tuple(subst(t, mp) for t in nexts); cd = subst(cond, mp) if cond is not None else None
    key = (kinds, nx, cd, len(par))
    sysm = _recs.get(key)
    if sysm is None:
        sysm = RecSys(); sysm.kinds = kinds; sysm.nexts = nx; sysm.cond = cd; sysm.npar = len(par); sysm.ident = len(_recs)
        sysm.own = own; sysm.par = par; sysm.rk = rk; sysm.rvs = frozenset(own + par + [rk])
        _recs[key] = sysm
    params = tuple(f if sym_kind(f) == 'a' else (bvar(f) if sym_kind(f) == 'b' else P(f)) for f in free)
    inits = tuple(inits)
    def make(j, T=None):
        a = mk('Rec', sysm, j, T, inits, params)
        if j == 'k':
            a.attr['nonneg'] = True; return P(a)
        k = kinds[j]
        if k == 'a': return a
        return bvar(a) if k == 'b' else P(a)
    return make

# ------------------------------------------------------------------ printing
def show(x, depth=0):
    if depth > 40: return '..'
    s = lambda y: show(y, depth + 1)
    if isinstance(x, tuple): return '(' + ', '.join(s(y) for y in x) + ')'
    if isinstance(x, Poly):
        if not x.terms: return '0'
        out = []
        for m, c in x.terms:
            ms = '*'.join((s(a) if e == 1 else '%s^%d' % (s(a), e)) for a, e in m)
            if not m: cs = fnum(c)
            elif c == 1: cs = ''
            elif c == -1: cs = '-'
            else: cs = fnum(c) + '*'
            out.append(cs + ms)
        r = ' + '.join(out).replace('+ -', '- ')
        return r if len(out) == 1 or depth == 0 else '(' + r + ')'
    if isinstance(x, BDD):
        if x is TRUE: return 'true'
        if x is FALSE: return 'false'
        cubes = []
        def rec(b, c):
            if len(cubes) > 6: return
            if b is TRUE: cubes.append(' & '.join(c) or 'true'); return
            if b is FALSE: return
            rec(b.hi, c + [s(b.var)]); rec(b.lo, c + [neg(b.var, s)])
        rec(x, [])
        return ' | '.join(cubes) if len(cubes) < 6 else ' | '.join(cubes[:5]) + ' | ...'
    if not isinstance(x, Atom): return str(x)
    k = x.kind; a = x.args
    if k == 'Sym': return str(a[0])
    if k == 'ArrSym': return str(a[0])
    if k == 'ArrBase': return 'new'
    if k == 'B': return '$%d' % a[0]
    if k == 'K': return '%s%d' % (a[1], a[0])
    if k == 'Mu': return '%s~' % (a[1],)
    if k == 'Rd': return '%s[%s]' % (s(a[0]) if a[0].kind in ('ArrSym', 'Mu') else '{' + s(a[0]) + '}', show(a[1], 0))
    if k == 'Sum': return 'sum($%d<%s: %s)' % (x.lvl - 1, s(a[0]), s(a[1]))
    if k in ('CMin', 'CMax'): return '%s(init %s, $<%s if %s: %s)' % (k, s(a[0]), s(a[1]), s(a[2]), s(a[3]))
    if k == 'EX': return 'exists($<%s: %s)' % (s(a[0]), s(a[1]))
    if k == 'LT': 
        e, c = _famkey(x); return '%s < %s' % (show(e, 0), fnum(c))
    if k == 'FLT': return '%s <. 0' % show(a[0], 0)
    if k == 'FLE': return '%s <=. 0' % show(a[0], 0)
    if k == 'FEQ': return '%s ==. 0' % show(a[0], 0)
    if k == 'FNAN': return 'nan(%s)' % show(a[0], 0)
    if k == 'Arr': return s(a[0]) + ''.join('; ' + s(l) for l in a[1:])
    if k == 'map': return '[%s +%s] = %s%s' % (s(a[0]), s(a[1]), s(a[2]), '' if a[3] is TRUE else ' if ' + s(a[3]))
    if k == 'acc': return '[%s] += %s%s' % (s(a[0]), s(a[1]), '' if a[2] is TRUE else ' if ' + s(a[2]))
    if k == 'sct': return '[%s] := %s%s' % (s(a[0]), s(a[1]), '' if a[2] is TRUE else ' if ' + s(a[2]))
    if k == 'q': return 'all($%d<%s) %s' % (x.lvl - 1, s(a[0]), s(a[1]))
    if k == 'Ind': return '[%s]' % s(a[0])
    if k == 'Rec': return 'rec%d.%s(%s)' % (a[0].ident, a[1], s(a[2]) if a[2] is not None else 'exit')
    return '%s(%s)' % (k, ', '.join(s(y) for y in a))
def neg(a, s):
    if a.kind == 'LT':
        e, c = _famkey(a); return '%s >= %s' % (show(e, 0), fnum(c))
    return '!' + '(' + s(a) + ')'
def fnum(c):
    if isinstance(c, Fraction):
        if c.denominator == 1: return str(c.numerator)
        return repr(float(c))
    return repr(c)
def f64(bits): return struct.unpack('<d', struct.pack('<Q', int(bits)))[0]
