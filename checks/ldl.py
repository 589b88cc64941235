"""C08, C09, C34: the LDL' kernels, for every pattern, order and permutation."""
from scen import *
class Kernels:
    """summaries of the kernels on caller arrays of the documented shape"""
    def __init__(self, perm=True, rep=None):
        contract.dims(False)
        self.e = e = Engine(lib(), opaque=set(), record_states=('call',))
        self.n = n = contract.N; self.perm = perm
        self.st = State()
        arr = self.arr
        jc = dict(lo=ZERO, mono=n, zero0=True, role='jc', rows=n)
        self.Lp = arr('Lp', n + 1, 'int', **jc); lnz = P(mk('Rd', ArrSym('Lp'), n))
        self.Li = arr('Li', lnz, 'int', lo=ZERO, hi=n - 1, jc=ArrSym('Lp'), cols=n); self.Lx = arr('Lx', lnz)
        self.X = arr('X', n); self.Bv = arr('B', n); self.D = arr('D', n)
        self.Pm = arr('Pm', n, 'int', lo=ZERO, hi=n - 1, role='perm') if perm else gv(NULLP)
        self.Ap = arr('Ap', n + 1, 'int', **jc); nnz = P(mk('Rd', ArrSym('Ap'), n))
        self.Ai = arr('Ai', nnz, 'int', lo=ZERO, hi=n - 1, jc=ArrSym('Ap'), cols=n); self.Ax = arr('Ax', nnz)
        self.nnz = nnz
        self.tag = 'with a permutation' if perm else 'without permutation'
        if rep: rep.engine_later = getattr(rep, 'engine_later', []) + [e]
    def arr(self, nm, ln, elt='fp', **at):
        o = self.e.param(nm, size=P(ln) * 8); o.info.update({'es': 8, 'mode': 'arr', 'elt': elt}); o.info.update(at)
        a = ArrSym(nm); a.attr.update(at); a.attr['elt'] = elt; a.attr['len'] = P(ln)
        return gv(Ptr(o, ZERO))
    def out(self, nm, ln, elt='int'):
        o = self.e.param(nm, size=P(ln) * 8); o.info.update({'es': 8, 'mode': 'arr', 'elt': elt})
        a = mk('ArrUndef', P(ln), nm); a.attr['len'] = P(ln)
        self.st.arrs[o] = gv(a)
        return gv(Ptr(o, ZERO))
    def run(self, fn, *args):
        r, s = self.e.call_fn(fn, [a if isinstance(a, GV) else gv(P(a)) for a in args], self.st)
        return r, s
    def get(self, st, g): return arr_of(self.e, st, g)
    def where(self, g):
        out = {}
        for c, p in g.alts:
            if isinstance(p, Ptr): out.update(self.e.sites.get(p.obj, {}))
        return list(out.values())
def symmetric(s, n, special, perm=True):
    """a symmetric pattern with values: what Ap, Ai, Ax hold in a valuation"""
    if hasattr(s, 'ldlmat'): return s.ldlmat
    g = s.r('mat')
    dens = g.choice((0.2, 0.5, 0.8, 1.0)); small = g.random() < 0.5
    M = {}
    vals = (1.0, 1.0, -1.0, 2.0, 0.5) if small else None
    for i in range(n):
        for j in range(i, n):
            if i == j:
                if g.random() < 0.15: continue
                v = g.choice((0.0, 1.0, -1.0, 1.0, 2.0, 1e-18, -1e-18, 1e-15, -1e-16, 3.0) if special else (3.0, -2.0, 5.0, 4.0, -7.0, 0.0))
                M[i, i] = v
            elif g.random() < dens:
                v = g.choice(vals) if vals else g.uniform(-2, 2)
                M[i, j] = M[j, i] = v
    cols = [sorted((i, M[i, j]) for i in range(n) if (i, j) in M) for j in range(n)]
    kind = g.random()
    if kind < 0.25 and not special:      # duplicate entries, to be summed
        cols = [[x for i, v in c for x in ([(i, v)] if (i + j) % 2 else [(i, v - 0.25), (i, 0.25)])] for j, c in enumerate(cols)]
    elif kind < 0.4:     # unsorted columns
        cols = [c[::-1] for c in cols]
    elif kind < 0.55 and not perm:    # the strictly lower triangle is ignored
        cols = [[(i, v if i <= j else v + 1 + i) for i, v in c] for j, c in enumerate(cols)]
    jc = [0]
    for c in cols: jc.append(jc[-1] + len(c))
    s.ldlmat = (M, jc, [i for c in cols for i, v in c], [v for c in cols for i, v in c])
    return s.ldlmat
def listarr(xs, name):
    def f(i):
        if not (isinstance(i, int) and 0 <= i < len(xs)): raise UndefVal(name)
        return xs[i]
    return evalsym.EArr(f, {}, None)
def kern_sampler(K, nmax=6, special=False, lim=40):
    """valuations: a strictly lower triangular factor, or a symmetric matrix in compressed columns"""
    def mkS(seed):
        import random
        g = random.Random(seed * 15485863 + SEED)
        n = g.randrange(1, nmax + 1)
        cs = [c for c in evalsym.CONSTS[0] if c <= lim]
        if cs and g.random() < 0.4: n = max(1, g.choice(cs) + g.choice((-1, 0, 1, 2, 3, 4, 5, 6, 7)))
        def fac(s):
            if hasattr(s, 'fac'): return s.fac
            g = s.r('fac'); d = g.choice((0.3, 0.6, 1.0)) if n < 10 else g.choice((0.3, 1.0, 1.0)); jc = [0]; ir = []; pr = []
            for j in range(n):
                for i in range(j + 1, n):
                    if g.random() < d: ir.append(i); pr.append(g.choice((0.5, -1.0, 2.0, 0.25)) * (1 + g.randrange(64) / 64))
                jc.append(len(ir))
            s.fac = (jc, ir, pr)
            return s.fac
        def arrh(s, a):
            nm = a.args[0]
            if nm in ('Lp', 'Li', 'Lx'): return listarr(fac(s)[('Lp', 'Li', 'Lx').index(nm)], nm)
            if nm in ('Ap', 'Ai', 'Ax'): return listarr(symmetric(s, n, special, K.perm)[1 + ('Ap', 'Ai', 'Ax').index(nm)], nm)
            if nm == 'D': 
                return evalsym.EArr(lambda i: s.r('D', i).choice((1, -1)) * s.pos('D', i), {}, None)
            return None
        s = Sample(seed, {'n': n, 'm': 1, 'p': 1}, {'ArrSym': arrh}, {'zero': 0.1})
        s.fuel = [400000]
        return s
    return mkS
def loopstats(rep, K):
    rep.engine(K.e)

# ------------------------------------------------------------------ C09
def symbolic_counts(s, n, perm):
    """column counts of the factor: elimination on the permuted pattern"""
    M = s.ldlmat[0]
    pat = {(i, j) for i in range(n) for j in range(n) if (perm[i], perm[j]) in M}
    cols = [set(i for i in range(j + 1, n) if (i, j) in pat) for j in range(n)]
    parent = [-1] * n
    for j in range(n):
        if cols[j]:
            p = min(cols[j]); parent[j] = p
            cols[p] |= cols[j] - {p}
    return cols, parent
def perm_of(s, K, n):
    if not K.perm: return list(range(n))
    a = s.arr(K.get(K.st, K.Pm))
    return [a.get(i) for i in range(n)]
def C09(rep):
    K = Kernels(); n = K.n; mkS = kern_sampler(K)
    def vec(name, fn, args, spec, outg):
        r, st = K.run(fn, *args)
        got = K.get(st, outg)
        def f(s):
            nn = s.v(n); a = s.arr(got); w = spec(s, nn)
            for i in range(nn):
                t = evalsym.same(a.get(i), w[i])
                if t is None: raise Ambiguous()
                if not t: return 'element %d is %s, expected %s (order %d)' % (i, evalsym.key_of(a.get(i)), evalsym.key_of(w[i]), nn)
            return True
        rep.add('%s: %s' % (fn, name), decide_samples(mkS, f, n=80, consts=(got,)), where=[w for w in K.where(outg) if ' in %s ' % fn in str(w) + ' '])
        for nm in ('Lp', 'Li', 'Lx', 'B', 'Pm', 'D'):
            g = getattr(K, {'B': 'Bv'}.get(nm, nm))
            if g is outg: continue
            ln = {'Lp': n + 1, 'Li': P(mk('Rd', ArrSym('Lp'), n)), 'Lx': P(mk('Rd', ArrSym('Lp'), n))}.get(nm, n)
            rep.add('%s leaves %s alone' % (fn, nm), compare(K.get(st, g), ArrSym(nm), mkS, index=ln), where=K.where(g))
    V = lambda s, nm, ln: [s.arr(ArrSym(nm)).get(i) for i in range(ln)]
    def s_perm(s, n): b, p = V(s, 'B', n), V(s, 'Pm', n); return [b[p[j]] for j in range(n)]
    def s_permt(s, n):
        b, p = V(s, 'B', n), V(s, 'Pm', n); x = [None] * n
        for j in range(n): x[p[j]] = b[j]
        return x
    def s_l(s, n):
        x = V(s, 'X', n); lp = V(s, 'Lp', n + 1); li, lx = V(s, 'Li', lp[n]), V(s, 'Lx', lp[n])
        for j in range(n):
            for t in range(lp[j], lp[j + 1]): x[li[t]] -= lx[t] * x[j]
        return x
    def s_d(s, n): x, d = V(s, 'X', n), V(s, 'D', n); return [a / b for a, b in zip(x, d)]
    def s_lt(s, n):
        x = V(s, 'X', n); lp = V(s, 'Lp', n + 1); li, lx = V(s, 'Li', lp[n]), V(s, 'Lx', lp[n])
        for j in range(n - 1, -1, -1):
            for t in range(lp[j], lp[j + 1]): x[j] -= lx[t] * x[li[t]]
        return x
    vec('x[j] = b[P[j]] over all n positions', 'LDL_perm', (n, K.X, K.Bv, K.Pm), s_perm, K.X)
    vec('x[P[j]] = b[j] over all n positions', 'LDL_permt', (n, K.X, K.Bv, K.Pm), s_permt, K.X)
    vec('solves with L by increasing columns', 'LDL_lsolve', (n, K.X, K.Lp, K.Li, K.Lx), s_l, K.X)
    vec('divides by every pivot', 'LDL_dsolve', (n, K.X, K.D), s_d, K.X)
    vec('solves with L\' by decreasing columns', 'LDL_ltsolve', (n, K.X, K.Lp, K.Li, K.Lx), s_lt, K.X)
    rep.engine(K.e)
    for perm in (True, False):
        K = Kernels(perm); n = K.n; mkS = kern_sampler(K)
        o = {nm: K.out(nm, ln) for nm, ln in (('oLp', n + 1), ('Parent', n), ('Lnz', n), ('Flag', n), ('Pinv', n))}
        r, st = K.run('LDL_symbolic', n, K.Ap, K.Ai, o['oLp'], o['Parent'], o['Lnz'], o['Flag'], K.Pm, o['Pinv'] if perm else gv(NULLP))
        A = {k: K.get(st, g) for k, g in o.items()}
        def chk(what, key, f):
            def h(s):
                nn = s.v(n); pm = perm_of(s, K, nn); symmetric(s, nn, False, K.perm)
                a = s.arr(A[key])
                return f(s, nn, pm, a)
            rep.add('LDL_symbolic: %s (%s)' % (what, K.tag), decide_samples(mkS, h, n=60, consts=(A[key],)), where=K.where(o[key]))
        def eqlist(got, want, nm): return True if got == want else '%s is %s, expected %s' % (nm, got, want)
        if perm:
            def fi(s, nn, pm, a):
                inv = [0] * nn
                for k, x in enumerate(pm): inv[x] = k
                return eqlist([a.get(i) for i in range(nn)], inv, 'Pinv')
            chk('Pinv inverts P', 'Pinv', fi)
        def cnt(s, nn, pm): return [len(c) for c in symbolic_counts(s, nn, pm)[0]]
        def fl(s, nn, pm, a):
            w = [0]
            for c in cnt(s, nn, pm): w.append(w[-1] + c)
            return eqlist([a.get(i) for i in range(nn + 1)], w, 'Lp')
        chk('Lp holds the prefix sums of the column counts of the factor', 'oLp', fl)
        chk('Lnz holds the column counts of the factor', 'Lnz', lambda s, nn, pm, a: eqlist([a.get(i) for i in range(nn)], cnt(s, nn, pm), 'Lnz'))
        chk('Parent is the elimination tree', 'Parent', lambda s, nn, pm, a: eqlist([a.get(i) for i in range(nn)], symbolic_counts(s, nn, pm)[1], 'Parent'))
        rep.engine(K.e)
    rep.expl = 'closed-form and recurrence summaries of the permutation, triangular-solve and symbolic kernels compared with their definitions over triangular factors, symmetric patterns and permutations of every order drawn'

# ------------------------------------------------------------------ C08 / C34
PIV = (0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300, 1e-100, 1e-30, -1e-30, 1e-17, -1e-17, 1e-15, -1e-15, 1e-14, -1e-14, 2e-14, -3e-14, 1e-10, -1e-9, 1e-7, -1e-7, 0.5, -4.0, 1e5)
TINY = 1e-20      # "a fixed positive threshold": anything that keeps 1/D finite and bounded
def numeric(perm):
    K = Kernels(perm); n = K.n
    o = {nm: K.out(nm, ln, el) for nm, ln, el in (('oLp', n + 1, 'int'), ('Parent', n, 'int'), ('Lnz', n, 'int'), ('Flag', n, 'int'), ('Pinv', n, 'int'), ('Y', n, 'fp'), ('Pattern', n, 'int'), ('oD', n, 'fp'))}
    r, K.st = K.run('LDL_symbolic', n, K.Ap, K.Ai, o['oLp'], o['Parent'], o['Lnz'], o['Flag'], K.Pm, o['Pinv'] if perm else gv(NULLP))
    lnz = P(mk('Rd', K.get(K.st, o['oLp']), n))
    for nm, el in (('oLi', 'int'), ('oLx', 'fp')): o[nm] = K.out(nm, lnz, el)
    K.r, K.st2 = K.run('LDL_numeric', n, K.Ap, K.Ai, K.Ax, o['oLp'], o['Parent'], o['Lnz'], o['oLi'], o['oLx'], o['oD'], o['Y'], o['Pattern'], o['Flag'], K.Pm, o['Pinv'] if perm else gv(NULLP))
    K.o = o
    return K
def step_pivot(rep, K, arr, whole):
    """value left at D[k] by iteration k of the column loop, for an arbitrary pivot"""
    w = K.where(K.o['oD'])
    if arr.kind != 'Rec' or arr.args[1] == 'k':
        return
    sysm, j = arr.args[0], arr.args[1]
    nxt = sysm.nexts[j]
    def mkS(seed):
        import random
        g = random.Random(seed * 611953 + SEED)
        n = g.randrange(1, 9); cs = [c for c in evalsym.CONSTS[0] if c <= 64]
        if cs and g.random() < 0.5: n = max(1, g.choice(cs) + g.choice((-1, 0, 1, 2, 3, 4, 5, 6, 7)))
        k = g.choice((0, n - 1, g.randrange(n)))
        def free(s, a, *kk):
            """what the inner loops of the iteration compute: arbitrary"""
            sysm2, j2 = a.args[0], a.args[1]
            kd = 'n' if j2 == 'k' else sysm2.kinds[j2]
            key = s.mkey(a)
            if kd == 'a': return evalsym.EArr(lambda i, key=key: pv(s, key, i), {}, None)
            if kd == 'b': return s.r('rb', key).random() < 0.5
            return pv(s, key, 's')
        def pv(s, *key):
            fc = [c for c in evalsym.CONSTS[1]]
            pool = PIV + tuple(c * f for c in fc for f in (0.5, 1.0, 2.0, -0.5, -1.0, -2.0))
            x = s.r('piv', *key).choice(pool)
            if key[-1] in ('s', s.kk): s.cand[key] = x
            return x
        s = Sample(seed, {'n': n, 'm': 1, 'p': 1}, {'Rec': free}, {})
        s.rvs = sysm.rvs; s.rv = {}; s.kk = k; s.cand = {}
        for i, r_ in enumerate(list(sysm.own) + list(sysm.par)):
            kd = r_.args[1]
            if kd == 'a': s.rv[r_] = evalsym.EArr(lambda i2, r_=r_: pv(s, r_.args[0], i2), {}, None)
            elif kd == 'b': s.rv[r_] = s.r('rvb', i).random() < 0.5
            else: s.rv[r_] = s.r('rvn', i).randrange(0, 5)
        npar = [r_ for r_ in sysm.par if r_.args[1] == 'n']
        for r_, prm in zip(sysm.par, arr.args[4]):
            if isinstance(prm, Poly) and prm is P(K.n): s.rv[r_] = n
        s.rv[sysm.rk] = k; s.kk = k
        return s
    def f(s):
        v = float(s.arr(nxt).get(s.kk))
        if v != v: return None
        return True if abs(v) >= TINY else 'column %d of %d leaves the pivot %r' % (s.kk, s.dims['n'], v)
    rep.add('no column leaves a vanishing pivot behind, whatever its computed value (%s)' % K.tag, decide_samples(mkS, f, n=400, consts=(nxt,)), where=w)
    def g(s):
        v = float(s.arr(nxt).get(s.kk))
        if v != v or len(s.cand) != 1: return None
        c = list(s.cand.values())[0]
        if abs(c) > 1e-6 and v != c: return 'the pivot %r becomes %r' % (c, v)
        if c != 0 and v * c < 0: return 'the pivot %r is replaced by %r' % (c, v)
        return True
    r1 = decide_samples(mkS, g, n=400, consts=(nxt,))
    rep.add('only small pivots are replaced, by a value of the same sign (%s)' % K.tag, r1 if r1.kind != 'refuted' or whole.kind == 'refuted' else Verdict('undecided', 'the iteration and the whole recurrence disagree'), where=w)
def factor_of(s, K, n):
    """(perm, L columns, D, M) of a valuation"""
    pm = perm_of(s, K, n); M = s.ldlmat[0]
    lp, nz, li, lx, d = [s.arr(K.get(K.st2, K.o[k])) for k in ('oLp', 'Lnz', 'oLi', 'oLx', 'oD')]
    cols = []
    for j in range(n):
        cols.append({li.get(t): float(lx.get(t)) for t in range(lp.get(j), lp.get(j) + nz.get(j))})
    return pm, cols, [float(d.get(i)) for i in range(n)], M
def C08(rep):
    for perm in (True, False):
        K = numeric(perm); n = K.n; arrD = K.get(K.st2, K.o['oD'])
        mkS = kern_sampler(K, nmax=5, special=True)
        def f(s):
            nn = s.v(n); symmetric(s, nn, True, K.perm)
            pm, L, D, M = factor_of(s, K, nn)
            for k in range(nn):
                ref = M.get((pm[k], pm[k]), 0.0); sc = abs(ref)
                for i in range(k):
                    if k in L[i]: t = L[i][k] * L[i][k] * D[i]; ref -= t; sc = max(sc, abs(t))
                if abs(ref) <= 1e-12 * sc: continue     # cancellation noise
                if abs(ref) > 1e-6 and abs(D[k] - ref) > 1e-6 * max(sc, abs(ref)): return 'pivot %d is %r, its computed value %r is not small' % (k, D[k], ref)
                if D[k] * ref < 0: return 'pivot %d is %r, its computed value %r has the other sign' % (k, D[k], ref)
            return True
        def nz(s):
            nn = s.v(n); symmetric(s, nn, True, K.perm); d = s.arr(arrD)
            for k in range(nn):
                x = float(d.get(k))
                if x != x: return None
                if abs(x) < TINY: return 'pivot %d of %d is %r' % (k, nn, x)
            return True
        rep.add('every pivot of the factorisation is nonzero (%s)' % K.tag, decide_samples(mkS, nz, n=60, consts=(arrD,)), where=K.where(K.o['oD']))
        step_pivot(rep, K, arrD, decide_samples(mkS, f, n=60, consts=(arrD,)))
        rep.engine(K.e)
    rep.expl = 'value left at D[k] by every iteration of the column loop as a function of an arbitrary computed pivot, and the whole recurrence of D over symmetric matrices with zero, cancelling and tiny pivots'
def C34(rep):
    for perm in (True, False):
        K = numeric(perm); n = K.n
        mkS = kern_sampler(K, nmax=5)
        w = K.where(K.o['oLx']) + K.where(K.o['oD']) + K.where(K.o['oLi'])
        cs = tuple(K.get(K.st2, K.o[k]) for k in ('oD', 'oLx', 'oLi'))
        def f(s):
            nn = s.v(n); symmetric(s, nn, False, K.perm)
            pm, L, D, M = factor_of(s, K, nn)
            for k in range(nn):
                for i in range(k + 1):
                    t = M.get((pm[i], pm[k]), 0.0); sc = 1 + abs(t)
                    for j in range(i):
                        x = L[j].get(k, 0.0) * D[j] * L[j].get(i, 0.0); t -= x; sc = max(sc, abs(x))
                    if sc > 1e5: raise Skip()      # a regularised pivot dominates: rounding
                    g = D[k] if i == k else L[i].get(k, 0.0) * D[i]
                    if i == k and abs(t) < 1e-6 * sc: continue
                    if abs(g - t) > 1e-6 * sc: return 'entry (%d,%d) of the factorisation is %r, expected %r' % (k, i, g, t)
            return True
        rep.add('L D L\' reproduces the permuted matrix (%s)' % K.tag, decide_samples(mkS, f, n=60, consts=cs), where=w)
        def fp(s):
            nn = s.v(n); symmetric(s, nn, False, K.perm)
            pm = perm_of(s, K, nn); lp, nz, li = [s.arr(K.get(K.st2, K.o[k])) for k in ('oLp', 'Lnz', 'oLi')]
            cols, par = symbolic_counts(s, nn, pm)
            for j in range(nn):
                got = [li.get(t) for t in range(lp.get(j), lp.get(j) + nz.get(j))]
                if got != sorted(cols[j]): return 'column %d of L has rows %s, expected %s' % (j, got, sorted(cols[j]))
                if lp.get(j + 1) - lp.get(j) != nz.get(j): return 'column %d of L holds %d of %d announced entries' % (j, nz.get(j), lp.get(j + 1) - lp.get(j))
            return True
        rep.add('every column of L holds exactly its announced rows, in increasing order (%s)' % K.tag, decide_samples(mkS, fp, n=40, consts=cs), where=w)
        rep.add('the factorisation reports success (%s)' % K.tag, compare(to_poly(K.r), P(n), mkS), where=w)
        rep.engine(K.e)
    rep.expl = 'recurrence summaries of symbolic analysis and numeric factorisation interpreted over symmetric matrices and permutations; L, D compared with the defining equations'
