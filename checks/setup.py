"""C06, C07, C10, C18, C19: the object the two setup functions build, for caller data of every documented shape."""
from scen import *
_ctx = {}
def get(p0, dense=False, perm=False, ordering=None, noA=False):
    k = (p0, dense, perm, ordering, noA)
    if k not in _ctx:
        c = SetupCtx(p0, dense, perm, ordering=ordering, noA=noA)
        _ctx[k] = c
    c = _ctx[k]
    contract.dims(p0 or noA)
    return c
def one(g): return arr_single(g) if isinstance(g, GV) else g
def shapes(rep, *want):
    for w in want:
        c = get(**w)
        if not getattr(c, 'counted', False): rep.engine(c.e); c.counted = True
        if c.q is None: rep.add('setup object (%s)' % c.tag, 'undecided', 'no unique object returned'); continue
        yield c
SPARSE = [dict(p0=False, perm=True), dict(p0=True, perm=True), dict(p0=False, perm=False), dict(p0=True, perm=False)]
DENSE = [dict(p0=False, dense=True, perm=True), dict(p0=True, dense=True, perm=False)]
def okflag(c):
    """setup did not mark the object as failed"""
    return ~EQ(num_at(c.e, c.st, c.q, 'QP', 'stats->Flag'), 1) & c.st.pc
def peq(c): return ZERO if c.noA else c.PP
class SP(SpecCall):
    pass
def q_arr(c, path, st=None): return one(arr_at(c.e, st or c.st, c.q, 'QP', path))
def events(c, name): return [v for v in c.e.events if v.kind == 'call' and v.data[0] == name]

# ------------------------------------------------------------------ C06
def C06(rep):
    for c in shapes(rep, *(SPARSE + DENSE)):
        e = c.e; q = c.q; ok = okflag(c); pe = peq(c); nmp = c.N + c.M + pe
        mkS = setup_sampler(c)
        qv = c.ret
        sp = SpecCall(e, c.st, ok)
        rhs, w, u, gap, so, zo = [sp.out(a, l) for a, l in (('rhs', nmp), ('w', nmp), ('u', nmp), ('gap', c.M), ('s', c.M), ('z', c.M))]
        sp.call('spec_start_rhs', qv, rhs)
        F = lambda path: fld(e, sp.st, q, 'QP', path)
        sp.call('spec_backsolve', nmp, rhs, w, u, F('kkt->Lp'), F('kkt->Li'), F('kkt->Lx'), F('kkt->D'), F('kkt->P'))
        U = one(sp.arr(u))
        S_ = lambda f: sites_of(e, c.st, q, 'QP', f, arr=True)
        xo = sp.out('x', c.N)
        sp.call('spec_axpy', c.N, u, u, ZERO, xo)
        rep.add('x is its part of the initial solution (%s)' % c.tag, compare(q_arr(c, 'x'), U, mkS, guard=ok, index=c.N), where=S_('x'))
        if pe is not ZERO:
            ysp = sp.out('y', pe)
            got = q_arr(c, 'y')
            def f(s, got=got, U=U, pe=pe):
                if not s.b(ok): return None
                a, b = s.arr(got), s.arr(U); n = s.v(c.N)
                for i in range(s.v(pe)):
                    t = evalsym.same(a.get(i), b.get(n + i))
                    if t is None: raise Ambiguous()
                    if not t: return 'y[%d] is %s, expected %s' % (i, evalsym.key_of(a.get(i)), evalsym.key_of(b.get(n + i)))
                return True
            rep.add('y is its part of the initial solution (%s)' % c.tag, decide_samples(mkS, f, consts=(got, U)), where=S_('y'))
        sp.call('spec_gap', qv, fld(e, c.st, q, 'QP', 'x'), gap)
        sp.call('spec_start_s', qv, gap, so); sp.call('spec_start_z', qv, gap, zo)
        for f, o in (('s', so), ('z', zo)):
            got = q_arr(c, f)
            rep.add('%s is the shifted residual of the initial solution (%s)' % (f, c.tag), compare(got, one(sp.arr(o)), mkS, guard=ok, index=c.M, n=40), where=S_(f))
            def pos(s, got=got, f=f):
                if not s.b(ok): return None
                a = s.arr(got)
                for i in range(s.v(c.M)):
                    x = float(a.get(i))
                    if x != x: return None
                    if x <= 0: return '%s[%d] = %g' % (f, i, x)
                return True
            rep.add('%s is strictly positive (%s)' % (f, c.tag), decide_samples(mkS, pos, consts=(got,), n=40), where=S_(f))
        # what is factorised for it
        for v in events(c, 'LDL_numeric')[:1]:
            for k, path, ln in ((1, 'kkt->kktmatrix->jc', nmp + 1), (2, 'kkt->kktmatrix->ir', None), (3, 'kkt->kktmatrix->pr', None)):
                if ln is None: ln = num_at(e, c.st, q, 'QP', 'kkt->kktmatrix->nnz')
                rep.add('the initial system is the assembled KKT matrix: %s (%s)' % (path[-2:], c.tag), compare(v.data[2][k], q_arr(c, path), mkS, index=ln), where=[v.loc])
        # solve phases run on the factorisation
    rep.expl = 'guarded value summaries of x, y, z, s at the return of QP_SETUP and QP_SETUP_dense compared with the starting-point formulas'

# ------------------------------------------------------------------ C07
def mat(s, c, f, e=None, st=None):
    """columns of a stored matrix in a valuation: list of lists of (row, value)"""
    e = c.e; st = st or c.st
    m, n = s.v(num_at(e, st, c.q, 'QP', f + '->m')), s.v(num_at(e, st, c.q, 'QP', f + '->n'))
    jc, ir, pr = [s.arr(q_arr(c, f + '->' + x, st)) for x in ('jc', 'ir', 'pr')]
    J = [jc.get(i) for i in range(n + 1)]
    cols = []
    for j in range(n): cols.append([(ir.get(t), pr.get(t)) for t in range(J[j], J[j + 1])])
    return m, n, J, cols
def keyset(xs): return sorted((r, evalsym.key_of(v)) for r, v in xs)
def C07(rep):
    for c in shapes(rep, *(SPARSE + DENSE[:1])):
        e = c.e; q = c.q; pe = peq(c); mkS = setup_sampler(c, zero=0.05)
        def cond(s):
            n, m, p = s.v(c.N), s.v(c.M), s.v(pe)
            pm, pn, pj, P_ = mat(s, c, 'P'); gm, gn, gj, G_ = mat(s, c, 'G')
            A_ = mat(s, c, 'A')[3] if p else [[] for _ in range(n)]
            km, kn, kj, K_ = mat(s, c, 'kkt->kktmatrix')
            nnz = s.v(num_at(e, c.st, q, 'QP', 'kkt->kktmatrix->nnz'))
            if (km, kn) != (n + m + p, n + m + p): return 'dimensions %d x %d, expected %d' % (km, kn, n + m + p)
            if kj[0] != 0: return 'first column pointer is %d' % kj[0]
            for j in range(kn):
                if kj[j + 1] < kj[j]: return 'column pointers decrease at column %d' % j
            want = []
            for j in range(n): want.append(P_[j] + [(n + r, v) for r, v in A_[j]] + [(n + p + r, v) for r, v in G_[j]])
            for i in range(p): want.append([(j, v) for j in range(n) for r, v in A_[j] if r == i])
            for i in range(m): want.append([(j, v) for j in range(n) for r, v in G_[j] if r == i] + [(n + p + i, -1)])
            for j in range(kn):
                if keyset(K_[j]) != keyset(want[j]): return 'column %d holds %s, expected %s' % (j, keyset(K_[j]), keyset(want[j]))
            for i in range(m):
                if K_[n + p + i][-1][0] != n + p + i: return 'the last entry of column %d is not the diagonal' % (n + p + i)
            if nnz != kj[kn]: return 'declared %d entries, stored %d' % (nnz, kj[kn])
            return True
        arrs = [q_arr(c, 'kkt->kktmatrix->' + x) for x in ('jc', 'ir', 'pr')]
        w = [x for f in ('jc', 'ir', 'pr') for x in sites_of(e, c.st, q, 'QP', 'kkt->kktmatrix->' + f, arr=True)]
        rep.add('the KKT matrix after setup is the documented block matrix (%s)' % c.tag, decide_samples(mkS, cond, n=60, consts=tuple(arrs)), where=w)
        for v in events(c, 'LDL_symbolic')[:1] + events(c, 'amd_l_order')[:1] + events(c, 'LDL_numeric')[:1]:
            ks = {'LDL_symbolic': (0, 1, 2, None), 'LDL_numeric': (0, 1, 2, 3), 'amd_l_order': (0, 1, 2, None)}[v.data[0]]
            rep.add('%s is given the whole matrix: order (%s)' % (v.data[0], c.tag), compare(to_poly(gv(v.data[2][0])), c.N + c.M + pe, mkS), where=[v.loc])
            for k, f in zip(ks[1:], ('jc', 'ir', 'pr')):
                if k is None: continue
                ln = c.N + c.M + pe + 1 if f == 'jc' else num_at(e, c.st, q, 'QP', 'kkt->kktmatrix->nnz')
                rep.add('%s is given the assembled matrix: %s (%s)' % (v.data[0], f, c.tag), compare(v.data[2][k], q_arr(c, 'kkt->kktmatrix->' + f), mkS, index=ln), where=[v.loc])
        # transposes used later
        for f, src in (('Gt', 'G'), ('At', 'A')):
            if f == 'At' and pe is ZERO: continue
            def tr(s, f=f, src=src):
                m1, n1, J1, c1 = mat(s, c, f); m2, n2, J2, c2 = mat(s, c, src)
                if (m1, n1) != (n2, m2): return '%s is %dx%d' % (f, m1, n1)
                for i in range(n1):
                    w = [(j, v) for j in range(n2) for r, v in c2[j] if r == i]
                    if keyset(c1[i]) != keyset(w): return 'column %d of %s holds %s, expected %s' % (i, f, keyset(c1[i]), keyset(w))
                return True
            rep.add('%s is the transpose of %s (%s)' % (f, src, c.tag), decide_samples(mkS, tr, n=40, consts=(q_arr(c, f + '->ir'),)), where=sites_of(e, c.st, q, 'QP', f + '->ir', arr=True))
    rep.expl = 'column-pointer, row-index and value arrays of the assembled matrix at the return of setup, interpreted over sparsity patterns with empty rows and columns, compared column by column with the block matrix'

# ------------------------------------------------------------------ C18
def C18(rep):
    import solve
    for c in shapes(rep, *(SPARSE + DENSE)):
        mkS = setup_sampler(c)
        for f in ('maxit', 'reltol', 'abstol', 'sigma', 'verbose'):
            got = num_at(c.e, c.st, c.q, 'QP', 'options->' + f)
            rep.add('setup installs the documented %s (%s)' % (f, c.tag), compare(got, P({'maxit': 100, 'reltol': Fraction(1e-6), 'abstol': Fraction(1e-6), 'sigma': 100, 'verbose': 0}[f]), mkS), where=sites_of(c.e, c.st, c.q, 'QP', 'options->' + f))
    for p0 in (False, True):
        c = SolveCtx(p0); rep.engine(c.e); e = c.e
        c.tag = 'no equality constraints' if p0 else 'with equality constraints'
        mkS = solve_sampler(c)
        for f in ('maxit', 'reltol', 'abstol', 'verbose'):
            got = num_at(e, c.st, c.q, 'QP', 'options->' + f)
            rep.add('the solve leaves the caller\'s %s alone (%s)' % (f, c.tag), compare(got, P(Sym('qp->options->' + f)), mkS), where=sites_of(e, c.st, c.q, 'QP', 'options->' + f))
        if not solve.main_loop(c, rep): continue
        r = c.main; K = r.K; ret = to_poly(c.ret); sf = bvar(mk('SymB', 'setup failed')); maxit = P(Sym('qp->options->maxit'))
        cert = SpecCall(e, r.header); rx, ry, rz = solve.outs(c, cert, ('rx', 'n'), ('ry', 'p'), ('rz', 'm'))
        cv = ~EQ(to_poly(cert.call('spec_certified', c.q, rx, ry, rz)), 0)
        w = sites_of(e, c.st, c.q, 'QP', 'stats->Flag')
        rep.add('the caller\'s iteration limit is the one that stops the solve (%s)' % c.tag, solve.decide_exit(c, c.st.pc & ~sf & EQ(ret, 2), LE(maxit, P(K))), where=w)
        rep.add('a step is only taken below the caller\'s limit (%s)' % c.tag, solve.decide_exit(c, r.latch.pc, LT(P(K), maxit)), where=[r.ln])
        rep.add('optimal uses the caller\'s tolerances (%s)' % c.tag, solve.decide_exit(c, c.st.pc & ~sf & EQ(ret, 0), cv), where=w)
        rep.add('an iterate meeting the caller\'s tolerances stops the solve (%s)' % c.tag, solve.decide_exit(c, r.latch.pc & cv, FALSE), where=w)
    rep.expl = 'value of every settings cell at the return of both setups and of the solve, and the guards of the solve\'s exits over the caller\'s settings'

# ------------------------------------------------------------------ C19
def C19(rep):
    for c in shapes(rep, *(SPARSE + DENSE)):
        e = c.e; pe = peq(c); nmp = c.N + c.M + pe; mkS = setup_sampler(c)
        if c.perm: want = ArrSym('Permut')
        else:
            ev = events(c, 'amd_l_order')
            if len(ev) != 1: rep.add('ordering computed once (%s)' % c.tag, 'undecided' if ev else 'refuted', '%d calls' % len(ev)); continue
            v = ev[0]
            sp = SpecCall(e, v.state, v.pc)
            kk = [x for x in find_atoms(to_poly(fld(e, c.st, c.q, 'QP', 'stats->AMD_RESULT')), lambda a: a.kind == 'Ret')]
            app = mk('App', 'amd_l_order', *[x for x in v.data[2] if x is not None])
            a0 = mk('ArrApp', app, 3)
            ident = push(ArrSym('ident'), mk_map(newK(nmp), ZERO, nmp, P(mk('B', 0)))) if False else None
            want = None
            retp = P(mk('Ret', app))
            rep.add('the ordering sees the assembled matrix (%s)' % c.tag, compare(v.data[2][1], q_arr(c, 'kkt->kktmatrix->jc'), mkS, index=nmp + 1), where=[v.loc])
            rep.add('the ordering sees the assembled pattern (%s)' % c.tag, compare(v.data[2][2], q_arr(c, 'kkt->kktmatrix->ir'), mkS, index=num_at(e, c.st, c.q, 'QP', 'kkt->kktmatrix->nnz')), where=[v.loc])
        def check(got, gpc, where, what, inv=False):
            def f(s):
                if not s.b(gpc): return None
                n = s.v(nmp); g = s.arr(got)
                if c.perm: ws = [s.arr(want).get(i) for i in range(n)]
                elif s.v(retp) < 0: ws = list(range(n))
                else: ws = [s.arr(a0).get(i) for i in range(n)]
                if inv:
                    iv = [0] * n
                    for k, x in enumerate(ws): iv[x] = k
                    ws = iv
                gs = [g.get(i) for i in range(n)]
                return True if gs == ws else 'is %s, expected %s' % (gs, ws)
            rep.add('%s (%s)' % (what, c.tag), decide_samples(mkS, f, consts=(got,), n=40), where=where)
        wP = sites_of(e, c.st, c.q, 'QP', 'kkt->P', arr=True)
        check(q_arr(c, 'kkt->P'), c.st.pc, wP, 'the permutation kept for later solves is the ' + ('caller\'s' if c.perm else 'computed one, or the identity when the ordering fails'))
        for v in events(c, 'LDL_symbolic'):
            check(v.data[2][7], v.pc, [v.loc] + wP, 'symbolic analysis uses that permutation')
        for v in events(c, 'LDL_numeric'):
            check(v.data[2][13], v.pc, [v.loc] + wP, 'numeric factorisation uses that permutation')
            check(v.data[2][14], v.pc, [v.loc] + wP, 'numeric factorisation uses the inverse of that permutation', inv=True)
        check(q_arr(c, 'kkt->Pinv'), c.st.pc, [], 'the inverse kept for later solves belongs to that permutation', inv=True)
        # gather before the forward solve of the initial system
        ok = okflag(c)
        for v in events(c, 'LDL_lsolve')[:1]:
            sp = SpecCall(e, v.state, v.pc); rhs, w = sp.out('rhs', nmp), sp.out('w', nmp)
            sp.call('spec_start_rhs', c.ret if False else gv(Ptr(c.q, ZERO)), rhs)
            sp.call('LDL_perm', nmp, w, rhs, fld(e, v.state, c.q, 'QP', 'kkt->P'))
            rep.add('the initial right-hand side is gathered with that permutation (%s)' % c.tag, compare(one(v.data[2][1]), one(sp.arr(w)), mkS, guard=v.pc, index=nmp), where=[v.loc])
    import solve
    for p0 in (False, True):
        c = SolveCtx(p0); rep.engine(c.e); e = c.e
        c.tag = 'no equality constraints' if p0 else 'with equality constraints'
        mkS = solve_sampler(c)
        if not solve.main_loop(c, rep): continue
        it = solve.Iter(c)
        for f in ('P', 'Pinv'):
            rep.add('the solve leaves %s alone (%s)' % (f, c.tag), compare(one(arr_at(e, c.st, c.q, 'QP', 'kkt->' + f)), ArrSym('qp->kkt->' + f), mkS, index=c.NMP), where=sites_of(e, c.st, c.q, 'QP', 'kkt->' + f, arr=True))
        for v in it.num:
            for k, f in ((13, 'P'), (14, 'Pinv')):
                rep.add('factorisation in the solve uses %s of the object (%s, %s)' % (f, v.loc, c.tag), compare(one(v.data[2][k]), ArrSym('qp->kkt->' + f), mkS, guard=v.pc, index=c.NMP), where=[v.loc])
        for k, v in enumerate(it.ls):
            sp = SpecCall(e, v.state, v.pc); w = sp.out('w', c.NMP)
            sp.call('LDL_perm', c.NMP, w, sp.arrobj('b', c.NMP, one(arr_at(e, v.state, c.q, 'QP', 'kkt->b'))), sp.arrobj('P', c.NMP, ArrSym('qp->kkt->P')))
            rep.add('solve phase %d gathers with P (%s)' % (k + 1, c.tag), compare(one(v.data[2][1]), one(sp.arr(w)), mkS, guard=v.pc, index=c.NMP), where=[v.loc])
    rep.expl = 'content of the permutation at every use (ordering, symbolic analysis, factorisation, gather), on the given, computed and failed-ordering routes'

# ------------------------------------------------------------------ C10
COLMAJOR = 30
def exact(v):
    """no arithmetic is involved: values are compared bit for bit"""
    v = float(v)
    return 'nan' if v != v else repr(v + 0.0)
def C10(rep):
    for p0 in (False, True):
        for perm in ((True, False) if not p0 else (True,)):
            for c in shapes(rep, dict(p0=p0, dense=True, perm=perm)):
                e = c.e; q = c.q; pe = peq(c); mkS = setup_sampler(c, zero=0.3, nmax=4)
                for f, rows in (('P', c.N), ('A', pe), ('G', c.M)):
                    if rows is ZERO: continue
                    src = ArrSym(f + 'pr')
                    def f1(s, f=f, rows=rows, src=src):
                        r, n = s.v(rows), s.v(c.N); cm = s.v(P(Sym('ordering'))) == COLMAJOR
                        a = s.arr(src)
                        v = [[a.get(j * r + i) if cm else a.get(i * n + j) for j in range(n)] for i in range(r)]
                        mm, nn, J, cols = mat(s, c, f)
                        if (mm, nn) != (r, n): return '%s has dimensions %dx%d, expected %dx%d' % (f, mm, nn, r, n)
                        if J[0] != 0: return 'column pointers of %s start at %s' % (f, J[0])
                        for j in range(n):
                            want = sorted((i, exact(v[i][j])) for i in range(r) if v[i][j] != 0)
                            got = sorted((i, exact(x)) for i, x in cols[j])
                            if want != got: return '%s: column %d of %s holds %s, the caller\'s matrix has %s' % ('column-major' if cm else 'row-major', j, f, got, want)
                        nz = s.v(num_at(e, c.st, q, 'QP', f + '->nnz'))
                        if nz != J[n]: return '%s declares %s entries, stores %s' % (f, nz, J[n])
                        return True
                    w = [x for y in ('jc', 'ir', 'pr') for x in sites_of(e, c.st, q, 'QP', f + '->' + y, arr=True)]
                    rep.add('%s holds exactly the nonzero entries of the caller\'s matrix (%s)' % (f, c.tag), decide_samples(mkS, f1, n=60, consts=tuple(q_arr(c, f + '->' + y) for y in ('jc', 'ir', 'pr'))), where=w)
                for f, want in (('n', c.N), ('m', c.M), ('p', pe)):
                    rep.add('the object has the caller\'s %s (%s)' % (f, c.tag), compare(num_at(e, c.st, q, 'QP', f), want, mkS), where=sites_of(e, c.st, q, 'QP', f))
                for f, ln in (('c', c.N), ('h', c.M)) + ((('b', pe),) if pe is not ZERO else ()):
                    rep.add('the object uses the caller\'s %s (%s)' % (f, c.tag), compare(q_arr(c, f), ArrSym(f), mkS, index=ln), where=sites_of(e, c.st, q, 'QP', f))
                twin(rep, c, get(p0=p0, perm=perm))
                contract.dims(p0)
    rep.expl = 'stored matrices of the dense setup interpreted against the caller\'s row- or column-major data, and the object it builds compared field by field with the one the sparse setup builds from those stored matrices'
def twin(rep, c, d):
    """c: dense setup; d: sparse setup of the same shape, fed with the matrices the dense setup stored"""
    if d.q is None: rep.add('same object as the sparse setup (%s)' % c.tag, 'undecided', 'sparse setup not summarised'); return
    if not getattr(d, 'counted', False): rep.engine(d.e); d.counted = True
    pe = peq(c); nmp = c.N + c.M + pe
    def val(x, ctx, path): return num_at(ctx.e, ctx.st, ctx.q, 'QP', path)
    scal = ['p', 'n', 'm', 'sigma_d', 'stats->Flag', 'stats->IterationCount', 'stats->AMD_RESULT', 'options->maxit', 'options->abstol', 'options->reltol', 'options->sigma', 'options->verbose', 'kkt->kktmatrix->nnz', 'kkt->kktmatrix->n']
    arrs = [('kkt->kktmatrix->jc', nmp + 1), ('kkt->kktmatrix->ir', 'nnz'), ('kkt->kktmatrix->pr', 'nnz'), ('kkt->P', nmp), ('kkt->Pinv', nmp), ('x', c.N), ('z', c.M), ('s', c.M)] + ([('y', pe)] if pe is not ZERO else [])
    mats = [f for f in ('P', 'A', 'G') if not (f == 'A' and pe is ZERO)]
    S1 = setup_sampler(c, zero=0.3); 
    D = {p: val(None, c, p) for p in scal}; D2 = {p: val(None, d, p) for p in scal}
    A1 = {p: q_arr(c, p) for p, _ in arrs}; A2 = {p: q_arr(d, p) for p, _ in arrs}
    src = {f + y: q_arr(c, f + '->' + y) for f in mats for y in ('jc', 'ir', 'pr')}
    def pair(seed):
        s = S1(seed)
        base = setup_sampler(d, zero=0.3)(seed)
        h0 = base.hooks.get('Sym')
        def symh(t, a):
            if a.args[0] == 'sigma_d': return 0.0
            return h0(t, a) if h0 else None
        def arrh(t, a):
            g = src.get(a.args[0])
            return s.arr(g) if g is not None else None
        base.hooks = dict(base.hooks, Sym=symh, ArrSym=arrh); base.dims = dict(s.dims)
        s.twin = base
        return s
    def cmp_scal(s):
        for p in scal:
            a, b = s.v(D[p]), s.twin.v(D2[p])
            if evalsym.same(a, b) is False: return '%s is %s after the dense setup, %s after the sparse one' % (p, evalsym.key_of(a), evalsym.key_of(b))
        return True
    rep.add('same scalars as the sparse setup of the stored matrices (%s)' % c.tag, decide_samples(pair, cmp_scal, n=25, consts=tuple(D.values())))
    for p, ln in arrs:
        def ca(s, p=p, ln=ln):
            if s.v(D['stats->Flag']) == 1: return None
            n = s.v(D['kkt->kktmatrix->nnz']) if ln == 'nnz' else s.v(ln)
            a, b = s.arr(A1[p]), s.twin.arr(A2[p])
            for i in range(n):
                t = evalsym.same(a.get(i), b.get(i))
                if t is None: raise Ambiguous()
                if t is False: return '%s[%d] is %s after the dense setup, %s after the sparse one' % (p, i, evalsym.key_of(a.get(i)), evalsym.key_of(b.get(i)))
            return True
        rep.add('same %s as the sparse setup of the stored matrices (%s)' % (p, c.tag), decide_samples(pair, ca, n=20, consts=(A1[p], A2[p])), where=sites_of(c.e, c.st, c.q, 'QP', p, arr=True))
