"""C01-C05: the solve loop, on every object that satisfies the setup contract."""
from scen import *

def contexts(rep):
    for p0 in ((False, True) if not os.environ.get("PX") else (True,)):
        c = SolveCtx(p0); rep.engine(c.e)
        c.tag = 'no equality constraints' if p0 else 'with equality constraints'
        yield c
def header_spec(c, pc=TRUE):
    return SpecCall(c.e, c.main.header, pc)
def main_loop(c, rep):
    c.main = c.main_loop()
    if c.main is None:
        rep.add('solve loop found (%s)' % c.tag, 'undecided', 'no unique loop that advances the iterate'); return False
    return True
def flag_is(c, k): return EQ(to_poly(c.ret), k) & c.st.pc      # st.pc: the solve ends in this iteration

# ------------------------------------------------------------------ bounded iterations from the initial state
def header_subst(c, vals_of):
    """substitution of the header symbols of the solve loop by the values in another state"""
    r = c.main; mp = {}; bad = []
    for key, (m, g, t) in r.allmu.items():
        if m is None or key in r.closed: continue
        v = vals_of(key, t)
        if v is None: bad.append(key); continue
        mp[m] = v
    return mp, bad
def init_map(c):
    r = c.main
    def f(key, t):
        g = r.init.get(key)
        if g is None: return None
        if t == 'ptr' or t == 'opq': return None
        return gbool(g) if t == 'b' else to_poly(g)
    mp, bad = header_subst(c, f)
    for o, m in r.moda.items():
        g = r.init.get(('a', o))
        if g is not None: mp[m] = arr_single(g)
    return mp
def latch_map(c):
    r = c.main
    if r.latch is None: return None
    def f(key, t):
        if key[0] == 'v': g = r.nextvals.get(key[1])
        else: g = r.latch.cells.get(key[1])
        if g is None or t in ('ptr', 'opq'): return None
        return gbool(g) if t == 'b' else to_poly(g)
    mp, bad = header_subst(c, f)
    for o, m in r.moda.items():
        g = r.latch.arrs.get(o)
        if g is not None: mp[m] = arr_single(g)
    return mp

ITER = ('qp->x', 'qp->y', 'qp->z', 'qp->s')
def understood(c, *xs):
    """only iterate arrays, caller inputs and the iteration number are free"""
    for a in free_syms(*xs):
        if a.kind in ('Opq', 'OpqB', 'OpqX', 'ArrOpq', 'ArrUndef', 'Undef', 'UndefB'): return False
        if a.kind == 'Mu':
            o = a.attr.get('obj')
            if o is None or o.name not in ITER: return False
    return True
def control_only(pre, post):
    """the consequence is about the iteration number and the settings only, and what the premise carries over
    from earlier iterations is floating point data (no flags or counters)"""
    for a in free_syms(post):
        if a.kind != 'Sym': return False
    for a in free_syms(pre):
        if a.kind in ('Opq', 'OpqB', 'OpqX', 'ArrOpq', 'Undef', 'UndefB'): return False
        if a.kind == 'Mu' and not (a.attr.get('mt') == 'a' or a.attr.get('ty') in ('double', 'float')): return False
    return True
def decide_exit(c, pre, post, extra=None):
    """pre => post over the loop's header symbols; refuted only on states the loop can be in"""
    v = implied(pre, post, solve_sampler(c, extra=extra))
    if v.kind != 'refuted' or understood(c, pre, post): return v
    if control_only(pre, post): return v
    K = c.main.K
    mp = init_map(c); mp = dict(mp); mp[K] = ZERO
    v0 = implied(subst(pre, mp), subst(post, mp), solve_sampler(c, extra=extra))
    if v0.kind == 'refuted': return v0
    lm = latch_map(c)
    if lm is not None:
        cur = {k: subst(x, mp) for k, x in lm.items()}
        live = subst(c.main.latch.pc, mp)
        for it in (1, 2):
            m2 = dict(cur); m2[K] = P(it)
            v1 = implied(subst(pre, m2) & live, subst(post, m2), solve_sampler(c, extra=extra))
            if v1.kind == 'refuted': return v1
            if it == 1:
                cur2 = {k: subst(x, m2) for k, x in lm.items()}
                live = live & subst(c.main.latch.pc, m2); cur = cur2
    return Verdict('undecided', 'the condition depends on values carried from earlier iterations')

# ------------------------------------------------------------------ C01
def C01(rep):
    for c in contexts(rep):
        e = c.e
        ok = flag_is(c, 0)
        sp = SpecCall(e, c.st, ok)
        rx, ry, rz = sp.out('rx', c.N), sp.out('ry', ONE if c.p0 else c.PP), sp.out('rz', c.M)
        v = sp.call('spec_certified', c.q, rx, ry, rz)
        post = ~EQ(to_poly(v), 0)
        w = sites_of(e, c.st, c.q, 'QP', 'stats->Flag')
        if main_loop(c, rep): r = decide_exit(c, ok, post)
        else: r = Verdict('undecided', '')
        rep.add('optimal => certified (%s)' % c.tag, r, where=w)
        # no tolerance is changed by the solve, so 'current tolerances' are the caller's
        for f in ('reltol', 'abstol'):
            pv = num_at(e, c.st, c.q, 'QP', 'options->' + f)
            rep.add('%s is the caller\'s (%s)' % (f, c.tag), compare(pv, P(Sym('qp->options->' + f)), solve_sampler(c)), where=sites_of(e, c.st, c.q, 'QP', 'options->' + f))
        # a problem marked failed at setup / a stale code from an earlier solve is never reported optimal
    c = SolveCtx(False, fresh=False); c.tag = 'object solved before'; rep.engine(c.e)
    e = c.e; ok = flag_is(c, 0)
    sp = SpecCall(e, c.st, ok)
    rx, ry, rz = sp.out('rx', c.N), sp.out('ry', c.PP), sp.out('rz', c.M)
    v = sp.call('spec_certified', c.q, rx, ry, rz)
    post = ~EQ(to_poly(v), 0)
    def ex(hooks):
        old = hooks['Sym']
        def h(s, a):
            if a in s.vals: return s.vals[a]
            if a.args[0] == 'qp->stats->IterationCount': s.vals[a] = s.r('ic').randrange(0, 9); return s.vals[a]
            if a.args[0] == 'qp->stats->Flag': s.vals[a] = s.r('fl').choice((0, 2, 1)); return s.vals[a]
            return old(s, a)
        hooks['Sym'] = h
    if main_loop(c, rep):
        rep.add('optimal => certified when the object was solved before', decide_exit(c, ok, post, extra=ex), where=sites_of(e, c.st, c.q, 'QP', 'stats->Flag'))

# ------------------------------------------------------------------ common pieces of one iteration
class Iter:
    """events and states of one iteration of the solve loop, against the header iterate"""
    def __init__(self, c):
        self.c = c; e = c.e; r = c.main
        K = r.K
        ev = [v for v in e.events if v.kind == 'call' and v.loops and v.loops[0][0] is K]
        self.num = [v for v in ev if v.data[0] == 'LDL_numeric']
        self.ls = [v for v in ev if v.data[0] == 'LDL_lsolve']
        self.lt = [v for v in ev if v.data[0] == 'LDL_ltsolve']
        self.h = r.header; self.latch = r.latch
def outs(c, sp, *spec):
    L = {'n': c.N, 'm': c.M, 'p': ONE if c.p0 else c.PP, 't': c.NMP}
    return [sp.out(nm, L[k] if isinstance(k, str) else k) for nm, k in spec]
def cmp_arr(c, lhs, rhs, ln, guard=TRUE, n=24):
    if ln is ZERO: return Verdict('proved')
    return compare(lhs, rhs, solve_sampler(c), guard=guard, index=ln, n=n)
def state_arr(c, st, path): return arr_at(c.e, st, c.q, 'QP', path)
def one(g): return arr_single(g) if isinstance(g, GV) else g
def res_spec(c, st, pc=TRUE):
    sp = SpecCall(c.e, st, pc)
    rx, ry, rz = outs(c, sp, ('rx', 'n'), ('ry', 'p'), ('rz', 'm'))
    return sp, rx, ry, rz

# ------------------------------------------------------------------ C02
def C02(rep):
    for c in contexts(rep):
        e = c.e; ok = flag_is(c, 0)
        if not main_loop(c, rep): continue
        sp, rx, ry, rz = res_spec(c, c.st, ok)
        want = {}
        want['n_rx'] = sp.call('spec_nrx', c.q, rx)
        if not c.p0: want['n_ry'] = sp.call('spec_nry', c.q, ry)
        want['n_rz'] = sp.call('spec_nrz', c.q, rz)
        want['n_mu'] = sp.call('spec_mu', c.q)
        (t,) = outs(c, sp, ('t', 'n'))
        want['fval'] = sp.call('spec_fval', c.q, t)
        for f, w in want.items():
            got = num_at(e, c.st, c.q, 'QP', 'stats->' + f)
            rep.add('stats->%s describes the returned iterate on an optimal exit (%s)' % (f, c.tag), decide_value(c, got, to_poly(w), ok), where=sites_of(e, c.st, c.q, 'QP', 'stats->' + f))
        for f, o, ln in (('rx', rx, c.N), ('ry', ry, c.PP), ('rz', rz, c.M)):
            if ln is ZERO: continue
            got = one(arr_at(e, c.st, c.q, 'QP', f))
            rep.add('%s describes the returned iterate on an optimal exit (%s)' % (f, c.tag), decide_value(c, got, one(sp.arr(o)), ok, ln), where=sites_of(e, c.st, c.q, 'QP', f, arr=True))
        # the residuals every search direction is computed from
        it = Iter(c)
        for k, v in enumerate(it.ls):
            sp, rx, ry, rz = res_spec(c, c.main.header)
            sp.call('spec_rx', c.q, rx)
            if not c.p0: sp.call('spec_ry', c.q, ry)
            sp.call('spec_rz', c.q, rz)
            for f, o, ln in (('rx', rx, c.N), ('ry', ry, c.PP), ('rz', rz, c.M)):
                if ln is ZERO: continue
                got = one(arr_at(e, v.state, c.q, 'QP', f))
                rep.add('%s describes the current iterate at solve phase %d (%s)' % (f, k + 1, c.tag), cmp_arr(c, got, one(sp.arr(o)), ln, v.pc), where=sites_of(e, v.state, c.q, 'QP', f, arr=True))
        rep.count('solve_phases', len(it.ls))
        if not it.ls: rep.add('solve phases found (%s)' % c.tag, 'undecided')
def decide_value(c, got, want, guard, ln=None):
    def go(g, a, b): return compare(a, b, solve_sampler(c), guard=g, index=ln)
    v = go(guard, got, want)
    if v.kind != 'refuted' or understood(c, got, want, guard): return v
    K = c.main.K; mp = dict(init_map(c)); mp[K] = ZERO
    v0 = go(subst(guard, mp), subst(got, mp), subst(want, mp))
    if v0.kind == 'refuted': return v0
    lm = latch_map(c)
    if lm is not None:
        cur = {k: subst(x, mp) for k, x in lm.items()}; live = subst(c.main.latch.pc, mp); cur[K] = ONE
        v1 = go(subst(guard, cur) & live, subst(got, cur), subst(want, cur))
        if v1.kind == 'refuted': return v1
    return Verdict('undecided', 'the value depends on values carried from earlier iterations')

# ------------------------------------------------------------------ C03
def C03(rep):
    for c in contexts(rep):
        e = c.e; ret = to_poly(c.ret); w = sites_of(e, c.st, c.q, 'QP', 'stats->Flag')
        fl = num_at(e, c.st, c.q, 'QP', 'stats->Flag')
        rep.add('returned code is the stored code (%s)' % c.tag, compare(ret, fl, solve_sampler(c)), where=w)
        rng = EQ(ret, 0) | EQ(ret, 1) | EQ(ret, 2) | EQ(ret, 3)
        if not main_loop(c, rep): continue
        rep.add('exit code is 0..3 (%s)' % c.tag, decide_exit(c, c.st.pc, rng), where=w)
        r = c.main; K = r.K
        maxit = P(Sym('qp->options->maxit'))
        ic = to_poly(fld(e, r.header, c.q, 'QP', 'stats->IterationCount'))
        wi = sites_of(e, c.st, c.q, 'QP', 'stats->IterationCount')
        icl = to_poly(fld(e, r.latch, c.q, 'QP', 'stats->IterationCount'))
        key = 'iterations are counted from zero, once per completed step (%s)' % c.tag
        carried = [m for k_, (m, g, t) in r.allmu.items() if m is not None and m in ic.fk]
        if carried:      # by induction over the loop
            rep.add(key + ', start', compare(to_poly(fld(e, r.st0, c.q, 'QP', 'stats->IterationCount')), ZERO, solve_sampler(c)), where=wi)
            rep.add(key + ', step', compare(icl, ic + ONE, solve_sampler(c), guard=r.latch.pc), where=wi)
        else: rep.add(key, compare(ic, P(K), solve_sampler(c)), where=wi)
        rep.add('a completed step adds one to the count (%s)' % c.tag, compare(icl, ic + ONE, solve_sampler(c), guard=r.latch.pc), where=wi)
        rep.add('a step is only taken while fewer than the limit are done (%s)' % c.tag, decide_exit(c, r.latch.pc, LT(P(K), maxit)), where=[r.ln])
        fin = num_at(e, c.st, c.q, 'QP', 'stats->IterationCount')
        sf = bvar(mk('SymB', 'setup failed'))
        # which exits: LDL failure, certified, limit
        cert = SpecCall(e, r.header); rx, ry, rz = outs(c, cert, ('rx', 'n'), ('ry', 'p'), ('rz', 'm'))
        cv = ~EQ(to_poly(cert.call('spec_certified', c.q, rx, ry, rz)), 0)
        numfail = FALSE
        it = Iter(c)
        for v in it.num:
            app = next((a for a in find_atoms(c.st.pc, lambda a: False)), None)
        atlimit = LE(maxit, P(K))
        rep.add('limit reached without meeting the test => code 2 (%s)' % c.tag, decide_exit(c, c.st.pc & ~sf & atlimit & LE(P(K), maxit) & LE(0, maxit), EQ(ret, 2)), where=w)
        rep.add('code 2 only when the limit was reached (%s)' % c.tag, decide_exit(c, c.st.pc & ~sf & EQ(ret, 2), atlimit), where=w)
        rep.add('test met before the limit => code 0 (%s)' % c.tag, decide_exit(c, c.st.pc & ~sf & cv & LT(P(K), maxit), EQ(ret, 0)), where=w)
        rep.add('a problem marked failed at setup is reported as failed (%s)' % c.tag, decide_exit(c, c.st.pc & sf, EQ(ret, 1)), where=w)
        rep.add('a problem marked failed at setup is not iterated on (%s)' % c.tag, decide_exit(c, sf & r.st0.pc, FALSE), where=[r.ln])
        # factorisation failure inside the loop
        if it.num:
            v = it.num[0]
            nn = v.data[2][0]
            sp = SpecCall(e, r.header, TRUE)
            rets = find_atoms(e_exits(c), lambda a: a.kind == 'Ret' and a.args[0].args[0] == 'LDL_numeric')
            first = [a for a in rets]
            for a in first:
                fail = ~EQ(P(a), a.args[0].args[1])
                # the first factorisation of an iteration that is not certified
                g = fail & ~sf & ~cv & LT(P(K), maxit) & subst(v.pc, {})
                rep.add('factorisation failure => code 1 (%s, %s)' % (v.loc, c.tag), decide_exit(c, c.st.pc & g, EQ(ret, 1)), where=w + [v.loc])
            rep.add('code 1 only after a reported failure (%s)' % c.tag, decide_exit(c, c.st.pc & ~sf & EQ(ret, 1) & conj(EQ(P(a), a.args[0].args[1]) for a in rets), FALSE), where=w)
def e_exits(c):
    """everything the exit code is computed from"""
    return to_poly(c.ret)

# ------------------------------------------------------------------ C04
def C04(rep):
    for c in contexts(rep):
        e = c.e
        if not main_loop(c, rep): continue
        it = Iter(c); r = c.main; h = r.header
        rep.count('factorisation_sites', len(it.num)); rep.count('solve_phases', len(it.ls))
        if not it.ls or not it.num or r.latch is None:
            rep.add('factorisation and solve phases found (%s)' % c.tag, 'undecided'); continue
        knnz = num_at(e, h, c.q, 'QP', 'kkt->kktmatrix->nnz')
        q0 = {}
        def harr(path): return one(arr_at(e, h, c.q, 'QP', path))
        sp = SpecCall(e, h)
        (pr,) = [sp.out('pr', knnz)]
        lp = arr_at(e, h, c.q, 'QP', 'kkt->Lp'); lnz = Rd(one(lp), c.NMP)
        Parent, Lnz, D, Y, Pat, Fl = outs(c, sp, *[(x, 't') for x in ('Parent', 'Lnz', 'D', 'Y', 'Pat', 'Fl')])
        Li = sp.out('Li', lnz + 1); Lx = sp.out('Lx', lnz + 1)
        sp.st.arrs[Parent] = gv(arr_at(e, h, c.q, 'QP', 'kkt->Parent'))
        sp.call('spec_factor', c.q, pr, Parent, Lnz, Li, Lx, D, Y, Pat, Fl)
        want_pr = one(sp.arr(pr))
        names = ('n', 'Ap', 'Ai', 'Ax', 'Lp', 'Parent', None, None, None, None, None, None, None, 'P', 'Pinv')
        lens = {'Ap': c.NMP + 1, 'Ai': knnz, 'Ax': knnz, 'Lp': c.NMP + 1, 'Parent': c.NMP, 'P': c.NMP, 'Pinv': c.NMP}
        wants = {'n': c.NMP, 'Ap': harr('kkt->kktmatrix->jc'), 'Ai': harr('kkt->kktmatrix->ir'), 'Ax': want_pr, 'Lp': harr('kkt->Lp'), 'Parent': harr('kkt->Parent'), 'P': harr('kkt->P'), 'Pinv': harr('kkt->Pinv')}
        for k, v in enumerate(it.num):
            for nm, got in zip(names, v.data[2] or ()):
                if nm is None: continue
                w = wants[nm]
                vd = compare(got, w, solve_sampler(c), guard=v.pc) if nm == 'n' else cmp_arr(c, one(got), w, lens[nm], v.pc)
                rep.add('factorisation %d: %s belongs to the KKT matrix refreshed with the current iterate (%s)' % (k + 1, nm, c.tag), vd, where=[v.loc])
        # off-diagonal values survive the iteration
        m1, m2 = sp.out('m1', knnz), sp.out('m2', knnz)
        s2 = SpecCall(e, r.latch); m1, m2 = s2.out('m1', knnz), s2.out('m2', knnz)
        src = s2.arrobj('hpr', knnz, one(arr_at(e, h, c.q, 'QP', 'kkt->kktmatrix->pr')))
        s2.call('spec_offdiag', c.q, src, m1)
        s2.call('spec_offdiag', c.q, fld(e, r.latch, c.q, 'QP', 'kkt->kktmatrix->pr'), m2)
        rep.add('entries outside the inequality diagonal keep their values (%s)' % c.tag, cmp_arr(c, one(s2.arr(m2)), one(s2.arr(m1)), knnz, r.latch.pc), where=sites_of(e, r.latch, c.q, 'QP', 'kkt->kktmatrix->pr', arr=True))
        for f, ln in (('kktmatrix->jc', c.NMP + 1), ('kktmatrix->ir', knnz), ('Lp', c.NMP + 1), ('Parent', c.NMP), ('P', c.NMP), ('Pinv', c.NMP)):
            rep.add('kkt->%s is unchanged by an iteration (%s)' % (f, c.tag), cmp_arr(c, one(arr_at(e, r.latch, c.q, 'QP', 'kkt->' + f)), harr('kkt->' + f), ln, r.latch.pc), where=sites_of(e, r.latch, c.q, 'QP', 'kkt->' + f, arr=True))
        # solve phases
        last = {}
        for k, v in enumerate(it.ls):
            ds = one(arr_at(e, v.state, c.q, 'QP', 'ds'))
            s3 = SpecCall(e, h)
            dso = s3.arrobj('ds', c.M, ds)
            rx, ry, rz = outs(c, s3, ('rx', 'n'), ('ry', 'p'), ('rz', 'm'))
            rhs, w_ = outs(c, s3, ('rhs', 't'), ('w', 't'))
            s3.call('spec_rhs_now', c.q, rx, ry, rz, dso, rhs)
            s3.call('LDL_perm', c.NMP, w_, rhs, fld(e, s3.st, c.q, 'QP', 'kkt->P'))
            xin = one(v.data[2][1])
            rep.add('solve phase %d: right-hand side is (rx; ry; rz - ds/z) of the current iterate in factor order (%s)' % (k + 1, c.tag), cmp_arr(c, xin, one(s3.arr(w_)), c.NMP, v.pc), where=[v.loc])
            for nm, got, want, ln in (('Lp', v.data[2][2], wants['Lp'], c.NMP + 1), ('Li', v.data[2][3], one(sp.arr(Li)), lnz), ('Lx', v.data[2][4], one(sp.arr(Lx)), lnz)):
                rep.add('solve phase %d: %s belongs to this iteration\'s factorisation (%s)' % (k + 1, nm, c.tag), cmp_arr(c, one(got), want, ln, v.pc), where=[v.loc])
            # direction obtained from this phase
            nxt = it.ls[k + 1] if k + 1 < len(it.ls) else None
            st = nxt.state if nxt is not None else r.latch
            gpc = (v.pc & (nxt.pc if nxt is not None else r.latch.pc))
            # compared up to the solves: triangular solves may be reordered by no rewrite, so the whole chain is compared
            s4 = SpecCall(e, h)
            dso = s4.arrobj('ds', c.M, ds)
            lio = s4.arrobj('Li', lnz + 1, one(sp.arr(Li))); lxo = s4.arrobj('Lx', lnz + 1, one(sp.arr(Lx))); do = s4.arrobj('D', c.NMP, one(sp.arr(D)))
            rho = s4.arrobj('rhs', c.NMP, one(s3.arr(rhs)))
            w2, u = outs(c, s4, ('w', 't'), ('u', 't'))
            dx, dy, dz, dsv = outs(c, s4, ('dx', 'n'), ('dy', 'p'), ('dz', 'm'), ('dsv', 'm'))
            s4.call('spec_direction', c.q, rho, dso, lio, lxo, do, w2, u, dx, dy, dz, dsv)
            fs = [('delta_z', dz, c.M), ('delta_s', dsv, c.M)]
            if nxt is None: fs = [('delta_x', dx, c.N), ('delta_y', dy, c.PP)] + fs
            for f, o, ln in fs:
                if ln is ZERO: continue
                rep.add('solve phase %d: %s is its part of the direction (%s)' % (k + 1, f, c.tag), cmp_arr(c, one(arr_at(e, st, c.q, 'QP', f)), one(s4.arr(o)), ln, gpc), where=sites_of(e, st, c.q, 'QP', f, arr=True))
            last[k] = (v, dz, dsv, s4)
        # complementarity targets
        v0 = it.ls[0]
        pred = v0.pc if len(it.ls) > 1 else FALSE
        if len(it.ls) == 2:
            s5 = SpecCall(e, h); o = s5.out('ds', c.M); s5.call('spec_ds_affine', c.q, o)
            rep.add('predictor targets -s*z (%s)' % c.tag, cmp_arr(c, one(arr_at(e, v0.state, c.q, 'QP', 'ds')), one(s5.arr(o)), c.M, v0.pc), where=sites_of(e, v0.state, c.q, 'QP', 'ds', arr=True))
            v1 = it.ls[1]
            smu = num_at(e, r.latch, c.q, 'QP', 'options->sigma')
            s6 = SpecCall(e, h); mu = to_poly(s6.call('spec_mu', c.q))
            dsa = s6.arrobj('dsa', c.M, one(last[0][3].arr(last[0][2]))); dza = s6.arrobj('dza', c.M, one(last[0][3].arr(last[0][1])))
            oc, of = s6.out('dsc', c.M), s6.out('dsf', c.M)
            s6.call('spec_ds_corr', c.q, dsa, dza, smu * mu, oc); s6.call('spec_ds_center', c.q, smu * mu, of)
            ds1 = one(arr_at(e, v1.state, c.q, 'QP', 'ds')); ws = sites_of(e, v1.state, c.q, 'QP', 'ds', arr=True)
            rep.add('corrector targets -s*z - ds*dz + sigma*mu after a predictor (%s)' % c.tag, cmp_arr(c, ds1, one(s6.arr(oc)), c.M, v1.pc & pred), where=ws)
            rep.add('centering step targets -s*z + sigma*mu without a predictor (%s)' % c.tag, cmp_arr(c, ds1, one(s6.arr(of)), c.M, v1.pc & ~pred), where=ws)
        # every factor used was computed in this iteration before its use
        for k, v in enumerate(it.ls):
            cov = disj(n.pc for n in it.num if n.seq < v.seq)
            rep.add('solve phase %d is preceded by a factorisation in the same iteration (%s)' % (k + 1, c.tag), decide_exit(c, v.pc, cov), where=[v.loc])

# ------------------------------------------------------------------ C05
def C05(rep):
    for c in contexts(rep):
        e = c.e
        if not main_loop(c, rep): continue
        r = c.main; h = r.header; L = r.latch
        if L is None: rep.add('step found (%s)' % c.tag, 'undecided'); continue
        A = lambda st, f: one(arr_at(e, st, c.q, 'QP', f))
        for kind, vec, others in (('primal', 's', ('x',)), ('dual', 'z', ('y',))):
            d = 'delta_' + vec
            # exact reference: alpha = min(0.99 t, 1)
            sp = SpecCall(e, h)
            dl = sp.arrobj(d, c.M, A(L, d))
            t = to_poly(sp.call('spec_steplen', fld(e, h, c.q, 'QP', vec), dl, c.M))
            o = sp.out(vec, c.M)
            sp.call('spec_axpy', c.M, fld(e, h, c.q, 'QP', vec), dl, t, o)
            exact = cmp_arr(c, A(L, vec), one(sp.arr(o)), c.M, L.pc)
            w = sites_of(e, L, c.q, 'QP', vec, arr=True) + sites_of(e, L, c.q, 'QP', 'stats->alpha_' + ('p' if kind == 'primal' else 'd'))
            rep.add('%s moves by min(0.99 t, 1) along its direction, t the distance to the boundary (%s)' % (vec, c.tag), exact if exact.kind in ('proved', 'agree') else orthant(c, vec, d, L, h), where=w)
            rep.add('%s stays positive (%s)' % (vec, c.tag), exact if exact.kind in ('proved', 'agree') else orthant(c, vec, d, L, h), where=w)
            for x in others:
                ln = c.N if x == 'x' else c.PP
                if ln is ZERO: continue
                s2 = SpecCall(e, h); dx = s2.arrobj('delta_' + x, ln, A(L, 'delta_' + x)); o2 = s2.out(x, ln)
                s2.call('spec_axpy', ln, fld(e, h, c.q, 'QP', x), dx, t, o2)
                v = cmp_arr(c, A(L, x), one(s2.arr(o2)), ln, L.pc)
                if v.kind == 'refuted' and exact.kind not in ('proved', 'agree'): v = pairing(c, x, vec, L, h, ln)
                rep.add('%s moves with the %s step along its own direction (%s)' % (x, kind, c.tag), v, where=sites_of(e, L, c.q, 'QP', x, arr=True))
def orthant(c, vec, d, L, h):
    """the inequality itself: the new value is at least 1% of the old one and the step at most the full direction"""
    e = c.e; mkS = solve_sampler(c); bad = []; ok = 0; opq = 0; why = ''
    nv = one(arr_at(e, L, c.q, 'QP', vec)); ov = one(arr_at(e, h, c.q, 'QP', vec)); dl = one(arr_at(e, L, c.q, 'QP', d))
    for t in range(240):
        sm = mkS(5000 + t)
        try:
            if not sm.b(L.pc): continue
            a, b, g = sm.arr(nv), sm.arr(ov), sm.arr(dl); al = None; msg = None
            for i in range(sm.v(c.M)):
                x, y, z = float(a.get(i)), float(b.get(i)), float(g.get(i))
                if x != x or abs(x) == float('inf'): raise Skip()
                if x < 0.00999 * y: msg = 'component %d moves from %g to %g (direction %g)' % (i, y, x, z)
                if abs(x - y) > abs(z) * 1.000001 + 1e-9: msg = 'component %d moves by %g, more than its direction %g' % (i, x - y, z)
                if abs(z) > 1e-6:
                    k = (x - y) / z
                    if k < -1e-9: msg = 'component %d moves against its direction' % i
                    if al is not None and abs(k - al) > 1e-6 * (1 + abs(k)) and abs(z) > 1e-3: msg = 'components move by different step lengths'
                    al = k
                elif abs(x - y) > 1e-6: msg = 'component moves without direction'
            if msg: bad.append((sm, msg))
            else: ok += 1
        except (Ambiguous, Skip, UndefVal, ZeroDivisionError, OverflowError): continue
        except Opaque as o:
            opq += 1; why = str(o)
            if opq > 10: break
        if len(bad) >= 2: return Verdict('refuted', bad)
        if ok >= 60: break
    if ok < 10: return Verdict('undecided', why)
    return Verdict('agree', ok)
def pairing(c, x, vec, L, h, ln):
    """x moves along delta_x by the step length that vec moves along delta_vec"""
    e = c.e; mkS = solve_sampler(c); bad = []; ok = 0
    A = lambda st, f: one(arr_at(e, st, c.q, 'QP', f))
    xs = (A(L, x), A(h, x), A(L, 'delta_' + x)); vs = (A(L, vec), A(h, vec), A(L, 'delta_' + vec))
    for t in range(240):
        sm = mkS(6000 + t)
        try:
            if not sm.b(L.pc): continue
            al = None
            a, b, g = [sm.arr(q) for q in vs]
            for i in range(sm.v(c.M)):
                z = float(g.get(i))
                if abs(z) > 1e-2: al = (float(a.get(i)) - float(b.get(i))) / z
            if al is None or al != al: continue
            a, b, g = [sm.arr(q) for q in xs]
            w = [i for i in range(sm.v(ln)) if evalsym.same(float(a.get(i)), float(b.get(i)) + al * float(g.get(i))) is False]
            if w: bad.append((sm, 'component %d of %s moves by %g, direction %g, step %g' % (w[0], x, float(a.get(w[0])) - float(b.get(w[0])), float(g.get(w[0])), al)))
            else: ok += 1
        except (Ambiguous, Skip, UndefVal, ZeroDivisionError, OverflowError, Opaque): continue
        if len(bad) >= 2: return Verdict('refuted', bad)
        if ok >= 40: break
    return Verdict('agree' if ok >= 8 else 'undecided', ok)
