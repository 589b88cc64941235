"""C11, C12, C13, C15, C16: every memory access, allocation and release of the library."""
import random
from scen import *
from ldl import Kernels, kern_sampler

# ------------------------------------------------------------------ accesses under valuations
def bind(s, ks):
    """s with loop iterations bound"""
    if not ks: return s
    sub = Sample.__new__(Sample); sub.__dict__.update(s.__dict__)
    sub.env = {}; sub.parent = s; sub.rvs = frozenset(ks); sub.rv = {}
    sub.memo = {}; sub.arrs = {}; sub.vals = dict(s.vals); sub.vals.update(ks)
    return sub
def iterations(s, stack, g, lim=6, strict=False):
    """valuations of the enclosing loops' iteration numbers"""
    outs = [s]
    ks = {}
    def go(sub, rest, bound):
        if not rest: return [sub]
        K, T = rest[0]
        if T is None:
            b = dict(bound); b[K] = s.r('K', K.args[0]).randrange(0, 3) if K not in s.vals else s.vals[K]
            h = s.hooks.get('K')
            if h is not None:
                v = h(s, K)
                if v is not None: b[K] = v
            return go(bind(s, b), rest[1:], b)
        try: n = sub.v(T)
        except UndefVal as u:
            if not strict: raise
            # the loop's own exit test is undetermined from some iteration on: it runs up to there
            sy = {a.args[0] for a in T.atoms() if a.kind == 'Rec'}
            ns = [k for y, k in getattr(u, 'at', ()) if y in sy]
            if not ns: raise
            n = ns[0] + 1
            out = []
            for k in range(n):
                b = dict(bound); b[K] = k
                try: out += go(bind(s, b), rest[1:], b)
                except UndefVal: continue
            return out
        if not isinstance(n, int) or n <= 0: return []
        if n > 3000: raise Skip()
        pick = list(range(n)) if n <= 3 else sorted({0, n - 1, g.randrange(n)})
        out = []
        for k in pick:
            b = dict(bound); b[K] = k
            out += go(bind(s, b), rest[1:], b)
        return out
    r = go(s, list(stack), {})
    if len(r) > lim:
        keep = {0, len(r) - 1} | set(g.sample(range(len(r)), lim - 2))
        r = [r[i] for i in sorted(keep)]
    return r
class Sites:
    """obligations per program point: each needs its condition at every valuation it is reached"""
    def __init__(self): self.ok = {}; self.bad = {}; self.opq = {}; self.loc = {}
    def note(self, key, loc, r, s=None):
        self.loc.setdefault(key, loc)
        if r is True: self.ok[key] = self.ok.get(key, 0) + 1
        elif r is None: self.opq[key] = self.opq.get(key, 0) + 1
        else: self.bad.setdefault(key, []).append((s, r))
    def report(self, rep, what, tag, summarise=True):
        ks = list(self.loc)
        good = [k for k in ks if k in self.ok and k not in self.bad]
        if summarise and good: rep.add('%s: %d program points (%s)' % (what, len(good), tag), Verdict('agree', sum(self.ok[k] for k in good)))
        for k in ks:
            if k in self.bad:
                seeds = {s.seed for s, r in self.bad[k] if s is not None}
                v = Verdict('refuted', self.bad[k][:3]) if len(seeds) >= 2 else Verdict('undecided', 'one valuation only: %s' % self.bad[k][0][1])
                rep.add('%s (%s)' % (what, tag), v, where=[self.loc[k]])
            elif k not in self.ok and k in self.opq:
                rep.add('%s (%s)' % (what, tag), Verdict('undecided', 'not summarised at %r' % self.loc[k]))
def sweep(accs, mkS, n, each, consts=(), seed=3, seconds=None, strict=False):
    """each(sample, access) for every access reached in a valuation"""
    evalsym.CONSTS[:] = evalsym.harvest(*consts)
    groups = {}
    for a in accs: groups.setdefault(tuple((K, T) for K, T in a[6]), []).append(a)
    t0 = time.time(); done = 0
    for t in range(n * 6):
        if done >= n or (seconds and time.time() - t0 > seconds and done >= 4): break
        s = mkS(seed * 1000 + t)
        if hasattr(s, 'fuel'): s.fuel[0] = max(s.fuel[0], 400000)
        g = random.Random(seed * 77 + t)
        any_ = False
        for st, al in groups.items():
            try: subs = iterations(s, st, g, strict=strict, lim=400 if strict else 6)
            except (Skip, Ambiguous, UndefVal, ZeroDivisionError, OverflowError): continue
            except Opaque:
                for a in al: each(s, a, None)
                continue
            for sub in subs:
                for a in al:
                    try:
                        if not sub.b(a[4]): continue
                    except (Skip, Ambiguous, UndefVal, ZeroDivisionError, OverflowError): continue
                    except Opaque: each(sub, a, None); continue
                    any_ = True
                    each(sub, a, True)
        if any_: done += 1
    return done
def fname(l): return (os.path.basename(l.file or '?'), l.line, l.fn)
def check_bounds(rep, accs, mkS, tag, n=10, seconds=25, what='access stays inside its object', strict=False):
    S = Sites()
    def each(s, a, reach):
        o, off, size, stack = a[0], a[1], a[2], a[6]
        loc = a[5]; key = fname(loc) + (o.kind == 'null',)
        if reach is None: S.note(key, loc, None); return
        try:
            if o.kind == 'null': S.note(key, loc, 'null pointer dereferenced (%s)' % ('write' if a[9] else 'read'), s); return
            if o.kind == 'undef': S.note(key, loc, 'pointer never assigned is dereferenced', s); return
            if o.kind in ('opaque', 'ext') or (o.size is None and o.struct is None): S.note(key, loc, None); return
            if o.nullable and s.b(bvar(mk('NULL', o.name))):
                S.note(key, loc, 'pointer that is null when the allocation fails is dereferenced', s); return
            i = s.v(off)
            if o.size is None: sz = struct_size(o.struct)
            else: sz = s.v(o.size)
            if 0 <= i and i + size <= sz: S.note(key, loc, True)
            else: S.note(key, loc, '%s of element %s of %s, which holds %s' % ('write' if a[9] else 'read', i // size, o.name.split('#')[0], sz // size), s)
        except (Ambiguous, Skip, UndefVal, ZeroDivisionError, OverflowError): pass
        except Opaque: S.note(key, loc, None)
    consts = tuple(a[1] for a in accs)[:400]
    sweep(accs, mkS, n, each, consts, seconds=seconds, strict=strict)
    S.report(rep, what, tag)
    return S
_ss = {}
def struct_size(nm): return _ss.get(nm, 1 << 40)
def norm(accs):
    """(obj, off, size, -, pc, loc, loops, freed, mode, write)"""
    return [(o, off, size, None, pc, loc, loops, freed, mode, write) for o, off, size, pc, write, loc, loops, freed, mode in accs]
def init_sizes(e):
    for nm, s in e.ir['structs'].items():
        sz = s.get('size')
        if sz is None: sz = max([m['off'] + 8 for m in s['members']] or [0])
        _ss[nm] = sz

# ------------------------------------------------------------------ buffers handed to the kernels
def need(name, j, s, v):
    """elements the kernel's parameter j must hold, given the scalar and array operands of the call"""
    n = s.v(v[0]) if v and v[0] is not None and isinstance(v[0], Poly) else None
    def at(arr, i): return s.arr(arr).get(i)
    if name == 'amd_l_defaults': return 5
    if n is None: return None
    if name == 'amd_l_order': return (None, n + 1, at(v[1], n), n, 5, 20)[j]
    if name == 'LDL_symbolic': return (None, n + 1, at(v[1], n), n + 1, n, n, n, n, n)[j]
    if name == 'LDL_numeric':
        lnz = at(v[4], n)
        nz = at(v[1], n)
        return (None, n + 1, nz, nz, n + 1, n, n, lnz, lnz, n, n, n, n, n, n)[j]
    if name in ('LDL_lsolve', 'LDL_ltsolve'): return (None, n, n + 1, at(v[2], n), at(v[2], n))[j]
    if name == 'LDL_dsolve': return (None, n, n)[j]
    if name in ('LDL_perm', 'LDL_permt'): return (None, n, n, n)[j]
    return None
def check_kernel_buffers(rep, c, mkS, evs, tag, n=12):
    S = Sites(); t0 = time.time()
    OPT = {('LDL_symbolic', 7), ('LDL_symbolic', 8), ('LDL_numeric', 13), ('LDL_numeric', 14), ('amd_l_order', 4), ('amd_l_order', 5), ('amd_l_defaults', 0)}
    accs = [(None, None, None, None, v.pc, v.loc, v.loops, None, None, v) for v in evs]
    def each(s, a, reach):
        v = a[9]; name, args, vals, roles = v.data
        if vals is None: return
        for j, g in enumerate(args):
            if roles[j] == 's': continue
            key = (v.loc.file, v.loc.line, name, j)
            try:
                if reach is None: S.note(key, v.loc, None); continue
                w = need(name, j, s, vals)
                if w is None: continue
                for c, p in g.alts:
                    if not s.b(c): continue
                    if not isinstance(p, Ptr) or p.obj.kind in ('opaque', 'ext'): S.note(key, v.loc, None); continue
                    if p.obj.kind == 'null':
                        S.note(key, v.loc, True if (name, j) in OPT or w == 0 else '%s is given no array for argument %d' % (name, j + 1), s); continue
                    if p.obj.kind == 'undef': S.note(key, v.loc, '%s is given a pointer never assigned for argument %d' % (name, j + 1), s); continue
                    if p.obj.size is None: continue
                    have = (s.v(p.obj.size) - s.v(p.off)) // 8
                    S.note(key, v.loc, True if have >= w else 'argument %d of %s holds %d elements, %d are used' % (j + 1, name, have, w), s)
            except (Ambiguous, Skip, UndefVal, ZeroDivisionError, OverflowError): pass
            except Opaque: S.note(key, v.loc, None)
    sweep(accs, mkS, n, each, seconds=20)
    S.report(rep, 'arrays handed to a factorisation kernel are long enough', tag)

SHAPES = [dict(p0=p0, dense=d, perm=pm) for d in (False, True) for p0 in (False, True) for pm in (True, False)] + [dict(p0=False, dense=False, perm=False, noA=True), dict(p0=False, dense=True, perm=False, noA=True)]
_ctx = {}
def get(kw, oom=False, opaque=None):
    k = tuple(sorted(kw.items())) + (oom, opaque)
    contract.dims(kw['p0'])
    if k not in _ctx:
        c = SetupCtx(oom=oom, opaque=opaque, **kw); init_sizes(c.e)
        c.nset_acc = len(c.e.accesses); c.nset_ev = len(c.e.events); c.st_setup = c.st.copy()
        _ctx[k] = c
    c = _ctx[k]
    c.N, c.M, c.PP, c.NMP = contract.N, contract.M, contract.PP, contract.NMP
    return c
def per_shape(rep, f, shapes=None, more=()):
    """f(report, context) for every way the setup functions can be called, each in its own worker"""
    lib()
    def job(kw):
        def run(r):
            c = get(kw); r.engine(c.e)
            if c.q is None: r.add('object returned (%s)' % c.tag, 'undecided', 'setup does not return one object'); return
            f(r, c)
        return run
    parallel(rep, [job(kw) for kw in (shapes or SHAPES)] + list(more), width=7)
def ok_sampler(c): return setup_sampler(c, ldl_ok=True)

def C13(rep):
    def shape(rep, c):
        mkS = ok_sampler(c)
        check_bounds(rep, norm(c.e.accesses[:c.nset_acc]), mkS, c.tag, n=10)
        check_kernel_buffers(rep, c, mkS, [v for v in c.e.events[:c.nset_ev] if v.kind == 'call'], c.tag)
        # what the solver relies on
        p0 = c.p0; pe = ZERO if c.noA else c.PP; nmp = c.N + c.M + pe
        contract.dims(bool(p0 or c.noA))
        kk = 'kkt->'
        S = Sites()
        want = [(f, ln) for f, ln in contract.VEC.items()] + [(kk + f, ln) for f, ln in contract.KVEC.items()]
        lnz = mk('Rd', arr_of(c.e, c.st_setup, fld(c.e, c.st_setup, c.q, 'QP', 'kkt->Lp')), nmp)
        want += [(kk + 'Li', P(lnz)), (kk + 'Lx', P(lnz)), (kk + 'Lti', P(lnz))]
        for m, rows, cols in (('P', c.N, c.N), ('G', c.M, c.N), ('A', pe, c.N), ('Gt', c.N, c.M), ('At', c.N, pe), ('kkt->kktmatrix', nmp, nmp)):
            if m in ('A', 'At') and pe is ZERO: continue
            jc = arr_of(c.e, c.st_setup, fld(c.e, c.st_setup, c.q, "QP", m + "->jc"))
            nz = P(mk('Rd', jc, cols))
            want += [(m + '->jc', cols + 1), (m + '->ir', nz), (m + '->pr', nz)]
        for f, ln in want:
            g = fld(c.e, c.st_setup, c.q, 'QP', f)
            def h(s, g=g, ln=ln, f=f):
                if not s.b(c.st_setup.pc): return None
                w = s.v(ln)
                if w <= 0: return True
                for cnd, p in g.alts:
                    if not s.b(cnd): continue
                    if not isinstance(p, Ptr) or p.obj.kind in ('undef', 'null'): return '%s is not allocated' % f
                    if p.obj.size is None: return None
                    have = (s.v(p.obj.size) - s.v(p.off)) // 8
                    if have < w: return '%s holds %d elements, the solver uses %d' % (f, have, w)
                return True
            site = [p.obj.site for _, p in g.alts if isinstance(p, Ptr) and p.obj.site]
            rep.add('%s is as long as the solver assumes (%s)' % (f, c.tag), decide_samples(mkS, h, n=12, consts=(ln,) + tuple(p.obj.size for _, p in g.alts if isinstance(p, Ptr) and p.obj.size is not None)), where=site)
    def solve(p0):
        def run(rep):
            c = SolveCtx(p0); init_sizes(c.e); rep.engine(c.e); c.tag = 'solve, no equality constraints' if p0 else 'solve, with equality constraints'
            mkS = solve_sampler(c)
            check_bounds(rep, norm(c.e.accesses), mkS, c.tag, n=14, seconds=40)
            check_kernel_buffers(rep, c, mkS, [v for v in c.e.events if v.kind == 'call'], c.tag)
        return run
    per_shape(rep, shape, more=[solve(False), solve(True), kernels])
    rep.expl = 'every load and store of setup, solve and the factorisation kernels: object, offset and extent as terms in the sizes and patterns, compared under valuations of sizes, patterns and iterations'
def kernels(rep):
    for perm in (True, False):
        K = Kernels(perm); n = K.n
        o = {nm: K.out(nm, ln, el) for nm, ln, el in (('oLp', n + 1, 'int'), ('Parent', n, 'int'), ('Lnz', n, 'int'), ('Flag', n, 'int'), ('Pinv', n, 'int'), ('Y', n, 'fp'), ('Pattern', n, 'int'), ('oD', n, 'fp'))}
        pi = o['Pinv'] if perm else gv(NULLP)
        r, K.st = K.run('LDL_symbolic', n, K.Ap, K.Ai, o['oLp'], o['Parent'], o['Lnz'], o['Flag'], K.Pm, pi)
        lnz = P(mk('Rd', K.get(K.st, o['oLp']), n))
        for nm, el in (('oLi', 'int'), ('oLx', 'fp')): o[nm] = K.out(nm, lnz, el)
        K.run('LDL_numeric', n, K.Ap, K.Ai, K.Ax, o['oLp'], o['Parent'], o['Lnz'], o['oLi'], o['oLx'], o['oD'], o['Y'], o['Pattern'], o['Flag'], K.Pm, pi)
        if perm:
            K.run('LDL_perm', n, K.X, K.Bv, K.Pm); K.run('LDL_permt', n, K.X, K.Bv, K.Pm)
            K.run('LDL_lsolve', n, K.X, K.Lp, K.Li, K.Lx); K.run('LDL_dsolve', n, K.X, K.D); K.run('LDL_ltsolve', n, K.X, K.Lp, K.Li, K.Lx)
        rep.engine(K.e)
        check_bounds(rep, norm(K.e.accesses), kern_sampler(K, nmax=5), 'LDL kernels ' + K.tag, n=10)

# ------------------------------------------------------------------ C11: allocation and release
def numeric_fields(e, struct): return [m for m in e.ir['structs'][struct]['members'] if not m['ptr'] and m['type'] not in e.ir['structs']]
_solve = {}
def solve_ctx(p0):
    contract.dims(p0)
    if p0 not in _solve: _solve[p0] = SolveCtx(p0); init_sizes(_solve[p0].e)
    c = _solve[p0]; c.tag = 'solve, no equality constraints' if p0 else 'solve, with equality constraints'
    return c
def cell_values(c, o): return {off: g for (oo, off), g in c.st.cells.items() if oo is o}
def solve_changes(p0):
    """cells of the object that a solve may leave with another value: {(object name below qp, field)}"""
    c = solve_ctx(p0); out = set()
    e = c.e
    for (o, off), g in c.st.cells.items():
        if o.kind != 'param' or not o.name.startswith('qp') or not o.struct: continue
        f = e.field_name(o, off)
        m = next((m for m in e.ir['structs'][o.struct]['members'] if m['off'] == off), None)
        if m is None: out.add(f); continue
        st = State(); ini = e.init_cell(st, o, off, 'ptr' if m['ptr'] else ('double' if m['type'] in ('double', 'qp_real') else 'i64'), 8)
        if not same_gv(ini, g): out.add(f)
    return out
def after_solve(c, changes):
    """the object as a solve and the caller's settings may leave it: every number they change is arbitrary"""
    e = c.e
    for path, struct in (('options', 'settings'), ('stats', 'stats'), ('', 'QP')):
        g = fld(e, c.st, c.q, 'QP', path) if path else c.ret
        for m in numeric_fields(e, struct):
            nm = 'qp->' + (path + '->' if path else '') + m['name']
            if path != 'options' and nm not in changes: continue
            a = Sym('after:' + nm); a.attr['ty'] = 'double' if m['type'] in ('double', 'qp_real') else 'i64'
            e.quiet += 1
            try: e.store(c.st, gmap(lambda p: Ptr(p.obj, p.off + P(m['off'])), g), gv(P(a)), a.attr['ty'], 8, {})
            finally: e.quiet -= 1
def after_hook(s, a):
    nm = a.args[0]
    if not nm.startswith('after:'): return None
    if a not in s.vals:
        f = nm.rsplit('->', 1)[1]; g = s.r('after', nm)
        if f == 'Flag': v = g.choice((0, 0, 1, 2, 3))
        elif f == 'AMD_RESULT': v = g.choice((-3, -2, -1, 0, 1))
        elif f == 'resolve_kkt': v = g.choice((0, 1))
        elif f in ('verbose',): v = g.choice((0, 1, 2))
        elif a.attr.get('ty') == 'i64':
            cs = [x for x in evalsym.CONSTS[0] if x <= 1000]
            v = max(0, g.choice(cs) + g.choice((-1, 0, 1))) if cs and g.random() < .5 else g.randrange(0, 8)
        else: v = g.choice((0.0, 0.5, 1e-7, 2.0, 1e3, -1.0, float('nan')))
        s.vals[a] = v
    return s.vals[a]
def setup_hooks():
    def symh(s, a):
        v = after_hook(s, a)
        if v is not None: return v
        if a in s.vals: return s.vals[a]
        if a.args[0] == 'ordering': s.vals[a] = s.r('ordering').choice((20, 30)); return s.vals[a]
        if a.args[0] == 'sigma_d': s.vals[a] = s.r('sd').choice((0.0, 0.1, 0.5)); return s.vals[a]
        return None
    return {'Sym': symh}
def bound_pc(s, ev):
    """is the event reached, with the iteration numbers of its loops already bound in s"""
    return s.b(ev.pc)
def where_to(o): return o.site
def pairing(rep, evs, mkS, tag, what, keep=None, n=30):
    """every allocation event is followed by exactly one release on every route; nothing else is released"""
    allocs = [v for v in evs if v.kind == 'alloc']; frees = [v for v in evs if v.kind == 'free']
    byobj = {}
    for v in frees: byobj.setdefault(v.data[0], []).append(v)
    # program points that allocate
    sites = {}
    for v in allocs: sites.setdefault((v.data[0], v.loops), []).append(v)
    for (o, loops), vs in sites.items():
        fs = byobj.get(o, [])
        def f(s, vs=vs, fs=fs, o=o, loops=loops):
            g = random.Random(s.seed)
            subs = iterations(s, [(K, T) for K, T in loops], g) if loops else [s]
            seen = False
            for sub in subs:
                if not any(sub.b(v.pc) for v in vs): continue
                if s.hooks.get('oomdraw') and any_null(sub, o): continue
                seen = True
                k = 0; last = None
                for v in fs:
                    if tuple(v.loops)[:len(loops)] != tuple(loops): 
                        if loops: continue
                    if sub.b(v.data[2]):
                        if sub.b(v.pc): k += 1; last = v
                if keep is not None and keep(sub, o): k += 1
                if k == 0: return 'block allocated at %r is never released' % vs[0].loc
                if k > 1: return 'block allocated at %r is released %d times, last at %r' % (vs[0].loc, k, last.loc if last else None)
            return True if seen else None
        consts = tuple(v.pc for v in vs) + tuple(v.data[2] for v in fs)
        if all(v.pc is FALSE for v in vs): continue
        vd = decide_samples(mkS, f, n=n, consts=consts, minok=2)
        if vd.kind == 'undecided' and vd.detail.startswith('ok 0 opaque 0'): rep.count('allocations_not_reached', 1); continue
        rep.add('%s: %s (%s)' % (what, o.name.split('#')[0], tag), vd, where=[vs[0].loc])
    def legal(s):
        for v in frees:
            o = v.data[0]
            for sub in (iterations(s, [(K, T) for K, T in v.loops], random.Random(s.seed)) if v.loops else [s]):
                if not (sub.b(v.pc) and sub.b(v.data[2])): continue
                if o.kind in ('param', 'global', 'alloca'): return 'release of %s, which the library did not allocate, at %r' % (o.name, v.loc)
                if o.kind == 'undef': return 'release of a pointer never assigned at %r' % v.loc
                if o.kind == 'heap' and sub.v(v.data[1]) != 0: return 'release of a pointer into the middle of a block at %r' % v.loc
                if v.data[3] is not FALSE and sub.b(v.data[3]): return 'block %s is released again at %r' % (o.name.split('#')[0], v.loc)
        return True
    vd = decide_samples(mkS, legal, n=n, consts=tuple(v.data[2] for v in frees), minok=2)
    rep.add('only blocks allocated by the library are released, once (%s)' % tag, vd, where=[v.loc for v in frees][:3])
def any_null(s, o):
    try: return o.nullable and s.b(bvar(mk('NULL', o.name)))
    except Exception: return False
def no_use_after_release(rep, accs, mkS, tag, n=24):
    sus = [a for a in accs if a[7] is not FALSE]
    def f(s):
        for a in sus:
            for sub in (iterations(s, [(K, T) for K, T in a[6]], random.Random(s.seed)) if a[6] else [s]):
                if sub.b(a[4]) and sub.b(a[7]): return '%s of %s after its release at %r' % ('write' if a[9] else 'read', a[0].name.split('#')[0], a[5])
        return True
    if not sus: rep.add('nothing is used after its release (%s)' % tag, 'proved', '%d accesses' % len(accs)); return
    rep.add('nothing is used after its release (%s)' % tag, decide_samples(mkS, f, n=n, minok=2), where=[a[5] for a in sus][:3])
def C11(rep):
    ch = {p0: solve_changes(p0) for p0 in (False, True)}
    def shape(rep, c):
        changes = ch[bool(c.noA)]
        after_solve(c, changes)
        c.then('QP_CLEANUP_dense' if c.dense else 'QP_CLEANUP')
        mkS = setup_sampler(c, ldl_ok=True, hooks=setup_hooks())
        pairing(rep, c.e.events, mkS, c.tag, 'allocated and released')
        no_use_after_release(rep, norm(c.e.accesses), mkS, c.tag)
        # released memory reached through null or never assigned pointers
        S = Sites()
        for a in norm(c.e.accesses[c.nset_acc:]):
            if a[0].kind in ('null', 'undef'):
                def g(s, a=a): return ('cleanup reads through %s pointer at %r' % ('a null' if a[0].kind == 'null' else 'an unassigned', a[5])) if s.b(a[4]) else True
                rep.add('cleanup follows assigned pointers only (%s)' % c.tag, decide_samples(mkS, g, n=20, consts=(a[4],), minok=2), where=[a[5]])
        for ev in c.e.events:
            if ev.kind == 'unknown-call': rep.note('call of %s not analysed' % (ev.data[0],))
    def solve(p0):
        def run(rep):
            c = solve_ctx(p0); rep.engine(c.e); e = c.e; mkS = solve_sampler(c)
            ptrs = {}
            for (o, off), g in c.st.cells.items():
                if o.struct is None or not o.name.startswith('qp'): continue
                m = next((m for m in e.ir['structs'][o.struct]['members'] if m['off'] == off), None)
                if m is not None and m['ptr']: ptrs[(o, off)] = (e.field_name(o, off), g)
            def reach(sub, o):
                return any(isinstance(p, Ptr) and p.obj is o and sub.b(cnd) for f, g in ptrs.values() for cnd, p in g.alts)
            pairing(rep, e.events, mkS, c.tag, 'allocated and released', keep=reach)
            def cells(s):
                for f, g in ptrs.values():
                    for cnd, p in g.alts:
                        if not s.b(cnd): continue
                        if not isinstance(p, Ptr): continue
                        if p.obj.name != f and p.obj.kind != 'null':
                            fr = c.st.freed.get(p.obj, FALSE)
                            if fr is not FALSE and s.b(fr): return '%s designates a released block after the solve' % f
                        if p.obj.kind == 'null' and f not in e.param_null and not reach(s, e.objs.get((f, 'param'))): return '%s is lost by the solve' % f
                return True
            rep.add('the blocks of the object are the same after a solve (%s)' % c.tag, decide_samples(mkS, cells, n=20, minok=2))
            no_use_after_release(rep, norm(e.accesses), mkS, c.tag)
        return run
    per_shape(rep, shape, more=[solve(False), solve(True)])
    rep.expl = 'allocation and release events of setup followed by cleanup (numbers changed by a solve made arbitrary) and of a solve, under every combination of arguments; guards compared under valuations'

# ------------------------------------------------------------------ C12: the caller's arrays
def show_guard(b): return str(b)[:160]
def C12(rep):
    def writes(rep, accs, evs, mine, mkS, tag, consts=()):
        """no store whose target is one of the caller's arrays is reachable"""
        sus = [a for a in accs if a[9] and mine(a[0])]
        ker = []
        for v in evs:
            if v.kind != 'call' or not v.data[3]: continue
            for j, r in enumerate(v.data[3]):
                if r not in ('o', 'b', 'w'): continue
                for cnd, p in v.data[1][j].alts:
                    if isinstance(p, Ptr) and mine(p.obj): ker.append((v, cnd, p))
        rep.count('stores', len([a for a in accs if a[9]])); rep.count('kernel_outputs', sum(1 for v in evs if v.kind == 'call' and v.data[3] for r in v.data[3] if r in ('o', 'b', 'w')))
        if not sus and not ker: rep.add('no store reaches an array of the caller (%s)' % tag, 'proved', '%d stores, none with a caller array among its targets' % len([a for a in accs if a[9]])); return
        # a store to a caller array behind a satisfiable guard is reported; an empty guard is no route
        for a in sus:
            if not sat(a[4]): rep.add('no store reaches an array of the caller (%s)' % tag, 'proved', 'guard is unsatisfiable', where=[a[5]]); continue
            rep.add('no store reaches an array of the caller (%s)' % tag, Verdict('refuted', 'a route stores into %s, which belongs to the caller, under the guard %s' % (a[0].name, show_guard(a[4]))), where=[a[5]])
        for v, cnd, p in ker:
            if not sat(v.pc & cnd): continue
            rep.add('no store reaches an array of the caller (%s)' % tag, Verdict('refuted', '%s writes into %s, which belongs to the caller' % (v.data[0], p.obj.name)), where=[v.loc])
    ch = {p0: solve_changes(p0) for p0 in (False, True)}
    def shape(rep, c):
        after_solve(c, ch[bool(c.noA)])
        c.then('QP_CLEANUP_dense' if c.dense else 'QP_CLEANUP')
        mkS = setup_sampler(c, hooks=setup_hooks())
        cal = set(c.caller)
        writes(rep, norm(c.e.accesses), c.e.events, lambda o: o in cal, mkS, c.tag)
    def solve(p0):
        def run(rep):
            c = solve_ctx(p0); rep.engine(c.e)
            own = {'qp->P->jc', 'qp->P->ir', 'qp->P->pr', 'qp->G->jc', 'qp->G->ir', 'qp->G->pr', 'qp->A->jc', 'qp->A->ir', 'qp->A->pr', 'qp->c', 'qp->h', 'qp->b', 'qp->kkt->P'}
            writes(rep, norm(c.e.accesses), c.e.events, lambda o: o.kind == 'param' and o.name in own, solve_sampler(c), c.tag)
        return run
    # which kernel parameters are outputs is itself read off the kernels
    def roles(rep):
        effects(rep)
    per_shape(rep, shape, more=[solve(False), solve(True), roles])
    rep.expl = 'every store (and kernel output) of setup, solve and cleanup with the guarded set of objects it can designate; none is an array of the caller'
def effects(rep):
    """the kernels the other parts treat as opaque store through their output parameters only"""
    import effects as eff
    E = eff.Effects(lib())
    for nm, roles in sorted(KERNELS.items()):
        if nm not in E.fns: continue
        bad = {b: l for b, l in E.mod[nm].items() if b[0] in ('arg', 'deref') and not (b[0] == 'arg' and b[1] < len(roles) and roles[b[1]] in ('o', 'b', 'w'))}
        unk = {b: l for b, l in E.mod[nm].items() if b[0] == 'unknown'}
        a = E.fns[nm]['args']
        rep.count('kernel_functions', 1)
        if bad: 
            for b, l in bad.items(): rep.add('%s stores through its output parameters only' % nm, Verdict('refuted', 'stores through input parameter %d at %s:%s in %s' % (b[1] + 1 if b[0] == 'arg' else -1, os.path.basename(l[0] or '?'), l[1], l[2])), where=['%s:%s in %s' % l])
        elif unk: rep.add('%s stores through its output parameters only' % nm, 'undecided', 'store through an unresolved pointer')
        else: rep.add('%s stores through its output parameters only' % nm, 'proved')

# ------------------------------------------------------------------ C16: nothing undefined reaches the caller
def undefined_fields(c, n=6):
    """numbers and arrays that some route through setup leaves unassigned (arrays: entirely)"""
    e = c.e; mkS = ok_sampler(c); out = []; part = []
    contract.dims(bool(c.noA))
    for pth, struct in (('options', 'settings'), ('stats', 'stats'), ('', 'QP')):
        for m in numeric_fields(e, struct):
            f = (pth + '->' if pth else '') + m['name']
            g = fld(e, c.st_setup, c.q, 'QP', f)
            if not any(find_atoms(x, lambda a: a.kind == 'Undef') for _, x in g.alts if isinstance(x, Poly)): continue
            bad = 0
            for t in range(12):
                s = mkS(t)
                try:
                    if not s.b(c.st_setup.pc): continue
                    for cnd, x in g.alts:
                        if s.b(cnd) and isinstance(x, Poly): s.v(x)
                except UndefVal: bad += 1
                except (Skip, Ambiguous, Opaque, ZeroDivisionError): pass
            if bad: out.append(f)
    arrs = dict(contract.VEC); arrs.update({'kkt->' + k: v for k, v in contract.KVEC.items()})
    for f, ln in arrs.items():
        if ln is ZERO: continue
        a = arr_of(e, c.st_setup, fld(e, c.st_setup, c.q, 'QP', f))
        if not find_atoms(a, lambda x: x.kind in ('ArrUndef', 'Undef')): continue
        d = u = 0
        for t in range(n):
            s = mkS(t)
            try:
                if not s.b(c.st_setup.pc): continue
                A = s.arr(a)
                for i in range(s.v(ln)):
                    try: A.get(i); d += 1
                    except UndefVal: u += 1
            except UndefVal: u += 1
            except (Skip, Ambiguous, Opaque, ZeroDivisionError): pass
        if u and not d: out.append(f)
        elif u: part.append(f)
    return out, part
RESULT = ('n', 'm', 'p')
def C16(rep):
    import solve as SV, json
    def after(rep, c):
        undef, part = undefined_fields(c)
        rep.stats['unassigned_after_setup'] = [json.dumps([bool(c.noA), sorted(undef), sorted(part), c.tag])]
        rep.add('what setup leaves unassigned is known (%s)' % c.tag, 'proved', '%d numbers and arrays' % len(undef))
    per_shape(rep, after)
    groups = {}
    for t in rep.stats.get('unassigned_after_setup', []):
        p0, undef, part, tag = json.loads(t)
        groups.setdefault((p0, tuple(undef)), []).append(tag)
        for f in part:
            if f in ('x', 'y', 'z', 's'): rep.add('%s is assigned by setup (%s)' % (f, tag), 'undecided', 'some elements')
    def solve(p0, undef, tags):
        tag = tags[0] + (' and %d more' % (len(tags) - 1) if len(tags) > 1 else '')
        return lambda rep: one(rep, p0, undef, tag)
    def one(rep, p0, undef, tag):
        contract.dims(p0)
        c = SolveCtx(p0, undef=undef, record=()); init_sizes(c.e); c.tag = tag; rep.engine(c.e)
        if not SV.main_loop(c, rep): return
        e = c.e; r = c.main
        base = solve_sampler(c)
        def mkS(seed):
            s = base(seed)
            return s
        # ---- sinks
        exits = []
        for pth, struct in (('options', 'settings'), ('stats', 'stats')):
            for m in numeric_fields(e, struct):
                f = pth + '->' + m['name']
                exits.append((f, fld(e, c.st, c.q, 'QP', f), None, sites_of(e, c.st, c.q, 'QP', f)))
        for f in RESULT: exits.append((f, fld(e, c.st, c.q, 'QP', f), None, []))
        exits.append(('the returned code', c.ret, None, []))
        for f in ('x', 'y', 'z', 's'):
            if f == 'y' and p0: continue
            exits.append((f, arr_at(e, c.st, c.q, 'QP', f), contract.VEC[f], sites_of(e, c.st, c.q, 'QP', f, arr=True)))
        inner = []
        for v in e.events:
            if v.kind == 'print': inner.append(('printed value', v, list(v.data[1])))
            elif v.kind == 'call' and v.data[2] is not None: inner.append(('input of ' + v.data[0], v, [x for x in v.data[2] if x is not None]))
        K = r.K
        mp = init_map(SV, c); mp0 = dict(mp); mp0[K] = ZERO
        lm = SV.latch_map(c)
        stages = [('any iteration', None, TRUE), ('first iteration', mp0, TRUE)]
        if lm is not None:
            cur = {k: SV.subst(x, mp0) for k, x in lm.items()}; live = SV.subst(r.latch.pc, mp0)
            m1 = dict(cur); m1[K] = ONE
            stages.append(('second iteration', m1, live))
        done = set()
        for st, m, live in stages:
            sb = (lambda x: x) if m is None else (lambda x, m=m: SV.subst(x, m))
            pc = sb(c.st.pc) & live
            for what, g, ln, w in exits:
                if what in done: continue
                def f(s):
                    if not s.b(pc): return None
                    if isinstance(g, GV):
                        for cnd, x in g2:
                            if s.b(cnd):
                                if isinstance(x, Poly): s.v(x)
                                elif isinstance(x, BDD): s.b(x)
                    else:
                        A = s.arr(g2)
                        for i in range(s.v(ln)): A.get(i)
                    return True
                if isinstance(g, GV): g2 = [(sb(cnd), sb(x) if isinstance(x, (Poly, BDD)) else x) for cnd, x in g.alts]
                else: g2 = sb(g)
                if st != 'any iteration' and not find_atoms((tuple(y for x in g2 for y in x) if isinstance(g, GV) else g2, pc), lambda a: a.kind in ('Undef', 'UndefB', 'ArrUndef')): 
                    rep.add('%s is assigned when the solve returns in the %s (%s)' % (what, st, c.tag), 'proved', '', where=w); continue
                v = decide_samples(mkS, f, n=14, minok=3)
                if v.kind == 'undecided' and v.detail.startswith('ok 0 opaque 0'): rep.count('routes_not_reached', 1); continue
                rep.add('%s is assigned when the solve returns in the %s (%s)' % (what, st, c.tag), v, where=w)
                if v.kind == 'refuted': done.add(what)
            for what, ev, vals in inner:
                inloop = bool(ev.loops) and ev.loops[0][0] is K
                vs = []
                for x in vals:
                    if isinstance(x, GV): vs += [(sb(cnd), sb(y)) for cnd, y in x.alts if isinstance(y, (Poly, BDD))]
                    else: vs.append((TRUE, sb(x)))
                epc = sb(ev.pc) & live
                key = (what, ev.loc.line, ev.loc.fn, st)
                if st != 'any iteration' and not find_atoms((epc,) + tuple(y for x in vs for y in x), lambda a: a.kind in ('Undef', 'UndefB', 'ArrUndef')):
                    rep.add('%s is assigned, %s (%s)' % (what, st, c.tag), 'proved', '', where=[ev.loc]); continue
                if key[:3] in done: continue
                def f(s):
                    if not s.b(epc): return None
                    for cnd, x in vs:
                        if not s.b(cnd): continue
                        if isinstance(x, Poly): s.v(x)
                        elif isinstance(x, BDD): s.b(x)
                        elif x.kind != 'ArrNull':
                            A = s.arr(x); L = s.alen(x)
                            if L is None: L = x.attr.get('len'); L = s.v(L) if L is not None else None
                            for i in range(L or 0): A.get(i)
                    return True
                v = decide_samples(mkS, f, n=24 if 'second' in st else 10, minok=1 if 'second' in st else 2)
                if v.kind == 'undecided' and v.detail.startswith('ok 0 opaque 0'): rep.count('routes_not_reached', 1); continue
                rep.add('%s is assigned, %s (%s)' % (what, st, c.tag), v, where=[ev.loc])
                if v.kind == 'refuted': done.add(key[:3])
    parallel(rep, [solve(p0, u, tags) for (p0, u), tags in sorted(groups.items())], width=7)
    rep.expl = 'what each way of calling setup leaves unassigned is computed from its summary and fed into QP_SOLVE; every statistic, setting, solution component, printed value, kernel input and the return code is followed back on every route'
def init_map(SV, c):
    r = c.main
    mp = SV.init_map(c)
    return mp
