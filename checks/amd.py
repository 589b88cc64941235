"""C20, C21 and the ordering part of C15: validators and the ordering routine, on arbitrary integer arrays."""
import random
from scen import *
from ldl import listarr
import mem
from mem import Sites, iterations, sweep, norm, check_bounds, pairing, no_use_after_release

class Calls:
    """functions of the validators / ordering on any arguments, missing arrays included"""
    def __init__(self, opaque=(), oom=False, record=('alloc', 'free', 'call')):
        self.e = Engine(lib(), opaque=set(opaque), oom=oom, record_states=record)
        self.st = State(); self.null = {}; self.objs = {}
        self.n = P(Sym('size'))
        mem.init_sizes(self.e)
    def arr(self, nm, ln, elt='int', nullable=True):
        o = self.e.param(nm, size=P(ln) * 8); o.info.update({'es': 8, 'mode': 'arr', 'elt': elt})
        a = ArrSym(nm); a.attr['elt'] = elt; a.attr['len'] = P(ln)
        self.objs[nm] = o
        if not nullable: return gv(Ptr(o, ZERO))
        b = bvar(mk('SymB', 'null:' + nm)); self.null[nm] = b
        return GV(((b, NULLP), (~b, Ptr(o, ZERO))))
    def run(self, fn, *args):
        r, s = self.e.call_fn(fn, [a if isinstance(a, GV) else gv(P(a)) for a in args], self.st)
        return r, s
def last(nm, n): return P(mk('Rd', ArrSym(nm), n))
def value(s, g):
    for c, x in g.alts:
        if s.b(c): return s.v(x)
    raise Skip()
def csc(g, n, rows, consts=()):
    """a compressed column pattern, valid or broken in one of many ways; (Ap, Ai, what)"""
    cols = []
    for j in range(n):
        k = g.choice((0, 1, 1, 2, 3)); k = min(k, rows)
        cols.append(sorted(g.sample(range(rows), k)) if rows > 0 else [])
    jc = [0]
    for c in cols: jc.append(jc[-1] + len(c))
    ir = [i for c in cols for i in c]
    kind = g.choice(('ok', 'ok', 'unsorted', 'dup', 'row<0', 'row=n', 'row>n', 'start', 'start-', 'decr', 'decr', 'over', 'over', 'neg', 'unsorted', 'last', 'lastdup', 'deep'))
    def pick(): return g.randrange(len(ir))
    if kind == 'unsorted': ir = [i for c in cols for i in (c[::-1] if g.random() < .6 else c)]
    elif kind == 'dup' and ir:
        for j, c in enumerate(cols):
            if len(c) > 1: p = jc[j] + g.randrange(len(c) - 1); ir[p + 1] = ir[p]
    elif kind == 'lastdup' and n and rows:
        cols[-1] = [g.randrange(rows)] * 2; jc[-1] = jc[-2] + 2; ir = ir[:jc[-2]] + cols[-1]
    elif kind == 'row<0' and ir: ir[pick()] = g.choice((-1, -1, -2, -7))
    elif kind == 'row=n' and ir: ir[pick()] = rows
    elif kind == 'row>n' and ir: ir[pick()] = rows + g.choice((1, 2, 50))
    elif kind == 'last' and ir: ir[-1] = g.choice((rows, -1))
    elif kind == 'deep' and ir: ir[g.choice((0, len(ir) // 2, len(ir) - 1))] = g.choice((rows, rows + 1, -1))
    elif kind == 'start': jc = [x + 1 for x in jc]; ir = ir + [0]
    elif kind == 'start-' and n: jc[0] = g.choice((-1, 1))
    elif kind == 'decr' and n > 1:
        j = g.randrange(1, n); jc[j] = jc[j + 1] + g.choice((1, 1, 2))
        if jc[j] > jc[-1]: ir = ir
    elif kind == 'over' and n > 1: jc[g.randrange(1, n)] = jc[-1] + g.choice((1, 2, 100))
    elif kind == 'neg' and n: jc[g.choice((n, g.randrange(1, n + 1)))] = -g.choice((1, 2))
    return jc, ir[:max(0, jc[-1])] + [0] * max(0, jc[-1] - len(ir)), kind
def ref_valid(rows, cols, Ap, Ai, ordering):
    """what the validators are documented to answer"""
    if rows < 0 or cols < 0 or Ap is None or Ai is None: return 'bad'
    if Ap[0] != 0 or Ap[cols] < 0: return 'bad'
    for j in range(cols):
        if Ap[j] > Ap[j + 1]: return 'bad'
    jumb = False
    for j in range(cols):
        prev = -1
        for p in range(Ap[j], Ap[j + 1]):
            if not 0 <= Ai[p] < rows: return 'bad'
            if Ai[p] <= prev: jumb = True
            prev = Ai[p]
    return 'jumbled' if jumb else 'ok'
def arg_sampler(C, gen, seedk=1):
    """valuations of the arguments of a call: gen(random) -> {symbol: number}, {array: list or None}"""
    def mkS(seed):
        g = random.Random(seed * 32452843 + SEED * 7 + seedk)
        cs = [c for c in evalsym.CONSTS[0] if 0 <= c <= 60]
        syms, arrs = gen(g, cs)
        def arrh(s, a):
            nm = a.args[0]
            if nm in arrs: return listarr(arrs[nm] or [], nm)
            return None
        def symh(s, a): return syms.get(a.args[0])
        def nullh(s, a):
            if a.args[0].startswith('null:'): return arrs.get(a.args[0][5:]) is None
            return None
        s = Sample(seed, {}, {'ArrSym': arrh, 'Sym': symh, 'SymB': nullh}, {'ret': C.retfn, 'appout': C.outfn})
        s.fuel = [300000]; s.syms = syms; s.lists = arrs
        return s
    return mkS
Calls.retfn = staticmethod(lambda s, app, key: None)
Calls.outfn = staticmethod(lambda s, app, j, key, i: None)
def dim(g, cs, lo=0):
    if cs and g.random() < 0.35: return max(lo, g.choice(cs) + g.choice((-1, 0, 1, 2)))
    return max(lo, g.choice((0, 1, 2, 2, 3, 3, 4, 5, 6, 9, 17)))
AMD_OK, AMD_OOM, AMD_INVALID, AMD_JUMBLED = 0, -1, -2, 1
def C20(rep):
    # permutations
    def perms(rep):
        C = Calls(); n = C.n
        r, st = C.run('LDL_valid_perm', n, C.arr('Pv', n), C.arr('Fl', n))
        def gen(g, cs):
            k = dim(g, cs); ps = list(range(k)); g.shuffle(ps)
            kind = g.choice(('ok', 'ok', 'dup', 'neg', 'big', 'bigger', 'null', 'nullflag', 'negn', 'last', 'first', 'id'))
            if kind == 'dup' and k > 1: i, j = g.sample(range(k), 2); ps[i] = ps[j]
            elif kind == 'neg' and k: ps[g.randrange(k)] = -g.choice((1, 2, 5))
            elif kind == 'big' and k: ps[g.randrange(k)] = k
            elif kind == 'bigger' and k: ps[g.randrange(k)] = k + g.choice((1, 3, 40))
            elif kind == 'last' and k > 1: ps[-1] = g.choice((ps[0], k, -1))
            elif kind == 'first' and k > 1: ps[0] = g.choice((ps[-1], k, -1))
            elif kind == 'id': ps = list(range(k))
            fl = [g.choice((0, 1, 2, -1, 7)) for _ in range(k)]
            if kind == 'negn': return {'size': -g.choice((1, 2, 9))}, {'Pv': [], 'Fl': []}
            return {'size': k}, {'Pv': None if kind == 'null' else ps, 'Fl': None if kind == 'nullflag' else fl}
        def want(s):
            k = s.syms['size']; p = s.lists['Pv']; f = s.lists['Fl']
            if p is None: return 1           # a missing permutation is the identity
            if k < 0 or f is None: return 0
            return 1 if sorted(p) == list(range(k)) else 0
        decide(rep, C, r, st, gen, want, 'LDL_valid_perm accepts exactly the permutations')
        bounds(rep, C, gen, 'LDL_valid_perm')
    def ldlmat(rep):
        C = Calls(); n = C.n
        Ap = C.arr('Ap', n + 1); Ai = C.arr('Ai', last('Ap', n))
        r, st = C.run('LDL_valid_matrix', n, Ap, Ai)
        def gen(g, cs):
            k = dim(g, cs)
            if g.random() < 0.08: return {'size': -g.choice((1, 3))}, {'Ap': [0], 'Ai': []}
            jc, ir, kind = csc(g, k, k)
            z = g.random()
            return {'size': k}, {'Ap': None if z < .05 else jc, 'Ai': None if .05 < z < .1 else ir}
        def want(s): return 0 if ref_valid(s.syms['size'], s.syms['size'], s.lists['Ap'], s.lists['Ai'], False) == 'bad' else 1
        decide(rep, C, r, st, gen, want, 'LDL_valid_matrix accepts exactly the valid patterns')
        bounds(rep, C, gen, 'LDL_valid_matrix')
    def amdmat(rep):
        C = Calls(); nr, nc = P(Sym('rows')), P(Sym('size'))
        Ap = C.arr('Ap', nc + 1); Ai = C.arr('Ai', last('Ap', nc))
        r, st = C.run('amd_l_valid', nr, nc, Ap, Ai)
        def gen(g, cs):
            k = dim(g, cs); m = k if g.random() < .5 else dim(g, cs)
            if g.random() < 0.1: return g.choice(({'size': -1, 'rows': m}, {'size': k, 'rows': -2})), {'Ap': [0] * (k + 1), 'Ai': []}
            jc, ir, kind = csc(g, k, m)
            z = g.random()
            return {'size': k, 'rows': m}, {'Ap': None if z < .05 else jc, 'Ai': None if .05 < z < .1 else ir}
        def want(s): return {'bad': AMD_INVALID, 'ok': AMD_OK, 'jumbled': AMD_JUMBLED}[ref_valid(s.syms['rows'], s.syms['size'], s.lists['Ap'], s.lists['Ai'], True)]
        decide(rep, C, r, st, gen, want, 'AMD_valid answers ok / jumbled / invalid exactly')
        bounds(rep, C, gen, 'AMD_valid')
    parallel(rep, [perms, ldlmat, amdmat], width=3)
    rep.expl = 'return value of the validators as recurrences over arbitrary integer arrays, compared with the definition; offsets of their reads against the extents n+1 and Ap[n]'
def decide(rep, C, r, st, gen, want, what, n=260):
    rep.engine(C.e)
    mkS = arg_sampler(C, gen)
    def f(s):
        if not s.b(st.pc): return None
        v = value(s, r); w = want(s)
        return True if v == w else 'answers %s for %s %s, the definition says %s' % (v, s.syms, {k: (x if x is None or len(x) < 14 else '...') for k, x in s.lists.items()}, w)
    old = evalsym.LIMIT; evalsym.LIMIT = 25
    try: rep.add(what, decide_samples(mkS, f, n=n, consts=(st.pc,) + tuple(x for c, x in r.alts) + tuple(c for c, x in r.alts)))
    finally: evalsym.LIMIT = old
def bounds(rep, C, gen, fn, n=200):
    mkS = arg_sampler(C, gen, 2)
    def mk2(seed):
        s = mkS(seed); s.fuel = [400000]
        return s
    check_bounds(rep, norm(C.e.accesses), mk2, fn, n=n, seconds=40, what='%s reads inside its arrays' % fn, strict=True)

# ------------------------------------------------------------------ the ordering routine
AMD_KERNELS = {'amd_l_valid': ('s', 's', 'i', 'i'), 'amd_l_preprocess': ('s', 'i', 'i', 'o', 'o', 'w', 'w'),
               'amd_l_aat': ('s', 'i', 'i', 'o', 'w', 'o'), 'amd_l1': ('s', 'i', 'i', 'o', 'o', 'b', 's', 'w', 'i', 'b')}
N_CONTROL, N_INFO = 5, 20
class Order(Calls):
    """amd_l_order on any arguments; its parts are uninterpreted"""
    def __init__(self, oom, record=('alloc', 'free', 'call')):
        import interp
        ir = lib()
        parts = {k: r for k, r in AMD_KERNELS.items() if k in ir['functions'] and len(ir['functions'][k]['args']) == len(r)}
        interp.KERNELS.update(parts)
        Calls.__init__(self, opaque=set(parts), oom=oom, record=record)
        n = self.n
        self.args = [n, self.arr('Ap', n + 1), self.arr('Ai', last('Ap', n)), self.arr('Pm', n), self.arr('Control', P(N_CONTROL), 'fp'), self.arr('Info', P(N_INFO), 'fp')]
        self.ret, self.end = self.run('amd_l_order', *self.args)
        self.tag = 'any allocation may fail' if oom else 'allocations succeed'
    @staticmethod
    def retfn(s, app, key):
        if app.args[0] == 'amd_l_valid': return s.syms['status']
        if app.args[0] == 'amd_l_aat': return s.r('nzaat').randrange(0, 12)
        return None
    @staticmethod
    def outfn(s, app, j, key, i):
        nm = app.args[0]
        if nm == 'amd_l_aat' and j == 5 and i == 0: return 0
        if nm == 'amd_l1' and j == 9 and i == 0: return s.arr(app.args[-1]).get(0)
        return None
def order_gen(g, cs):
    k = g.choice((-3, -1, 0, 0, 1, 2, 3, 4)) if g.random() < .5 else dim(g, cs)
    nz = g.choice((0, 1, 3, 5, -1, -4)) if g.random() < .6 else g.randrange(0, 9)
    ap = [0] * max(1, k) + [nz] if k > 0 else [0]
    def opt(x, pr): return None if g.random() < pr else x
    return ({'size': k, 'status': g.choice((AMD_OK, AMD_OK, AMD_JUMBLED, AMD_JUMBLED, AMD_INVALID))},
            {'Ap': opt(ap, .07), 'Ai': opt([0] * max(0, ap[-1]), .07), 'Pm': opt([0] * max(0, k), .07), 'Control': opt([0.0] * N_CONTROL, .3), 'Info': opt([-7.0] * N_INFO, .3)})
def alloc_sampler(C, p_fail=0.25):
    """valuations of the arguments and of which allocations fail"""
    base = arg_sampler(C, order_gen, 5)
    def mkS(seed):
        s = base(seed)
        mode = s.r('oom').random()
        def nullh(s2, a):
            if mode < 0.25: v = False
            elif mode < 0.4: v = True
            else: v = s2.r('null', a.args).random() < p_fail
            return v
        s.hooks = dict(s.hooks, NULL=nullh, oomdraw=True)
        return s
    return mkS
def order_status(s, C):
    """what the ordering must answer; None: not settled by the arguments"""
    L = s.lists; k = s.syms['size']
    if L['Ap'] is None or L['Ai'] is None or L['Pm'] is None or k < 0: return AMD_INVALID
    if k == 0: return AMD_OK
    if L['Ap'][k] < 0: return AMD_INVALID
    if s.syms['status'] == AMD_INVALID: return AMD_INVALID
    for v in C.e.events:
        if v.kind == 'alloc' and s.b(v.pc) and v.data[0].nullable and s.b(bvar(mk('NULL', v.data[0].name))): return AMD_OOM
    return s.syms['status']
def C21(rep):
    def order(oom):
        def run(rep):
            C = Order(oom); e = C.e; rep.engine(e); mkS = alloc_sampler(C)
            if any(v.kind == 'unknown-call' for v in e.events):
                rep.add('calls of the ordering are resolved', 'undecided', 'unknown call'); return
            if not any(v.kind == 'call' and v.data[0] == 'amd_l_valid' for v in e.events): rep.add('the matrix is checked by AMD_valid', 'undecided', 'no call of amd_l_valid'); return
            def st(s):
                if not s.b(C.end.pc): return None
                v = value(s, C.ret); w = order_status(s, C)
                return True if v == w else 'returns %s where %s is due (n=%s, missing: %s, validator %s)' % (v, w, s.syms['size'], [k for k, x in s.lists.items() if x is None], s.syms['status'])
            consts = tuple(c for c, x in C.ret.alts)
            rep.add('returned status (%s)' % C.tag, decide_samples(mkS, st, n=300, consts=consts))
            info = C.end.arrs.get(C.objs['Info'])
            def inf(s):
                if s.lists['Info'] is None or not s.b(C.end.pc): return None
                if info is None: return 'Info is never written'
                for c, a in info.alts:
                    if s.b(c):
                        v = s.arr(a).get(0); w = order_status(s, C)
                        return True if v == w else 'Info holds status %s where %s is due' % (v, w)
                return None
            rep.add('status recorded in the information array (%s)' % C.tag, decide_samples(mkS, inf, n=300, consts=consts), where=list(e.sites.get(C.objs['Info'], {}).values())[:4])
            # the permutation is not touched before the arguments are known to be valid
            pm = C.objs['Pm']
            ker = [(v, cnd) for v in e.events if v.kind == 'call' and v.data[3] for j, r in enumerate(v.data[3]) if r in 'obw' for cnd, p in v.data[1][j].alts if isinstance(p, Ptr) and p.obj is pm]
            acc = [a for a in norm(e.accesses) if a[9] and a[0] is pm]
            def touch(s):
                w = order_status(s, C)
                if w != AMD_INVALID: return None
                for v, cnd in ker:
                    if s.b(v.pc & cnd): return 'the permutation is written (%s) although the arguments are invalid' % v.data[0]
                for a in acc:
                    if s.b(a[4]): return 'the permutation is written at %r although the arguments are invalid' % a[5]
                return True
            rep.add('an invalid call leaves the permutation alone (%s)' % C.tag, decide_samples(mkS, touch, n=150), where=[v.loc for v, c in ker] + [a[5] for a in acc])
            # the caller's matrix
            for nm in ('Ap', 'Ai', 'Control'):
                o = C.objs[nm]
                bad = [a[5] for a in norm(e.accesses) if a[9] and a[0] is o and sat(a[4])]
                bad += [v.loc for v in e.events if v.kind == 'call' and v.data[3] for j, r in enumerate(v.data[3]) if r in 'obw' for cnd, p in v.data[1][j].alts if isinstance(p, Ptr) and p.obj is o and sat(v.pc & cnd)]
                rep.add('%s of the caller is not modified (%s)' % (nm, C.tag), Verdict('refuted', 'a route stores into it') if bad else 'proved', where=bad)
            # a jumbled matrix goes through a sorted private copy; the ordering never sees the jumbled arrays
            def sorted_(s):
                if order_status(s, C) not in (AMD_OK, AMD_JUMBLED) or s.syms['size'] <= 0: return None
                if s.syms['status'] == AMD_INVALID: return None
                pre = [v for v in e.events if v.kind == 'call' and v.data[0] == 'amd_l_preprocess' and s.b(v.pc)]
                one = [v for v in e.events if v.kind == 'call' and v.data[0] == 'amd_l1' and s.b(v.pc)]
                if not one: return 'no ordering is computed'
                for v in one:
                    for j in (1, 2):
                        for cnd, p in v.data[1][j].alts:
                            if not s.b(cnd) or not isinstance(p, Ptr): continue
                            if s.syms['status'] == AMD_JUMBLED:
                                if p.obj in (C.objs['Ap'], C.objs['Ai']): return 'a jumbled matrix is ordered without being sorted'
                                a = s_arr_kind(v.data[2][j])
                                if a is not None and a != 'amd_l_preprocess': return 'a jumbled matrix is ordered from an array that the sorting step did not fill'
                return True
            rep.add('an unsorted matrix is sorted into private copies first (%s)' % C.tag, decide_samples(mkS, sorted_, n=120), where=[v.loc for v in e.events if v.kind == 'call' and v.data[0] == 'amd_l1'])
        return run
    def s_arr_kind(a):
        return a.args[0].args[0] if isinstance(a, Atom) and a.kind == 'ArrApp' else None
    def bases(rep):
        import effects as eff
        E = eff.Effects(lib(spec=False))
        for nm, ins in (('amd_l_preprocess', (1, 2)), ('amd_l_valid', (2, 3)), ('amd_l_aat', (1, 2)), ('amd_l1', (1, 2, 8))):
            if nm not in E.fns: continue
            bad = [(b, l) for b, l in E.mod[nm].items() if b[0] in ('arg', 'deref') and (b[1] if b[0] == 'arg' else b[1][1] if b[1][0] == 'arg' else -1) in ins]
            rep.count('kernel_functions', 1)
            if bad: rep.add('%s does not write the matrix it is given' % nm, Verdict('refuted', 'stores through parameter %d' % (bad[0][0][1] + 1 if bad[0][0][0] == 'arg' else 0)), where=['%s:%s in %s' % bad[0][1]])
            else: rep.add('%s does not write the matrix it is given' % nm, 'proved')
    def sorting(rep):
        """preprocess: R = A' with sorted rows and no duplicates"""
        C = Calls(record=()); n = C.n
        Ap = C.arr('Ap', n + 1, nullable=False); Ai = C.arr('Ai', last('Ap', n), nullable=False)
        def out(nm, ln):
            g = C.arr(nm, ln, nullable=False); a = mk('ArrUndef', P(ln), nm); a.attr['len'] = P(ln)
            C.st.arrs[C.objs[nm]] = gv(a)
            return g
        Rp = out('Rp', n + 1); Ri = out('Ri', last('Ap', n)); W = out('W', n); F = out('F', n)
        r, st = C.run('amd_l_preprocess', n, Ap, Ai, Rp, Ri, W, F)
        rep.engine(C.e)
        def gen(g, cs):
            k = max(1, min(dim(g, cs), 5))
            cols = [[g.randrange(k) for _ in range(g.choice((0, 1, 1, 2, 3, 4)))] for _ in range(k)]
            jc = [0]
            for c in cols: jc.append(jc[-1] + len(c))
            return {'size': k}, {'Ap': jc, 'Ai': [i for c in cols for i in c]}
        mkS = arg_sampler(C, gen)
        rp = arr_of(C.e, st, Rp); ri = arr_of(C.e, st, Ri)
        def f(s):
            k = s.syms['size']; jc, ir = s.lists['Ap'], s.lists['Ai']
            rows = [sorted({j for j in range(k) for p in range(jc[j], jc[j + 1]) if ir[p] == i}) for i in range(k)]
            A = s.arr(rp); B = s.arr(ri); t = 0
            for i in range(k):
                if A.get(i) != t: return 'row %d of the sorted matrix starts at %s, expected %s' % (i, A.get(i), t)
                for x in rows[i]:
                    if B.get(t) != x: return 'entry %d of the sorted matrix is %s, expected %s' % (t, B.get(t), x)
                    t += 1
            if A.get(k) != t: return 'the sorted matrix is announced to have %s entries, it has %s' % (A.get(k), t)
            return True
        rep.add('sorting yields the transposed pattern, sorted and without duplicates', decide_samples(mkS, f, n=40), where=list(C.e.sites.get(C.objs['Ri'], {}).values())[:4])
    parallel(rep, [order(False), order(True), bases, sorting], width=4)
    rep.expl = 'status, information array, permutation and matrix accesses of amd_l_order on every combination of missing arguments, sizes, validator answers and failing allocations (parts uninterpreted); effects of its parts; the sorting step as a recurrence'
def ordering_memory(oom):
    """the ordering part of C15"""
    def run(rep):
        C = Order(oom); rep.engine(C.e)
        mkS = alloc_sampler(C)
        tag = 'ordering, ' + C.tag
        pairing(rep, C.e.events, mkS, tag, 'scratch released exactly once', n=120)
        no_use_after_release(rep, norm(C.e.accesses), mkS, tag, n=80)
        sus = [v for v in C.e.events if v.kind == 'call' and v.data[3]]
        def released(s):
            # kernels are handed live, successfully allocated blocks only
            for v in sus:
                if not s.b(v.pc): continue
                for j, r in enumerate(v.data[3]):
                    if r == 's': continue
                    for cnd, p in v.data[1][j].alts:
                        if not isinstance(p, Ptr) or p.obj.kind != 'heap' or not s.b(cnd): continue
                        if mem.any_null(s, p.obj): return '%s is handed a block whose allocation failed' % v.data[0]
                        fr = [w for w in C.e.events[:C.e.events.index(v)] if w.kind == 'free' and w.data[0] is p.obj and s.b(w.data[2]) and s.b(w.pc)]
                        if fr: return '%s is handed a block released at %r' % (v.data[0], fr[0].loc)
            return True
        rep.add('the parts of the ordering work on live blocks (%s)' % tag, decide_samples(mkS, released, n=120), where=[v.loc for v in sus][:4])
    return run

# ------------------------------------------------------------------ C15
def reachable_blocks(c, st):
    """guards under which a block hangs off the object setup returns"""
    out = {}
    for (o, off), g in st.cells.items():
        for cnd, p in g.alts:
            if isinstance(p, Ptr) and p.obj.kind == 'heap': out.setdefault(p.obj, []).append(cnd)
    for cnd, p in c.ret.alts:
        if isinstance(p, Ptr): out.setdefault(p.obj, []).append(cnd)
    return out
def C15(rep):
    seen = set()
    def sites(rep, e):
        rep.stats['allocation_sites'] = sorted(set(rep.stats.get('allocation_sites', [])) | {'%s:%s' % (rel(v.loc.file), v.loc.line) for v in e.events if v.kind == 'alloc'})
    def shape(rep, c):
        e = c.e; st = c.st_setup
        hang = reachable_blocks(c, st)
        # scratch: blocks that no cell of the result designates
        evs = [v for v in e.events[:c.nset_ev] if v.kind != 'alloc' or v.data[0] not in hang]
        sites(rep, e)
        mkS = mem.ok_sampler(c)
        pairing(rep, evs, mkS, c.tag, 'scratch released exactly once', n=24)
        no_use_after_release(rep, norm(e.accesses[:c.nset_acc]), mkS, c.tag, n=16)
    def solve(p0):
        def run(rep):
            c = mem.solve_ctx(p0); rep.engine(c.e); mkS = solve_sampler(c); sites(rep, c.e)
            def keep(sub, o):
                return any(isinstance(p, Ptr) and p.obj is o and sub.b(cnd) for (oo, off), g in c.st.cells.items() if oo.name.startswith('qp') for cnd, p in g.alts)
            pairing(rep, c.e.events, mkS, c.tag, 'scratch released exactly once', keep=keep)
            no_use_after_release(rep, norm(c.e.accesses), mkS, c.tag)
        return run
    def alternative(perm):
        def run(rep):
            from ldl import Kernels, kern_sampler
            for fn in ('LDL_cache_numeric', 'LDL_row_cache_numeric'):
                K = Kernels(perm); n = K.n
                K.e.record_states = ('alloc', 'free')
                if fn not in K.e.F or len(K.e.F[fn]['args']) != 14: continue
                o = {nm: K.out(nm, ln, el) for nm, ln, el in (('oLx', P(mk('Rd', ArrSym('Lp'), n)), 'fp'), ('oD', n, 'fp'), ('Y', n, 'fp'))}
                Ltp = K.arr('Ltp', n + 1, 'int'); Lti = K.arr('Lti', P(mk('Rd', ArrSym('Lp'), n)), 'int'); U = K.arr('UPattern', n, 'int')
                pi = K.arr('Pinv', n, 'int', role='perm', lo=ZERO, hi=n - 1) if perm else gv(NULLP)
                try: r, st = K.run(fn, n, K.Ap, K.Ai, K.Ax, Ltp, Lti, K.Li, K.Lp, o['oLx'], o['oD'], o['Y'], K.Pm, pi, U)
                except Exception as x:
                    rep.add('%s summarised (%s)' % (fn, K.tag), 'undecided', '%s' % x); continue
                rep.engine(K.e); sites(rep, K.e)
                mkS = kern_sampler(K, nmax=4); tag = fn + ', ' + K.tag
                pairing(rep, K.e.events, mkS, tag, 'scratch released exactly once')
                no_use_after_release(rep, norm(K.e.accesses), mkS, tag)
                rep.add('%s followed on every route (%s)' % (fn, K.tag), 'proved', '%d allocations' % sum(1 for v in K.e.events if v.kind == 'alloc'))
        return run
    def every(rep):
        """routines not reached from the entry points: allocations of their own must be known"""
        import effects as eff
        from shared import reach, callee_name, calls, LIBRARY_ROOTS
        E = eff.Effects(lib(spec=False))
        R = set(reach(E, LIBRARY_ROOTS + ('LDL_cache_numeric', 'LDL_row_cache_numeric')))
        for n in sorted(E.fns):
            for i in calls(E, n):
                nm = callee_name(E, n, i)
                if nm in eff.ALLOC or nm in ('amd_malloc',):
                    rep.count('allocation_call_sites', 1)
                    if n not in R: local_pairing(rep, E, n, i)
    mem.per_shape(rep, shape, more=[solve(False), solve(True), ordering_memory(False), ordering_memory(True), alternative(True), alternative(False), every])
    rep.expl = 'allocation and release events of every routine with scratch memory, on every route; in the ordering every subset of its allocations may fail'
def rel(f):
    f = f or '?'
    return f[len(build_ir.REPO):].lstrip('/') if f.startswith(build_ir.REPO) else f
def local_pairing(rep, E, n, i):
    """an allocation in a routine no entry point calls: some release, or it leaves the routine"""
    from shared import where
    v = i.get('id'); f = E.fns[n]
    key = ('heap', n, v)
    if any(key in E.base(n, a) for b in f['blocks'] for j in b['ins'] if j['op'] == 'call' for a in j['args'] if isinstance(a, str)) or key in E.ret[n] or any(j['op'] == 'store' and j.get('oty') == 'ptr' and key in E.base(n, j['ops'][0]) for b in f['blocks'] for j in b['ins']): return
    rep.add('scratch released exactly once (%s)' % n, Verdict('refuted', 'the block allocated in %s is neither released, returned nor stored' % n), where=[where(i, n)])
