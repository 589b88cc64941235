"""Analysis contexts (entry point + object contract), access paths, and the obligation report."""
import os, sys, json, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
from interp import *
import sym as S, build_ir, contract, evalsym
from evalsym import Sample, compare, implied, Verdict, UndefVal, Opaque, Ambiguous, Skip
from loops import arr_single

VERIF = os.path.dirname(HERE)
SEED = int(os.environ.get('VERIF_SEED', '1')); TIER = os.environ.get('VERIF_TIER', 'quick')
_lib = {}
def lib(defs=(), spec=True):
    """SSA of the library sources of the current tree, linked with the reference definitions"""
    k = (tuple(defs), spec)
    if k not in _lib:
        src = os.path.join(build_ir.REPO, 'src')
        files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith('.c'))
        if spec:
            d = os.path.join(VERIF, 'spec')
            files += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.c'))
        _lib[k] = build_ir.compile_ir(files, [os.path.join(build_ir.REPO, 'include')], defs)
    return _lib[k]

# ------------------------------------------------------------------ access paths
def member(e, struct, f):
    s = e.ir['structs'].get(struct)
    for m in (s['members'] if s else []):
        if m['name'] == f: return m
    raise KeyError('%s.%s' % (struct, f))
def fld(e, st, base, struct, path):
    """value of base->a->b (base: Obj/Ptr/GV, path 'a->b')"""
    g = base if isinstance(base, GV) else gv(base if isinstance(base, Ptr) else Ptr(base, ZERO))
    parts = path.split('->')
    for i, f in enumerate(parts):
        m = member(e, struct, f)
        g2 = gmap(lambda p: Ptr(p.obj, p.off + P(m['off'])) if isinstance(p, Ptr) else UNDEFP, g, care=st.pc)
        e.quiet += 1
        try: g = e.load(st, g2, 'ptr' if m['ptr'] else ('double' if m['type'] in ('double', 'qp_real') else 'i64'), 8, {})
        finally: e.quiet -= 1
        struct = m['type']
    return g
def num_at(e, st, base, struct, path): return to_poly(fld(e, st, base, struct, path))
def arr_at(e, st, base, struct, path):
    return arr_of(e, st, fld(e, st, base, struct, path))
def arr_of(e, st, g):
    e.quiet += 1
    try: return arr_of_ptr(e, st, g)
    finally: e.quiet -= 1
def sites_of(e, st, base, struct, path, arr=False):
    """program points that store to the designated cell / array"""
    out = {}
    try:
        if arr:
            for c, p in fld(e, st, base, struct, path).alts:
                if isinstance(p, Ptr): out.update(e.sites.get(p.obj, {}))
        else:
            pre, _, last = path.rpartition('->')
            g = fld(e, st, base, struct, pre) if pre else gv(Ptr(base, ZERO) if isinstance(base, Obj) else base)
            s2 = struct
            for f in (pre.split('->') if pre else []): s2 = member(e, s2, f)['type']
            m = member(e, s2, last)
            for c, p in g.alts:
                if isinstance(p, Ptr) and p.off.const is not None: out.update(e.sites.get((p.obj, int(p.off.const) + m['off']), {}))
    except KeyError: pass
    return list(out.values())
_outc = [0]
class SpecCall:
    """summary of a reference definition in a given state"""
    def __init__(self, e, st, pc=TRUE): self.e = e; self.st = st.copy(); self.st.pc = pc; self.pc = pc
    def out(self, nm, ln):
        _outc[0] += 1
        o = self.e.param('spec:%s%d' % (nm, _outc[0]), size=ln * 8); o.info['es'] = 8; o.info['elt'] = 'fp'; o.info['mode'] = 'arr'
        a = mk('ArrUndef', ln, o.name); a.attr['len'] = ln
        self.st.arrs[o] = gv(a)
        return o
    def arrobj(self, nm, ln, a):
        o = self.out(nm, ln); self.st.arrs[o] = a if isinstance(a, GV) else gv(a)
        return o
    def call(self, fn, *args):
        e = self.e; e.quiet += 1
        try:
            av = []
            for a in args:
                if isinstance(a, GV): av.append(a)
                elif isinstance(a, Obj): av.append(gv(Ptr(a, ZERO)))
                else: av.append(gv(P(a) if not isinstance(a, (Ptr, BDD)) else a))
            v, s = e.call_fn(fn, av, self.st)
            self.st = s; self.st.pc = self.pc
            return v
        finally: e.quiet -= 1
    def arr(self, o): return arr_of(self.e, self.st, gv(Ptr(o, ZERO)))

# ------------------------------------------------------------------ contexts
OPAQUE = {'LDL_symbolic', 'LDL_numeric', 'LDL_lsolve', 'LDL_ltsolve', 'amd_l_defaults', 'amd_l_order'}
class SolveCtx:
    """QP_SOLVE on any object that satisfies the setup contract"""
    def __init__(self, p0, fresh=True, defs=(), irs=None, undef=(), record=('call',)):
        contract.dims(p0)
        self.p0 = p0; self.N, self.M, self.PP, self.NMP = contract.N, contract.M, contract.PP, contract.NMP
        self.ir = irs or lib(defs)
        self.e = e = Engine(self.ir, opaque=OPAQUE, record_states=record)
        self.q = contract.qp_contract(e)
        if fresh:
            e.param_vals['qp->stats->IterationCount'] = ZERO
            sf = bvar(mk('SymB', 'setup failed'))
            e.param_vals['qp->stats->Flag'] = GV(((sf, ONE), (~sf, P(3))))
        for f in undef:         # fields / arrays that are unassigned when the solve starts
            nm = 'qp->' + f
            if nm in e.param_info: e.param_info[nm] = dict(e.param_info[nm], undef=True)
            else: e.param_vals[nm] = P(mk('Undef', nm))
        self.st0 = State()
        t = time.time()
        self.ret, self.st = e.call_fn('QP_SOLVE', [gv(Ptr(self.q, ZERO))], self.st0)
        self.time = time.time() - t
        loops = [r for r in e.looprecs if r.kind == 'general']
        self.loops = loops
    def main_loop(self):
        """the outermost general loop that moves the iterate"""
        c = []
        for r in self.loops:
            if r.loops: continue
            names = {o.name for o in r.moda}
            if {'qp->x', 'qp->s', 'qp->z'} & names: c.append(r)
        return c[0] if len(c) == 1 else None
    def latch_vals(self, r): return r.latch

class SetupCtx:
    """QP_SETUP / QP_SETUP_dense on any caller data of the documented shape, optionally followed by solve and cleanup"""
    def __init__(self, p0, dense=False, perm=False, defs=(), oom=False, irs=None, ordering=None, opaque=None, noA=False, models=None, record=('call', 'alloc', 'free')):
        contract.dims(p0)
        self.p0 = p0; self.dense = dense; self.perm = perm
        self.N, self.M, self.PP, self.NMP = contract.N, contract.M, contract.PP, contract.NMP
        self.ir = irs or lib(defs)
        self.e = e = Engine(self.ir, opaque=OPAQUE if opaque is None else opaque, oom=oom, record_states=record, models=models)
        N, M, PP = self.N, self.M, self.PP
        self.caller = []
        def arr(nm, ln, elt='fp', **at):
            o = e.param(nm, size=P(ln) * 8); o.info.update({'es': 8, 'mode': 'arr', 'elt': elt}); o.info.update(at)
            a = ArrSym(nm); a.attr.update(at); a.attr['elt'] = elt; a.attr['len'] = P(ln)
            self.caller.append(o)
            return gv(Ptr(o, ZERO))
        def csc(nm, rows, cols):
            jc = ArrSym(nm + 'jc'); nnz = P(mk('Rd', jc, cols))
            j = arr(nm + 'jc', cols + 1, 'int', lo=ZERO, mono=cols, zero0=True, role='jc', rows=rows)
            i = arr(nm + 'ir', nnz, 'int', lo=ZERO, hi=rows - 1, role='ir', jc=jc, cols=cols)
            return [j, i, arr(nm + 'pr', nnz)]
        null = gv(NULLP)
        noA = noA or p0
        self.noA = noA
        c, h = arr('c', N), arr('h', M)
        b = null if noA else arr('b', PP)
        Pm = arr('Permut', N + M + (ZERO if noA else PP), 'int', lo=ZERO, hi=N + M + (ZERO if noA else PP) - 1, role='perm') if perm else null
        st = State()
        if dense:
            A = null if noA else arr('Apr', PP * N)
            o = gv(P(ordering) if ordering is not None else P(Sym('ordering')))
            args = [gv(N), gv(M), gv(PP), arr('Ppr', N * N), A, arr('Gpr', M * N), c, h, b, Pm, o]
            self.fn = 'QP_SETUP_dense'
        else:
            A = [null] * 3 if noA else csc('A', PP, N)
            args = [gv(N), gv(M), gv(PP)] + csc('P', N, N) + A + csc('G', M, N) + [c, h, b, gv(P(Sym('sigma_d'))), Pm]
            self.fn = 'QP_SETUP'
        t = time.time()
        self.args = args
        self.ret, self.st = e.call_fn(self.fn, args, st)
        q = [p for g, p in self.ret.alts if isinstance(p, Ptr) and p.obj is not NULLO]
        self.q = q[0].obj if len({x.obj for x in q}) == 1 else None
        if self.q is not None and self.q.struct is None: self.qstruct = 'QP'
        self.nev = len(e.events); self.nacc = len(e.accesses)
        self.time = time.time() - t
        self.tag = '%s, %s, %s' % ('dense' if dense else 'sparse', 'no equality constraints' if p0 else ('equality data missing' if noA else 'with equality constraints'), 'given permutation' if perm else 'computed ordering')
    def then(self, fn):
        """continue with QP_SOLVE / QP_CLEANUP on the object"""
        self.e.quiet = 0
        r, st = self.e.call_fn(fn, [self.ret], self.st)
        self.st = st
        return r

def solve_profile(ctx, mode='step'):
    """valuation profile for terms of a SolveCtx: slack and multiplier arrays positive"""
    def elem(s, name, bname, att, i):
        if bname in ('qp->s', 'qp->z'): return s.pos('pos', name, i)
        return None
    return {'elem': elem, 'mincol': {'qp->kkt->kktmatrix->jc': 1}, 'zero': 0.05}
def solve_sampler(ctx, tol=True, nmax=4, extra=None):
    prof = solve_profile(ctx)
    def mkS(seed):
        import random
        g = random.Random(seed * 7919 + SEED)
        dd = pick_dims(g, False, nmax); n, m, p = dd['n'], dd['m'], dd['p']
        hooks = {}
        def symh(s, a):
            nm = a.args[0]
            if a in s.vals: return s.vals[a]
            v = None
            if nm in ('qp->options->reltol', 'qp->options->abstol'):
                v = 10 ** s.r('tol', nm).uniform(-1.0, s.r('tolhi').choice((2.0, 5.0))) * (1.0 if s.r('tk', nm).random() < 0.9 else 1e-6)
            elif nm == 'qp->options->maxit': v = max(0, s.ival('maxit', ch=(0, 1, 1, 2, 2, 3, 4, 6)))
            elif nm == 'qp->stats->Flag': v = s.r('flag').choice((3, 3, 1))
            elif nm == 'qp->options->verbose': v = s.ival('verb', ch=(0, 0, 1, 2))
            elif nm == 'qp->options->sigma': v = s.r('sg').choice((100.0, 0.5, 0.0))
            elif nm == 'qp->sigma_d': v = s.r('sd').choice((0.0, 0.1, 1.0))
            if v is None: return None
            s.vals[a] = v
            return v
        hooks['Sym'] = symh
        def muh(s, a):
            if a in s.vals: return s.vals[a]
            key = a.attr.get('key')
            if key and key[0] == 'c' and key[1][0].name == 'qp->options':
                v = s.r('mu', 'opt', a.args).choice((100.0, 0.5, 0.05, 0.0)); s.vals[a] = v
                return v
            return None
        hooks['Mu'] = muh
        if ctx.loops:
            Ks = {r.K for r in ctx.loops if not r.loops}
            def kh(s, a):
                if a not in Ks: return None
                if a not in s.vals:
                    mx = max(0, s.v(P(Sym('qp->options->maxit'))))
                    s.vals[a] = s.r('K', a.args[0]).choice((mx, s.r('K2', a.args[0]).randrange(0, mx + 1)))
                return s.vals[a]
            hooks['K'] = kh
        if extra: extra(hooks)
        prof2 = dict(prof)
        def ret(s, app, key):
            if app.args[0] == 'LDL_numeric':
                nn = s.v(app.args[1])
                return nn if s.r('ldlret', key).random() < 0.75 else s.r('ldlret2', key).randrange(0, nn)
            return None
        prof2['ret'] = ret
        return Sample(seed, {'n': n, 'm': m, 'p': p}, hooks, prof2)
    return mkS

def pick_dims(g, p0, nmax=4):
    """problem dimensions of a valuation: small, and near the numbers the compared terms mention"""
    d = {'n': g.randrange(1, nmax + 1), 'm': g.randrange(1, nmax + 1), 'p': 0 if p0 else g.randrange(1, 3)}
    cs = [c for c in evalsym.CONSTS[0] if c <= 24]
    if cs and g.random() < 0.4:
        k = g.choice(('n', 'm') if p0 else ('n', 'm', 'p'))
        d[k] = max(1, g.choice(cs) + g.choice((-1, 0, 0, 1, 2, 3, 5)))
        o = {'n': 1, 'm': 2, 'p': 1}
        for x in d:
            if x != k and d[x]: d[x] = min(d[x], 2)
    return d
def kernel_out(s, app, j, key, i):
    """shape of what the factorisation and ordering kernels return"""
    nm = app.args[0]
    if len(app.args) < 2: return None
    n = s.v(app.args[1])
    if nm == 'LDL_symbolic':
        if j == 3:      # Lp: prefix sums
            t = 0
            for k in range(i): t += s.r('Lp', key, k).choice((0, 1, 1, 2))
            return t
        if j in (4, 5, 6): return s.r('sy', key, j, i).randrange(0, max(1, n))
        if j == 8:
            Pm = s.arr(app.args[4])
            for k in range(n):
                if Pm.get(k) == i: return k
            return 0
    if nm == 'LDL_numeric' and j in (6, 7, 11, 12): return s.r('nu', key, j, i).randrange(0, max(1, n))
    if nm == 'amd_l_order' and j == 3:
        ps = list(range(n)); s.r('amdP', key).shuffle(ps)
        return ps[i] if 0 <= i < n else None
    return None
def setup_sampler(ctx, nmax=3, zero=0.12, ldl_ok=None, hooks=None):
    def mkS(seed):
        import random
        g = random.Random(seed * 104729 + SEED)
        d = pick_dims(g, ctx.p0, nmax)
        def ret(s, app, key):
            if app.args[0] == 'LDL_numeric':
                nn = s.v(app.args[1])
                return nn if ldl_ok or s.r('ldlret', key).random() < 0.8 else s.r('ldlret2', key).randrange(0, nn)
            if app.args[0] == 'amd_l_order': return s.r('amdret', key).choice((0, 0, 1, -1, -2))
            return None
        prof = {'zero': zero, 'ret': ret, 'appout': kernel_out}
        hk = dict(hooks or {})
        def symh(s, a):
            if a in s.vals: return s.vals[a]
            if a.args[0] == 'ordering': s.vals[a] = s.r('ordering').choice((20, 30)); return s.vals[a]   # the two documented orderings
            if a.args[0] == 'sigma_d': s.vals[a] = s.r('sd').choice((0.0, 0.1, 0.5)); return s.vals[a]
            return None
        hk.setdefault('Sym', symh)
        return Sample(seed, d, hk, prof)
    return mkS
def decide_samples(mkS, f, n=30, need=2, consts=(), seed=1, minok=4):
    """f(sample) -> True / None (not admissible) / reason it fails"""
    evalsym.CONSTS[:] = evalsym.harvest(*consts)
    ok = 0; bad = []; opq = 0; last = ''; t0 = time.time()
    for t in range(n * 30):
        if time.time() - t0 > evalsym.LIMIT and (ok + len(bad) >= minok or time.time() - t0 > 3 * evalsym.LIMIT): break
        if ok + len(bad) >= n: break
        if t > n * 8 and ok + len(bad) >= 6: break
        sm = mkS(seed * 1000 + t)
        try:
            r = f(sm)
            if r is None: continue
            if r is True: ok += 1
            else: bad.append((sm, r))
        except (Ambiguous, Skip, ZeroDivisionError, OverflowError): continue
        except UndefVal as u: bad.append((sm, 'undefined value %s' % str(u)[:80]))
        except Opaque as o:
            opq += 1; last = str(o)
            if opq > 8: break
        if len(bad) >= need: return Verdict('refuted', bad)
    if ok < minok: return Verdict('undecided', 'ok %d opaque %d %s' % (ok, opq, last))
    return Verdict('agree', ok)

def free_syms(*xs):
    out = set()
    for x in xs:
        out |= set(find_atoms(x, lambda a: a.kind in ('Sym', 'Mu', 'ArrSym', 'Opq', 'OpqB', 'OpqX', 'ArrOpq', 'Undef', 'UndefB', 'ArrUndef', 'SymB', 'NULL', 'PEQ')))
    return out

# ------------------------------------------------------------------ report
class Report:
    def __init__(self, prop):
        self.prop = prop; self.obl = []; self.t0 = time.time(); self.stats = {}; self.notes = []; self.broken = []
        self.kf = known_findings()
    def add(self, key, verdict, detail='', where=()):
        """verdict: proved/agree/refuted/undecided"""
        if isinstance(verdict, Verdict):
            detail = detail + ((' : ' + describe(verdict)) if verdict.kind not in ('proved', 'agree') else '')
            if verdict.kind == 'agree': detail += ' (normal forms differ, no distinguishing valuation)'
            verdict = verdict.kind
        elif verdict is True: verdict = 'proved'
        elif verdict is False: verdict = 'refuted'
        self.obl.append({'obligation': key, 'verdict': verdict, 'detail': detail.strip(), 'where': [loc_str(w) for w in where][:8]})
        return verdict
    def note(self, s): self.notes.append(s)
    def count(self, k, v): self.stats[k] = self.stats.get(k, 0) + v
    def engine(self, e):
        self.count('functions_analysed', len(e.stats['functions'])); self.count('blocks', e.stats['blocks'])
        self.count('loops', e.stats['loops']); self.count('calls', e.stats['calls']); self.count('memory_accesses', len(e.accesses))
        self.stats.setdefault('functions', [])
        self.stats['functions'] = sorted(set(self.stats['functions']) | {f for f in e.stats['functions'] if not f.startswith('spec_')})
        for n in e.notes[:20]: self.notes.append('analysis: ' + n)
def parallel(rep, jobs, width=6):
    """run independent parts of a check (rep -> None) in forked workers and merge their obligations in order"""
    import pickle
    todo = list(enumerate(jobs)); res = {}; live = {}
    def reap():
        import select
        rs, _, _ = select.select(list(live), [], [])
        for fd in rs:
            b = os.read(fd, 1 << 20)
            if b: live[fd][2].append(b); continue
            k, pid, buf = live.pop(fd); os.close(fd); os.waitpid(pid, 0)
            try: res[k] = pickle.loads(b''.join(buf))
            except Exception: res[k] = ([{'obligation': 'analysis completed (part %d)' % k, 'verdict': 'undecided', 'detail': 'worker ended without a result', 'where': []}], {}, [])
    while todo or live:
        while todo and len(live) < width:
            k, f = todo.pop(0); r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    sub = Report(rep.prop)
                    try: f(sub)
                    except build_ir.BuildError as x: sub.add('sources compile', 'undecided', str(x)[:300])
                    except Exception as x:
                        if os.environ.get('VERIF_DEBUG'):
                            import traceback; traceback.print_exc()
                        sub.add('analysis completed (part %d)' % k, 'undecided', 'internal: %s: %s' % (type(x).__name__, str(x)[:200]))
                    b = pickle.dumps((sub.obl, sub.stats, sub.notes))
                    while b: b = b[os.write(w, b):]
                finally: os._exit(0)
            os.close(w); live[r] = (k, pid, [])
        reap()
    for k in sorted(res):
        obl, stats, notes = res[k]
        rep.obl += obl; rep.notes += notes
        for a, b in stats.items():
            if isinstance(b, list): rep.stats[a] = sorted(set(rep.stats.get(a, [])) | set(b))
            else: rep.stats[a] = rep.stats.get(a, 0) + b
def describe(v):
    d = v.detail
    if v.kind == 'refuted' and isinstance(d, list):
        sm, why = d[0]
        vals = {}
        for a, x in list(sm.vals.items()):
            if a.kind in ('Sym', 'Mu', 'K') and len(vals) < 12: vals[str(a.args[1] if a.kind != 'Sym' else a.args[0])] = evalsym.key_of(x)
        for k, x in sm.dims.items(): vals[k] = x
        return '%s ; witness valuation %s' % (why, json.dumps(vals, sort_keys=True))
    return str(d)
def loc_str(w):
    if isinstance(w, Loc):
        f = w.file or '?'
        if f.startswith(build_ir.REPO): f = f[len(build_ir.REPO):].lstrip('/')
        return '%s:%s in %s%s' % (f, w.line, w.fn, (' called from ' + w.chain()) if w.stack else '')
    return str(w)
def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])
def finish(rep, level, extra=None):
    """print verdict lines, write evidence and replay; returns the exit code"""
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    bad = [o for o in rep.obl if o['verdict'] == 'refuted']
    new = []
    for o in bad:
        k = next((k for k in rep.kf if k['property'] == rep.prop and k['obligation'] == o['obligation']), None)
        if k is not None: print('KNOWN-FINDING: property=%s %s' % (rep.prop, k['what']))
        else: new.append(o)
    n = len(rep.obl); disc = sum(1 for o in rep.obl if o['verdict'] in ('proved', 'agree'))
    und = [o for o in rep.obl if o['verdict'] == 'undecided']
    cov = {'obligations': n, 'discharged': disc,
           'proved_by_normal_form': sum(1 for o in rep.obl if o['verdict'] == 'proved'),
           'agreeing_summaries': sum(1 for o in rep.obl if o['verdict'] == 'agree'),
           'undecided': len(und), 'refuted': len(bad),
           'explanation': extra or '', 'analysed': rep.stats, 'notes': rep.notes[:40],
           'samples': rep.obl[:400]}
    ev = {'property': rep.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
          'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(time.time() - rep.t0, 2), 'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', rep.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for o in und: print('undecided: %s %s %s' % (rep.prop, o['obligation'], o['detail'][:300]))
    if new:
        rp = os.path.join(VERIF, 'evidence', rep.prop + '.violation.json')
        with open(rp, 'w') as f: json.dump({'property': rep.prop, 'violations': new, 'how': 'rerun: cd /verif && python3-vt check.py %s' % rep.prop}, f, indent=1)
        for o in new: print('violated: %s\n  %s\n  at %s' % (o['obligation'], o['detail'][:600], '; '.join(o['where'][:4]) or '-'))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        return 1
    print('%s: %d obligations, %d discharged (%d by normal form), %d undecided' % (rep.prop, n, disc, cov['proved_by_normal_form'], len(und)))
    return 0
ASSUME = ['integers do not overflow; floating-point addition and multiplication are normalised as real arithmetic (comparisons keep NaN)',
          'malloc/calloc succeed outside the out-of-memory analyses; distinct caller arrays do not overlap',
          'libc and math functions behave as specified']
