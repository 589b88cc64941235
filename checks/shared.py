"""C14, C17: shared state and output."""
import re
from scen import *
import effects as eff
from mem import get, per_shape, SHAPES, solve_ctx, norm, Sites, iterations, solve_changes, after_solve, setup_hooks
import solve as SV

# ------------------------------------------------------------------ call graph with constant function pointers
PRINTS = {'printf', 'puts', 'putchar', 'fprintf', 'vprintf', 'vfprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'perror', 'write', 'dprintf', 'mexPrintf', 'mexWarnMsgTxt', 'ssPrintf', 'psignal', 'PySys_WriteStdout', 'PySys_WriteStderr', 'PySys_FormatStdout', 'PySys_FormatStderr', 'PyObject_Print'}
SILENT_OK = {'malloc', 'calloc', 'realloc', 'free', 'sqrt', 'fabs', 'fmin', 'fmax', 'pow', 'floor', 'ceil', 'fmod', 'exp', 'log', 'memcpy', 'memset', 'memmove', 'memcmp', 'strlen', 'strcmp', 'strncmp', 'clock_gettime', 'gettimeofday', 'labs', 'llabs', 'abs', 'qsort', 'bsearch', '__isnan', '__isinf', '__finite', 'hypot', 'cbrt', 'fma', 'copysign', 'ldexp', 'frexp', 'trunc', 'round', 'snprintf', 'sprintf', 'aligned_alloc', 'posix_memalign', 'abort', 'exit', '__assert_fail', 'mxMalloc', 'mxCalloc', 'mxFree', 'mxRealloc', 'clock', 'time'}
SHARED = {'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'lrand48', 'mrand48', 'strtok', 'setenv', 'putenv', 'unsetenv', 'getenv', 'secure_getenv', 'setlocale', 'localeconv', 'signal', 'sigaction', 'fesetround', 'fesetenv', 'feenableexcept', 'fedisableexcept', 'feupdateenv', 'feholdexcept', 'feclearexcept', 'asctime', 'ctime', 'gmtime', 'localtime', 'tmpnam', 'atexit', 'on_exit', 'fopen', 'freopen', 'fclose', 'fread', 'remove', 'rename', 'chdir', 'umask', 'alarm', 'setitimer', 'setrlimit', 'setvbuf', 'setbuf', 'mallopt', 'shmget', 'mmap', 'dlopen', 'lgamma', 'gamma', 'setpriority', 'sched_setaffinity', 'nice', 'setstate', 'initstate', 'popen', 'system', 'open', 'creat', 'clock', 'time', 'getpid', 'gettid', 'pthread_self', 'gettimeofday' }
TIME_OK = {'clock_gettime', 'gettimeofday', 'clock', 'time', 'mach_absolute_time', 'mach_timebase_info', 'QueryPerformanceCounter', 'QueryPerformanceFrequency'}
LIBRARY_ROOTS = ('QP_SETUP', 'QP_SETUP_dense', 'QP_SOLVE', 'QP_CLEANUP', 'QP_CLEANUP_dense')
def callee_name(E, n, i):
    """name of the function an instruction calls, following a constant function pointer"""
    c = i['callee']
    if isinstance(c, dict) and 'fn' in c: return c['fn']
    if isinstance(c, str):
        d = E.defs[n][0].get(c)
        if d is not None and d['op'] == 'load' and isinstance(d['ops'][0], dict) and 'g' in d['ops'][0]:
            ini = E.G.get(d['ops'][0]['g'], {}).get('init')
            if isinstance(ini, dict) and 'fn' in ini: return ini['fn']
    return None
def calls(E, n):
    for b in E.fns[n]['blocks']:
        for i in b['ins']:
            if i['op'] == 'call': yield i
def reach(E, roots):
    seen = {}; todo = [(r, None) for r in roots if r in E.fns]
    while todo:
        n, frm = todo.pop()
        if n in seen: continue
        seen[n] = frm
        for i in calls(E, n):
            nm = callee_name(E, n, i)
            if nm in E.fns: todo.append((nm, n))
            elif nm is None:
                c = i['callee']
                if isinstance(c, str) or not isinstance(c, dict) or 'fn' not in c:
                    for t in E.taken():
                        if len(E.fns[t]['args']) == len(i['args']): todo.append((t, n))
    return seen
def where(i, n): return '%s:%s in %s' % (rel(i.get('file')), i.get('line'), n)
def rel(f):
    f = f or '?'
    return f[len(build_ir.REPO):].lstrip('/') if f.startswith(build_ir.REPO) else f
def externals(E):
    """functions of the library a caller can name"""
    return [n for n, f in E.fns.items() if not f['internal'] and not n.startswith('spec_')]

# ------------------------------------------------------------------ C14
def C14(rep):
    def structure(rep):
        ir = lib(spec=False)
        E = eff.Effects(ir)
        fns = sorted(externals(E)); R = sorted(reach(E, fns))
        rep.count('functions_in_call_graph', len(R)); rep.count('globals', len(E.G)); rep.stats['functions'] = R
        mut = {g for g, d in E.G.items() if not d.get('const')}
        rep.stats['mutable_globals'] = sorted(mut)
        nst = 0
        for n in R:
            d, args = E.defs[n]
            for b in E.fns[n]['blocks']:
                for i in b['ins']:
                    tg = None
                    if i['op'] == 'store': tg = i['ops'][1]
                    elif i['op'] in ('atomicrmw', 'cmpxchg'): tg = i['ops'][0]
                    if tg is not None:
                        nst += 1
                        for bs in E.base(n, tg):
                            if bs[0] == 'g' or (bs[0] == 'deref' and bs[1][0] == 'g'):
                                g = bs[1] if bs[0] == 'g' else bs[1][1]
                                rep.add('no function writes shared storage', Verdict('refuted', '%s writes the global or function-static variable %s' % (n, g)), where=[where(i, n)])
                        # the address of mutable static storage kept in an object
                        if i['op'] == 'store' and i.get('oty') == 'ptr':
                            for bs in E.base(n, i['ops'][0]):
                                if bs[0] == 'g' and bs[1] in mut and any(x[0] != 'alloca' for x in E.base(n, i['ops'][1])):
                                    rep.add('no object refers to shared mutable storage', Verdict('refuted', '%s stores the address of the variable %s in an object' % (n, bs[1])), where=[where(i, n)])
            # stores through arguments: a global handed to a function that writes through it, memcpy/memset
            for b, loc in E.mod[n].items():
                if b[0] == 'g' or (b[0] == 'deref' and b[1][0] == 'g'):
                    g = b[1] if b[0] == 'g' else b[1][1]
                    if g in E.G and E.G[g].get('const'): continue
                    rep.add('no function writes shared storage', Verdict('refuted', '%s writes the global or function-static variable %s' % (loc[2], g)), where=['%s:%s in %s' % (rel(loc[0]), loc[1], loc[2])])
            for i in calls(E, n):
                nm = callee_name(E, n, i); rep.count('call_sites', 1)
                if nm is None:
                    rep.add('calls are resolved', 'undecided', 'call through a pointer that is not constant', where=[where(i, n)]); continue
                if nm in E.fns or nm in TIME_OK: continue
                if nm in SHARED:
                    rep.add('no call uses or changes process-wide state', Verdict('refuted', '%s calls %s' % (n, nm)), where=[where(i, n)])
                elif nm.startswith('llvm.'):
                    if re.match(r'llvm\.(x86\..*mxcsr|set\.(rounding|fpenv|fpmode)|reset\.fp)', nm): rep.add('no call uses or changes process-wide state', Verdict('refuted', '%s changes the floating point environment (%s)' % (n, nm)), where=[where(i, n)])
                elif nm not in SILENT_OK and nm not in PRINTS:
                    rep.add('no call uses or changes process-wide state', 'undecided', '%s calls %s, whose effects are not known' % (n, nm), where=[where(i, n)])
        rep.count('stores', nst)
        if not any(o['verdict'] == 'refuted' for o in rep.obl):
            rep.add('no function writes shared storage', 'proved', '%d stores in %d functions; the %d mutable globals are never a target' % (nst, len(R), len(mut)))
            rep.add('no call uses or changes process-wide state', 'proved')
    def dep(x):
        return [a for a in find_atoms(x, lambda a: a.kind == 'Time' or (a.kind == 'Fn' and a.args[0] == 'addr'))]
    ITEMS = ('x', 'y', 'z', 's')
    def results(p0):
        def run(rep):
            c = solve_ctx(p0); e = c.e; rep.engine(e)
            tim = {}
            # cells that carry time through the solve loop
            def tainted(x, cells): return dep(x) or find_atoms(x, lambda a: a.kind == 'Mu' and a.attr.get('key') in cells)
            carried = set(); ch = True
            while ch:
                ch = False
                for r in c.loops:
                    if r.latch is None: continue
                    for key in r.allmu:
                        if key in carried: continue
                        g = r.nextvals.get(key[1]) if key[0] == 'v' else r.latch.cells.get(key[1])
                        if g is None: continue
                        if any(tainted(x, carried) for cnd, x in g.alts if isinstance(x, (Poly, BDD))): carried.add(key); ch = True
            for f in ITEMS:
                if f == 'y' and p0: continue
                a = arr_at(e, c.st, c.q, 'QP', f)
                check(rep, '%s depends on the instance only' % f, tainted(a, carried), c, sites_of(e, c.st, c.q, 'QP', f, arr=True))
            for f in ('Flag', 'IterationCount', 'fval', 'AMD_RESULT'):
                g = fld(e, c.st, c.q, 'QP', 'stats->' + f)
                t = []
                for cnd, x in g.alts: t += tainted(cnd, carried) + (tainted(x, carried) if isinstance(x, (Poly, BDD)) else [])
                check(rep, '%s depends on the instance only' % f, t, c, sites_of(e, c.st, c.q, 'QP', 'stats->' + f))
            t = []
            for cnd, x in c.ret.alts: t += tainted(cnd, carried) + (tainted(x, carried) if isinstance(x, (Poly, BDD)) else [])
            check(rep, 'the return value depends on the instance only', t, c, [])
        return run
    def check(rep, what, atoms, c, w):
        if not atoms: rep.add('%s (%s)' % (what, c.tag), 'proved')
        else: rep.add('%s (%s)' % (what, c.tag), Verdict('refuted', 'depends on %s' % ', '.join(sorted({'the clock' if a.kind == 'Time' else 'time accumulated by the loop' if a.kind == 'Mu' else 'the address of an object' for a in atoms}))), where=w)
    def shape(rep, c):
        e = c.e
        for f in ('x', 'y', 'z', 's', 'kkt->P', 'kkt->Pinv', 'kkt->Lx', 'kkt->D'):
            if f == 'y' and (c.p0 or c.noA): continue
            try: a = arr_of(e, c.st_setup, fld(e, c.st_setup, c.q, 'QP', f))
            except Exception: continue
            check(rep, '%s after setup depends on the caller\'s data only' % f, dep(a), c, sites_of(e, c.st_setup, c.q, 'QP', f, arr=True))
    per_shape(rep, shape, more=[structure, results(False), results(True)])
    rep.expl = 'every store and call site of every function reachable from an external function of the library (effects of calls propagated through arguments); clock and address dependence of results on the value summaries'

# ------------------------------------------------------------------ C17
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|q|j|z|t|L)?([diouxXeEfFgGaAcspn%])')
def want_types(fmt):
    out = []
    pos = 0
    while True:
        k = fmt.find('%', pos)
        if k < 0: return out
        m = CONV.match(fmt, k)
        if not m: return None
        pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == '%': continue
        if w == '*': out.append(('*', 'i32'))
        if pr == '*': out.append(('*', 'i32'))
        if cv in 'dioxXuc': out.append((m.group(0), 'i64' if ln in ('l', 'll', 'q', 'j', 'z', 't') else 'i32'))
        elif cv in 'eEfFgGaA': out.append((m.group(0), 'x86_fp80' if ln == 'L' else 'double'))
        else: out.append((m.group(0), 'ptr'))
def gstring(E, x):
    if isinstance(x, dict) and 'g' in x and not x.get('off'):
        ini = E.G.get(x['g'], {}).get('init')
        if isinstance(ini, dict) and 's' in ini: return ini['s']
        if isinstance(ini, str): return ini
        if isinstance(ini, list) and all(isinstance(b, int) for b in ini): return bytes(b & 255 for b in ini).split(b'\0')[0].decode('latin1')
    return None
FMT = {'printf': 0, 'fprintf': 1, 'dprintf': 1, 'mexPrintf': 0, 'sprintf': 1, 'snprintf': 2, 'PySys_WriteStdout': 0, 'PySys_WriteStderr': 0}
def arg_type(E, n, x):
    if isinstance(x, str):
        d = E.defs[n][0].get(x)
        if d is not None: return d.get('ty')
        for a in E.fns[n]['args']:
            if a['id'] == x: return a.get('ty')
        return None
    if isinstance(x, dict):
        if x.get('t'): return x['t']
        if 'g' in x or 'fn' in x or 'n' in x: return 'ptr'
        if 'f' in x: return 'double'
    return None
def formats(rep, E, fns):
    cnt = 0
    for n in fns:
        if n.startswith('spec_'): continue
        for i in calls(E, n):
            nm = callee_name(E, n, i)
            if nm not in FMT or len(i['args']) <= FMT[nm]: continue
            k = FMT[nm]
            s = gstring(E, i['args'][k])
            if s is None:
                rep.add('format strings are constant', 'undecided', '%s: format of %s not constant' % (n, nm), where=[where(i, n)]); continue
            w = want_types(s)
            if w is None: rep.add('printed values match their directives', 'undecided', 'format %r not understood' % s, where=[where(i, n)]); continue
            have = i['args'][k + 1:]; cnt += 1
            if len(have) < len(w):
                rep.add('printed values match their directives', Verdict('refuted', '%r has %d directives, %d values are passed' % (s, len(w), len(have))), where=[where(i, n)]); continue
            for (d, t), a in zip(w, have):
                ty = arg_type(E, n, a)
                if ty is None: rep.add('printed values match their directives', 'undecided', 'type of an operand unknown', where=[where(i, n)]); continue
                if ty != t: rep.add('printed values match their directives', Verdict('refuted', 'directive %s of %r takes %s, the value passed is %s' % (d, s, t, ty)), where=[where(i, n)])
    rep.count('format_strings', cnt)
    if not any(o['obligation'] == 'printed values match their directives' and o['verdict'] != 'proved' for o in rep.obl):
        rep.add('printed values match their directives', 'proved', '%d calls' % cnt)
def C17(rep):
    def structure(rep):
        E = eff.Effects(lib(spec=False))
        formats(rep, E, sorted(E.fns))
        kern = [k for k in OPAQUE | {'LDL_perm', 'LDL_permt', 'LDL_dsolve'} if k in E.fns]
        bad = False; R = reach(E, kern)
        for n in sorted(R):
            for i in calls(E, n):
                nm = callee_name(E, n, i); rep.count('kernel_call_sites', 1)
                if nm in PRINTS:
                    bad = True
                    rep.add('factorisation and ordering kernels print nothing', Verdict('refuted', '%s prints (%s), and cannot know the verbosity' % (n, nm)), where=[where(i, n)])
        if not bad: rep.add('factorisation and ordering kernels print nothing', 'proved', '%d functions' % len(R))
        for n in sorted(reach(E, LIBRARY_ROOTS)):
            for i in calls(E, n):
                nm = callee_name(E, n, i)
                if nm and nm not in E.fns and nm not in PRINTS and nm not in SILENT_OK and nm not in SHARED and not nm.startswith('llvm.'):
                    rep.add('calls of unknown functions', 'undecided', '%s calls %s' % (n, nm), where=[where(i, n)])
    def solve(p0):
        def run(rep):
            c = solve_ctx(p0); e = c.e; rep.engine(e)
            ok = SV.main_loop(c, rep)
            verb = LT(ZERO, P(Sym('qp->options->verbose')))
            ev = [v for v in e.events if v.kind == 'print']
            rep.count('print_sites', len(ev))
            for v in ev:
                if not sat(v.pc & ~verb): rep.add('nothing is printed at verbosity 0 (%s)' % c.tag, 'proved', 'guard implies verbosity > 0', where=[v.loc]); continue
                r = SV.decide_exit(c, v.pc, verb) if ok else Verdict('undecided', '')
                rep.add('nothing is printed at verbosity 0 (%s)' % c.tag, r, where=[v.loc])
            if not ev: rep.add('nothing is printed at verbosity 0 (%s)' % c.tag, 'proved', 'no print call')
        return run
    ch = {p0: solve_changes(p0) for p0 in (False, True)}
    def shape(rep, c):
        e = c.e
        ns = c.nset_ev
        after_solve(c, ch[bool(c.noA)])
        c.then('QP_CLEANUP_dense' if c.dense else 'QP_CLEANUP')
        mkS = setup_sampler(c, ldl_ok=True, hooks=setup_hooks())
        ev = [(k, v) for k, v in enumerate(e.events) if v.kind == 'print']
        rep.count('print_sites', len(ev))
        for k, v in ev:
            name = 'setup' if k < ns else 'cleanup'
            def f(s, v=v):
                for sub in (iterations(s, [(K, T) for K, T in v.loops], random.Random(s.seed)) if v.loops else [s]):
                    try:
                        if not sub.b(v.pc): continue
                    except Skip: continue
                    if k >= ns and verbose_set(sub): continue
                    return '%s prints (%s) while the verbosity is 0' % (name, v.data[0])
                return True
            rep.add('%s prints nothing (%s)' % (name, c.tag), decide_samples(mkS, f, n=60, consts=(v.pc,)), where=[v.loc])
        if not ev: rep.add('setup and cleanup print nothing (%s)' % c.tag, 'proved', 'no print call')
    def verbose_set(s):
        for a, x in s.vals.items():
            if a.kind == 'Sym' and a.args[0] == 'after:qp->options->verbose' and isinstance(x, int) and x > 0: return True
        return False
    per_shape(rep, shape, more=[structure, solve(False), solve(True)])
    rep.expl = 'guards of every print event of setup, solve and cleanup; call graph of the kernels; directive and operand types of every format string in the SSA'
import random
