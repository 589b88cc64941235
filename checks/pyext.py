"""C22-C28: the Python extension module."""
import itertools, random
from scen import *
import pyapi
from pyapi import PyCtx, NULLO, UNDEFO
import effects as eff

FLOATS = {23: 'float16', 11: 'float32', 12: 'float64', 13: 'longdouble'}
OTHERS = {7: 'int64', 0: 'bool', 17: 'object', 15: 'complex', 18: 'bytes', 5: 'int32'}
KEYS = ('MAXITER', 'ABSTOL', 'RELTOL', 'SIGMA', 'VERBOSE', 'OUTPUT')
FIELD = {'MAXITER': 'maxit', 'ABSTOL': 'abstol', 'RELTOL': 'reltol', 'SIGMA': 'sigma', 'VERBOSE': 'verbose'}
DFLT = {'maxit': 100, 'abstol': 1e-6, 'reltol': 1e-6, 'sigma': 100.0, 'verbose': 0}
NPC, NPF, OWN = 1, 2, 0x504
FLAGBITS = {1 << 24: 'int', 1 << 25: 'list', 1 << 26: 'tuple', 1 << 27: 'bytes', 1 << 28: 'str', 1 << 29: 'dict'}

def number(x):
    x = float(x)
    return Fraction(x) if x == x and abs(x) != float('inf') else x

class Scn:
    """one class of calls: shapes, element types and memory layout of the arrays, option values"""
    def __init__(self, tag, n=2, m=3, p=1, eq=True, seed=0):
        self.tag = tag; self.n, self.m, self.p = n, m, p; self.seed = seed; self.warn = False
        self.arr = {'c': [12, [n], OWN | NPC | NPF], 'h': [12, [m], OWN | NPC | NPF], 'P': [12, [n, n], OWN | NPC], 'G': [12, [m, n], OWN | NPC]}
        if eq: self.arr['A'] = [12, [p, n], OWN | NPC]; self.arr['b'] = [12, [p], OWN | NPC | NPF]
        self.nonarr = set(); self.opts = None; self.optsdict = True
    # ---- what the documented contract says about this call
    def both(self): return 'A' in self.arr and 'b' in self.arr
    def malformed(self):
        """reason a call must be rejected because of its arrays"""
        if self.nonarr: return 'not an array: ' + ','.join(sorted(self.nonarr))
        if self.opts is not None and not self.optsdict: return 'opts is not a dictionary'
        for r in ('c', 'h', 'P', 'G'):
            if r not in self.arr: return r + ' missing'
        use = ['c', 'h', 'G', 'P'] + (['A', 'b'] if self.both() else [])
        for x in use:
            t, d, f = self.arr[x]
            if t not in FLOATS: return '%s has element type %s' % (x, OTHERS.get(t, t))
            if len(d) != (1 if x in 'chb' else 2): return '%s has %d dimensions' % (x, len(d))
        n, m = self.arr['c'][1][0], self.arr['h'][1][0]
        if self.arr['G'][1] != [m, n]: return 'G is %s, expected %s' % (self.arr['G'][1], [m, n])
        if self.arr['P'][1] != [n, n]: return 'P is %s, expected %s' % (self.arr['P'][1], [n, n])
        if self.both():
            p = self.arr['b'][1][0]
            if self.arr['A'][1] != [p, n]: return 'A is %s, expected %s' % (self.arr['A'][1], [p, n])
        return None
    def badopt(self):
        for k, v in (self.opts or {}).items():
            if k == 'MAXITER' and not (v[0] == 'int' and 0 < v[1] < 200): return k
            if k in ('ABSTOL', 'RELTOL') and not (v[0] in ('float', 'floatsub') and 0.0 < v[1] < 1.0): return k
            if k == 'SIGMA' and not (v[0] in ('float', 'floatsub') and v[1] > 0.0): return k
            if k == 'VERBOSE' and not (v[0] == 'int' and 0 <= v[1] < 2 ** 63): return k
        return None
    def unclear(self):
        """option values the documentation leaves open"""
        return any(v[0] == 'int' and v[1] >= 2 ** 31 and k == 'VERBOSE' for k, v in (self.opts or {}).items())
    def level(self):
        v = (self.opts or {}).get('OUTPUT')
        if v is None: return 'plain'
        if v[0] == 'int' and v[1] in (1, 2): return {1: 'basic', 2: 'advanced'}[v[1]]
        return 'plain'
    def warned(self):
        v = (self.opts or {}).get('OUTPUT')
        return v is not None and not (v[0] == 'int' and 0 <= v[1] < 2 ** 63)
    def expected(self): return {f: (self.opts[k][1] if self.opts and k in self.opts else DFLT[f]) for k, f in FIELD.items()}
    def describe(self):
        o = '' if self.opts is None else ', opts=' + (str({k: (v[1] if len(v) > 1 else v[0]) for k, v in self.opts.items()}) if self.optsdict else 'not a dict')
        return ', '.join('%s%s%s' % (k, v[1], '' if v[0] == 12 else ' ' + (FLOATS.get(v[0]) or OTHERS.get(v[0], str(v[0])))) for k, v in sorted(self.arr.items())) + o + (', warnings are errors' if self.warn else '')
    # ---- valuation of the symbols of the summary
    def sample(self, ctx):
        sc = self
        def optval(nm):
            return (sc.opts or {}).get(nm.split('opt:')[1])
        def sym(s, a):
            if a in s.vals: return s.vals[a]
            n = a.args[0]; v = None
            if n.startswith('arg:'):
                x, _, f = n[4:].partition('->')
                if x in sc.arr:
                    t, d, fl = sc.arr[x]
                    v = {'nd': len(d), 'descr->type_num': t, 'descr+28': t, 'flags': fl}.get(f)
                    if f.startswith('descr->') and v is None: v = {'elsize': 8, 'kind': ord('f')}.get(f[7:], 1)
            elif n.startswith('size:arg:'):
                d = sc.arr.get(n[9:], [0, []])[1]; v = 1
                for y in d: v *= y
            elif n.startswith(('long:', 'int:')):
                o = optval(n); lim = 63 if n.startswith('long') else 31
                v = o[1] if o and o[0] in ('int', 'bool') and -2 ** lim <= o[1] < 2 ** lim else -1
            elif n.startswith('float:'):
                o = optval(n); v = number(o[1]) if o and o[0] in ('float', 'floatsub', 'int', 'bool') else Fraction(-1)
            elif n.startswith('ovf:'):
                o = optval(n); v = 0
                if o and o[0] == 'int': v = 1 if o[1] >= 2 ** 63 else (-1 if o[1] < -2 ** 63 else 0)
            elif n.startswith('dflt:'): v = DFLT.get(n[5:], 1)
            elif n == 'ExitCode': v = s.r('exit', sc.seed).choice((0, 1, 2, 3))
            elif n == 'sol:IterationCount': v = 17
            elif n.startswith('sol:') or '->stats->' in n: v = s.r('sol', n).randrange(1, 10 ** 6) / 1024.0
            if v is None: return None
            s.vals[a] = v
            return v
        def cls(o): return {'int': 'PyLong', 'bool': 'PyBool', 'float': 'PyFloat', 'floatsub': 'floatsub', 'str': 'PyUnicode', 'none': 'None'}[o[0]]
        def isa(x, ty, exact=False):
            ty = ty.replace('_Type', '')
            if x.startswith('arg:'):
                x = x[4:]
                if x == 'opts': return ty == 'PyDict' and sc.optsdict
                return ty == 'PyArray' and x in sc.arr and x not in sc.nonarr
            if x.startswith('opt:'):
                o = (sc.opts or {}).get(x[4:])
                if o is None: return False
                if exact: return {'int': 'PyLong', 'bool': 'PyBool', 'float': 'PyFloat', 'str': 'PyUnicode'}.get(o[0]) == ty
                return ty in {'int': ('PyLong',), 'bool': ('PyBool', 'PyLong'), 'float': ('PyFloat',), 'floatsub': ('PyFloat', 'PyDoubleArrType'), 'str': ('PyUnicode',)}.get(o[0], ())
            return False
        def symb(s, a):
            n = a.args[0]
            if n.startswith('given:'):
                x = n[6:]
                return (sc.opts is not None) if x == 'opts' else x in sc.arr
            if n.startswith('has:'): return n[4:] in (sc.opts or {})
            if n.startswith(('isa:', 'exact:')):
                k, rest = n.split(':', 1); x, _, ty = rest.rpartition(':')
                return isa(x, ty, k == 'exact')
            if n.startswith('flag:'):
                x, _, mask = n[5:].rpartition(':'); mask = int(mask); t = FLAGBITS.get(mask)
                if x == 'arg:opts': return t == 'dict' and sc.optsdict
                if x.startswith('opt:'):
                    o = (sc.opts or {}).get(x[4:])
                    return bool(o) and {'int': 'int', 'bool': 'int', 'str': 'str'}.get(o[0]) == t
                return False
            if n.startswith(('longerr:', 'interr:', 'floaterr:')):
                o = (sc.opts or {}).get(n.split('opt:')[1])
                if o is None: return False
                if n.startswith('float'): return o[0] in ('str', 'none') or (o[0] == 'int' and abs(o[1]) > 10 ** 300)
                lim = 63 if n.startswith('long') else 31
                return not (o[0] in ('int', 'bool') and -2 ** lim <= o[1] < 2 ** lim)
            if n == 'warn-raises': return sc.warn
            if n.startswith('samedims:'):
                x, y, z = n[9:].split(':'); u, w, k = sc.arr.get(x, [0, []])[1], sc.arr.get(y, [0, []])[1], len(sc.arr.get(z, [0, []])[1])
                return len(u) >= k and len(w) >= k and u[:k] == w[:k]
            return None
        def peq(s, a):
            u, w = a.args
            for x, y in ((u, w), (w, u)):
                if x.startswith('typeof:') and y.startswith('@'): return isa(x[7:], y[1:], True)
            return u == w
        def elem(s, name, bname, att, i):
            if name.startswith('arg:') and name.endswith('->dimensions'):
                d = sc.arr.get(name[4:].split('->')[0], [0, []])[1]
                return d[i] if i < len(d) else 7 + s.r('garbage', name, i).randrange(0, 3)
            if name.startswith(('val:', 'sol:')) or name.endswith('->data'): return s.r('el', name, i).randrange(1, 4096) / 64.0
            return None
        s = Sample(7919 * self.seed + SEED, {}, {'Sym': sym, 'SymB': symb, 'PEQ': peq}, {'elem': elem})
        s.fuel = [4 * 10 ** 6]; s.exact = True
        return s

class Err:
    def __init__(self, props, msg, loc): self.props = props; self.msg = msg; self.loc = loc

class Replay:
    """events of one valuation checked against the rules of the C-API"""
    def __init__(self, ctx, sc):
        self.c = ctx; self.e = ctx.e; self.sc = sc; self.s = sc.sample(ctx); self.err = []
        self.owned = {}; self.held = {}; self.child = {}; self.exc = None; self.gil = 1
        self.nsetup = self.nsolve = self.nclean = 0; self.order = []; self.copied = []; self.cargs = {}
        self.dead = set(); self.everowned = {}; self.opaque = None
        try: self.run()
        except (Opaque, UndefVal, Skip, Ambiguous, ZeroDivisionError) as x: self.opaque = x      # what was found up to here stands
    def bad(self, props, msg, ev): self.err.append(Err(props.split(), msg, ev.loc if ev is not None else None))
    def pick(self, g):
        if not isinstance(g, GV): return g
        for c, p in g.alts:
            if self.s.b(c): return p
        raise Opaque('no alternative')
    def num(self, g):
        x = self.pick(g)
        if isinstance(x, BDD): return 1 if self.s.b(x) else 0
        if isinstance(x, Poly): return self.s.v(x)
        raise Opaque('number')
    def alive(self, o):
        return bool(o.info.get('borrowed')) or self.owned.get(o, 0) + self.held.get(o, 0) > 0 or o not in self.everowned
    def name(self, o):
        if o.info.get('root'): return 'the copy of %s' % o.info['root'].replace('arg:', '')
        return o.name.replace('arg:', 'argument ').replace('opt:', 'option ')
    def crash(self): return 'C22' if self.sc.malformed() or self.sc.badopt() else 'C28 C22'
    def use(self, p, ev, what, null_ok=False):
        if not isinstance(p, Ptr): raise Opaque('pointer')
        if self.gil == 0: self.bad('C25', '%s while the interpreter lock is released' % what, ev)
        if p.obj is NULLO:
            if not null_ok: self.bad(self.crash(), '%s on a null pointer' % what, ev)
            return
        if p.obj is UNDEFO or p.obj.kind == 'undef': self.bad(self.crash(), '%s on an uninitialised pointer' % what, ev); return
        if p.obj.kind == 'opaque' and p.obj.name.startswith('opq'): raise Opaque(what)
        if not self.alive(p.obj): self.bad('C23 C28', '%s on %s after its last reference was released' % (what, self.name(p.obj)), ev)
    def drop(self, o, ev, what):
        if o.info.get('borrowed') and self.owned.get(o, 0) <= 0:
            self.bad('C23', '%s releases %s, a borrowed reference' % (what, self.name(o)), ev); return
        if self.owned.get(o, 0) <= 0:
            if not self.alive(o): return            # already reported as use after release
            self.bad('C23', '%s releases %s more often than it was acquired' % (what, self.name(o)), ev); self.owned[o] = self.owned.get(o, 0) - 1; return
        self.owned[o] -= 1
        if self.owned[o] + self.held.get(o, 0) == 0 and not o.info.get('borrowed'): self.free(o)
    def free(self, o):
        for ch in self.child.pop(o, []):
            self.held[ch] = self.held.get(ch, 0) - 1
            if self.held[ch] + self.owned.get(ch, 0) == 0 and not ch.info.get('borrowed'): self.free(ch)
    def run(self):
        s = self.s; e = self.e
        for ev in e.events:
            if ev.kind in ('alloc', 'free', 'clock', 'print', 'call', 'globwrite', 'wild', 'kernel'): continue
            if ev.loops:
                for sub in self.instances(ev.loops):
                    old = self.s; self.s = sub
                    try:
                        if sub.b(ev.pc): self.event(ev)
                    finally: self.s = old
                continue
            if s.b(ev.pc): self.event(ev)
        p = self.pick(self.c.ret)
        self.result = p if isinstance(p, Ptr) else None
        if self.result is None: raise Opaque('result')
        self.isnull = self.result.obj is NULLO
    def instances(self, loops):
        out = [self.s]
        for K, T in loops:
            nxt = []
            for sm in out:
                try: n = sm.v(T) if T is not None else 3
                except Opaque: n = 3
                if n > 64: raise Skip()
                for k in range(n):
                    q = Sample.__new__(Sample); q.__dict__.update(sm.__dict__); q.vals = dict(sm.vals); q.vals[K] = k; q.memo = {}; q.arrs = {}
                    nxt.append(q)
            out = nxt
        return out
    def event(self, ev):
        k = ev.kind; d = ev.data; sc = self.sc
        if k == 'touch': return self.touch(ev, *d)
        if k == 'api':
            nm, args = d
            if self.gil == 0: self.bad('C25', 'calls %s while the interpreter lock is released' % nm, ev)
            for a in args: self.use(self.pick(a), ev, nm)
        elif k == 'inc':
            p = self.pick(d[0]); self.use(p, ev, 'Py_INCREF', d[1])
            if p.obj is not NULLO: self.owned[p.obj] = self.owned.get(p.obj, 0) + 1; self.everowned.setdefault(p.obj, ev)
        elif k == 'dec':
            p = self.pick(d[0]); self.use(p, ev, 'Py_DECREF', d[1])
            if p.obj is not NULLO and isinstance(p, Ptr): self.drop(p.obj, ev, 'Py_DECREF')
        elif k == 'new':
            self.owned[d] = self.owned.get(d, 0) + 1; self.everowned[d] = ev
            if d.info.get('root'): self.copied.append((d, ev))
        elif k == 'steal': self.drop(self.pick(d).obj, ev, 'the call')
        elif k == 'seterr': self.exc = d
        elif k == 'seterr-if':
            if self.s.b(d[0]): self.exc = d[1]
        elif k == 'clearerr': self.exc = None
        elif k == 'peek': self.use(self.pick(d), ev, 'reading the type')
        elif k == 'rawfloat':
            p = self.pick(d); self.use(p, ev, 'reading a float')
            o = (sc.opts or {}).get(p.obj.name.split(':')[-1])
            if not o or o[0] not in ('float', 'floatsub'): self.bad('C26', 'reads the float value of an option that is not a float', ev)
        elif k == 'gil':
            if d == 0:
                if self.gil == 0: self.bad('C25', 'releases the interpreter lock twice', ev)
                self.gil = 0
            elif d == 1:
                if self.gil == 1: self.bad('C25', 're-acquires the interpreter lock without having released it', ev)
                self.gil = 1
            elif d == 2: self.gilsave = self.gil; self.gil = 1
            else: self.gil = getattr(self, 'gilsave', 1)
        elif k == 'setup': self.setup(ev, *d)
        elif k == 'solve': self.solve(ev, *d)
        elif k == 'cleanup': self.cleanup(ev, *d)
        elif k == 'build': self.build(ev, *d)
        elif k == 'dictset':
            c = self.pick(d[0]); v = self.pick(d[2]); self.use(c, ev, 'PyDict_SetItemString'); self.use(v, ev, 'PyDict_SetItemString')
            self.contents.setdefault(c.obj, ['dict', {}])[1][d[1]] = ('obj', v.obj); self.hold(c.obj, v.obj)
        elif k == 'badformat': self.bad('C27', 'malformed format %r' % d, ev)
        elif k == 'unknown':
            if self.gil == 0 and d.startswith(('Py', '_Py')): self.bad('C25', 'calls %s while the interpreter lock is released' % d, ev)
            raise Opaque('call of %s' % d)
    contents = property(lambda s: s.__dict__.setdefault('_cont', {}))
    def hold(self, c, o):
        self.held[o] = self.held.get(o, 0) + 1; self.child.setdefault(c, []).append(o)
    def touch(self, ev, o, off, size, write, ow, loops):
        sc = self.sc
        what = 'writing' if write else 'reading'
        if o is NULLO or o.kind in ('null', 'undef'):
            self.bad(self.crash(), '%s through %s pointer' % (what, 'a null' if o is NULLO else 'an uninitialised'), ev); return
        if o.info.get('qp'):
            if self.nclean: self.bad('C27 C28', '%s the problem after it was cleaned up' % what, ev)
            if write and '->' in o.name and o.info.get('es') and self.nsetup: self.bad('C27', 'writes to the solver\'s own %s' % o.name.split('->')[-1], ev)
            if o.size is not None and o.info.get('es'):
                i = self.s.v(off); z = self.s.v(o.size)
                if i < 0 or i + size > z: self.bad('C27', '%s %s outside its %d elements' % (what, o.name.split('->')[-1], z // 8), ev)
            return
        if ow is None: return
        if self.gil == 0: self.bad('C25', '%s %s while the interpreter lock is released' % (what, self.name(ow)), ev)
        if not self.alive(ow): self.bad('C23 C28', '%s %s after its last reference was released' % (what, self.name(ow)), ev)
        if ow.name.startswith('arg:'):
            x = ow.name[4:]
            if x == 'opts' or x not in sc.arr: return
            if x in sc.nonarr: self.bad('C22', '%s array fields of %s, which is not an array' % (what, x), ev); return
            if o.name.endswith(('->dimensions', '->strides')):
                i = self.s.v(off); nd = len(sc.arr[x][1])
                if i < 0 or i >= 8 * nd: self.bad('C22', 'reads dimension %d of %s, which has %d' % (i // 8, x, nd), ev)
            elif o.name.endswith('->data'):
                if write: self.bad('C28', 'writes to the caller\'s array %s' % x, ev)
                self.copied.append((ow, ev))
        elif o.info.get('es') and o.size is not None and o.name.endswith('.data'):
            i = self.s.v(off); z = self.s.v(o.size)
            if i < 0 or i + size > z: self.bad('C27', '%s array element %s of %d' % (what, i // 8, z // 8), ev)
    # ---- solver calls
    def owner(self, p):
        return p.obj.info.get('pyowner')
    def setup(self, ev, nm, args):
        sc = self.sc; self.nsetup += 1; self.order.append('setup')
        if self.gil == 0: pass
        if sc.malformed(): self.bad('C22 C28', 'a problem is set up although %s' % sc.malformed(), ev); return
        if sc.badopt(): self.bad('C26', 'a problem is set up although option %s is out of range' % sc.badopt(), ev); return
        if nm != 'QP_SETUP_dense': self.bad('C28', 'sets the problem up with %s' % nm, ev); return
        n, m = sc.n, sc.m; p = sc.arr['b'][1][0] if sc.both() else 0
        for what, g, x in (('number of variables', args[0], n), ('number of inequalities', args[1], m), ('number of equalities', args[2], p)):
            if self.num(g) != x: self.bad('C28', 'passes %s as the %s, expected %d' % (self.num(g), what, x), ev); return
        o = self.num(args[10])
        for nm, g, d in (('P', args[3], [n, n]), ('A', args[4], [p, n]), ('G', args[5], [m, n]), ('c', args[6], [n]), ('h', args[7], [m]), ('b', args[8], [p])):
            q = self.pick(g)
            if not isinstance(q, Ptr): raise Opaque('setup argument')
            if nm in 'Ab' and not sc.both():
                if q.obj is not NULLO: self.bad('C28', 'passes data for %s although there are no equality constraints' % nm, ev)
                continue
            if q.obj is NULLO: self.bad('C28', 'passes no data for %s' % nm, ev); continue
            ow = self.owner(q)
            if q.obj.name.startswith('arg:'):
                self.bad('C28', 'passes the data of the caller\'s own %s instead of a private copy' % q.obj.name[4:].split('->')[0], ev); continue
            if ow is None:
                if q.obj.kind in ('opaque', 'undef'): raise Opaque('data of ' + nm)
                ow = q.obj
            self.cargs[nm] = ow
            if ow.info.get('root') and ow.info['root'] != 'arg:' + nm: self.bad('C28', 'passes %s as %s' % (self.name(ow), nm), ev); continue
            if ow.info.get('alias'): self.bad('C28', 'the array passed for %s may be the caller\'s own' % nm, ev); continue
            t = ow.info.get('type')
            if t is not None and self.s.v(t) != 12: self.bad('C28', 'the array passed for %s holds elements of type %s, not double' % (nm, FLOATS.get(self.s.v(t), self.s.v(t))), ev); continue
            if not self.alive(ow): self.bad('C28 C23', 'the array passed for %s was released before the setup' % nm, ev); continue
            if self.s.v(q.off) != 0: self.bad('C28', 'the data pointer passed for %s is shifted' % nm, ev); continue
            if len(d) == 2:
                f = ow.info.get('forder'); f = self.s.v(f) if f is not None else 0
                lay = sc.arr[nm][2]; fort = f == 1 or (f in (2, -1) and lay & NPF and not lay & NPC)
                want = 30 if fort else 20
                if o != want: self.bad('C28', '%s is stored %s-major but the ordering argument is %s' % (nm, 'column' if fort else 'row', o), ev); continue
            a = ev.state.arrs.get(q.obj)
            if a is None: raise Opaque('contents of ' + nm)
            A = self.s.arr(self.pick(a)); R = self.s.arr(ArrSym('val:arg:' + nm)); sz = 1
            for y in d: sz *= y
            for i in range(sz):
                try: v = A.get(i)
                except UndefVal: self.bad('C28', 'element %d of the data passed for %s is not assigned' % (i, nm), ev); break
                if v != R.get(i): self.bad('C28', 'element %d of the data passed for %s is not the caller\'s' % (i, nm), ev); break
        q = self.pick(args[9])
        if not isinstance(q, Ptr) or q.obj is not NULLO: self.bad('C28', 'passes a permutation nobody supplied', ev)
    def solve(self, ev, nm, args):
        sc = self.sc; self.nsolve += 1; self.order.append('solve')
        p = self.pick(args[0])
        if not isinstance(p, Ptr) or p.obj is not self.e.qp or not self.nsetup: self.bad('C28', 'solves something else than the problem set up', ev); return
        if self.nclean: self.bad('C28', 'solves a problem that was cleaned up', ev); return
        for x in ('c', 'h', 'b', 'P', 'A', 'G'):
            ow = self.cargs.get(x)
            if ow is not None and x in 'chb' and not self.alive(ow): self.bad('C28', 'the copy of %s is released before the solve that reads it' % x, ev)
        if sc.badopt(): self.bad('C26', 'a problem is solved although option %s is out of range' % sc.badopt(), ev); return
        if sc.unclear(): return
        st = ev.state; e = self.e; e.quiet += 1
        try:
            for f, want in sc.expected().items():
                v = self.num(fld(e, st, p.obj, 'QP', 'options->' + f))
                if v != want and float(v) != float(want) and not (v != v): self.bad('C26', 'setting %s is %s in the solve, expected %s' % (f, v, want), ev)
                if v != v: self.bad('C26', 'setting %s is not a number in the solve' % f, ev)
        except UndefVal: self.bad('C26', 'setting %s is unassigned in the solve' % f, ev)
        finally: e.quiet -= 1
    def cleanup(self, ev, nm, args):
        self.nclean += 1; self.order.append('cleanup')
        p = self.pick(args[0])
        if not isinstance(p, Ptr) or p.obj is NULLO or not self.nsetup: self.bad(self.crash(), '%s without a problem' % nm, ev); return
        if nm != 'QP_CLEANUP_dense': self.bad('C28', 'cleans up with %s' % nm, ev)
        if self.nclean > 1: self.bad('C28', 'the problem is cleaned up twice', ev)
    # ---- results
    def build(self, ev, o, kind, items, left=0, fmt=''):
        if kind == 'format':
            if left: self.bad('C27', 'format %r does not use all arguments' % fmt, ev)
            if len(items) != 1: self.contents[o] = ['seq', [self.conv(ev, o, x) for x in items]]; return
            k, v = self.conv(ev, o, items[0])
            self.contents[o] = [k, v] if k != 'num' else ['num', v]
        elif kind == 'dict': self.contents[o] = ['dict', {}]
        elif kind == 'num': self.contents[o] = ['num', self.num(items[0][1])]
    def conv(self, ev, o, it):
        k, v = it
        if k == 'dict':
            out = {}
            for (kk, key), val in v: out[key] = self.conv(ev, o, val)
            return ('dict', out)
        if k == 'seq': return ('seq', [self.conv(ev, o, x) for x in v])
        if k == 'str': return ('str', v)
        if k == 'missing': self.bad('C27', 'a format unit has no argument', ev); raise Opaque('format')
        if k == 'obj':
            p = self.pick(v[0]); self.use(p, ev, 'Py_BuildValue')
            if p.obj is NULLO: raise Opaque('null item')
            self.hold(o, p.obj)
            if v[1]: self.drop(p.obj, ev, 'Py_BuildValue')
            return ('obj', p.obj)
        if k == 'num':
            ch, g, t = v
            want = {'l': ('i64',), 'L': ('i64',), 'n': ('i64',), 'k': ('i64',), 'K': ('i64',), 'i': ('i32',), 'I': ('i32',), 'h': ('i32',), 'b': ('i32',), 'd': ('double',), 'f': ('double',)}.get(ch)
            if want is None: raise Opaque('format unit ' + ch)
            if t not in want: self.bad('C27', 'format unit %s is given a %s' % (ch, t), ev); return ('num', None)
            return ('num', self.num(g))
        raise Opaque(k)

def check_result(r):
    """C27: the dictionary describes this solve"""
    sc = r.sc; e = r.e; s = r.s; out = []
    q = e.qp
    if q is None or r.isnull: return ['no result for a valid call'] if r.isnull else []
    def deref(x):
        if x[0] == 'obj' and x[1] in r.contents: return deref(tuple(r.contents[x[1]]))
        return x
    top = deref(('obj', r.result.obj))
    if top[0] == 'obj': raise Opaque('result object')
    if top[0] != 'dict': return ['the result is not a dictionary']
    secs = {'plain': {'sol'}, 'basic': {'sol', 'basicInfo'}, 'advanced': {'sol', 'basicInfo', 'advInfo'}}[sc.level()]
    if set(top[1]) != secs: out.append('sections %s, expected %s' % (sorted(map(str, top[1])), sorted(secs)))
    def vec(where, x, f, ln):
        k, o = deref(x)
        if k != 'obj' or o.struct != pyapi.ARRF: out.append('%s is not an array' % where); return
        if o.name.startswith('arg:'): out.append('%s is the caller\'s argument' % where); return
        if o.info.get('borrowsdata'): out.append('%s shares storage with the solver instead of owning a copy' % where); return
        if s.v(o.info['type']) != 12: out.append('%s has element type %s' % (where, s.v(o.info['type']))); return
        d = o.info.get('dims')
        if d is None: raise Opaque('shape of ' + where)
        d = [s.v(y) for y in d]
        if d != [ln]: out.append('%s has shape %s, expected (%d,)' % (where, d, ln)); return
        a = r.c.st.arrs.get(o.info['data'])
        if a is None: out.append('%s is never filled' % where); return
        A = s.arr(r.pick(a)); R = s.arr(ArrSym('sol:' + f))
        for i in range(ln):
            try: v = A.get(i)
            except UndefVal: out.append('element %d of %s is not assigned' % (i, where)); return
            if v != R.get(i): out.append('element %d of %s is not that of the solver\'s %s' % (i, where, f)); return
    def val(where, x, sym):
        k, v = deref(x)
        if k != 'num': out.append('%s is not a number' % where); return
        if v is None: return
        w = s.v(P(Sym(sym)))
        if v != w: out.append('%s does not carry %s' % (where, sym.split('->')[-1].replace('sol:', '')))
    if 'sol' in top[1]: vec('sol', top[1]['sol'], 'x', sc.n)
    ts = q.name + '->stats->tsetup'
    if 'basicInfo' in top[1] and sc.level() != 'plain':
        k, bi = deref(top[1]['basicInfo'])
        if k != 'dict': out.append('basicInfo is not a dictionary')
        else:
            want = {'ExitFlag': 'ExitCode', 'Iterations': 'sol:IterationCount', 'Setup_Time': ts, 'Solve_Time': 'sol:tsolve'}
            if set(bi) != set(want): out.append('basicInfo has fields %s' % sorted(map(str, bi)))
            for f, y in want.items():
                if f in bi: val(f, bi[f], y)
    if 'advInfo' in top[1] and sc.level() == 'advanced':
        k, ai = deref(top[1]['advInfo'])
        if k != 'dict': out.append('advInfo is not a dictionary')
        else:
            want = {'fval': 'sol:fval', 'kktTime': 'sol:kkt_time', 'ldlTime': 'sol:ldl_numeric'}
            vecs = {'z': sc.m, 's': sc.m}
            if sc.both(): vecs['y'] = sc.arr['b'][1][0]
            if set(ai) != set(want) | set(vecs): out.append('advInfo has fields %s, expected %s' % (sorted(map(str, ai)), sorted(set(want) | set(vecs))))
            for f, y in want.items():
                if f in ai: val(f, ai[f], y)
            for f, ln in vecs.items():
                if f in ai: vec(f, ai[f], f, ln)
    return out

def verdicts(r):
    """errors of one replayed call by property"""
    sc = r.sc; out = {}
    def add(p, m, loc=None): out.setdefault(p, []).append((m, loc))
    for x in r.err:
        for p in x.props: add(p, x.msg, x.loc)
    if r.opaque is not None:
        out['?'] = r.opaque; return out
    mal = sc.malformed(); bo = sc.badopt()
    fatal_warn = sc.warned() and sc.warn and not mal and not bo
    # error indicator
    if r.isnull and r.exc is None: add('C24', 'returns no result without setting an exception')
    if not r.isnull and r.exc is not None: add('C24', 'returns a result while %s is set' % r.exc.replace('PyExc_', ''))
    # references
    for o, ev in r.everowned.items():
        n = r.owned.get(o, 0)
        if not r.isnull and o is r.result.obj: n -= 1
        if n > 0: add('C23', '%s is never released' % r.name(o), ev.loc)
    if not r.isnull:
        o = r.result.obj
        if r.owned.get(o, 0) < 1: add('C23', 'returns %s without owning a reference' % r.name(o))
    if r.gil == 0: add('C25', 'returns without re-acquiring the interpreter lock')
    if mal:
        if not r.isnull: add('C22', 'accepted although %s' % mal)
        elif r.exc != 'PyExc_TypeError' and r.exc is not None: add('C22', 'rejected with %s instead of TypeError' % r.exc)
        if r.copied: add('C22', 'data is copied although %s' % mal, r.copied[0][1].loc)
        if r.order: add('C28', 'a rejected call runs %s' % ', '.join(r.order))
    elif bo:
        if not r.isnull: add('C26', 'accepted although option %s is invalid' % bo)
        if r.order: add('C26', 'a call with an invalid %s runs %s' % (bo, ', '.join(r.order)))
    elif sc.unclear(): pass
    elif fatal_warn:
        if r.order and r.order != ['setup', 'solve', 'cleanup']: add('C28', 'runs %s' % ', '.join(r.order))
    else:
        if r.isnull: add('C26' if sc.opts else 'C28', 'rejected a valid call with %s' % r.exc)
        elif r.order != ['setup', 'solve', 'cleanup']: add('C28', 'runs %s, expected setup, solve, cleanup' % (', '.join(r.order) or 'nothing'))
        if not r.isnull:
            for m in check_result(r): add('C27', m)
    return out

# ------------------------------------------------------------------ classes of calls
def harvest(ir):
    ints, fls = set(), set()
    def walk(x):
        if isinstance(x, dict):
            if 'c' in x and isinstance(x['c'], int) and 3 < abs(x['c']) < 2 ** 62: ints.add(x['c'])
            if 'f' in x:
                v = pyapi.S.f64(x['f']) if hasattr(pyapi.S, 'f64') else f64(x['f'])
                if v == v and abs(v) < 1e300: fls.add(v)
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    for n, f in ir['functions'].items():
        if not f['decl'] and (f.get('file') or '').startswith(build_ir.REPO):
            walk(f['blocks'])
    return sorted(ints), sorted(fls)
def scenarios(ctx, deep=False):
    out = []
    seed = [0]
    def S_(fam, **kw):
        seed[0] += 1; sc = Scn(fam, seed=seed[0], **kw); out.append(sc); return sc
    ints, fls = harvest(ctx.ir)
    iv = sorted({-2 ** 70, -2 ** 31, -1, 0, 1, 2, 3, 7, 50, 99, 100, 101, 150, 198, 199, 200, 201, 500, 2 ** 31 - 1, 2 ** 31 + 5, 2 ** 32 + 7, 2 ** 40, 2 ** 63 - 1, 2 ** 70} | {c + d for c in ints if c < 10 ** 6 for d in (-1, 0, 1)})
    fv = sorted({-1.0, -1e-12, 0.0, 1e-300, 1e-12, 1e-9, 1e-6, 1e-3, 0.5, 0.999, 1.0 - 2.0 ** -53, 1.0, 1.0 + 2.0 ** -52, 1.5, 2.0, 100.0, 1e6, float('inf'), float('-inf')} | {c * k for c in fls for k in (0.5, 1.0, 2.0, 1.0 - 1e-9, 1.0 + 1e-9)}) + [float('nan')]
    dims = [(2, 3, 1), (1, 1, 1), (3, 2, 2), (1, 3, 2), (4, 1, 3), (2, 2, 2)]
    big = [c + d for c in ints if 3 < c <= 12 for d in (-1, 0, 1)] if True else []
    for n, m, p in dims + [(b, 2, 1) for b in big] + [(2, b, 1) for b in big] + [(2, 2, b) for b in big]:
        for eq in (False, True): S_('valid arguments', n=n, m=m, p=p, eq=eq)
        for lv in (0, 1, 2, 3):
            for eq in (False, True): S_('output level %d' % lv, n=n, m=m, p=p, eq=eq).opts = {'OUTPUT': ('int', lv)}
    for eq in (False, True):
        for x in ('c', 'h', 'P', 'G') + (('A', 'b') if eq else ()):
            two = x in 'PGA'
            for t in FLOATS:
                if t != 12: S_('%s of another floating type' % x, eq=eq).arr[x][0] = t
            for t in OTHERS: S_('%s not floating' % x, eq=eq).arr[x][0] = t
            for nd in (0, 1, 2, 3):
                if nd == (2 if two else 1): continue
                S_('%s with %d dimensions' % (x, nd), eq=eq).arr[x][1] = [2, 3, 2][:nd] if not two else [3, 2, 2][:nd]
                s = S_('%s with %d dimensions' % (x, nd), n=2, m=2, p=2, eq=eq); s.arr[x][1] = [2, 2, 2][:nd]
            for k in range(2 if two else 1):
                for dlt in (-1, 1, 2): 
                    s = S_('%s with a wrong dimension' % x, eq=eq, n=2, m=3, p=2); s.arr[x][1] = list(s.arr[x][1]); s.arr[x][1][k] += dlt
            if two:
                s = S_('%s transposed' % x, eq=eq, n=2, m=3, p=1); s.arr[x][1] = list(reversed(s.arr[x][1])); 
                S_('%s in column order' % x, eq=eq).arr[x][2] = OWN | NPF
            S_('%s not contiguous' % x, eq=eq).arr[x][2] = OWN
            S_('%s not an array' % x, eq=eq).nonarr.add(x)
    for x in ('A', 'b'):
        s = S_('only %s given' % x); del s.arr['A' if x == 'b' else 'b']
        s = S_('only %s given' % x); del s.arr['A' if x == 'b' else 'b']; s.arr[x][0] = 7
        s = S_('only %s given' % x); del s.arr['A' if x == 'b' else 'b']; s.arr[x][1] = [5] if x == 'b' else [5, 5]
        s = S_('only %s given' % x); del s.arr['A' if x == 'b' else 'b']; s.arr[x][1] = []
        for lv in (1, 2): s = S_('only %s given' % x); del s.arr['A' if x == 'b' else 'b']; s.opts = {'OUTPUT': ('int', lv)}
    for x in ('c', 'h', 'P', 'G'): del S_('%s missing' % x).arr[x]
    for eq in (False, True):
        for n, m, p in ((1, 2, 1), (2, 1, 2)):   # two arguments that agree with each other but not with the rest
            s = S_('two wrong dimensions', eq=eq, n=2, m=3, p=2); s.arr['P'][1] = [3, 3]; s.arr['G'][1] = [3, 3]
            s = S_('two wrong dimensions', eq=eq, n=2, m=3, p=2); s.arr['G'][1] = [4, 2]; s.arr['P'][1] = [2, 2]
            s = S_('two wrong dimensions', eq=eq, n=2, m=3, p=2); s.arr['P'][1] = [1, 4]
            s = S_('two wrong dimensions', eq=eq, n=2, m=3, p=2); s.arr['G'][1] = [2, 3]
            if eq: s = S_('two wrong dimensions', eq=eq, n=2, m=3, p=2); s.arr['A'][1] = [1, 4]
            if eq: s = S_('two wrong dimensions', eq=eq, n=2, m=3, p=2); s.arr['A'][1] = [3, 2]; s.arr['b'][1] = [3]
            if eq: s = S_('two wrong dimensions', eq=eq, n=2, m=3, p=2); s.arr['A'][1] = [2, 3]
    S_('opts not a dictionary').opts = {}; out[-1].optsdict = False
    S_('opts empty').opts = {}
    bad = (('str', 'x'), ('none',))
    for k in KEYS:
        vs = [('int', v) for v in iv] + [('float', v) for v in fv] + [('floatsub', v) for v in (0.5, 1e-3, 2.0, 1.0, 0.0)] + list(bad)
        if k in ('MAXITER', 'VERBOSE', 'OUTPUT'): vs = [v for v in vs if v[0] != 'float' or v[1] in (1.0, 2.0, 0.5, 100.0, -1.0)]
        else: vs = [v for v in vs if v[0] != 'int' or v[1] in (0, 1, 2, -1, 100, 2 ** 70)]
        for v in vs:
            S_('option %s' % k, eq=len(out) % 2 == 0).opts = {k: v}
        if k == 'OUTPUT':
            for v in vs[::3] + [('int', -1), ('int', 2 ** 70), ('float', 1.0), ('str', 'x')]:
                s = S_('option %s, warnings raised as errors' % k, eq=len(out) % 2 == 0); s.opts = {k: v}; s.warn = True
    g = random.Random(SEED)
    good = {'MAXITER': [('int', v) for v in (1, 2, 57, 100, 199)], 'ABSTOL': [('float', v) for v in (1e-9, 0.25)], 'RELTOL': [('float', v) for v in (1e-8, 0.125)], 'SIGMA': [('float', v) for v in (0.5, 3.0)], 'VERBOSE': [('int', v) for v in (0, 1, 3)], 'OUTPUT': [('int', v) for v in (0, 1, 2, 5)]}
    badv = {'MAXITER': [('int', 0), ('float', 3.0)], 'ABSTOL': [('float', 1.0), ('int', 1)], 'RELTOL': [('float', 0.0), ('float', float('nan'))], 'SIGMA': [('float', -1.0), ('str', 'x')], 'VERBOSE': [('int', -1), ('float', 1.0)], 'OUTPUT': [('int', -3), ('str', 'x')]}
    for _ in range(160 if deep else 60):
        s = S_('several options', n=g.randrange(1, 4), m=g.randrange(1, 4), p=g.randrange(1, 3), eq=g.random() < 0.5)
        s.opts = {k: g.choice(good[k]) for k in KEYS if g.random() < 0.6}
        if g.random() < 0.4:
            k = g.choice(KEYS); s.opts[k] = g.choice(badv[k])
        s.warn = g.random() < 0.3
    for a, b in itertools.permutations(KEYS[:5], 2):
        S_('two options').opts = {a: good[a][-1], b: badv[b][0]}
    for x in ('c', 'h', 'P', 'G', 'A', 'b'):
        s = S_('a malformed array and an invalid option'); s.arr[x][0] = 7; s.opts = {'MAXITER': ('int', 0)}
        s = S_('a malformed array and a valid option'); s.arr[x][1] = list(s.arr[x][1]) + [2]; s.opts = {'MAXITER': ('int', 5), 'OUTPUT': ('int', 2)}
    return out

_memo = {}
def replayed(rep):
    """all classes of calls, replayed: family -> [(scenario, errors | exception)]"""
    if 'r' not in _memo:
        ctx = PyCtx(); fam = {}
        for sc in scenarios(ctx, TIER == 'thorough'):
            try: v = verdicts(Replay(ctx, sc))
            except (Opaque, UndefVal, Skip, Ambiguous, ZeroDivisionError) as x: v = x
            except (TypeError, AttributeError, KeyError, IndexError) as x:
                if os.environ.get('VERIF_DEBUG'): raise
                v = Opaque('%s: %s' % (type(x).__name__, x))
            fam.setdefault(sc.tag, []).append((sc, v))
        _memo['r'] = (ctx, fam)
    ctx, fam = _memo['r']
    rep.engine(ctx.e); rep.count('call_classes', sum(len(x) for x in fam.values())); rep.count('api_events', len(ctx.e.events))
    rep.stats['entry'] = ctx.fn; rep.stats['argument_format'] = str(ctx.e.parsed)
    return ctx, fam
def decide(rep, pid, title, skip=()):
    ctx, fam = replayed(rep)
    rep.expl = 'the extension entry point is summarised once over symbolic arguments; every class of calls (shapes, element types, layouts, option values) selects the guarded API events that happen, which are checked against the C-API rules'
    for tag, lst in fam.items():
        if tag in skip: continue
        bad = [(sc, v[pid]) for sc, v in lst if isinstance(v, dict) and v.get(pid)]
        opq = [(sc, v) for sc, v in lst if not isinstance(v, dict)] + [(sc, v['?']) for sc, v in lst if isinstance(v, dict) and '?' in v]
        key = '%s: %s' % (title, tag)
        if bad:
            sc, er = bad[0]
            rep.add(key, 'refuted', '%s ; call: %s (%d of %d calls of this class)' % ('; '.join(m for m, _ in er[:3]), sc.describe(), len(bad), len(lst)), where=[l for m, l in er if l is not None][:4])
        elif opq: rep.add(key, 'undecided', '%d of %d calls: %s' % (len(opq), len(lst), str(opq[0][1])[:160]))
        else: rep.add(key, 'agree', '%d calls' % len(lst))
    return ctx, fam
def C22(rep): decide(rep, 'C22', 'malformed arguments are rejected before use')
def C23(rep): decide(rep, 'C23', 'references are balanced')
def C24(rep): decide(rep, 'C24', 'exception exactly when no result')
def C26(rep): decide(rep, 'C26', 'options')
def C27(rep): decide(rep, 'C27', 'result fields')
def C28(rep):
    ctx, fam = decide(rep, 'C28', 'one problem per call on private copies')
    n = ctx.e.parsed
    rep.add('keyword names and order are the documented ones', bool(n) and list(n['names']) == list(pyapi.ARGS), str(n))
def C25(rep):
    ctx, fam = decide(rep, 'C25', 'the interpreter lock')
    ir = lib(spec=False); E = eff.Effects(ir)
    import shared
    R = shared.reach(E, ['QP_SOLVE', 'QP_SETUP_dense', 'QP_CLEANUP_dense'])
    rep.count('functions_in_call_graph', len(R))
    for n in sorted(R):
        bad = [i for i in shared.calls(E, n) if (shared.callee_name(E, n, i) or '').startswith(('Py', '_Py'))]
        rep.add('%s calls no Python function' % n, not bad, '', where=[shared.where(i, n) for i in bad])
