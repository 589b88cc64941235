"""Gated value-flow abstract interpretation of the SSA form written by irdump.

Each function is evaluated once per calling context over symbolic values (no path enumeration:
states are joined at control-flow merges, values carry guards).  Loops are summarised by solving
their recurrences; what cannot be solved stays an opaque symbol and is marked as such.
"""
import sys, os, json
sys.path.insert(0, os.path.dirname(__file__))
from sym import *
import sym as S

# ------------------------------------------------------------------ objects and guarded values
class Obj:
    __slots__ = ('name', 'kind', 'size', 'site', 'struct', 'seq', 'nullable', 'info', 'live')
    def __init__(s, name, kind, size=None, site=None, struct=None, nullable=False):
        s.name = name; s.kind = kind; s.size = size; s.site = site; s.struct = struct; s.nullable = nullable
        s.info = {}; s.live = True
    def __repr__(s): return s.name
NULLO = Obj('null', 'null'); UNDEFO = Obj('undef', 'undef'); EXTO = Obj('ext', 'ext')
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, o, off): s.obj = o; s.off = P(off)
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj is o.obj and s.off is o.off
    def __hash__(s): return hash((id(s.obj), s.off.id))
    def __repr__(s): return '&%s+%s' % (s.obj.name, show(s.off)) if s.off is not ZERO else '&' + s.obj.name
class FnRef:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __eq__(s, o): return isinstance(o, FnRef) and s.name == o.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return '@' + s.name
NULLP = Ptr(NULLO, ZERO); UNDEFP = Ptr(UNDEFO, ZERO)

def restrict(f, c, memo=None):
    """simplify f under care set c (Coudert-Madre restrict)"""
    if c is TRUE or f.var is None: return f
    if c is FALSE: return f
    if memo is None: memo = {}
    k = (f.id, c.id)
    r = memo.get(k)
    if r is not None: return r
    if c.var.id < f.var.id:
        r = restrict(f, c.hi | c.lo, memo)
    elif c.var is f.var:
        if c.hi is FALSE: r = restrict(f.lo, c.lo, memo)
        elif c.lo is FALSE: r = restrict(f.hi, c.hi, memo)
        else: r = ite(bvar(f.var), restrict(f.hi, c.hi, memo), restrict(f.lo, c.lo, memo))
    else:
        r = ite(bvar(f.var), restrict(f.hi, c, memo), restrict(f.lo, c, memo))
    memo[k] = r
    return r

class GV:
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
    def __repr__(s):
        if len(s.alts) == 1: return repr(s.alts[0][1])
        return '{' + ' ; '.join('%r if %r' % (v, g) for g, v in s.alts) + '}'
    @property
    def single(s): return s.alts[0][1] if len(s.alts) == 1 else None
def gv(v): return GV(((TRUE, v),))
def vkey(v): return v if isinstance(v, (Ptr, FnRef)) else id(v)
def same_gv(a, b):
    if a is b: return True
    if a is None or b is None or len(a.alts) != len(b.alts): return False
    d = {vkey(v): g for g, v in a.alts}
    for g, v in b.alts:
        if d.get(vkey(v)) is not g: return False
    return True
def mkgv(pairs, care=TRUE, prune=False):
    d = {}
    for g, v in pairs:
        if g is FALSE: continue
        k = vkey(v)
        if k in d: d[k] = (d[k][0] | g, v)
        else: d[k] = (g, v)
    if len(d) == 1:
        return GV(((TRUE, next(iter(d.values()))[1]),))
    out = []
    for g, v in d.values():
        if not sat(g & care): continue
        out.append((restrict(g, care), v))
    if not out: 
        v = next(iter(d.values()))[1]
        return GV(((TRUE, v),))
    if len(out) == 1: return GV(((TRUE, out[0][1]),))
    if len(out) == 2:   # canonical complement
        g0, g1 = out[0][0], out[1][0]
        if (~g0) is not g1 and not sat(care & ((g0 & g1) | ~(g0 | g1))):
            out[1] = (~g0, out[1][1])
    return GV(tuple(out))
def gmap(f, *gs, care=TRUE):
    if all(len(g.alts) == 1 for g in gs):
        return GV(((TRUE, f(*[g.alts[0][1] for g in gs])),))
    prs = [(care, ())]
    for g in gs:
        nxt = []
        for c, vs in prs:
            for gg, v in g.alts:
                x = c & gg
                if x is FALSE: continue
                nxt.append((x, vs + (v,)))
        prs = nxt
    if len(prs) > 1: prs = [(c, vs) for c, vs in prs if sat(c)] or prs[:1]
    return mkgv([(c, f(*vs)) for c, vs in prs], care)
def to_poly(g):
    """numeric guarded value -> single polynomial (indicator form)"""
    if len(g.alts) == 1: return g.alts[0][1]
    last = g.alts[-1][1]
    r = last
    for c, v in g.alts[:-1]:
        r = r + Ind(c) * (v - last)
    return r
def gbool(g):
    """guarded i1 -> BDD"""
    r = FALSE
    for c, v in g.alts:
        if isinstance(v, BDD): r = r | (c & v)
        else: r = r | (c & ~EQ(v, 0))
    return r

class State:
    __slots__ = ('pc', 'cells', 'arrs', 'freed', 'x')
    def __init__(s): s.pc = TRUE; s.cells = {}; s.arrs = {}; s.freed = {}; s.x = {}
    def copy(s):
        n = State(); n.pc = s.pc; n.cells = dict(s.cells); n.arrs = dict(s.arrs); n.freed = dict(s.freed); n.x = dict(s.x)
        return n

class Undecided(Exception): pass
class Unsup(Exception): pass

def arr_len(o, es):
    if o.size is None: return None
    c = o.size
    return pscale(c, Fraction(1, es))

UNDEF_KINDS = ('Undef',)

class Loc:
    __slots__ = ('fn', 'file', 'line', 'stack')
    def __init__(s, fn, file, line, stack): s.fn = fn; s.file = file; s.line = line; s.stack = stack
    def __repr__(s): return '%s:%s (%s)' % (os.path.basename(s.file or '?'), s.line, s.fn)
    def chain(s): return ' <- '.join(s.stack)

class Event:
    __slots__ = ('kind', 'pc', 'data', 'loc', 'loops', 'seq', 'state')
    def __repr__(s): return '<%s %r @%r>' % (s.kind, s.data, s.loc)

class LoopRec:
    pass

class Engine:
    def __init__(self, ir, opaque=(), oom=False, models=None, alloc_names=None, record_states=()):
        self.ir = ir; self.F = ir['functions']; self.G = ir['globals']
        self.opaque = set(opaque)          # functions treated as uninterpreted
        self.oom = oom
        self.models = dict(MODELS)
        if models: self.models.update(models)
        self.events = []; self.quiet = 0
        self.objs = {}; self.objctr = {}
        self.loopstack = []
        self.stack = []
        self.gobj = {}
        self.looprecs = []
        self.notes = []
        self.accesses = []
        self.opq = 0
        self.record_states = set(record_states)
        self.stats = {'functions': set(), 'blocks': 0, 'loops': 0, 'calls': 0}
        self.param_types = {}; self.param_info = {}; self.param_vals = {}; self.nonneg = set()
        self.param_null = set(); self.sites = {}
        self.lazy = {}          # obj -> callback(engine, obj, off, ty) for initial contents
        self.cfgcache = {}
    # ---- events
    def log(self, kind, st, data, loc=None):
        if self.quiet: return None
        e = Event(); e.kind = kind; e.pc = st.pc; e.data = data; e.loc = loc or self.loc(); e.loops = tuple(self.loopstack)
        e.seq = len(self.events); e.state = st.copy() if kind in self.record_states else None
        self.events.append(e)
        return e
    def loc(self):
        fn, ins = self.cur
        return Loc(fn, ins.get('file'), ins.get('line'), tuple('%s:%s' % (f, i.get('line')) for f, i in reversed(self.stack)))
    def note(self, msg):
        if not self.quiet: self.notes.append('%s at %r' % (msg, self.loc()))
    # ---- objects
    def newobj(self, base, kind, size=None, **kw):
        ctx = '/'.join('%s:%s' % (f, i.get('id', i.get('line'))) for f, i in self.stack) if self.stack else ''
        key = base + '|' + ctx + '|' + ','.join(str(k[0].id) for k in self.loopstack if False)
        n = self.objctr.get(key, 0)
        o = self.objs.get((key, kind))
        if o is None:
            o = Obj(base, kind, size, **kw)
            o.seq = len(self.objs)
            self.objs[(key, kind)] = o
            o.name = '%s#%d' % (base, o.seq)
        else:
            o.size = size
        o.site = self.loc() if self.stack else None
        return o
    def param(self, name, size=None, struct=None, nullable=False, kind='param', **attrs):
        o = Obj(name, kind, P(size) if size is not None else None, struct=struct, nullable=nullable)
        o.seq = 10**6 + len(self.objs)
        self.objs[(name, kind)] = o
        if attrs: o.info.update(attrs)
        return o
    def null_atom(self, o):
        return bvar(mk('NULL', o.name))
    def is_null(self, p, st=None):
        if p.obj is NULLO: return TRUE if p.off is ZERO else FALSE
        if p.obj.nullable: return self.null_atom(p.obj)
        return FALSE
    def initial_array(self, o, es):
        if o.kind in ('heap', 'alloca'):
            if o.info.get('zero'):
                ln = arr_len(o, es)
                z = mk('ArrZero', ln if ln is not None else ZERO)
                z.attr['len'] = ln
                return z
            ln = arr_len(o, es)
            if ln is None: ln = P(mk('Sym', 'len:' + o.name))
            a = mk('ArrUndef', ln); a.attr['len'] = ln
            return a
        if o.info.get('undef'):
            ln = arr_len(o, es)
            a = mk('ArrUndef', ln if ln is not None else P(mk('Sym', 'len:' + o.name)), o.name); a.attr['len'] = ln
            return a
        a = ArrSym(o.name)
        for k, v in o.info.items():
            if k in ('lo', 'hi', 'mono', 'zero0', 'scol', 'nz', 'elt', 'role', 'jc', 'cols', 'rows', 'min'): a.attr[k] = v
        ln = arr_len(o, es)
        if ln is not None: a.attr['len'] = ln
        return a
    def get_arr(self, st, o, es):
        g = st.arrs.get(o)
        if g is None:
            g = gv(self.initial_array(o, es))
            # const-offset cells previously written become point maps
            cl = [(off, st.cells[(oo, off)]) for (oo, off) in st.cells if oo is o]
            for off, c in sorted(cl, key=lambda t: t[0]):
                v = to_poly(c) if all(isinstance(x, Poly) for _, x in c.alts) else None
                if v is not None:
                    g = gv(push(g.single, mk_map(None, P(off // es), ONE, v)))
                del st.cells[(o, off)]
            st.arrs[o] = g
            o.info['es'] = es
        return g
    # ---- constants
    def const(self, x):
        if 'c' in x:
            if x.get('t') == 'i1': return gv(TRUE if x['c'] else FALSE)
            if x.get('t') == 'ptr': return gv(Ptr(NULLO, P(x['c'])))
            return gv(P(x['c']))
        if 'f' in x:
            v = f64(x['f'])
            if v != v or v in (float('inf'), float('-inf')):
                return gv(P(mk('Fn', 'inf' if v > 0 else ('-inf' if v < 0 else 'nan'))))
            return gv(P(v))
        if 'n' in x: return gv(NULLP)
        if 'u' in x: return gv(self.undef(x['u'], 'undef'))
        if 'fn' in x: return gv(FnRef(x['fn']))
        if 'g' in x: return gv(Ptr(self.globj(x['g']), P(x.get('o', 0))))
        return gv(self.opaque_val('const', 'i64'))
    def undef(self, ty, tag):
        if ty == 'ptr': return UNDEFP
        if ty == 'i1': return bvar(mk('UndefB', tag))
        return P(mk('Undef', tag))
    def opaque_val(self, tag, ty, init=None):
        self.opq += 1
        if ty == 'ptr': return Ptr(Obj('opq:%s:%d' % (tag, self.opq), 'opaque', nullable=True), ZERO)
        if ty == 'i1': return bvar(mk('OpqB', '%s:%d' % (tag, self.opq)))
        return P(mk('Opq', '%s:%d' % (tag, self.opq)))
    def globj(self, name):
        o = self.gobj.get(name)
        if o is None:
            g = self.G.get(name, {})
            o = Obj('@' + name, 'global', P(g.get('size')) if g.get('size') is not None else None)
            o.info['const'] = g.get('const'); o.info['g'] = name
            self.gobj[name] = o
        return o
    def glob_init(self, o, off, ty):
        g = self.G.get(o.info['g'], {})
        ini = g.get('init')
        if ini is None: return None
        if 's' in ini: 
            if ty == 'i8' and off < len(ini['s']): return gv(P(ord(ini['s'][off])))
            return None
        if 'arr' in ini:
            offs = ini.get('offs')
            if offs:
                for e, oo in zip(ini['arr'], offs):
                    if oo == off: return self.const(e)
                return None
            es = g['size'] // max(1, len(ini['arr']))
            if off % es == 0 and off // es < len(ini['arr']): return self.const(ini['arr'][off // es])
            return None
        if 'z' in ini:
            return gv(NULLP) if ty == 'ptr' else gv(ZERO)
        if off == 0: return self.const(ini)
        return None
    # ---- memory
    def classify(self, o, off, es, ty):
        """'cell' or 'arr'"""
        k = o.info.get('mode')
        if k: return k
        if o.kind == 'global': 
            return 'cell' if off.const is not None else 'arr'
        if o.struct: k = 'cell'
        elif off.const is None: k = 'arr'
        elif o.kind == 'heap':
            k = 'cell' if o.size is not None and o.size.const is not None and not o.info.get('arr') else 'arr'
        elif o.kind == 'alloca': k = 'arr' if o.info.get('isarr') and ty != 'ptr' else 'cell'
        elif o.kind == 'param': k = 'arr' if o.info.get('es') else 'cell'
        else: k = 'cell'
        if k == 'arr' and ty != 'ptr': o.info['mode'] = 'arr'
        elif o.struct: o.info['mode'] = 'cell'
        return k
    def load(self, st, pg, ty, size, ins):
        out = []
        for g, p in pg.alts:
            if not isinstance(p, Ptr): out.append((g, gv(self.opaque_val('load', ty)))); continue
            out.append((g, self.load1(st, p, ty, size, g & st.pc)))
        return mkgv([(g & gg, v) for g, x in out for gg, v in x.alts], st.pc)
    def access(self, st, o, off, size, pc, write, mode):
        if self.quiet: return
        self.accesses.append((o, off, size, pc, write, self.loc(), tuple(self.loopstack), st.freed.get(o, FALSE), mode))
    def load1(self, st, p, ty, size, pc):
        o, off = p.obj, p.off
        if o.kind in ('null', 'undef', 'opaque', 'ext'):
            self.access(st, o, off, size, pc, False, o.kind)
            return gv(self.opaque_val('load-%s' % o.kind, ty))
        mode = self.classify(o, off, size, ty)
        self.access(st, o, off, size, pc, False, mode)
        if mode == 'cell':
            c = off.const
            if c is None:
                self.note('variable offset read of struct object %s' % o.name)
                return gv(self.opaque_val('varcell', ty))
            c = int(c)
            v = st.cells.get((o, c))
            if v is None:
                v = self.init_cell(st, o, c, ty, size)
                st.cells[(o, c)] = v
            return v
        es = o.info.setdefault('es', size)
        if es != size or ty == 'ptr':
            self.note('element size mismatch on %s' % o.name)
            return gv(self.opaque_val('esz', ty))
        idx = pscale(off, Fraction(1, es))
        a = self.get_arr(st, o, es)
        return gmap(lambda x: Rd(x, idx), a, care=pc)
    def init_cell(self, st, o, c, ty, size):
        if o in self.lazy: 
            v = self.lazy[o](self, o, c, ty, size)
            if v is not None: return v
        if o.kind == 'global':
            v = self.glob_init(o, c, ty) if (o.info.get('const') or not self.G.get(o.info['g'], {}).get('decl')) else None
            if v is not None: return v
            if ty == 'ptr': return gv(Ptr(Obj('%s+%d' % (o.name, c), 'opaque', nullable=True), ZERO))
            return gv(P(Sym('%s+%d' % (o.name, c))))
        if o.kind in ('heap', 'alloca'):
            if o.info.get('zero'): return gv(NULLP) if ty == 'ptr' else gv(ZERO)
            if ty == 'ptr': return gv(Ptr(Obj('undef:%s+%d' % (o.name, c), 'undef'), ZERO))
            return gv(self.undef(ty, '%s+%d' % (o.name, c)))
        # caller-owned structure
        nm = self.field_name(o, c)
        if ty == 'ptr':
            if nm in self.param_null: return gv(NULLP)
            q = self.objs.get((nm, 'param'))
            if q is None:
                q = self.param(nm, struct=self.field_struct(o, c), nullable=False)
                es = self.field_es(o, c)
                if es: q.info['es'] = es; q.info['elt'] = self.field_elt(o, c)
                if nm in self.param_info: 
                    sz = self.param_info[nm].get('size')
                    if sz is not None: q.size = P(sz)
                    q.info.update({k: v for k, v in self.param_info[nm].items() if k != 'size'})
                    q.nullable = self.param_info[nm].get('nullable', False)
            return gv(Ptr(q, ZERO))
        if ty == 'i1': return gv(bvar(mk('SymB', nm)))
        if nm in self.param_vals:
            pv = self.param_vals[nm]
            return pv if isinstance(pv, GV) else gv(pv)
        a = Sym(nm, nm in self.nonneg); a.attr['ty'] = ty
        return gv(P(a))
    def field_elt(self, o, c):
        s = self.ir['structs'].get(o.struct) if o.struct else None
        for m in (s['members'] if s else []):
            if m['off'] == c: return 'fp' if m['type'] in ('double', 'qp_real') else 'int'
        return None
    def field_es(self, o, c):
        s = self.ir['structs'].get(o.struct) if o.struct else None
        if s:
            for m in s['members']:
                if m['off'] == c and m['ptr'] == 1 and m['type'] in ('double', 'long', 'qp_real', 'qp_int'): return 8
        return None
    def field_name(self, o, c):
        s = self.ir['structs'].get(o.struct) if o.struct else None
        if s:
            for m in s['members']:
                if m['off'] == c: return '%s->%s' % (o.name, m['name'])
        return '%s+%d' % (o.name, c)
    def field_struct(self, o, c):
        s = self.ir['structs'].get(o.struct) if o.struct else None
        if s:
            for m in s['members']:
                if m['off'] == c and m['ptr'] and m['type'] in self.ir['structs']: return m['type']
        return None
    def store(self, st, pg, val, ty, size, ins):
        for g, p in pg.alts:
            if not isinstance(p, Ptr):
                self.note('store through unknown pointer'); continue
            cond = restrict(g, st.pc)
            self.store1(st, p, val, ty, size, cond)
    def store1(self, st, p, val, ty, size, cond):
        o, off = p.obj, p.off
        if o.kind in ('null', 'undef', 'opaque', 'ext'):
            self.access(st, o, off, size, st.pc & cond, True, o.kind)
            self.log('wild', st, (o, off))
            return
        mode = self.classify(o, off, size, ty)
        self.access(st, o, off, size, st.pc & cond, True, mode)
        if not self.quiet:
            lc = self.loc()
            self.sites.setdefault(o if mode != 'cell' or off.const is None else (o, int(off.const)), {})[(lc.file, lc.line)] = lc
        if mode == 'cell':
            c = off.const
            if c is None:
                self.note('variable offset store to struct object %s' % o.name)
                for k in [k for k in st.cells if k[0] is o]: st.cells[k] = gv(self.opaque_val('varcell', 'i64'))
                return
            c = int(c)
            if cond is TRUE: st.cells[(o, c)] = val
            else:
                old = st.cells.get((o, c))
                if old is None: old = self.init_cell(st, o, c, ty, size)
                st.cells[(o, c)] = mkgv([(cond & g, v) for g, v in val.alts] + [(~cond & g, v) for g, v in old.alts], st.pc)
            return
        es = o.info.setdefault('es', size)
        a = self.get_arr(st, o, es)
        if es != size or ty == 'ptr':
            self.note('element size mismatch on %s' % o.name)
            st.arrs[o] = gv(mk('ArrOpq', 'esz%d' % self.opq)); self.opq += 1
            return
        idx = pscale(off, Fraction(1, es))
        alts = []
        for g, arr in a.alts:
            # value alternatives become one indicator polynomial unless they are loop independent guards
            for vg, v in val.alts:
                if not isinstance(v, Poly): v = self.opaque_val('nonnum', 'i64')
                x = g & vg
                if x is FALSE or not sat(x & st.pc): continue
                alts.append((x & cond, self.write_elem(arr, idx, v)))
            if cond is not TRUE: alts.append((g & ~cond, arr))
        st.arrs[o] = mkgv(alts, st.pc)
        if o.kind == 'global': self.log('globwrite', st, o)
    def write_elem(self, arr, idx, v):
        # a[i] = a[i] + e  -> accumulate layer
        cur = Rd(arr, idx)
        if len(cur.terms) == 1 and cur.terms[0][1] == 1 and len(cur.terms[0][0]) == 1 and cur.terms[0][0][0][1] == 1:
            at = cur.terms[0][0][0][0]
            if at.kind == 'Rd':
                l = v.lin(at)
                if l is not None and l[0] is ONE:
                    if l[1] is ZERO: return arr
                    if not contains(l[1], at):
                        return push(arr, mk('acc', idx, l[1], TRUE))
        return push(arr, mk_map(None, idx, ONE, v))
    # ---- interprocedural
    def call_fn(self, name, args, st, ins=None):
        """inline call: returns (GV or None, state) ; state pc FALSE when it does not return"""
        f = self.F[name]
        if any(fr[0] == name for fr in self.stack): 
            self.note('recursion ' + name)
            raise Unsup('recursion ' + name)
        if len(self.stack) > 24: raise Unsup('depth')
        self.stats['functions'].add(name); self.stats['calls'] += 1
        fr = Frame(self, f, args)
        self.stack.append((name, ins or {}))
        try:
            rets = fr.run(st)
        finally:
            self.stack.pop()
        if not rets:
            st = st.copy(); st.pc = FALSE
            return None, st
        vals, ost = self.join([(s, {'v': v} if v is not None else {}) for v, s in rets])
        return vals.get('v'), ost
    def join(self, lst):
        """join [(state, {name: GV})] -> ({name: GV}, state)"""
        if len(lst) == 1: return lst[0][1], lst[0][0]
        pc = FALSE
        for s, v in lst: pc = pc | s.pc
        if pc is not TRUE and not sat(~pc): pc = TRUE
        n = State(); n.pc = pc
        lst = [(s, v) for s, v in lst if s.pc is not FALSE] or lst[:1]
        if len(lst) == 1:
            n = lst[0][0].copy(); return lst[0][1], n
        n.cells = self.jdict([(s.pc, s.cells) for s, v in lst], pc, 'cells', lst)
        n.arrs = self.jdict([(s.pc, s.arrs) for s, v in lst], pc, 'arrs', lst)
        ks = {k for s, v in lst for k in s.freed}
        for k in ks:
            r = FALSE
            for s, v in lst: r = r | (s.pc & s.freed.get(k, FALSE))
            n.freed[k] = restrict(r, pc)
        kx = {k for s, v in lst for k in s.x}
        for k in kx:
            vs = [s.x.get(k) for s, v in lst]
            if all(v is vs[0] or (v is not None and vs[0] is not None and same_gv(v, vs[0])) for v in vs): n.x[k] = vs[0]
            else:
                dflt = self.xdefault(k)
                n.x[k] = mkgv([(s.pc & g, v) for s, _ in lst for g, v in (s.x.get(k) or dflt).alts], pc)
        vals = {}
        for k in {k for s, v in lst for k in v}:
            vs = [(s.pc, v[k]) for s, v in lst if k in v]
            if all(same_gv(v, vs[0][1]) for _, v in vs): vals[k] = vs[0][1]
            else: vals[k] = mkgv([(p & g, x) for p, v in vs for g, x in v.alts], pc)
        return vals, n
    def xdefault(self, k): return gv(ZERO)
    def jdict(self, ds, pc, what, lst):
        out = {}
        keys = []
        seen = set()
        for _, d in ds:
            for k in d:
                if k not in seen: seen.add(k); keys.append(k)
        for k in keys:
            vs = [d.get(k) for _, d in ds]
            f = vs[0]
            if f is not None and all(v is f or (v is not None and same_gv(v, f)) for v in vs): out[k] = f; continue
            alts = []
            for (p, d), v, (s, _) in zip(ds, vs, lst):
                if v is None:
                    if what == 'arrs':
                        o = k
                        v = gv(self.initial_array(o, o.info.get('es', 8)))
                        # cells of that object may exist in that branch
                        for (oo, off) in sorted((x for x in s.cells if x[0] is o), key=lambda t: t[1]):
                            c = s.cells[(oo, off)]
                            if all(isinstance(x, Poly) for _, x in c.alts):
                                v = gv(push(v.single, mk_map(None, P(off // o.info['es']), ONE, to_poly(c))))
                    else:
                        o, off = k
                        if any(oo is o for oo in [x for _, d2 in ds for x in ()]): pass
                        other = next(x for x in vs if x is not None)
                        ov = other.alts[0][1]
                        ty = 'ptr' if isinstance(ov, (Ptr, FnRef)) else ('i1' if isinstance(ov, BDD) else 'i64')
                        v = self.init_cell(s, o, off, ty, 8)
                alts += [(p & g, x) for g, x in v.alts]
            out[k] = mkgv(alts, pc)
        return out

def contains(x, a, memo=None):
    if memo is None: memo = {}
    if x is a: return True
    if isinstance(x, tuple): return any(contains(y, a, memo) for y in x)
    if not isinstance(x, (Atom, Poly, BDD)): return False
    r = memo.get(x.id)
    if r is not None: return r
    memo[x.id] = False
    if isinstance(x, Poly): r = any(contains(b, a, memo) for m, c in x.terms for b, e in m)
    elif isinstance(x, BDD): r = any(contains(b, a, memo) for b in x.sup)
    else: r = any(contains(y, a, memo) for y in x.args)
    memo[x.id] = r
    return r
def find_atoms(x, pred, out=None, memo=None):
    if out is None: out = []; memo = set()
    if isinstance(x, tuple):
        for y in x: find_atoms(y, pred, out, memo)
        return out
    if isinstance(x, RecSys):
        if ('rec', x.ident) not in memo:
            memo.add(('rec', x.ident)); find_atoms(x.nexts, pred, out, memo)
            if x.cond is not None: find_atoms(x.cond, pred, out, memo)
        return out
    if not isinstance(x, (Atom, Poly, BDD)): return out
    if x.id in memo: return out
    memo.add(x.id)
    if isinstance(x, Poly):
        for m, c in x.terms:
            for b, e in m: find_atoms(b, pred, out, memo)
    elif isinstance(x, BDD):
        for b in x.sup: find_atoms(b, pred, out, memo)
    else:
        if pred(x): out.append(x)
        for y in x.args: find_atoms(y, pred, out, memo)
    return out

# ------------------------------------------------------------------ function frames
class Cfg:
    def __init__(self, f):
        self.blocks = {b['id']: b for b in f['blocks']}
        self.entry = f['blocks'][0]['id']
        self.succ = {}
        for b in f['blocks']:
            t = b['ins'][-1]
            if t['op'] == 'br': s = list(t['succ'])
            elif t['op'] == 'switch': s = [t['default']] + [c[1] for c in t['cases']]
            else: s = []
            self.succ[b['id']] = s
        self.loops = {l['id']: l for l in f['loops']}
        self.hdr = {l['header']: l for l in f['loops']}
        self.inner = {}
        for l in f['loops']:       # preorder: later = deeper
            for b in l['blocks']: self.inner[b] = l['id']
        self.bset = {l['id']: set(l['blocks']) for l in f['loops']}
        # reverse postorder ignoring back edges
        self.rpo = []
        seen = set()
        st = [(self.entry, iter(self.succ[self.entry]))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                self.rpo.append(b); st.pop()
        self.rpo.reverse()
        # make loops contiguous-safe: topological order on the graph without back edges
        self.order = {b: i for i, b in enumerate(self.topo())}
        # reducibility: every loop block reached only through header is guaranteed by LoopInfo
    def topo(self):
        back = set()
        for l in self.loops.values():
            for x in l['latches']: back.add((x, l['header']))
        reach = set(self.rpo)
        # condensed order: exits of a loop must come after all loop blocks
        indeg = {b: 0 for b in reach}
        edges = {b: [] for b in reach}
        for b in reach:
            for s in self.succ[b]:
                if (b, s) in back: continue
                edges[b].append(s)
        for l in self.loops.values():
            bs = self.bset[l['id']]
            for b in bs:
                if b not in reach: continue
                for s in self.succ[b]:
                    if s not in bs and s in reach:
                        for c in bs:
                            if c in reach: edges[c].append(s)
        for b in reach:
            for s in edges[b]: indeg[s] += 1
        rp = {b: i for i, b in enumerate(self.rpo)}
        import heapq
        h = [(rp[b], b) for b in reach if indeg[b] == 0]; heapq.heapify(h)
        out = []
        while h:
            _, b = heapq.heappop(h); out.append(b)
            for s in edges[b]:
                indeg[s] -= 1
                if indeg[s] == 0: heapq.heappush(h, (rp[s], s))
        if len(out) != len(reach): raise Unsup('irreducible control flow')
        return out

class Frame:
    count = 0
    def __init__(self, eng, f, args):
        Frame.count += 1; self.uid = Frame.count; self.threaded = False
        self.e = eng; self.f = f; self.env = {}
        if f['name'] not in eng.cfgcache: eng.cfgcache[f['name']] = Cfg(f)
        self.cfg = eng.cfgcache[f['name']]
        for a, v in zip(f['args'], args): self.env[a['id']] = v
        self.rets = []
    def val(self, x):
        if isinstance(x, str):
            v = self.env.get(x)
            if v is None: raise Unsup('no value for %s in %s' % (x, self.f['name']))
            return v
        return self.e.const(x)
    def run(self, st):
        self.rets = []
        self.region(None, self.cfg.entry, [(None, st.copy())])
        return self.rets
    # region: blocks whose innermost enclosing loop chain contains `loop` (None = function)
    def region(self, loop, entry, entry_edges):
        """executes the blocks of one loop body / the function once.
        returns (latch_edges, exit_edges) as lists of (pred, succ, state)"""
        cfg = self.cfg
        inedges = {entry: list(entry_edges)}
        blocks = cfg.bset[loop['id']] if loop else set(cfg.order)
        order = sorted((b for b in blocks if b in cfg.order), key=lambda b: cfg.order[b])
        latch = []; exits = []
        done = set()
        for b in order:
            if b in done: continue
            ed = inedges.get(b)
            if not ed: continue
            l = cfg.hdr.get(b)
            if l is not None and (loop is None or l['id'] != loop['id']):
                # inner loop: must be the immediate child
                done |= cfg.bset[l['id']]
                outs = self.loop(l, ed)
            else:
                outs = self.block(b, ed, skip_phi=(loop is not None and b == entry))
            for pred, succ, s in outs:
                if s.pc is FALSE: continue
                if loop is not None and succ == loop['header']: latch.append((pred, succ, s))
                elif succ in blocks: inedges.setdefault(succ, []).append((pred, s))
                else: exits.append((pred, succ, s))
        return latch, exits
    def enter(self, b, edges, skip_phi=False):
        blk = self.cfg.blocks[b]
        phis = [i for i in blk['ins'] if i['op'] == 'phi'] if not skip_phi else []
        lst = []
        # several edges from the same predecessor (switch) share phi values
        for pred, s in edges:
            vals = {}
            if self.threaded: self.from_state(s)
            for i in phis:
                for v, pb in i['inc']:
                    if pb == pred:
                        vals[i['id']] = self.phival(v, i['ty']); break
            lst.append((s, vals))
        if len(lst) == 1: vals, st = lst[0][1], lst[0][0]
        else: vals, st = self.e.join(lst)
        if self.threaded: self.from_state(st)
        self.env.update(vals)
        return st
    def from_state(self, s):
        """values of a loop's header that differ between the ways out of the loop"""
        for k, g in s.x.items():
            if isinstance(k, tuple) and k[0] == 'env' and k[1] == self.uid: self.env[k[2]] = g
    def phival(self, v, ty):
        x = self.val(v)
        if ty == 'i1': return gv(gbool(x))
        return x
    def block(self, b, edges, skip_phi=False):
        self.e.stats['blocks'] += 1
        st = self.enter(b, edges, skip_phi)
        if len(edges) == 1: st = st.copy()
        blk = self.cfg.blocks[b]
        for i in blk['ins']:
            op = i['op']
            if op == 'phi': continue
            self.e.cur = (self.f['name'], i)
            if op == 'br':
                if 'cond' not in i or i['succ'][0] == i['succ'][1]: return [(b, i['succ'][0], st)]
                c = restrict(gbool(self.val(i['cond'])), st.pc)
                out = []
                for s, g in ((i['succ'][0], c), (i['succ'][1], ~c)):
                    pc = st.pc & g
                    if pc is FALSE or not sat(pc): continue
                    n = st.copy(); n.pc = pc
                    out.append((b, s, n))
                if not out: 
                    n = st.copy(); n.pc = FALSE; return []
                return out
            if op == 'switch':
                v = self.val(i['cond']); out = {}
                rest = TRUE
                for cv, s in i['cases']:
                    g = gbool(gmap(lambda x: EQ(x, cv) if isinstance(x, Poly) else (x if cv else ~x), v, care=st.pc))
                    out[s] = out.get(s, FALSE) | (g & rest); rest = rest & ~g
                out[i['default']] = out.get(i['default'], FALSE) | rest
                r = []
                for s, g in out.items():
                    pc = st.pc & g
                    if sat(pc):
                        n = st.copy(); n.pc = pc; r.append((b, s, n))
                return r
            if op == 'ret':
                v = self.val(i['ops'][0]) if i['ops'] else None
                self.rets.append((v, st))
                return []
            if op == 'unreachable': return []
            st = self.ins(i, st)
            if st.pc is FALSE: return []
        return []
    # ---- instructions
    def ins(self, i, st):
        op = i['op']; e = self.e; env = self.env
        if op == 'load':
            r = e.load(st, self.val(i['ops'][0]), i['ty'], i['size'], i)
            if i['ty'] == 'i1': r = gv(gbool(r))
            env[i['id']] = r
        elif op == 'store':
            v = self.val(i['ops'][0])
            e.store(st, self.val(i['ops'][1]), v, i['oty'], i['size'], i)
        elif op == 'getelementptr':
            b = self.val(i['base']); vs = [(self.val(v), s) for v, s in i['vars']]
            off = i['off']
            def f(p, *xs):
                if not isinstance(p, Ptr): return UNDEFP
                o = p.off + P(off)
                for x, (_, s) in zip(xs, vs): o = o + x * P(s)
                return Ptr(p.obj, o)
            env[i['id']] = gmap(f, b, *[v for v, _ in vs], care=st.pc)
        elif op == 'alloca':
            o = e.newobj('%s.%s' % (self.f['name'], i['id']), 'alloca', P(i['size']) if 'size' in i else None)
            o.info['isarr'] = i.get('isarr'); 
            o.info.pop('mode', None)
            t = i.get('aty', '')
            if '%struct' in t and not i.get('isarr'): o.struct = t.split('%struct.')[1].split(' ')[0]
            for k in [k for k in st.cells if k[0] is o]: del st.cells[k]
            st.arrs.pop(o, None); st.freed.pop(o, None)
            env[i['id']] = gv(Ptr(o, ZERO))
        elif op == 'icmp': env[i['id']] = gv(self.icmp(i, st))
        elif op == 'fcmp': env[i['id']] = gv(self.fcmp(i, st))
        elif op in BINOPS:
            a, b = self.val(i['ops'][0]), self.val(i['ops'][1])
            if i['ty'] == 'i1':
                x, y = gbool(a), gbool(b)
                env[i['id']] = gv({'and': x & y, 'or': x | y, 'xor': (x & ~y) | (~x & y)}.get(op, x))
            else: env[i['id']] = gmap(lambda x, y: binop(op, x, y, e, i['ty']), a, b, care=st.pc)
        elif op in ('zext', 'sext', 'uitofp', 'sitofp'):
            v = self.val(i['ops'][0])
            if i.get('oty') == 'i1':
                b = gbool(v); one = ONE if op != 'sext' else -ONE
                env[i['id']] = mkgv([(b, one), (~b, ZERO)], st.pc)
            else: env[i['id']] = v
        elif op in ('trunc',):
            v = self.val(i['ops'][0])
            if i['ty'] == 'i1': env[i['id']] = gv(gbool(gmap(lambda x: x if isinstance(x, BDD) else ~EQ(P(mk('Fn', 'and', x, ONE)) if x.const is None else P(int(x.const) & 1), 0), v)))
            else: env[i['id']] = gmap(lambda x: trunc(x, i['ty']), v, care=st.pc)
        elif op in ('fptosi', 'fptoui'):
            env[i['id']] = gmap(lambda x: P(int(x.const)) if x.const is not None else P(mk('Fn', 'ftoi', x)), self.val(i['ops'][0]), care=st.pc)
        elif op == 'bitcast' and i['ty'].startswith('i') and i.get('oty') in ('double', 'float'):
            env[i['id']] = gmap(lambda x: P(mk('Fn', 'bits', x)) if isinstance(x, Poly) else x, self.val(i['ops'][0]), care=st.pc)
        elif op in ('fpext', 'bitcast', 'freeze', 'addrspacecast'): env[i['id']] = self.val(i['ops'][0])
        elif op == 'fptrunc': env[i['id']] = gmap(lambda x: P(mk('Fn', 'f32', x)), self.val(i['ops'][0]), care=st.pc)
        elif op == 'ptrtoint': env[i['id']] = gmap(lambda p: (p.off if p.obj is NULLO else P(mk('Fn', 'addr', p.obj.name)) + p.off) if isinstance(p, Ptr) else e.opaque_val('p2i', 'i64'), self.val(i['ops'][0]), care=st.pc)
        elif op == 'inttoptr': env[i['id']] = gv(e.opaque_val('i2p', 'ptr'))
        elif op == 'fneg': env[i['id']] = gmap(lambda x: -x, self.val(i['ops'][0]), care=st.pc)
        elif op == 'select':
            c = restrict(gbool(self.val(i['ops'][0])), st.pc); a, b = self.val(i['ops'][1]), self.val(i['ops'][2])
            if i['ty'] == 'i1':
                env[i['id']] = gv(ite(c, gbool(a), gbool(b)))
            else:
                env[i['id']] = mkgv([(c & g, v) for g, v in a.alts] + [(~c & g, v) for g, v in b.alts], st.pc)
        elif op == 'call': return self.call(i, st)
        elif op in ('extractvalue', 'insertvalue'):
            env[i['id']] = gv(e.opaque_val(op, i['ty']))
        else:
            e.note('unsupported instruction ' + op)
            if 'id' in i: env[i['id']] = gv(e.opaque_val(op, i['ty']))
        return st
    def icmp(self, i, st):
        pr = i['pred']; a, b = self.val(i['ops'][0]), self.val(i['ops'][1])
        e = self.e
        def f(x, y):
            if isinstance(x, (Ptr, FnRef)) or isinstance(y, (Ptr, FnRef)):
                if isinstance(x, FnRef) or isinstance(y, FnRef):
                    r = TRUE if x == y else FALSE
                    return r if pr == 'eq' else ~r
                if not isinstance(x, Ptr) or not isinstance(y, Ptr): return e.opaque_val('pcmp', 'i1')
                if x.obj is y.obj and x.obj.kind != 'opaque' or (x.obj is y.obj and x.obj is not UNDEFO):
                    return icmp_int(pr, x.off, y.off)
                if pr in ('eq', 'ne'):
                    if y.obj is NULLO: r = e.is_null(x)
                    elif x.obj is NULLO: r = e.is_null(y)
                    elif x.obj.kind in ('undef', 'opaque', 'ext') or y.obj.kind in ('undef', 'opaque', 'ext'):
                        u, w = sorted((x.obj.name, y.obj.name)); r = bvar(mk('PEQ', u, w))
                    else: r = e.is_null(x) & e.is_null(y)
                    return r if pr == 'eq' else ~r
                return e.opaque_val('pcmp', 'i1')
            if isinstance(x, BDD) or isinstance(y, BDD):
                xb = x if isinstance(x, BDD) else ~EQ(x, 0); yb = y if isinstance(y, BDD) else ~EQ(y, 0)
                r = ite(xb, yb, ~yb)
                return r if pr == 'eq' else ~r
            return icmp_int(pr, x, y)
        return gbool(gmap(f, a, b, care=st.pc)) if (len(a.alts) > 1 or len(b.alts) > 1) else f(a.single, b.single)
    def fcmp(self, i, st):
        pr = i['pred']; a, b = self.val(i['ops'][0]), self.val(i['ops'][1])
        return gbool(gmap(lambda x, y: fcmp_bool(pr, x, y), a, b, care=st.pc))
    # ---- calls
    def call(self, i, st):
        e = self.e; cal = i['callee']
        args = [self.val(a) for a in i['args']]
        if isinstance(cal, str) or 'fn' not in cal:
            t = self.val(cal) if (isinstance(cal, str) or 'g' in cal or 'n' in cal or 'u' in cal) else gv(UNDEFP)
            return self.indirect(i, t, args, st)
        return self.direct(i, cal['fn'], args, st)
    def indirect(self, i, t, args, st):
        e = self.e
        alts = t.alts
        if len(alts) == 1 and isinstance(alts[0][1], FnRef): return self.direct(i, alts[0][1].name, args, st)
        if all(isinstance(v, FnRef) for g, v in alts):
            lst = []
            for g, v in alts:
                s = st.copy(); s.pc = st.pc & g
                s = self.direct(i, v.name, args, s)
                lst.append((s, {'r': self.env[i['id']]} if 'id' in i else {}))
            vals, s = e.join(lst)
            if 'id' in i: self.env[i['id']] = vals['r']
            return s
        m = e.models.get('*indirect*')
        if m:
            r = m(e, self, i, t, args, st)
            if r is not NotImplemented: return self.fin(i, r, st)
        e.note('indirect call')
        e.log('unknown-call', st, ('indirect', t))
        if 'id' in i: self.env[i['id']] = gv(e.opaque_val('icall', i['ty']))
        return st
    def fin(self, i, r, st):
        if isinstance(r, tuple): v, st = r
        else: v = r
        if 'id' in i:
            if v is None: v = gv(self.e.opaque_val('call', i['ty']))
            if i['ty'] == 'i1': v = gv(gbool(v))
            self.env[i['id']] = v
        return st
    def direct(self, i, name, args, st):
        e = self.e
        if name in e.opaque:
            return self.fin(i, e.opaque_call(name, i, args, st), st)
        m = e.models.get(name)
        if m is not None:
            r = m(e, self, i, name, args, st)
            if r is not NotImplemented: return self.fin(i, r, st)
        if name.startswith('llvm.'):
            r = intrinsic(e, self, i, name, args, st)
            return self.fin(i, r, st)
        f = e.F.get(name)
        if f is not None and not f['decl']:
            v, s = e.call_fn(name, args, st, i)
            e.cur = (self.f['name'], i)
            if 'id' in i and v is not None: self.env[i['id']] = v if i['ty'] != 'i1' else gv(gbool(v))
            elif 'id' in i: self.env[i['id']] = gv(e.opaque_val('noreturn', i['ty']))
            return s
        m = e.models.get('*unknown*')
        if m:
            r = m(e, self, i, name, args, st)
            if r is not NotImplemented: return self.fin(i, r, st)
        e.log('unknown-call', st, (name, args))
        if 'id' in i: self.env[i['id']] = gv(e.opaque_val('ext:' + name, i['ty']))
        return st
    # ---- loops
    def loop(self, l, edges):
        from loops import do_loop
        return do_loop(self, l, edges)

BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
def binop(op, x, y, e, ty):
    if isinstance(x, BDD): x = Ind(x)
    if isinstance(y, BDD): y = Ind(y)
    if not isinstance(x, Poly) or not isinstance(y, Poly):
        return e.opaque_val('binop', ty)
    if op in ('add', 'fadd'): return x + y
    if op in ('sub', 'fsub'): return x - y
    if op in ('mul', 'fmul'): return x * y
    if op == 'fdiv':
        if y.const == 0: return P(mk('Fn', 'div0', x))
        return pdiv(x, y)
    cx, cy = x.const, y.const
    if cx is not None and cy is not None and cx.denominator == 1 and cy.denominator == 1:
        a, b = int(cx), int(cy)
        try:
            if op in ('sdiv', 'udiv'): return P(int(a / b) if abs(a) < 2**50 else a // b)
            if op in ('srem', 'urem'): return P(a - b * int(a / b))
            if op == 'shl': return P(a << b)
            if op in ('ashr', 'lshr'): return P(a >> b)
            if op == 'and': return P(a & b)
            if op == 'or': return P(a | b)
            if op == 'xor': return P(a ^ b)
        except ZeroDivisionError: pass
    if op == 'shl' and cy is not None: return x * P(1 << int(cy))
    if op in ('sdiv', 'udiv') and cy is not None and cy != 0:
        q = pscale(x, qinv(cy))
        if all(c.denominator == 1 for m, c in q.terms): return q
    if op in ('and', 'or', 'xor'):
        if x.id > y.id: x, y = y, x
        if op == 'and' and (x is ZERO or y is ZERO): return ZERO
        if op != 'and' and x is ZERO: return y
        if op != 'and' and y is ZERO: return x
    return P(mk('Fn', op, x, y))
def trunc(x, ty):
    if isinstance(x, BDD): return Ind(x)
    if not isinstance(x, Poly): return x
    if x.const is not None:
        b = int(ty[1:]); v = int(x.const) & ((1 << b) - 1)
        if v >= 1 << (b - 1): v -= 1 << b
        return P(v)
    return P(mk('Fn', 'trunc' + ty, x))
def icmp_int(pr, x, y):
    if pr == 'eq': return EQ(x, y)
    if pr == 'ne': return ~EQ(x, y)
    if pr in ('slt', 'ult'): return LT(x, y)
    if pr in ('sgt', 'ugt'): return LT(y, x)
    if pr in ('sle', 'ule'): return LE(x, y)
    return LE(y, x)
def fcmp_bool(pr, x, y):
    if not isinstance(x, Poly) or not isinstance(y, Poly): return bvar(mk('OpqB', 'fcmp'))
    if pr == 'olt': return FLT(x, y)
    if pr == 'ogt': return FLT(y, x)
    if pr == 'ole': return FLE(x, y)
    if pr == 'oge': return FLE(y, x)
    if pr == 'oeq': return FEQ(x, y)
    if pr == 'une': return ~FEQ(x, y)
    if pr == 'one': return ~FEQ(x, y) & ~FNAN(x, y)
    if pr == 'ueq': return FEQ(x, y) | FNAN(x, y)
    if pr == 'uno': return FNAN(x, y)
    if pr == 'ord': return ~FNAN(x, y)
    if pr == 'ult': return ~FLE(y, x)
    if pr == 'ugt': return ~FLE(x, y)
    if pr == 'ule': return ~FLT(y, x)
    if pr == 'uge': return ~FLT(x, y)
    if pr == 'true': return TRUE
    return FALSE

# ------------------------------------------------------------------ library models
def m_malloc(e, fr, i, name, args, st):
    if name == 'calloc': size = to_poly(args[0]) * to_poly(args[1])
    else: size = to_poly(args[0])
    o = e.newobj('%s@%s:%s' % (name, fr.f['name'], i['id']), 'heap', size)
    if fr.e.loopstack: o.info['inloop'] = True
    o.info.pop('mode', None); o.info.pop('es', None)
    o.info['zero'] = name == 'calloc'
    o.nullable = e.oom
    for k in [k for k in st.cells if k[0] is o]: del st.cells[k]
    st.arrs.pop(o, None); st.freed[o] = ~st.pc if False else FALSE
    st.x[('alloc', o)] = gv(ONE)
    e.log('alloc', st, (o, size))
    return gv(Ptr(o, ZERO))
def m_free(e, fr, i, name, args, st):
    for g, p in args[0].alts:
        if not isinstance(p, Ptr): continue
        if p.obj is NULLO: continue
        c = st.pc & g
        e.log('free', st, (p.obj, p.off, c, st.freed.get(p.obj, FALSE)))
        st.freed[p.obj] = restrict(st.freed.get(p.obj, FALSE) | g, st.pc)
    return None
def m_sqrt(e, fr, i, name, args, st): return gmap(mksqrt, args[0], care=st.pc)
def mksqrt(x):
    c = x.const
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator: return P(Fraction(n, d))
    return P(mk('Fn', 'sqrt', x))
def m_fabs(e, fr, i, name, args, st): return gmap(lambda x: P(abs(x.const)) if x.const is not None else P(mk('Fn', 'abs', x)), args[0], care=st.pc)
def m_fmin(e, fr, i, name, args, st):
    a, b = args[0], args[1]
    def f(x, y): return x
    out = []
    for g, x in a.alts:
        for h, y in b.alts:
            c = FLT(y, x) if 'min' in name else FLT(x, y)
            out += [(g & h & c, y), (g & h & ~c, x)]
    return mkgv(out, st.pc)
def m_print(e, fr, i, name, args, st):
    e.log('print', st, (name, args))
    return gv(e.opaque_val('ret:' + name, i['ty']))
def m_clock(e, fr, i, name, args, st):
    p = args[1].single if len(args) > 1 else None
    e.log('clock', st, ())
    if isinstance(p, Ptr):
        for off in (0, 8): 
            if p.off.const is not None: st.cells[(p.obj, int(p.off.const) + off)] = gv(P(mk('Time', '%s:%s' % (fr.f['name'], len(e.events)), off)))
    return gv(ZERO)
MODELS = {'malloc': m_malloc, 'calloc': m_malloc, 'free': m_free, 'sqrt': m_sqrt, 'fabs': m_fabs,
          'fmin': m_fmin, 'fmax': m_fmin, **{k: m_print for k in ('printf', 'puts', 'putchar', 'fprintf', 'vprintf', 'vfprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'perror', 'write', 'dprintf', 'mexPrintf', 'mexWarnMsgTxt')},
          'clock_gettime': m_clock}

def copy_range(e, st, d, s, n, loc):
    """memcpy of n bytes (Poly) between single pointers"""
    if d.obj.kind in ('null', 'undef', 'opaque') or s.obj.kind in ('null', 'undef', 'opaque'):
        e.access(st, d.obj, d.off, 1, st.pc, True, d.obj.kind); e.access(st, s.obj, s.off, 1, st.pc, False, s.obj.kind)
        return
    smode = s.obj.info.get('mode'); dmode = d.obj.info.get('mode')
    scell = smode != 'arr' and (s.obj.struct or any(k[0] is s.obj for k in st.cells) or s.obj.kind == 'global')
    if n.const is not None and (scell or d.obj.struct):
        nb = int(n.const)
        so, do = int(s.off.const or 0), int(d.off.const or 0)
        e.access(st, d.obj, d.off, nb, st.pc, True, 'cell'); e.access(st, s.obj, s.off, nb, st.pc, False, 'cell')
        if s.obj.kind == 'global':
            c = 0
            while c < nb:
                v = e.glob_init(s.obj, so + c, 'ptr' if nb % 8 == 0 else 'i8')
                if v is not None: st.cells[(d.obj, do + c)] = v
                c += 8 if nb % 8 == 0 else 1
            return
        for k in [k for k in st.cells if k[0] is d.obj and do <= k[1] < do + nb]: del st.cells[k]
        for k in [k for k in st.cells if k[0] is s.obj and so <= k[1] < so + nb]:
            st.cells[(d.obj, do + k[1] - so)] = st.cells[k]
        return
    es = s.obj.info.get('es') or d.obj.info.get('es') or 8
    s.obj.info.setdefault('es', es); d.obj.info.setdefault('es', es)
    s.obj.info['mode'] = 'arr'; d.obj.info['mode'] = 'arr'
    ln = pscale(n, Fraction(1, es)); so = pscale(s.off, Fraction(1, es)); do = pscale(d.off, Fraction(1, es))
    K = newK(ln)
    e.loopstack.append((K, ln))
    e.access(st, d.obj, d.off + P(K) * P(es), es, st.pc, True, 'arr'); e.access(st, s.obj, s.off + P(K) * P(es), es, st.pc, False, 'arr')
    e.loopstack.pop()
    sg = e.get_arr(st, s.obj, es); dg = e.get_arr(st, d.obj, es)
    alts = []
    for g1, sa in sg.alts:
        for g2, da in dg.alts:
            if sat(g1 & g2 & st.pc):
                alts.append((g1 & g2, push(da, mk_map(K, do, ln, Rd(sa, so + P(K))))))
    st.arrs[d.obj] = mkgv(alts, st.pc)
def set_range(e, st, d, val, n):
    es = d.obj.info.get('es') or 8
    if d.obj.kind in ('null', 'undef', 'opaque'):
        e.access(st, d.obj, d.off, 1, st.pc, True, d.obj.kind); return
    if d.obj.struct or (d.obj.info.get('mode') == 'cell'):
        e.access(st, d.obj, d.off, int(n.const or 1), st.pc, True, 'cell')
        nb = int(n.const or 0); do = int(d.off.const or 0)
        for k in [k for k in st.cells if k[0] is d.obj and do <= k[1] < do + nb]: del st.cells[k]
        s = e.ir['structs'].get(d.obj.struct)
        for m in (s['members'] if s else []):
            if do <= m['off'] < do + nb: st.cells[(d.obj, m['off'])] = gv(NULLP if m['ptr'] else ZERO)
        return
    ln = pscale(n, Fraction(1, es)); do = pscale(d.off, Fraction(1, es))
    d.obj.info.setdefault('es', es); d.obj.info['mode'] = 'arr'
    K = newK(ln)
    e.loopstack.append((K, ln)); e.access(st, d.obj, d.off + P(K) * P(es), es, st.pc, True, 'arr'); e.loopstack.pop()
    dg = e.get_arr(st, d.obj, es)
    v = ZERO if val is ZERO else P(mk('Fn', 'memset', val))
    st.arrs[d.obj] = mkgv([(g, push(a, mk_map(K, do, ln, v))) for g, a in dg.alts], st.pc)
def intrinsic(e, fr, i, name, args, st):
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        d, s, n = args[0].single, args[1].single, to_poly(args[2])
        if isinstance(d, Ptr) and isinstance(s, Ptr): copy_range(e, st, d, s, n, e.loc())
        else: e.note('memcpy with guarded pointers')
        return None
    if name.startswith('llvm.memset'):
        d = args[0].single
        if isinstance(d, Ptr): set_range(e, st, d, to_poly(args[1]), to_poly(args[2]))
        else: e.note('memset with guarded pointer')
        return None
    if name.startswith('llvm.sqrt'): return m_sqrt(e, fr, i, name, args, st)
    if name.startswith('llvm.fabs'): return m_fabs(e, fr, i, name, args, st)
    if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'): return gmap(lambda a, b, c: a * b + c, *args, care=st.pc)
    if name.startswith(('llvm.maxnum', 'llvm.minnum', 'llvm.smin', 'llvm.smax')): 
        return m_fmin(e, fr, i, 'fmin' if 'min' in name else 'fmax', args, st)
    if name.startswith(('llvm.va_', 'llvm.assume', 'llvm.dbg', 'llvm.stack', 'llvm.lifetime')): return None
    if name.startswith('llvm.expect'): return args[0]
    e.note('intrinsic ' + name)
    return gv(e.opaque_val(name, i['ty'])) if 'id' in i else None
def m_memcpy(e, fr, i, name, args, st):
    intrinsic(e, fr, i, 'llvm.' + name, args, st); return args[0]
MODELS.update({'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memcpy})

# ------------------------------------------------------------------ uninterpreted kernels
# name: (argument roles, result) ; roles: s scalar, i array in, o array out, b array in+out, w scratch out, x ignored
KERNELS = {
    'LDL_symbolic': ('s', 'i', 'i', 'o', 'o', 'o', 'w', 'i', 'o'),
    'LDL_numeric': ('s', 'i', 'i', 'i', 'i', 'i', 'o', 'o', 'o', 'o', 'w', 'w', 'w', 'i', 'i'),
    'LDL_perm': ('s', 'o', 'i', 'i'), 'LDL_permt': ('s', 'o', 'i', 'i'),
    'LDL_lsolve': ('s', 'b', 'i', 'i', 'i'), 'LDL_dsolve': ('s', 'b', 'i'), 'LDL_ltsolve': ('s', 'b', 'i', 'i', 'i'),
    'amd_l_defaults': ('o',), 'amd_l_order': ('s', 'i', 'i', 'o', 'i', 'o'),
}
def arr_of_ptr(e, st, g, es=8):
    """content of the array(s) a guarded pointer designates"""
    out = []
    for c, p in g.alts:
        if not isinstance(p, Ptr): out.append((c, mk('ArrOpq', 'ptr'))); continue
        if p.obj is NULLO: out.append((c, mk('ArrNull'))); continue
        if p.obj.kind in ('undef', 'opaque', 'ext', 'null'): out.append((c, mk('ArrOpq', p.obj.name))); continue
        if p.obj.info.get('mode') == 'cell':
            p.obj.info['mode'] = 'arr'
        if p.off is not ZERO:
            out.append((c, mk('ArrOff', e.get_arr(st, p.obj, es).alts[0][1], p.off))); continue
        p.obj.info.setdefault('es', es)
        if p.obj.kind == 'alloca' or p.obj.kind == 'heap': p.obj.info['mode'] = 'arr'
        a = e.get_arr(st, p.obj, es)
        for c2, x in a.alts: out.append((c & c2, x))
    from loops import arr_single
    return arr_single(mkgv(out, st.pc))
def opaque_call(self, name, i, args, st):
    self.kcalls = getattr(self, 'kcalls', 0) + 1
    roles = KERNELS.get(name)
    e = self
    if roles is None or len(roles) != len(args):
        e.note('opaque call ' + name)
        for a in args:
            for c, p in a.alts:
                if isinstance(p, Ptr) and p.obj.kind in ('param', 'heap', 'alloca'):
                    if p.obj in st.arrs or p.obj.info.get('es'):
                        st.arrs[p.obj] = gv(mk('ArrOpq', '%s:%d' % (name, e.opq))); e.opq += 1
        e.log('call', st, (name, args, None, None))
        return gv(e.opaque_val('ret:' + name, i['ty']))
    ins = []; vals = []
    for r, a in zip(roles, args):
        if r == 's': v = to_poly(a) if all(isinstance(x, Poly) for _, x in a.alts) else P(mk('Opq', 'arg')); ins.append(v); vals.append(v)
        elif r in ('i', 'b'):
            v = arr_of_ptr(e, st, a); ins.append(v); vals.append(v)
        else: vals.append(None)
    e.log('call', st, (name, args, tuple(vals), roles))
    app = mk('App', name, *ins)
    for j, (r, a) in enumerate(zip(roles, args)):
        if r not in ('o', 'b', 'w'): continue
        for c, p in a.alts:
            if not isinstance(p, Ptr) or p.obj.kind in ('null', 'undef', 'opaque', 'ext'):
                if isinstance(p, Ptr) and not (r == 'o' and p.obj is NULLO): e.access(st, p.obj, p.off, 8, st.pc & c, True, p.obj.kind)
                continue
            p.obj.info.setdefault('es', 8); p.obj.info['mode'] = 'arr'
            out = mk('ArrApp', app, j)
            ln = arr_len(p.obj, 8)
            old = e.get_arr(st, p.obj, 8)
            g = restrict(c, st.pc)
            st.arrs[p.obj] = mkgv([(g, out)] + [(~g & h, x) for h, x in old.alts], st.pc)
    if i['ty'] == 'void': return None
    return gv(P(mk('Ret', app)))
Engine.opaque_call = opaque_call
