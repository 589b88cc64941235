"""CPython / NumPy C-API models: what each call does to references, the error indicator, the lock and the data.

The extension module is interpreted abstractly once over symbolic arguments; every API call becomes a guarded
event.  A valuation of the arguments (shapes, element types, option values) selects the events that happen, and
`Replay` checks the resulting trace against the rules of the C-API (reference counts, error indicator, lock).
"""
import os, re
from interp import *
import sym as S, build_ir
from evalsym import UndefVal, Opaque

NPINC = '/usr/lib/python3/dist-packages/numpy/core/include'
def api_names():
    out = {}
    pend = ''
    for l in open(os.path.join(NPINC, 'numpy', '__multiarray_api.h')):
        m = re.match(r'#define (\w+)', l)
        if m: pend = m.group(1)
        m = re.search(r'PyArray_API\[(\d+)\]', l)
        if m and pend: out[int(m.group(1))] = pend; pend = ''
    return out
_ir = []
def py_ir():
    if not _ir:
        fl = build_ir.CFLAGS
        try:
            build_ir.CFLAGS = fl + ['-Xclang', '-disable-llvm-passes']
            _ir.append(build_ir.py_ir())
        finally: build_ir.CFLAGS = fl
    return _ir[0]

ARGS = ('c', 'h', 'P', 'G', 'A', 'b', 'opts')
ARRF = 'tagPyArrayObject_fields'

class PyEngine(Engine):
    def access(self, st, o, off, size, pc, write, mode):
        super().access(st, o, off, size, pc, write, mode)
        if self.quiet: return
        ow = o.info.get('pyowner')
        if ow is None and o.name.startswith('arg:'): ow = self.argobj.get(o.name.split('->')[0])
        if ow is not None or o.info.get('qp') or o.kind in ('null', 'undef'):
            s = st
            if pc is not st.pc: s = st.copy(); s.pc = pc
            self.log('touch', s, (o, off, size, write, ow, tuple(self.loopstack)))
    def string(self, st, g):
        """constant string a guarded pointer designates (None when it is not one)"""
        p = g.single
        if not isinstance(p, Ptr) or p.obj.kind != 'global' or p.off.const is None: return None
        ini = self.G.get(p.obj.info['g'], {}).get('init') or {}
        if 's' not in ini: return None
        return ini['s'][int(p.off.const):].split('\0')[0]
    def setcell(self, st, o, off, v): st.cells[(o, off)] = v if isinstance(v, GV) else gv(v)
    # ---- objects
    def here(self, base):
        fn, ins = self.cur
        return '%s@%s:%s' % (base, fn, ins.get('id') or ins.get('line'))
    def pyobj(self, base, struct='_object', **info):
        o = self.newobj('py:' + self.here(base), 'param', struct=struct)
        o.info.pop('mode', None)
        o.info.update(info); o.info['pyowner'] = o; o.info['py'] = True
        return o
    def newarray(self, st, base, dims, typ, content=None, undef=True, zero=False, dataptr=None):
        """array object with its own data block; dims: list of polys (or None when unknown)"""
        o = self.pyobj(base, ARRF)
        o.info['dims'] = dims; o.info['type'] = typ
        for k in [k for k in st.cells if k[0] is o]: del st.cells[k]
        nd = P(len(dims)) if dims is not None else P(mk('Opq', 'nd:' + o.name))
        self.setcell(st, o, 24, nd)
        d = self.newobj('py:' + self.here(base) + '.dims', 'param'); d.info.update({'es': 8, 'mode': 'arr', 'elt': 'int', 'pyowner': o}); d.size = nd * P(8)
        if dims is not None:
            a = ArrSym(d.name); a.attr['len'] = nd
            for i, x in enumerate(dims): a = push(a, mk_map(None, P(i), ONE, x))
            st.arrs[d] = gv(a)
        self.setcell(st, o, 32, Ptr(d, ZERO))
        ds = self.pyobj(base + '.descr', '_PyArray_Descr'); ds.info['pyowner'] = o
        self.setcell(st, ds, 28, typ); self.setcell(st, o, 56, Ptr(ds, ZERO))
        self.setcell(st, o, 64, P(0x507))
        if dataptr is not None: self.setcell(st, o, 16, dataptr); o.info['data'] = None
        else:
            b = self.newobj('py:' + self.here(base) + '.data', 'heap'); b.info.update({'es': 8, 'mode': 'arr', 'elt': 'fp', 'pyowner': o, 'zero': zero})
            sz = ONE
            for x in dims or (): sz = sz * x
            b.size = (sz if dims is not None else P(mk('Opq', 'size:' + o.name))) * P(8)
            st.arrs.pop(b, None)
            if content is not None: st.arrs[b] = content
            self.setcell(st, o, 16, Ptr(b, ZERO)); o.info['data'] = b
        return o

def uname(e, g):
    p = g.single
    return p.obj.name if isinstance(p, Ptr) else None
def each(g): return [(c, p) for c, p in g.alts]
def onlyptr(g): return isinstance(g.single, Ptr)

def narrow(g, st):
    """drop alternatives that cannot be chosen here"""
    if len(g.alts) < 2: return g
    return mkgv([(c, v) for c, v in g.alts if sat(c & st.pc)] or list(g.alts), st.pc)

# ------------------------------------------------------------------ models
M = {}
def model(*names):
    def d(f):
        def g(e, fr, i, name, args, st): return f(e, fr, i, name, [narrow(a, st) for a in args], st)
        for n in names: M[n] = g
        return g
    return d
def api(e, st, name, args): e.log('api', st, (name, args))
def seterr(e, st, kind):
    e.log('seterr', st, kind); st.x['exc'] = gv(ONE)
def newref(e, st, o): e.log('new', st, o); return gv(Ptr(o, ZERO))

@model('Py_INCREF', 'Py_IncRef', '_Py_INCREF')
def m_inc(e, fr, i, name, args, st): e.log('inc', st, (args[0], False)); return None
@model('Py_XINCREF')
def m_xinc(e, fr, i, name, args, st): e.log('inc', st, (args[0], True)); return None
@model('Py_DECREF', 'Py_DecRef', '_Py_DECREF')
def m_dec(e, fr, i, name, args, st): e.log('dec', st, (args[0], name == 'Py_DecRef')); return None
@model('Py_XDECREF', '_Py_XDECREF')
def m_xdec(e, fr, i, name, args, st): e.log('dec', st, (args[0], True)); return None
@model('Py_NewRef', '_Py_NewRef')
def m_newref(e, fr, i, name, args, st): e.log('inc', st, (args[0], False)); return args[0]
@model('Py_XNewRef', '_Py_XNewRef')
def m_xnewref(e, fr, i, name, args, st): e.log('inc', st, (args[0], True)); return args[0]
@model('PyErr_SetString', 'PyErr_SetObject', 'PyErr_Format', 'PyErr_SetNone', 'PyErr_FormatV')
def m_seterr(e, fr, i, name, args, st):
    p = args[0].single
    api(e, st, name, args[:0]); k = '?'
    k = p.obj.name.lstrip('@').split('+')[0] if isinstance(p, Ptr) else '?'
    seterr(e, st, k)
    return gv(NULLP) if i.get('id') and i['ty'] == 'ptr' else None
@model('PyErr_NoMemory')
def m_nomem(e, fr, i, name, args, st): seterr(e, st, 'PyExc_MemoryError'); return gv(NULLP)
@model('PyErr_BadArgument', 'PyErr_BadInternalCall')
def m_badarg(e, fr, i, name, args, st): seterr(e, st, 'PyExc_TypeError'); return gv(ZERO)
@model('PyErr_Clear')
def m_clr(e, fr, i, name, args, st): e.log('clearerr', st, None); st.x['exc'] = gv(ZERO); api(e, st, name, []); return None
@model('PyErr_Occurred')
def m_occ(e, fr, i, name, args, st):
    api(e, st, name, [])
    o = e.pyobj('exception-type'); o.info['borrowed'] = True
    b = gbool(st.x.get('exc', gv(ZERO)))
    return mkgv([(b, Ptr(o, ZERO)), (~b, NULLP)], st.pc)
@model('PyErr_ExceptionMatches')
def m_matches(e, fr, i, name, args, st): api(e, st, name, []); return gv(e.opaque_val(name, 'i32'))
@model('PyErr_WarnEx', 'PyErr_WarnFormat', 'PyErr_WarnExplicit')
def m_warn(e, fr, i, name, args, st):
    api(e, st, name, []); b = bvar(mk('SymB', 'warn-raises'))
    old = st.x.get('exc', gv(ZERO))
    e.log('seterr-if', st, (b, 'UserWarning'))
    st.x['exc'] = mkgv([(b, ONE)] + [(~b & g, v) for g, v in old.alts], st.pc)
    return mkgv([(b, P(-1)), (~b, ZERO)], st.pc)
@model('PyEval_SaveThread')
def m_save(e, fr, i, name, args, st):
    e.log('gil', st, 0); o = e.newobj('tstate', 'param', struct='_ts'); return gv(Ptr(o, ZERO))
@model('PyEval_RestoreThread', 'PyEval_AcquireThread')
def m_rest(e, fr, i, name, args, st): e.log('gil', st, 1); return None
@model('PyGILState_Ensure')
def m_ens(e, fr, i, name, args, st): e.log('gil', st, 2); return gv(ZERO)
@model('PyGILState_Release')
def m_rel(e, fr, i, name, args, st): e.log('gil', st, 3); return None
# ---- types
@model('Py_TYPE')
def m_type(e, fr, i, name, args, st):
    def f(p):
        if not isinstance(p, Ptr): return UNDEFP
        n = 'typeof:' + p.obj.name
        o = e.objs.get((n, 'opaque'))
        if o is None: o = Obj(n, 'opaque'); o.seq = 2 * 10**6 + len(e.objs); e.objs[(n, 'opaque')] = o; o.info['of'] = p.obj
        return Ptr(o, ZERO)
    e.log('peek', st, args[0])
    return gmap(f, args[0], care=st.pc)
def tyname(e, g):
    p = g.single
    if isinstance(p, Ptr):
        return p.obj.info.get('tyname') or p.obj.name.lstrip('@')
    return '?'
def isa(e, p, ty, kind='isa'):
    if not isinstance(p, Ptr) or p.obj in (NULLO, UNDEFO): return bvar(mk('OpqB', 'isa-null'))
    if p.obj.info.get('py') and p.obj.struct == ARRF and not p.obj.name.startswith('arg:'): return TRUE if 'PyArray' in ty else FALSE
    return bvar(mk('SymB', '%s:%s:%s' % (kind, p.obj.name, ty)))
@model('PyObject_TypeCheck', '_PyObject_TypeCheck')
def m_tc(e, fr, i, name, args, st):
    t = tyname(e, args[1]); e.log('peek', st, args[0])
    b = FALSE
    for c, p in args[0].alts: b = b | (c & isa(e, p, t))
    return mkgv([(b, ONE), (~b, ZERO)], st.pc)
@model('Py_IS_TYPE')
def m_ist(e, fr, i, name, args, st):
    t = tyname(e, args[1]); e.log('peek', st, args[0])
    b = FALSE
    for c, p in args[0].alts: b = b | (c & isa(e, p, t, 'exact'))
    return mkgv([(b, ONE), (~b, ZERO)], st.pc)
@model('PyType_HasFeature', 'PyType_FastSubclass')
def m_feat(e, fr, i, name, args, st):
    mask = to_poly(args[1]).const; b = FALSE
    for c, p in args[0].alts:
        of = p.obj.info.get('of') if isinstance(p, Ptr) else None
        b = b | (c & (bvar(mk('SymB', 'flag:%s:%s' % (of.name, mask))) if of is not None else bvar(mk('OpqB', 'feat'))))
    return mkgv([(b, ONE), (~b, ZERO)], st.pc)
@model('PyType_IsSubtype')
def m_sub(e, fr, i, name, args, st):
    t = tyname(e, args[1]); b = FALSE
    for c, p in args[0].alts:
        of = p.obj.info.get('of') if isinstance(p, Ptr) else None
        b = b | (c & (isa(e, Ptr(of, ZERO), t) if of is not None else bvar(mk('OpqB', 'subtype'))))
    return mkgv([(b, ONE), (~b, ZERO)], st.pc)
@model('PyObject_IsInstance')
def m_isinst(e, fr, i, name, args, st):
    api(e, st, name, args[:1]); return m_tc(e, fr, i, name, args, st)
# ---- argument parsing
@model('PyArg_ParseTupleAndKeywords', '_PyArg_ParseTupleAndKeywords_SizeT', 'PyArg_ParseTuple', '_PyArg_ParseTuple_SizeT')
def m_parse(e, fr, i, name, args, st):
    kw = 'Keywords' in name
    api(e, st, name, [])
    fmt = e.string(st, args[2 if kw else 1]); names = list(ARGS); va = args[4 if kw else 2:]
    e.quiet += 1
    try:
        if kw:
            names = []
            kp = args[3].single
            for k in range(16):
                g = e.load(st, gv(Ptr(kp.obj, kp.off + P(8 * k))), 'ptr', 8, {})
                if g.single is NULLP or g.single == NULLP: break
                s = e.string(st, g)
                if s is None: break
                names.append(s)
    finally: e.quiet -= 1
    if fmt is None: e.log('unknown', st, name + ' (format)'); return gv(e.opaque_val(name, i['ty']))
    e.parsed = {'format': fmt, 'names': names}
    fmt = fmt.split(':')[0].split(';')[0]
    pos = 0; k = 0; opt = False; ok = TRUE; stores = []
    while pos < len(fmt):
        ch = fmt[pos]
        if ch in ' ': pos += 1; continue
        if ch == '|': opt = True; pos += 1; continue
        if ch == '$': pos += 1; continue
        nm = names[k] if k < len(names) else '?%d' % k
        k += 1
        a = e.arg(nm)
        given = e.given(nm)
        if not opt: ok = ok & given
        if ch == 'O' and fmt[pos + 1:pos + 2] == '!':
            t = tyname(e, va[0]); dst = va[1]; va = va[2:]; pos += 2
            ok = ok & (~given | isa(e, Ptr(a, ZERO), t))
            e.checked.setdefault(nm, set()).add(t)
        elif ch == 'O': dst = va[0]; va = va[1:]; pos += 1
        else:
            e.log('unknown', st, '%s (format unit %s)' % (name, ch)); return gv(e.opaque_val(name, i['ty']))
        stores.append((given, dst, a, opt))
    e.log('seterr-if', st, (~ok, 'PyExc_TypeError'))
    old = st.x.get('exc', gv(ZERO))
    st.x['exc'] = mkgv([(~ok, ONE)] + [(ok & g, v) for g, v in old.alts], st.pc)
    for given, dst, a, opt in stores:
        for c, p in dst.alts: e.store1(st, p, gv(Ptr(a, ZERO)), 'ptr', 8, ok & given & c)
    return mkgv([(ok, ONE), (~ok, ZERO)], st.pc)
# ---- dictionaries
@model('PyDict_GetItemString', 'PyDict_GetItemWithError', 'PyDict_GetItem', '_PyDict_GetItemStringWithError', 'PyMapping_GetItemString', 'PyDict_GetItemStringRef')
def m_get(e, fr, i, name, args, st):
    api(e, st, name, args[:1])
    if 'String' in name: key = e.string(st, args[1])
    else:
        p = args[1].single; key = p.obj.info.get('str') if isinstance(p, Ptr) else None
    dp = args[0].single
    if key is None or not isinstance(dp, Ptr) or dp.obj.name != 'arg:opts':
        e.log('unknown', st, name); return gv(e.opaque_val(name, i['ty']))
    has = bvar(mk('SymB', 'has:' + key)); o = e.opt(key); e.keys.add(key)
    if name == 'PyMapping_GetItemString':
        s = st.copy(); s.pc = st.pc & has; e.log('inc', s, (gv(Ptr(o, ZERO)), False))
        e.log('seterr-if', st, (~has, 'PyExc_KeyError'))
        st.x['exc'] = mkgv([(~has, ONE)] + [(has & g, v) for g, v in st.x.get('exc', gv(ZERO)).alts], st.pc)
    return mkgv([(has, Ptr(o, ZERO)), (~has, NULLP)], st.pc)
@model('PyUnicode_FromString', 'PyUnicode_InternFromString')
def m_str(e, fr, i, name, args, st):
    api(e, st, name, []); o = e.pyobj('str'); o.info['str'] = e.string(st, args[0]); return newref(e, st, o)
@model('PyDict_Contains')
def m_contains(e, fr, i, name, args, st):
    api(e, st, name, args); p = args[1].single; key = p.obj.info.get('str') if isinstance(p, Ptr) else None
    if key is None: return gv(e.opaque_val(name, i['ty']))
    has = bvar(mk('SymB', 'has:' + key)); e.opt(key)
    return mkgv([(has, ONE), (~has, ZERO)], st.pc)
@model('PyDict_Size')
def m_dsize(e, fr, i, name, args, st): api(e, st, name, args); return gv(e.opaque_val(name, i['ty']))
@model('PyDict_New')
def m_dnew(e, fr, i, name, args, st): api(e, st, name, []); o = e.pyobj('dict'); e.log('new', st, o); e.log('build', st, (o, 'dict', [])); return gv(Ptr(o, ZERO))
@model('PyDict_SetItemString')
def m_dset(e, fr, i, name, args, st):
    api(e, st, name, [args[0], args[2]]); e.log('dictset', st, (args[0], e.string(st, args[1]), args[2])); return gv(ZERO)
# ---- numbers
def conv(e, st, g, what, ty, errname):
    """value of an option object, with the error it may raise"""
    p = g.single
    if not isinstance(p, Ptr) or not p.obj.name.startswith('opt:'):
        e.log('unknown', st, what); return gv(e.opaque_val(what, ty))
    a = Sym('%s:%s' % (what, p.obj.name)); a.attr['ty'] = ty
    er = bvar(mk('SymB', '%serr:%s' % (what, p.obj.name)))
    e.log('seterr-if', st, (er, errname))
    st.x['exc'] = mkgv([(er, ONE)] + [(~er & h, v) for h, v in st.x.get('exc', gv(ZERO)).alts], st.pc)
    return gv(P(a))
@model('PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_AsSsize_t', 'PyInt_AsLong', '_PyLong_AsInt', 'PyLong_AsInt')
def m_aslong(e, fr, i, name, args, st): api(e, st, name, args); return conv(e, st, args[0], 'long' if 'Int' not in name[7:] else 'int', 'i64', 'PyExc_OverflowError')
@model('PyLong_AsLongAndOverflow', 'PyLong_AsLongLongAndOverflow')
def m_aslongovf(e, fr, i, name, args, st):
    api(e, st, name, args[:1]); p = args[0].single
    if not isinstance(p, Ptr) or not p.obj.name.startswith('opt:'): e.log('unknown', st, name); return gv(e.opaque_val(name, 'i64'))
    ov = Sym('ovf:' + p.obj.name); e.store(st, args[1], gv(P(ov)), 'i32', 4, i)
    return gv(P(Sym('long:' + p.obj.name)))
@model('PyFloat_AsDouble')
def m_asdbl(e, fr, i, name, args, st): api(e, st, name, args); return conv(e, st, args[0], 'float', 'double', 'PyExc_TypeError')
@model('PyFloat_AS_DOUBLE')
def m_asdbl2(e, fr, i, name, args, st):
    p = args[0].single
    if not isinstance(p, Ptr) or not p.obj.name.startswith('opt:'): e.log('unknown', st, name); return gv(e.opaque_val(name, 'double'))
    e.log('rawfloat', st, args[0])
    a = Sym('float:' + p.obj.name); a.attr['ty'] = 'double'; return gv(P(a))
@model('PyLong_FromLong', 'PyLong_FromLongLong', 'PyLong_FromSsize_t')
def m_frl(e, fr, i, name, args, st): api(e, st, name, []); o = e.pyobj('int'); e.log('new', st, o); e.log('build', st, (o, 'num', [('l', args[0])])); return gv(Ptr(o, ZERO))
@model('PyFloat_FromDouble')
def m_frd(e, fr, i, name, args, st): api(e, st, name, []); o = e.pyobj('float'); e.log('new', st, o); e.log('build', st, (o, 'num', [('d', args[0])])); return gv(Ptr(o, ZERO))
@model('Py_BuildValue', '_Py_BuildValue_SizeT')
def m_build(e, fr, i, name, args, st):
    api(e, st, name, [])
    fmt = e.string(st, args[0]); va = list(args[1:]); tys = list(i.get('aty', []))[1:]
    if fmt is None: e.log('unknown', st, name + ' (format)'); return gv(e.opaque_val(name, 'ptr'))
    pos = [0]
    def skip():
        while pos[0] < len(fmt) and fmt[pos[0]] in ' ,:\t': pos[0] += 1
    def item():
        skip(); ch = fmt[pos[0]]; pos[0] += 1
        if ch == '{':
            ent = []
            while True:
                skip()
                if fmt[pos[0]] == '}': pos[0] += 1; break
                k = item(); v = item(); ent.append((k, v))
            return ('dict', ent)
        if ch in '([':
            ent = []; cl = ')' if ch == '(' else ']'
            while True:
                skip()
                if fmt[pos[0]] == cl: pos[0] += 1; break
                ent.append(item())
            return ('seq', ent)
        if not va: return ('missing', None)
        a = va.pop(0); t = tys.pop(0) if tys else None
        if fmt[pos[0]:pos[0] + 1] == '#': pos[0] += 1; va.pop(0); tys.pop(0)
        if ch in 'szU': return ('str', e.string(st, a))
        if ch in 'OSN':
            if fmt[pos[0]:pos[0] + 1] == '&': pos[0] += 1; va.pop(0); return ('unknown', None)
            return ('obj', (a, ch == 'N'))
        return ('num', (ch, a, t))
    try:
        top = []
        while True:
            skip()
            if pos[0] >= len(fmt): break
            top.append(item())
    except IndexError:
        e.log('badformat', st, fmt); return gv(e.opaque_val(name, 'ptr'))
    left = va
    o = e.pyobj('built'); e.log('new', st, o)
    e.log('build', st, (o, 'format', top, len(left), fmt))
    return gv(Ptr(o, ZERO))
# ---- arrays
def shape_of(e, st, p):
    """dimensions of an array object (list of polys) when their number is known"""
    d = p.obj.info.get('dims')
    return d
def content_of(e, st, p):
    o = p.obj
    if o.name.startswith('arg:') and '->' not in o.name:
        a = ArrSym('val:' + o.name); a.attr['len'] = P(Sym('size:' + o.name)); return gv(a)
    b = o.info.get('data')
    if b is not None: return e.get_arr(st, b, 8)
    return gv(mk('ArrOpq', 'data of ' + o.name))
def copy_of(e, st, g, base, typ):
    """new array with the values of the array g designates"""
    cs = []; sizes = set(); dims = None
    for c, p in g.alts:
        if not isinstance(p, Ptr) or p.obj in (NULLO, UNDEFO): continue
        for h, a in content_of(e, st, p).alts: cs.append((c & h, a))
    o = e.newarray(st, base, None, typ)
    b = o.info['data']
    roots = {root(p.obj) for c, p in g.alts if isinstance(p, Ptr)}
    o.info['root'] = roots.pop() if len(roots) == 1 else None
    # shape of the copy: that of the source, field by field
    e.quiet += 1
    try:
        nd = e.load(st, gmap(lambda p: Ptr(p.obj, P(24)) if isinstance(p, Ptr) else UNDEFP, g, care=st.pc), 'i32', 4, {})
        dm = e.load(st, gmap(lambda p: Ptr(p.obj, P(32)) if isinstance(p, Ptr) else UNDEFP, g, care=st.pc), 'ptr', 8, {})
        e.setcell(st, o, 24, nd); e.setcell(st, o, 32, dm)
    finally: e.quiet -= 1
    b.size = P(Sym('size:' + o.info['root'])) * P(8) if o.info['root'] else None
    if cs: st.arrs[b] = mkgv(cs, st.pc)
    return o
def root(o):
    if o.info.get('root'): return o.info['root']
    return o.name
def typ_of(e, st, g):
    """element type number of the array(s)"""
    e.quiet += 1
    try:
        d = e.load(st, gmap(lambda p: Ptr(p.obj, P(56)) if isinstance(p, Ptr) else UNDEFP, g, care=st.pc), 'ptr', 8, {})
        return to_poly(e.load(st, gmap(lambda p: Ptr(p.obj, P(28)) if isinstance(p, Ptr) else UNDEFP, d, care=st.pc), 'i32', 4, {}))
    finally: e.quiet -= 1
@model('PyArray_DescrFromType')
def m_descr(e, fr, i, name, args, st):
    api(e, st, name, []); o = e.pyobj('descr', '_PyArray_Descr'); o.info['typ'] = to_poly(args[0]); e.setcell(st, o, 28, args[0])
    return newref(e, st, o)
def descr_typ(e, st, g, default):
    p = g.single
    if isinstance(p, Ptr) and p.obj is NULLO: return default
    if isinstance(p, Ptr) and 'typ' in p.obj.info: return p.obj.info['typ']
    return P(mk('Opq', 'descr'))
@model('PyArray_CastToType')
def m_cast(e, fr, i, name, args, st):
    api(e, st, name, args[:2]); t = descr_typ(e, st, args[1], None) or typ_of(e, st, args[0])
    o = copy_of(e, st, args[0], 'cast', t); o.info['forder'] = to_poly(args[2])
    e.log('steal', st, args[1]); return newref(e, st, o)
@model('PyArray_NewCopy', 'PyArray_Copy')
def m_copy(e, fr, i, name, args, st):
    api(e, st, name, args[:1]); o = copy_of(e, st, args[0], 'copy', typ_of(e, st, args[0]))
    o.info['forder'] = P(0) if name == 'PyArray_Copy' else to_poly(args[1])
    return newref(e, st, o)
ALIASABLE = True
@model('PyArray_FromAny', 'PyArray_CheckFromAny', 'PyArray_FromArray')
def m_fromany(e, fr, i, name, args, st):
    fa = name == 'PyArray_FromArray'
    api(e, st, name, args[:1]); fl = to_poly(args[2] if fa else args[4]); d = args[1]
    t = descr_typ(e, st, d, None)
    f = int(fl.const) if fl.const is not None else 0
    ns = d.single is not None and isinstance(d.single, Ptr) and d.single.obj is NULLO
    o = copy_of(e, st, args[0], 'from', t if t is not None else typ_of(e, st, args[0]))
    o.info['forder'] = P(1 if f & 2 and not f & 1 else (0 if f & 1 else 2))
    o.info['alias'] = not (f & 0x20)         # without NPY_ARRAY_ENSURECOPY the caller's own array may come back
    if not ns: e.log('steal', st, d)
    return newref(e, st, o)
def read_dims(e, st, nd, g):
    n = to_poly(nd).const
    if n is None or n > 8: return None
    out = []
    for k in range(int(n)):
        x = e.load(st, gmap(lambda p: Ptr(p.obj, p.off + P(8 * k)) if isinstance(p, Ptr) else UNDEFP, g, care=st.pc), 'i64', 8, {})
        out.append(to_poly(x) if all(isinstance(y, Poly) for _, y in x.alts) else P(mk('Opq', 'dim')))
    return out
@model('PyArray_New')
def m_new(e, fr, i, name, args, st):
    api(e, st, name, [])
    dims = read_dims(e, st, args[1], args[2]); dp = args[5].single
    own = isinstance(dp, Ptr) and dp.obj is NULLO
    o = e.newarray(st, 'array', dims, to_poly(args[3]), dataptr=None if own else args[5])
    o.info['borrowsdata'] = not own
    o.info['forder'] = P(0) if own else to_poly(args[7])
    return newref(e, st, o)
@model('PyArray_NewFromDescr')
def m_newd(e, fr, i, name, args, st):
    api(e, st, name, [])
    dims = read_dims(e, st, args[2], args[3]); dp = args[5].single
    own = isinstance(dp, Ptr) and dp.obj is NULLO
    o = e.newarray(st, 'array', dims, descr_typ(e, st, args[1], P(12)), dataptr=None if own else args[5])
    o.info['borrowsdata'] = not own
    e.log('steal', st, args[1]); return newref(e, st, o)
@model('PyArray_Zeros', 'PyArray_Empty')
def m_zeros(e, fr, i, name, args, st):
    api(e, st, name, [])
    dims = read_dims(e, st, args[0], args[1])
    o = e.newarray(st, 'array', dims, descr_typ(e, st, args[2], P(12)), zero=name == 'PyArray_Zeros')
    e.log('steal', st, args[2]); return newref(e, st, o)
@model('PyArray_EnsureArray')
def m_ens2(e, fr, i, name, args, st): api(e, st, name, args); e.log('unknown', st, name); return args[0]

def dims_of_arg(p):
    """argument whose dimension list a pointer designates"""
    if isinstance(p, Ptr) and p.obj.name.startswith('arg:') and p.obj.name.endswith('->dimensions') and p.off.const == 0: return p.obj.name[:-12]
    return None
@model('PyArray_MultiplyList', 'PyArray_MultiplyIntList', 'PyArray_OverflowMultiplyList')
def m_mul(e, fr, i, name, args, st):
    api(e, st, name, [])
    def one(p):
        x = dims_of_arg(p); n = to_poly(args[1])
        if x is not None and n == P(Sym(x + '->nd')): return P(Sym('size:' + x))
        if isinstance(p, Ptr) and n.const is not None:
            t = ONE
            for d in read_dims(e, st, args[1], gv(p)) or [P(mk('Opq', 'dim'))]: t = t * d
            return t
        return P(mk('Opq', 'size'))
    return gmap(one, args[0], care=st.pc)
@model('PyArray_Size')
def m_size(e, fr, i, name, args, st):
    api(e, st, name, args[:1])
    return gmap(lambda p: P(Sym('size:' + p.obj.name)) if isinstance(p, Ptr) and p.obj.name.startswith('arg:') and '->' not in p.obj.name else P(mk('Opq', 'size')), args[0], care=st.pc)
@model('PyArray_CompareLists')
def m_cmpl(e, fr, i, name, args, st):
    api(e, st, name, [])
    a, b = dims_of_arg(args[0].single), dims_of_arg(args[1].single); n = to_poly(args[2])
    if a and b and n in (P(Sym(a + '->nd')), P(Sym(b + '->nd'))): c = bvar(mk('SymB', 'samedims:%s:%s:%s' % (a[4:], b[4:], (a if n == P(Sym(a + '->nd')) else b)[4:])))
    elif n.const is not None and n.const <= 4:
        x = read_dims(e, st, args[2], args[0]); y = read_dims(e, st, args[2], args[1]); c = TRUE
        for u, v in zip(x, y): c = c & EQ(u, v)
    else: c = bvar(mk('OpqB', name))
    return mkgv([(c, ONE), (~c, ZERO)], st.pc)
@model('PySys_WriteStdout', 'PySys_WriteStderr', 'PySys_FormatStdout', 'PySys_FormatStderr', 'PyErr_CheckSignals', 'PyGILState_Check', 'PyThreadState_Get', 'PyErr_Print')
def m_harmless(e, fr, i, name, args, st):
    api(e, st, name, [])
    if name == 'PyErr_Print': e.log('clearerr', st, None); st.x['exc'] = gv(ZERO)
    return gv(e.opaque_val(name, i['ty'])) if i.get('id') else None
# ---- the solver
FIELDS = ('x', 'y', 'z', 's')
def m_setup(e, fr, i, name, args, st):
    e.log('setup', st, (name, args))
    q = e.newobj('qp', 'param', struct='QP'); q.info.pop('mode', None); q.info['qp'] = True
    for k in [k for k in st.cells if k[0] is q]: del st.cells[k]
    n, m, p = [to_poly(a) for a in args[:3]]
    for f, ln in (('x', n), ('y', p), ('z', m), ('s', m), ('c', n), ('h', m), ('b', p)):
        e.param_info['%s->%s' % (q.name, f)] = {'size': ln * P(8), 'es': 8, 'mode': 'arr', 'elt': 'fp', 'qp': True}
    for f in ('options', 'stats', 'kkt'): e.param_info['%s->%s' % (q.name, f)] = {'qp': True}
    def fld_(f):
        for mm in e.ir['structs']['QP']['members']:
            if mm['name'] == f: return mm['off']
    for f, v in (('n', n), ('m', m), ('p', p)): e.setcell(st, q, fld_(f), v)
    og = e.load(st, gv(Ptr(q, P(fld_('options')))), 'ptr', 8, {})
    oo = og.single.obj
    for mm in e.ir['structs']['settings']['members']:
        a = Sym('dflt:' + mm['name']); a.attr['ty'] = 'double' if mm['type'] in ('double', 'qp_real') else 'i64'
        e.setcell(st, oo, mm['off'], P(a))
    e.qp = q
    return gv(Ptr(q, ZERO))
def m_solve(e, fr, i, name, args, st):
    e.log('solve', st, (name, args))
    code = Sym('ExitCode'); code.attr['ty'] = 'i64'
    e.quiet += 1
    try:
        for c, p in args[0].alts:
            if not isinstance(p, Ptr) or p.obj.struct != 'QP': continue
            for mm in e.ir['structs']['QP']['members']:
                if mm['name'] in FIELDS:
                    a = e.load(st, gv(Ptr(p.obj, P(mm['off']))), 'ptr', 8, {}).single
                    if isinstance(a, Ptr) and a.obj not in (NULLO, UNDEFO):
                        t = ArrSym('sol:' + mm['name']); t.attr['len'] = pscale(a.obj.size, Fraction(1, 8)) if a.obj.size is not None else None
                        t.attr['elt'] = 'fp'; st.arrs[a.obj] = gv(t)
                if mm['name'] == 'stats':
                    a = e.load(st, gv(Ptr(p.obj, P(mm['off']))), 'ptr', 8, {}).single
                    for sm in e.ir['structs']['stats']['members']:
                        if sm['name'] in ('tsetup', 'AMD_RESULT'): continue
                        v = code
                        if sm['name'] != 'Flag': v = Sym('sol:' + sm['name']); v.attr['ty'] = 'double' if sm['type'] in ('double', 'qp_real') else 'i64'
                        e.setcell(st, a.obj, sm['off'], P(v))
    finally: e.quiet -= 1
    return gv(P(code))
def m_cleanup(e, fr, i, name, args, st): e.log('cleanup', st, (name, args)); return None
M.update({'QP_SETUP_dense': m_setup, 'QP_SETUP': m_setup, 'QP_SOLVE': m_solve, 'QP_CLEANUP_dense': m_cleanup, 'QP_CLEANUP': m_cleanup})
def m_unknown(e, fr, i, name, args, st):
    e.log('unknown', st, name)
    if name.startswith(('Py', '_Py')): e.log('api', st, (name, []))
    return gv(e.opaque_val('ext:' + name, i['ty'])) if i.get('id') else (None if i['ty'] == 'void' else gv(e.opaque_val('ext:' + name, i['ty'])))
HARMLESS = {'strlen', 'strcmp', 'memcmp'}

class PyCtx:
    """the function registered as qpSWIFT.run on arbitrary arguments"""
    def __init__(self):
        self.ir = ir = py_ir()
        self.e = e = PyEngine(ir, record_states=('setup', 'solve'), models=dict(M))
        e.models['*unknown*'] = m_unknown
        names = api_names()
        e.argobj = {}; e.keys = set(); e.checked = {}; e.parsed = None; e.qp = None
        def arg(nm):
            o = e.argobj.get('arg:' + nm)
            if o is None:
                o = e.param('arg:' + nm, struct=ARRF if nm != 'opts' else '_object'); o.info['pyowner'] = o; o.info['borrowed'] = True
                e.argobj['arg:' + nm] = o
                if nm != 'opts':
                    e.param_info['arg:%s->dimensions' % nm] = {'size': P(Sym('arg:%s->nd' % nm)) * P(8), 'es': 8, 'mode': 'arr', 'elt': 'int'}
                    e.param_info['arg:%s->strides' % nm] = {'size': P(Sym('arg:%s->nd' % nm)) * P(8), 'es': 8, 'mode': 'arr', 'elt': 'int'}
                    e.param_info['arg:%s->data' % nm] = {'es': 8, 'mode': 'arr', 'elt': 'fp'}
            return o
        def opt(key):
            o = e.objs.get(('opt:' + key, 'param'))
            if o is None:
                o = e.param('opt:' + key, struct='_object'); o.info['pyowner'] = o; o.info['borrowed'] = True
            return o
        def given(nm): return bvar(mk('SymB', 'given:' + nm))
        e.arg = arg; e.opt = opt; e.given = given
        # the API table
        tab = Obj('PyArray_API[]', 'opaqueapi'); tab.seq = 3 * 10**6; tab.info['mode'] = 'cell'
        def cell(eng, o, c, ty, size):
            nm = names.get(c // 8)
            if nm is None: return None
            if nm.endswith('_Type'):
                t = eng.objs.get(('type:' + nm, 'opaque'))
                if t is None: t = Obj('@' + nm, 'opaque'); t.seq = 4 * 10**6 + c; t.info['tyname'] = nm; eng.objs[('type:' + nm, 'opaque')] = t
                return gv(Ptr(t, ZERO))
            return gv(FnRef(nm))
        e.lazy[tab] = cell
        st = State()
        for g, d in ir['globals'].items():
            if d.get('dname') == 'PyArray_API' or g.startswith('PyArray_API'):
                o = e.globj(g); o.info['const'] = False
                st.cells[(o, 0)] = gv(Ptr(tab, ZERO))
        self.fn, self.flags = entry(ir)
        if self.fn is None: raise Undecided('no method table entry "run"')
        f = ir['functions'][self.fn]
        sa = []
        for nm in ('self', 'args', 'kwargs')[:len(f['args'])]:
            o = e.param('in:' + nm, struct='_object'); o.info['borrowed'] = True; o.info['pyowner'] = o; sa.append(gv(Ptr(o, ZERO)))
        e.cur = (self.fn, {'file': f.get('file'), 'line': f.get('line')})
        self.ret, self.st = e.call_fn(self.fn, sa, st)
def entry(ir):
    """implementation of qpSWIFT.run according to the method table"""
    for g, d in ir['globals'].items():
        ini = d.get('init')
        if 'PyMethodDef' not in str(d.get('ty')) or not isinstance(ini, dict): continue
        rows = ini.get('arr', [ini])
        if d['ty'].startswith('%struct'): rows = [ini]
        for r in rows:
            if isinstance(r, dict) and 'arr' in r and len(r['arr']) >= 3:
                nm = ir['globals'].get(r['arr'][0].get('g'), {}).get('init', {}).get('s', '').split('\0')[0] if isinstance(r['arr'][0], dict) else ''
                if nm == 'run' and 'fn' in r['arr'][1]: return r['arr'][1]['fn'], r['arr'][2].get('c')
    return None, None
