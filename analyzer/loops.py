"""Loop summarisation: recurrence solving over the symbolic domain."""
from interp import *
import sym as S

def arr_single(g):
    """guarded array -> one array term"""
    if len(g.alts) == 1: return g.alts[0][1]
    r = g.alts[-1][1]
    for c, a in reversed(g.alts[:-1]):
        r = ArrIte(c, a, r)
    return r

def mk_cond_layer(layer, g):
    if g is TRUE: return layer
    k = layer.kind
    if k == 'map':
        lo, ln, body, cond = layer.args
        K = newK(ln); b, c = map_at(layer, K)
        return mk_map(K if (K in _fk2(b) or K in c.fk or ln is not ONE) else None, lo, ln, b, c & g)
    if k in ('acc', 'sct'):
        return mk(k, layer.args[0], layer.args[1], layer.args[2] & g)
    if k == 'q':
        K, T, inner = q_open(layer)
        return mk_q(K, T, mk_cond_layer(inner, g))
    if k == 'blk':
        return mk('blk', *[mk_cond_layer(x, g) for x in layer.args])
    return mk('cnd', g, layer)
def _fk2(x): return x.fk if isinstance(x, (Atom, Poly, BDD)) else frozenset()

def reads_of(x, mu, out=None):
    """all Rd atoms whose ultimate base is mu, with binders opened: list of Rd atoms (indices over fresh Ks)"""
    if out is None: out = []
    if isinstance(x, tuple):
        for y in x: reads_of(y, mu, out)
        return out
    if not isinstance(x, (Atom, Poly, BDD)) or mu not in x.fk: return out
    if isinstance(x, Poly):
        for m, c in x.terms:
            for a, e in m: reads_of(a, mu, out)
        return out
    if isinstance(x, BDD):
        for a in x.sup: reads_of(a, mu, out)
        return out
    k = x.kind
    if k == 'Rd':
        base, layers = arr_parts(x.args[0])
        if base is mu:
            out.append(x)
            for l in layers: reads_of(l, mu, out)
        else: reads_of(x.args[0], mu, out)
        reads_of(x.args[1], mu, out)
        return out
    if k == 'Sum':
        T, body = x.args
        reads_of(T, mu, out); K = newK(T)
        reads_of(open_(body, x.lvl - 1, K), mu, out); return out
    if k == 'EX':
        T, body = x.args
        reads_of(T, mu, out); K = newK(T)
        reads_of(open_(body, x.lvl - 1, K), mu, out); return out
    if k in ('CMin', 'CMax'):
        i, T, c, v = x.args
        reads_of(i, mu, out); reads_of(T, mu, out); K = newK(T)
        reads_of(open_((c, v), x_level(x), K), mu, out); return out
    if k == 'map':
        lo, ln, b, c = x.args
        reads_of(lo, mu, out); reads_of(ln, mu, out); K = newK(ln)
        reads_of(map_at(x, K), mu, out); return out
    if k == 'q':
        K, T, inner = q_open(x)
        reads_of(T, mu, out); reads_of(inner, mu, out); return out
    if x is mu:
        out.append(None)   # whole-array use: cannot be resolved
        return out
    for y in x.args:
        if isinstance(y, (Atom, Poly, BDD, tuple)): reads_of(y, mu, out)
    return out

def free_k(x, K): return isinstance(x, (Atom, Poly, BDD)) and K in x.fk

def prune(g, pc):
    keep = [(c, v) for c, v in g.alts if sat(c & pc)]
    if len(keep) == len(g.alts) or not keep: return g
    return mkgv(keep)
class NotFlag(Exception): pass
def flag_candidates(init, nxt, pc, allmu, loads):
    """loop variables that hold one constant while the loop goes on: {key: constant}"""
    out = {}
    def fin(g, m=None):
        for c, v in g.alts:
            if isinstance(v, BDD): continue
            if not isinstance(v, Poly): return False
            if m is not None and v is P(m): continue
            if any(a.kind != 'Ind' for m, c in v.terms for a, x in m): return False
        return True
    for key, g0 in init.items():
        n = nxt.get(key)
        if n is None or key[0] == 'c' and not loads: continue
        if not fin(n, allmu[key][0]) or not fin(g0) or same_gv(n, g0): continue
        cs = []
        for c, v in g0.alts:
            if isinstance(v, Poly) and v.const is not None and sat(c & pc): cs.append(v)
            elif v is TRUE or v is FALSE: cs.append(v)
        if not cs or len(cs) > 3: continue
        out[key] = cs
    return out
def holds_const(g, c):
    r = FALSE
    for w, v in g.alts:
        if isinstance(v, BDD): r = r | (w & (v if c is TRUE else ~v))
        else: r = r | (w & EQ(v, c))
    return r
def run_header(fr, l, hdr, phis, vals, s):
    """the header's own tests, run on a state in which the loop is expected to end: [(pred, succ, state)]"""
    e = fr.e; cfg = fr.cfg
    bset = cfg.bset[l['id']]
    pend = {hdr: [(None, s)]}; out = []; seen = 0
    ids = [i['id'] for i in phis]
    save = dict(fr.env)
    fr.env.update(vals)
    try:
        while pend:
            b = min(pend, key=lambda b: cfg.order[b])
            ed = pend.pop(b); seen += 1
            if seen > 5 or (b in cfg.hdr and b != hdr): raise NotFlag()
            for i in cfg.blocks[b]['ins']:
                if i['op'] in ('store', 'call'): raise NotFlag()
                if i.get('id') and i['op'] != 'phi': ids.append(i['id'])
            for pred, succ, n in fr.block(b, ed, skip_phi=(b == hdr)):
                if not sat(n.pc): continue
                if succ == hdr: raise NotFlag()
                if succ in bset: pend.setdefault(succ, []).append((pred, n))
                else: out.append((pred, succ, n))
        for pred, succ, n in out:
            for v in ids:
                if v in fr.env: n.x[('env', fr.uid, v)] = fr.env[v]
    finally:
        for v in ids:
            if v in save: fr.env[v] = save[v]
    return out, ids
def thread(fr, l, hdr, phis, latch, exits, flags):
    """paths that end the loop by setting a flag its condition tests leave from where they are"""
    keep = []; extra = []; ids = set()
    for pred, succ, s in latch:
        vals = {}
        for i in phis:
            for v, pb in i['inc']:
                if pb == pred: vals[i['id']] = fr.phival(v, i['ty'])
        stay = TRUE
        for key, c in flags.items():
            g = vals[key[1]] if key[0] == 'v' else s.cells[key[1]]
            stay = stay & holds_const(g, c)
        go = s.pc & stay
        lv = s.pc & ~stay
        if sat(lv):
            n = s.copy(); n.pc = lv
            o, i2 = run_header(fr, l, hdr, phis, vals, n)
            extra += o; ids |= set(i2)
        if sat(go):
            n = s.copy(); n.pc = go; keep.append((pred, succ, n))
    for pred, succ, s in exits:
        for v in ids:
            if v in fr.env: s.x[('env', fr.uid, v)] = fr.env[v]
    fr.threaded = True
    return keep, exits + extra
def do_loop(fr, l, edges, flags=None):
    e = fr.e
    if flags is None:
        snap = [(p, s.copy()) for p, s in edges]
        return do_loop2(fr, l, edges, {}, snap)
    return do_loop2(fr, l, edges, flags, None)
def do_loop2(fr, l, edges, flags, snap):
    e = fr.e
    e.stats['loops'] += 1
    hdr = l['header']
    st0 = fr.enter(hdr, edges)
    if len(edges) == 1: st0 = st0.copy()
    hblk = fr.cfg.blocks[hdr]
    phis = [i for i in hblk['ins'] if i['op'] == 'phi']
    bset = fr.cfg.bset[l['id']]
    init = {('v', i['id']): fr.env[i['id']] for i in phis}
    tys = {('v', i['id']): i['ty'] for i in phis}
    lid = (fr.f['name'], l['id'], len(e.stack))
    e.loopids = getattr(e, 'loopids', [])
    ln = '%s@%s' % (fr.f['name'], next((i.get('line') for i in hblk['ins'] if i.get('line')), '?'))
    mus = {}
    muarr = {}
    def mkmu(key, g, ty=None):
        """fresh header symbol for a variable whose entry value is g"""
        v0 = g.alts[0][1]
        hint = key[1] if key[0] == 'v' else '%s+%s' % (key[1][0].name, key[1][1])
        if all(isinstance(v, Ptr) for _, v in g.alts):
            objs = {v.obj for _, v in g.alts}
            if len(objs) == 1:
                m = newMu(hint, lid); return (m, gv(Ptr(v0.obj, P(m))), 'ptr')
            return (None, gv(e.opaque_val('loopptr', 'ptr')), 'opq')
        if all(isinstance(v, BDD) for _, v in g.alts) or ty == 'i1':
            m = newMu(hint, lid); m.attr['mt'] = 'b'; return (m, gv(bvar(m)), 'b')
        if all(isinstance(v, Poly) for _, v in g.alts):
            m = newMu(hint, lid)
            m.attr['ty'] = ty or ('double' if key[0] == 'c' and e.field_elt(key[1][0], key[1][1]) == 'fp' else 'i64')
            m.attr['key'] = key
            return (m, gv(P(m)), 'n')
        return (None, gv(e.opaque_val('loopv', ty or 'i64')), 'opq')
    early = []
    if flags:
        stay = TRUE
        for k, c in flags.items():
            g = init[k] if k[0] == 'v' else st0.cells[k[1]]
            stay = stay & holds_const(g, c)
        if sat(st0.pc & ~stay):
            n = st0.copy(); n.pc = st0.pc & ~stay
            early, ids0 = run_header(fr, l, hdr, phis, {k[1]: g for k, g in init.items()}, n)
        st0.pc = st0.pc & stay
        for k, c in flags.items():
            if k[0] == 'v': init[k] = gv(c)
            else: st0.cells[k[1]] = gv(c)
    for k, g in init.items():
        if k in flags: fr.env[k[1]] = g
        else: mus[k] = mkmu(k, g, tys[k])
    def body(st):
        la, ex = fr.region(l, hdr, [(None, st)])
        la = [x for x in la if sat(x[2].pc)]
        return thread(fr, l, hdr, phis, la, ex, flags) if flags else (la, ex)
    modc = {}; moda = {}; modx = set(); modf = {}
    saved_rets = list(fr.rets)
    kc0 = getattr(e, 'kcalls', 0)
    e.quiet += 1
    e.loopids.append(lid)
    try:
        for it in range(10):
            fr.rets[:] = []
            st = st0.copy()
            install(fr, st, mus, modc, muarr, moda, modx, modf, e)
            latch, exits = body(st)
            rets = list(fr.rets)
            if not latch: break
            nxt = {}
            lst = []
            for pred, succ, s in latch:
                vals = {}
                for i in phis:
                    for v, pb in i['inc']:
                        if pb == pred: vals[i['id']] = fr.phival(v, i['ty'])
                lst.append((s, vals))
            vals, ls = e.join(lst)
            for k, g in vals.items():
                if len(g.alts) > 1: vals[k] = prune(g, ls.pc)
            new = False
            for key, g in ls.cells.items():
                if key in modc or ('c', key) in flags: continue
                if lid in key[0].info.get('loops', ()): continue
                g0 = st.cells.get(key)
                if g0 is None:
                    v0 = g.alts[0][1]
                    ty = 'ptr' if isinstance(v0, (Ptr, FnRef)) else ('i1' if isinstance(v0, BDD) else 'i64')
                    g0 = e.init_cell(st, key[0], key[1], ty, 8)
                    if key[0].kind in ('heap', 'alloca') and isinstance(v0, Ptr) and isinstance(g0.single, Ptr) and v0.obj.kind == 'undef': continue
                    if key[0].kind == 'param' and isinstance(v0, Ptr) and isinstance(g0.single, Ptr) and v0.obj.name == g0.single.obj.name:
                        st0.cells[key] = g; continue
                    if same_gv(g, g0):
                        st0.cells[key] = g0; continue
                if not same_gv(g, g0) and not same_gv(prune(g, ls.pc), prune(g0, ls.pc)):
                    modc[key] = mkmu(('c', key), g0 if not isinstance(g0.single, Ptr) or g0.single.obj.kind != 'undef' else g, None)
                    st0.cells.setdefault(key, g0)
                    init[('c', key)] = st0.cells[key]
                    new = True
            for o, g in ls.arrs.items():
                if o in moda: continue
                if lid in o.info.get('loops', ()): continue
                g0 = st.arrs.get(o)
                if g0 is None:
                    # first touched inside: may come from cells or initial content
                    s2 = st0.copy(); g0 = e.get_arr(s2, o, o.info.get('es', 8)); st0.arrs[o] = g0
                    for k in [k for k in st0.cells if k[0] is o]: del st0.cells[k]
                    if same_gv(g, g0): continue
                if not same_gv(g, g0):
                    m = newMu('arr:' + o.name, lid); m.attr['mt'] = 'a'
                    ln_ = arr_len(o, o.info.get('es', 8))
                    if ln_ is not None: m.attr['len'] = ln_
                    m.attr['obj'] = o
                    for kk in ('lo', 'hi', 'scol'):
                        if kk in o.info: m.attr[kk] = o.info[kk]
                    moda[o] = m; init[('a', o)] = g0
                    new = True
            for o, g in ls.freed.items():
                if lid in o.info.get('loops', ()): continue
                if st0.freed.get(o, FALSE) is not g and o not in modf:
                    modf[o] = g; new = True
            for k, g in ls.x.items():
                if k in modx: continue
                if isinstance(k, tuple) and k[0] in ('alloc', 'env'): continue
                g0 = st0.x.get(k) or e.xdefault(k)
                if not same_gv(g, g0): modx.add(k); new = True
            if not new: break
        else:
            e.note('loop discovery did not converge')
    finally:
        e.quiet -= 1
        e.loopids.pop()
        fr.rets[:] = saved_rets
    if not latch or not exits and not rets:
        # executes at most once, or never leaves: evaluate directly
        st = st0.copy()
        for k, g in init.items():
            if k[0] == 'v': fr.env[k[1]] = g
        e.loopids.append(lid)
        la, ex = body(st)
        e.loopids.pop()
        return ex + early
    nxt = {}
    for i in phis:
        if ('v', i['id']) not in flags: nxt[('v', i['id'])] = vals[i['id']]
    for key in modc:
        g = ls.cells[key]
        nxt[('c', key)] = prune(g, ls.pc) if len(g.alts) > 1 else g
    allmu = dict(mus)
    for key in modc: allmu[('c', key)] = modc[key]
    base_pc = st0.pc
    # ---------------- affine induction variables
    K = newK(None, 'k', lid)       # index of an executed iteration, K < T
    Kc = newK(None, 'c', lid)      # number of completed iterations, Kc <= T
    closed = {}
    loop_mus = {m for m, g, t in allmu.values() if m is not None} | set(moda.values())
    mumap = {}
    for key, (m, g, t) in allmu.items():
        if m is None or t == 'b': continue
        n = num(nxt[key], t, g)
        if n is None: continue
        lin = n.lin(m)
        if lin is None or lin[0] is not ONE or (lin[1].fk & loop_mus): continue
        i0 = num(init[key], t, g)
        if i0 is None: continue
        closed[key] = i0 + lin[1] * P(Kc)
        mumap[m] = i0 + lin[1] * P(K)
    # ---------------- trip count
    T = None
    xpreds = {p for p, s, x in exits}
    if len(xpreds) == 1 and not rets:
        xc = FALSE
        for p, s, x in exits: xc = xc | x.pc
        cont = restrict(~xc, base_pc)
        cont = subst(cont, mumap)
        T = trip(cont, K, loop_mus, base_pc)
    if T is not None and T.const is not None and T.const <= 64 and (modf or any(t == 'opq' for m, g, t in allmu.values())):
        # few iterations that release memory or select objects: one after the other
        st = st0
        for k, g in init.items():
            if k[0] == 'v': fr.env[k[1]] = g
        ex = []
        for it in range(int(T.const) + 1):
            e.loopids.append(lid)
            la, x = fr.region(l, hdr, [(None, st.copy())])
            e.loopids.pop()
            ex += [y for y in x if sat(y[2].pc)]
            la = [y for y in la if sat(y[2].pc)]
            if not la: return ex
            lst = []
            for pred, succ, s in la:
                vals = {}
                for i in phis:
                    for v, pb in i['inc']:
                        if pb == pred: vals[i['id']] = fr.phival(v, i['ty'])
                lst.append((s, vals))
            vals, st = e.join(lst)
            fr.env.update(vals)
        e.note('constant trip count not confirmed')
        return ex
    if T is not None:
        K.attr['T'] = T; Kc.attr['T'] = T + ONE
        ok = solve_rest(fr, e, K, Kc, T, allmu, init, nxt, closed, mumap, loop_mus, base_pc, moda, ls)
        return counted(fr, l, hdr, phis, st0, e, K, Kc, T, allmu, init, closed, mumap, moda, muarr, modx, modf, modc, ls, lid, ok, exits, nxt, ln)
    # ---------------- general loop
    if snap is not None and getattr(e, 'kcalls', 0) != kc0:
        near = [hdr] + [x for x in (hblk['ins'][-1].get('succ') or ()) if x in bset]
        loads = any(i['op'] == 'load' for b in near for i in fr.cfg.blocks[b]['ins'])
        cand = flag_candidates(init, nxt, base_pc, allmu, loads)
        for key, cs in cand.items():
            for c in cs:
                try:
                    e.quiet += 1
                    env = dict(fr.env); r0 = list(fr.rets)
                    try: do_loop2(fr, l, [(p, s.copy()) for p, s in snap], {key: c}, None)
                    finally: e.quiet -= 1; fr.env = env; fr.rets[:] = r0
                except NotFlag: continue
                return do_loop2(fr, l, snap, {key: c}, None)
    if getattr(e, 'kcalls', 0) == kc0:
        # iterated with a data dependent exit: values stay available as a recurrence
        cond = FALSE
        for pred, succ, s in latch: cond = cond | s.pc
        K.attr['T'] = None
        unsolved = solve_rest(fr, e, K, Kc, None, allmu, init, nxt, closed, mumap, loop_mus, base_pc, {}, ls) | {('a', o) for o in moda}
        return counted(fr, l, hdr, phis, st0, e, K, Kc, None, allmu, init, closed, mumap, moda, muarr, modx, modf, modc, ls, lid, unsolved, exits, nxt, ln, subst(restrict(cond, base_pc), mumap), rets)
    return general(fr, l, hdr, phis, st0, e, K, Kc, allmu, init, closed, mumap, moda, modc, modx, modf, lid, nxt, ls, ln, body) + early

def num(g, t, like):
    """numeric component (offset for pointers) of a guarded value as a polynomial"""
    if t == 'ptr':
        o = like.single.obj
        if any(not isinstance(v, Ptr) or v.obj is not o for _, v in g.alts): return None
        return to_poly(GV(tuple((c, v.off) for c, v in g.alts)))
    if any(not isinstance(v, Poly) for _, v in g.alts): return None
    return to_poly(g)
def wrapv(p, t, like):
    if isinstance(p, GV): return p
    if t == 'ptr': return gv(Ptr(like.single.obj, p))
    return gv(p)

def install(fr, st, mus, modc, muarr, moda, modx, modf, e):
    for k, (m, g, t) in mus.items(): fr.env[k[1]] = g
    for key, (m, g, t) in modc.items(): st.cells[key] = g
    for o, m in moda.items():
        st.arrs[o] = gv(m)
        for k in [k for k in st.cells if k[0] is o]: del st.cells[k]
    for o in modf: st.freed[o] = bvar(mk('FreedB', o.name))
    for k in modx: st.x[k] = gv(P(mk('OpqX', str(k))))

def trip(cont, K, loop_mus, pc):
    if cont is FALSE: return ZERO
    if cont is TRUE: return None
    if cont.fk & loop_mus: return None
    at = [a for a in cont.sup]
    if any(a.kind != 'LT' for a in at): return None
    if len(at) == 1:
        p = at[0].args[0]
        l = p.lin(K)
        if l is None or l[0].const is None or l[0].const == 0: return None
        q, r = l[0].const, l[1]
        if cont.hi is TRUE:       # p < 0
            if q <= 0: return None
            t = -r
            if q != 1:
                if r.const is not None:
                    import math
                    return P(max(0, math.ceil(Fraction(-r.const) / q)))
                return P(mk('Fn', 'ceildiv', max0(t), P(q)))
            return max0(t, pc)
        else:                      # p >= 0
            if q >= 0: return None
            t = r + ONE
            if q != -1:
                if r.const is not None:
                    import math
                    return P(max(0, math.floor(Fraction(r.const) / -q) + 1))
                return P(mk('Fn', 'ceildiv', max0(r + ONE), P(-q)))
            return max0(t, pc)
    if len(at) == 2:
        for a in at:
            for d in (0, 1, -1):
                x = a.args[0] + P(d)
                if (~EQ(x, 0)) is cont:
                    l = x.lin(K)
                    if l is None or l[0].const not in (1, -1): return None
                    t = pscale(l[1], -qinv(l[0].const))
                    if prove_ge0(t): return t
                    return None
    return None
def max0(p, pc=TRUE):
    if p.const is not None: return p if p.const >= 0 else ZERO
    if prove_ge0(p): return p
    if pc is not TRUE and implies(pc, LE(0, p)): return p
    a = mk('Fn', 'max0', p); a.attr['nonneg'] = True; a.attr['ge'] = p
    return P(a)

def fold_scalar(fr, e, key, m, t, init0, n, K, Kc, loop_mus, mumap):
    """closed form at iteration K for next value GV n (Mus already substituted except m); GV or Poly or None"""
    fkN = frozenset().union(*[(v.off.fk if isinstance(v, Ptr) else v.fk) | c.fk for c, v in n.alts])
    others = (fkN & loop_mus) - {m}
    if others: return None
    if t == 'b':
        b = gbool(n)
        if m not in b.fk:
            prev = subst(b, {K: P(Kc) - ONE})
            i0 = gbool(init0)
            return gv(ite(EQ(Kc, 0), i0, prev)), 'b'
        # sticky
        hi = cofactor(b, m, True); lo = cofactor(b, m, False)
        if m in hi.fk or m in lo.fk: return None
        i0 = gbool(init0)
        if hi is TRUE:
            K2 = newK(P(Kc)); return gv(i0 | EX(K2, P(Kc), subst(lo, {K: P(K2)}))), 'b'
        if lo is FALSE:
            K2 = newK(P(Kc)); return gv(i0 & ~EX(K2, P(Kc), subst(~hi, {K: P(K2)}))), 'b'
        return None
    p = num(n, t, gv(Ptr(init0.alts[0][1].obj, ZERO)) if t == 'ptr' else None)
    i0 = num(init0, t, gv(Ptr(init0.alts[0][1].obj, ZERO)) if t == 'ptr' else None)
    if p is None or i0 is None: return None
    if m not in p.fk:
        # overwritten in every iteration
        if p is i0 : return p, t
        prev = subst(p, {K: P(Kc) - ONE})
        if subst(prev, {Kc: ZERO}) is i0 and not has_guard(prev, K): return prev, t
        z = EQ(Kc, 0)
        return GV(((z, i0), (~z, prev))) if t != 'ptr' else None, t
    lin = p.lin(m)
    if lin is not None and lin[0] is ONE and m not in lin[1].fk:
        K2 = newK(P(Kc))
        return i0 + Sum(K2, P(Kc), subst(lin[1], {K: P(K2)})), t
    if t == 'ptr': return None
    # conditional patterns
    keep = FALSE; setv = []
    for c, v in n.alts:
        if v is P(m): keep = keep | c
        else: setv.append((c, v))
    if setv and all(m not in v.fk for c, v in setv):
        w = ~keep
        if m not in w.fk and len(setv) == 1 and K not in setv[0][1].fk:
            # sticky assignment of one invariant value
            K2 = newK(P(Kc)); ex = EX(K2, P(Kc), subst(w, {K: P(K2)}))
            v = setv[0][1]
            if v is i0: return i0, t
            return GV(((ex, v), (~ex, i0))), t
        if len(setv) == 1:
            v = setv[0][1]
            # w = cond & (v < m)  or cond & (m < v)
            for a in w.sup:
                if a.kind in ('FLT', 'FLE', 'LT') and m in a.fk:
                    hi = cofactor(w, a, True); lo = cofactor(w, a, False)
                    q = a.args[0].lin(m)
                    if q is None or q[0].const is None: continue
                    bound = pscale(q[1], -qinv(q[0].const))      # atom: sign*(m - bound) < 0
                    if a.kind == 'LT':
                        # integer: q*m + r < 0
                        pass
                    if lo is FALSE and m not in hi.fk and a.kind in ('FLT', 'FLE') and bound is v:
                        kind = 'CMin' if q[0].const < 0 else 'CMax'
                        K2 = newK(P(Kc))
                        return CMin(kind, i0, K2, P(Kc), subst(hi, {K: P(K2)}), subst(v, {K: P(K2)})), t
                    if a.kind == 'LT' and m not in (hi if lo is FALSE else lo).fk and (lo is FALSE or hi is FALSE):
                        # integers, accept v<m or m<v up to the +-1 normalisation
                        c_ = hi if lo is FALSE else lo
                        sgn = q[0].const if lo is FALSE else -q[0].const
                        d = bound - v
                        if d.const is not None and abs(d.const) <= 1:
                            kind = 'CMin' if sgn < 0 else 'CMax'
                            K2 = newK(P(Kc))
                            return CMin(kind, i0, K2, P(Kc), subst(c_, {K: P(K2)}), subst(v, {K: P(K2)})), t
        # last value satisfying a condition
    return None
def has_guard(p, K): return False
def fold_split(fr, e, key, m, t, init0, n, K, Kc, loop_mus, mumap, pc, depth=0):
    """fold_scalar, splitting on loop-invariant guards when the direct form has no closed solution"""
    r = fold_scalar(fr, e, key, m, t, init0, n, K, Kc, loop_mus, mumap)
    if r is not None and r[0] is not None or depth > 3 or t == 'ptr': return r
    # candidate: loop-invariant boolean atoms inside the next value
    cand = set()
    for c, v in n.alts:
        cand |= c.sup
        for ia in find_atoms(v, lambda a: a.kind == 'Ind'): cand |= ia.args[0].sup
    cand = [a for a in cand if not (a.fk & (loop_mus | {K}))and not a.bs]
    if not cand: return r
    a = min(cand, key=lambda a: a.id)
    out = []
    for val in (True, False):
        memo = {}
        g = bvar(a) if val else ~bvar(a)
        n1 = mkgv([(S.assume(c, a, val, memo), S.assume(v, a, val, memo)) for c, v in n.alts])
        i1 = mkgv([(S.assume(c, a, val, memo), S.assume(v, a, val, memo)) for c, v in init0.alts])
        q = fold_split(fr, e, key, m, t, i1, n1, K, Kc, loop_mus, mumap, pc, depth + 1)
        if q is None or q[0] is None: return None
        q = q[0]
        out.append((g, gv(q) if not isinstance(q, GV) else q))
    if t == 'b': return gv(ite(bvar(a), gbool(out[0][1]), gbool(out[1][1]))), t
    return mkgv([(g & c, v) for g, x in out for c, v in x.alts]), t

def solve_rest(fr, e, K, Kc, T, allmu, init, nxt, closed, mumap, loop_mus, pc, moda, ls):
    """closed forms for remaining scalars and arrays.  returns set of unsolved keys"""
    pend = [k for k in allmu if k not in closed]
    parr = list(moda)
    arrc = {}
    progress = True
    while progress and (pend or parr):
        progress = False
        for key in list(pend):
            m, g, t = allmu[key]
            if m is None: continue
            n = nxt[key]
            n2 = GV(tuple((subst(restrict(c, ls.pc), mumap), (Ptr(v.obj, subst(v.off, mumap)) if isinstance(v, Ptr) else subst(v, mumap)) if not isinstance(v, FnRef) else v) for c, v in n.alts))
            r = fold_split(fr, e, key, m, t, init[key], n2, K, Kc, loop_mus, mumap, ls.pc)
            if r is None or r[0] is None: continue
            cf, t2 = r
            closed[key] = cf
            if t == 'b': mumap[m] = subst(gbool(cf), {Kc: P(K)})
            else: mumap[m] = subst(to_poly(cf) if isinstance(cf, GV) else cf, {Kc: P(K)})
            pend.remove(key); progress = True
        for o in list(parr):
            r = solve_array(e, o, moda[o], init[('a', o)], ls, K, Kc, T, mumap, loop_mus, pc)
            if r is None: continue
            closed[('a', o)] = r
            mumap[moda[o]] = subst(arr_single(r), {Kc: P(K)})
            parr.remove(o); progress = True
    return set(pend) | {('a', o) for o in parr}

def solve_array(e, o, mu, g0, ls, K, Kc, T, mumap, loop_mus, pc):
    """content at iteration K as GV of arrays (in terms of K)"""
    g = ls.arrs[o]
    # common base check
    alts = []
    for c, a in g.alts:
        a = subst(a, mumap)
        c = subst(restrict(c, ls.pc), mumap)
        alts.append((c, a))
    allfk = frozenset().union(*[a.fk | c.fk for c, a in alts])
    if (allfk & loop_mus) - {mu}: return None
    if any(arr_parts(a)[0] is not mu for c, a in alts):
        # overwritten completely in every iteration
        if mu in allfk: return None
        if len(alts) != 1: return None
        prev = subst(alts[0][1], {K: P(Kc) - ONE})
        z = EQ(Kc, 0)
        return mkgv([(z & c, a) for c, a in g0.alts] + [(~z, prev)])
    # conditional layers
    if len(alts) == 1: layers = list(arr_parts(alts[0][1])[1])
    else:
        seqs = [(c, list(arr_parts(a)[1])) for c, a in alts]
        pre = []
        while all(s for c, s in seqs) and all(s[0] is seqs[0][1][0] for c, s in seqs):
            pre.append(seqs[0][1][0]); seqs = [(c, s[1:]) for c, s in seqs]
        layers = pre
        for c, s in seqs:
            for x in s: layers.append(mk_cond_layer(x, c))
    if mu in frozenset().union(*[c.fk for c, a in alts]): 
        # guards read the array itself
        pass
    out = []
    for c0, s0 in g0.alts:
        r = close_layers(e, layers, mu, s0, K, Kc, T)
        if r is None: return None
        out.append((c0, r))
    return GV(tuple(out))

def region_before(layer, K):
    """index interval [a,b) certainly containing everything written by iterations < K, or None"""
    if layer.kind == 'map': lo, ln = layer.args[0], layer.args[1]
    elif layer.kind in ('acc', 'sct'): lo, ln = layer.args[0], ONE
    else: return None
    nx = subst(lo, {K: P(K) + ONE})
    if (lo + ln) is nx: return subst(lo, {K: ZERO}), lo
    nl = subst(ln, {K: P(K) + ONE})
    if (nx + nl) is lo: return lo + ln, subst(lo + ln, {K: ZERO})
    l = lo.lin(K)
    if l is not None and l[0].const is not None and ln.const is not None:
        if l[0].const > 0: return subst(lo, {K: ZERO}), lo - P(l[0].const) + ln
        if l[0].const < 0: return lo - P(l[0].const), subst(lo, {K: ZERO}) + ln
    return None

def outside(idx, reg):
    lo, hi = reg
    return prove_lt(idx, lo) or prove_le(hi, idx)

def close_layers(e, layers, mu, s0, K, Kc, T):
    if not layers: return s0
    rds = reads_of(tuple(layers), mu)
    if rds:
        regs = [region_before(x, K) for x in layers]
        known = all(r is not None for r in regs)
        def old(rd):
            if rd is None or not known: return False
            if rd.args[0] is not mu: pass
            return all(outside(rd.args[1], r) for r in regs)
        bad = [r for r in rds if not old(r)]
        if not bad:
            layers = [subst(x, {mu: s0}) for x in layers]
        else:
            r = prefix(layers, mu, s0, K, Kc, T, rds, old)
            if r is not None: return r
            return close_fold(layers, mu, s0, K, Kc)
    if any(K in x.fk for x in layers) is False and len(layers) == 1 and layers[0].kind == 'map':
        # same write in every iteration
        pass
    r = s0
    if all(is_acc(x) for x in layers) or len(layers) == 1:
        for x in layers: r = push(r, quant(x, K, P(Kc)))
        return r
    # several layers: contiguous maps may be distributed when their regions are disjoint for all iterations
    if distributable(layers, K):
        for x in layers: r = push(r, quant(x, K, P(Kc)))
        return r
    return push(r, mk_q_blk(layers, K, Kc))
def mk_q_blk(layers, K, Kc):
    K2 = newK(P(Kc))
    b = mk('blk', *[subst(x, {K: P(K2)}) for x in layers])
    return mk_q(K2, P(Kc), b)
def distributable(layers, K):
    regs = [region_before(x, K) for x in layers]
    if any(r is None for r in regs): return False
    Tt = K.attr['T']
    full = [(subst(a, {K: Tt}), subst(b, {K: Tt})) for a, b in regs]
    for i in range(len(full)):
        for j in range(i):
            (a, b), (c, d) = full[i], full[j]
            if not (prove_le(b, c) or prove_le(d, a)): return False
    return True
def quant(layer, K, n):
    """layer for all K' < n as one layer"""
    K2 = newK(n)
    x = subst(layer, {K: P(K2)})
    if x.kind == 'map':
        lo, ln = x.args[0], x.args[1]
        if ln is ONE:
            l = lo.lin(K2)
            if l is not None and l[0].const in (1, -1):
                b, c = map_at(x, ZERO)
                if l[0].const == 1: return mk_map(K2, l[1], n, b, c)
                b = subst(b, {K2: n - ONE - P(K2)}); c = subst(c, {K2: n - ONE - P(K2)})
                return mk_map(K2, l[1] - n + ONE, n, b, c)
        # same region rewritten in each iteration with identical values
        if K2 not in x.fk: return mk_cond_layer(x, LT(0, n))
        # contiguous equal-length blocks  lo = lo0 + K*len  (len invariant): keep quantified
    return mk_q(K2, n, x)
def prefix(layers, mu, s0, K, Kc, T, rds, old):
    if len(layers) != 1: return None
    x = layers[0]
    if x.kind == 'map' and x.args[1] is ONE and x.args[3] is TRUE:
        lo = x.args[0]; v, _ = map_at(x, ZERO)
    elif x.kind == 'acc' and x.args[2] is TRUE:
        lo = x.args[0]; v = x.args[1] + P(mk('Rd', mu, lo))
    else: return None
    l = lo.lin(K)
    if l is None or l[0] is not ONE: return None
    pr = mk('Rd', mu, lo - ONE)
    q = v.lin(pr)
    if q is None or q[0] is not ONE: return None
    rest = q[1]
    if mu in rest.fk:
        rr = reads_of(rest, mu)
        if not all(old(r) for r in rr): return None
        rest = subst(rest, {mu: s0})
    lo0 = l[1]
    K2 = newK(P(Kc)); K3 = newK(P(K2) + ONE)
    body = Rd(s0, lo0 - ONE) + Sum(K3, P(K2) + ONE, subst(rest, {K: P(K3)}))
    return push(s0, mk_map(K2, lo0, P(Kc), body))
def close_fold(layers, mu, s0, K, Kc):
    return push(s0, mk_fold(layers, mu, K, P(Kc)))

def rec_values(e, K, T, allmu, init, mumap, moda, ls, nxt, unsolved, cond):
    """recurrence terms for the variables without a closed form: key -> function of the number of iterations"""
    keys = []; mus = []; nx = []; ini = []
    for key in unsolved:
        if key[0] == 'a':
            m = moda[key[1]]
            g = GV(tuple((restrict(c, ls.pc), a) for c, a in ls.arrs[key[1]].alts))
            keys.append(key); mus.append(m); nx.append(subst(arr_single(g), mumap)); ini.append(arr_single(init[key]))
            continue
        m, g, t = allmu[key]
        if m is None: continue
        n = GV(tuple((restrict(c, ls.pc), v) for c, v in nxt[key].alts))
        if t == 'b':
            keys.append(key); mus.append(m); nx.append(subst(gbool(n), mumap)); ini.append(gbool(init[key]))
        else:
            q = num(n, t, g); i0 = num(init[key], t, g)
            if q is None or i0 is None: continue
            keys.append(key); mus.append(m); nx.append(subst(q, mumap)); ini.append(i0)
    mks = mk_rec(K, mus, nx, ini, cond)
    out = {}
    for j, key in enumerate(keys):
        def f(at, j=j, m=mus[j]):
            v = mks(j, at)
            if isinstance(v, Atom):
                for q in ('len',):
                    if q in m.attr: v.attr[q] = m.attr[q]
            return v
        out[key] = f
    return out, mks

def counted(fr, l, hdr, phis, st0, e, K, Kc, T, allmu, init, closed, mumap, moda, muarr, modx, modf, modc, ls, lid, unsolved, exits0, nxt, ln, cond=None, rets0=()):
    """exit state of a loop whose variables have closed forms (or recurrences) in the iteration number.
    T: trip count, or None for a data dependent exit (cond: condition to go on)"""
    opqs = {}
    order = {k: i for i, k in enumerate(list(allmu) + [('a', o) for o in moda])}
    unsolved = sorted(unsolved, key=lambda k: order.get(k, 0))
    recs, mks = {}, None
    if unsolved or T is None:
        recs, mks = rec_values(e, K, T, allmu, init, mumap, moda, ls, nxt, unsolved, cond)
    lost = [k for k in unsolved if k not in recs]
    if lost: e.note('loop %s: no recurrence for %s' % (ln, ', '.join(str(k) for k in lost)))
    final = T if T is not None else mks('k', None)
    if T is None: K.attr['T'] = final + ONE
    def header_state(at):
        st = st0.copy()
        sm = {Kc: at if at is not None else P(K)}
        rt = (at if T is not None else None) if at is not None else P(K)
        def sb(x): return subst(x, sm) if sm else x
        def sbg(g): return GV(tuple((sb(c), (Ptr(v.obj, sb(v.off)) if isinstance(v, Ptr) else sb(v))) for c, v in g.alts)) if sm else g
        for key, (m, g, t) in allmu.items():
            if key in closed:
                cf = closed[key]
                v = sbg(cf) if isinstance(cf, GV) else wrapv(sb(cf), t, g)
                if isinstance(v, GV) and len(v.alts) > 1: v = mkgv(v.alts)
            elif key in recs:
                v = recs[key](rt)
                v = gv(v) if t == 'b' else wrapv(v, t, g)
            else:
                if at is None: v = g
                else: v = opqs.setdefault(key, gv(e.opaque_val('loop:' + ln, 'ptr' if t == 'opq' else ('i1' if t == 'b' else 'i64'))) if t != 'ptr' else wrapv(e.opaque_val('loop', 'i64'), t, g))
            if key[0] == 'v': fr.env[key[1]] = v
            else: st.cells[key[1]] = v
        for o, m in moda.items():
            for k in [k for k in st.cells if k[0] is o]: del st.cells[k]
            if ('a', o) in closed:
                st.arrs[o] = mkgv([(sb(c), sb(a)) for c, a in closed[('a', o)].alts])
            elif ('a', o) in recs:
                st.arrs[o] = gv(recs[('a', o)](rt))
            else:
                if at is None: st.arrs[o] = gv(m)
                else:
                    a = mk('ArrOpq', 'loop:%s:%s' % (ln, e.opq)); e.opq += 1
                    if 'len' in m.attr: a.attr['len'] = m.attr['len']
                    st.arrs[o] = gv(a)
        for o in modf: st.freed[o] = modf[o] if at is not None else bvar(mk('FreedB', o.name))
        for k in modx: st.x[k] = gv(P(mk('OpqX', str(k))))
        return st
    saved = list(fr.rets)
    e.loopids.append(lid)
    rec = LoopRec(); rec.kind = 'counted'; rec.fn = fr.f['name']; rec.ln = ln; rec.K = K; rec.T = T; rec.unsolved = unsolved
    rec.closed = closed; rec.init = init; rec.loops = tuple(e.loopstack); rec.stack = [f for f, i in e.stack]
    try:
        if not e.quiet:
            e.looprecs.append(rec)
            st = header_state(None)
            e.loopstack.append((K, final))
            if T is not ZERO:
                fr.region(l, hdr, [(None, st)])
            e.loopstack.pop()
            fr.rets[:] = saved
        # final partial iteration
        st = header_state(final)
        la, ex = fr.region(l, hdr, [(None, st)])
        newrets = fr.rets[len(saved):]
        if not rets0: fr.rets[:] = saved; newrets = []
    finally:
        e.loopids.pop()
    outs = [x[2] for x in ex] + [r[1] for r in newrets]
    if len(outs) == 1: outs[0].pc = st0.pc
    elif T is None and outs:
        # exactly one of the exits is taken
        acc = FALSE
        for s in outs[:-1]:
            s.pc = s.pc & ~acc; acc = acc | s.pc
        outs[-1].pc = st0.pc & ~acc
    return ex

def general(fr, l, hdr, phis, st0, e, K, Kc, allmu, init, closed, mumap, moda, modc, modx, modf, lid, nxt, ls, ln, body):
    rec = LoopRec(); rec.kind = 'general'; rec.fn = fr.f['name']; rec.ln = ln; rec.K = K; rec.T = None
    st = st0.copy()
    for key, (m, g, t) in allmu.items():
        v = wrapv(subst(closed[key], {Kc: P(K)}), t, g) if key in closed else g
        if key[0] == 'v': fr.env[key[1]] = v
        else: st.cells[key[1]] = v
    for o, m in moda.items():
        for k in [k for k in st.cells if k[0] is o]: del st.cells[k]
        st.arrs[o] = gv(m)
    for o in modf: st.freed[o] = bvar(mk('FreedB', o.name))
    for k in modx: st.x[k] = gv(P(mk('OpqX', str(k))))
    e.loopids.append(lid)
    e.loopstack.append((K, None))
    hst = st.copy()
    nret = len(fr.rets)
    rec.phienv = {i['id']: fr.env[i['id']] for i in phis}
    la, ex = body(st)
    e.loopstack.pop()
    e.loopids.pop()
    rec.st0 = st0; rec.header = hst; rec.init = init; rec.allmu = allmu; rec.moda = moda; rec.closed = closed
    rec.exits = ex; rec.rets = fr.rets[nret:]
    lst = []
    for pred, succ, s in la:
        vals = {}
        for i in phis:
            for v, pb in i['inc']:
                if pb == pred: vals[i['id']] = fr.phival(v, i['ty'])
        lst.append((s, vals))
    rec.nextvals, rec.latch = e.join(lst) if lst else ({}, None)
    rec.stack = [f for f, i in e.stack]; rec.loops = tuple(e.loopstack)
    if not e.quiet: e.looprecs.append(rec)
    return ex
