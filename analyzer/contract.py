"""The object contract between QP_SETUP*, QP_SOLVE and QP_CLEANUP*: which buffer has which extent.

`qp_object` builds a caller-visible QP structure that satisfies the contract; checks on QP_SOLVE
assume it, checks on the setup functions establish it.
"""
from interp import *

N = P(Sym('n', True)); M = P(Sym('m', True)); PP = P(Sym('p', True))
N.atoms().pop().attr['lb'] = ONE; M.atoms().pop().attr['lb'] = ONE
dims_done = False

def dims(p0):
    """the two cases of the number of equality constraints: p == 0, p >= 1"""
    global PP, NMP, VEC, KVEC
    PP = ZERO if p0 else P(Sym('p', True))
    if not p0: PP.atoms().pop().attr['lb'] = ONE
    NMP = N + M + PP
    VEC = {'x': N, 'y': PP, 'z': M, 's': M, 'rx': N, 'ry': PP, 'rz': M, 'delta': NMP, 'delta_x': N, 'delta_y': PP,
       'delta_z': M, 'delta_s': M, 'ds': M, 'lambda': M, 'temp': N, 'c': N, 'h': M, 'b': PP}
    KVEC = {'b': NMP, 'Parent': NMP, 'Flag': NMP, 'Lnz': NMP, 'Lp': NMP + 1, 'Ltp': NMP + 1, 'Pattern': NMP,
        'UPattern': NMP, 'Y': NMP, 'D': NMP, 'P': NMP, 'Pinv': NMP}
def smat_contract(e, nm, rows, cols, zero0=True):
    e.param_vals[nm + '->m'] = rows; e.param_vals[nm + '->n'] = cols
    jc = ArrSym(nm + '->jc')
    nnz = P(mk('Rd', jc, cols))
    e.param_vals[nm + '->nnz'] = nnz
    e.param_info[nm + '->jc'] = {'size': (cols + 1) * 8, 'lo': ZERO, 'mono': cols, 'zero0': True, 'role': 'jc', 'rows': rows}
    e.param_info[nm + '->ir'] = {'size': nnz * 8, 'lo': ZERO, 'hi': rows - 1, 'role': 'ir', 'jc': jc, 'cols': cols}
    e.param_info[nm + '->pr'] = {'size': nnz * 8}
    for k, v in list(e.param_info.items()):
        if k.startswith(nm + '->'):
            a = ArrSym(k); a.attr.update({x: y for x, y in v.items() if x != 'size'}); a.attr['len'] = pscale(P(v['size']), Fraction(1, 8))

def qp_contract(e, nm='qp'):
    e.param_vals.update({nm + '->n': N, nm + '->m': M, nm + '->p': PP})
    for f, ln in VEC.items(): e.param_info['%s->%s' % (nm, f)] = {'size': ln * 8}
    k = nm + '->kkt'
    for f, ln in KVEC.items(): e.param_info['%s->%s' % (k, f)] = {'size': ln * 8}
    e.param_info[k + '->Lp'].update({'lo': ZERO})
    for f in ('P', 'Pinv'): e.param_info['%s->%s' % (k, f)].update({'lo': ZERO, 'hi': NMP - 1, 'role': 'perm'})
    lnz = P(mk('Rd', ArrSym(k + '->Lp'), NMP))
    for f in ('Li', 'Lx'): e.param_info['%s->%s' % (k, f)] = {'size': (lnz + 1) * 8}
    e.param_info['%s->Lti' % k] = {'size': lnz * 8}
    if PP is ZERO: e.param_null |= {nm + '->A', nm + '->b', nm + '->At'}
    smat_contract(e, nm + '->P', N, N); smat_contract(e, nm + '->G', M, N); smat_contract(e, nm + '->A', PP, N)
    smat_contract(e, nm + '->Gt', N, M); smat_contract(e, nm + '->At', N, PP)
    smat_contract(e, k + '->kktmatrix', NMP, NMP)
    o = e.param(nm, struct='QP')
    return o
