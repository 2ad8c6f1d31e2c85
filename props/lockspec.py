"""rely/guarantee contracts of the reader-writer lock.
Shared state: the counter c with ghost numbers R, W of read and write holds.  Invariant: c = R - W and (R = 0 or W = 0).
Rely: between two atomic operations of the verified call the other threads may change c, R, W arbitrarily within the invariant
(they cannot take away the caller's own holds).  Guarantee: every atomic update of the call is a permitted transition."""
from irv.prop import *
from irv.ll import IntTy
from irv.exec import rmw
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')
class RW:
    def __init__(s, c, ex, st, op, own_r=0, own_w=0, quiet=False):
        """op: the transition the call is allowed to make: 'acqR' 'acqW' 'relR' 'relW' 'guardR' 'guardW' or None"""
        s.ex, s.op, s.quiet, s.own_r, s.own_w = ex, op, quiet, own_r, own_w
        s.L = ex.alloc(st, 128, 'cells', 'lock')
        st.ghost.update({'~opn': 0, 'acq': 0, 'rel': 0, 'own_r': own_r, 'own_w': own_w, '~last': z3.BitVecVal(0, 64), '~inst': 0, 'fence': 0})
        if quiet:
            R, W, cc = z3.BitVecs('R0 W0 c0', 64); s.inv(st, cc, R, W, own_r, own_w); s.R0, s.W0, s.c0 = R, W, cc
            st.ghost['c'] = cc
        ex.max_iters = 3; ex.atomic_hook = s.hook; ex.libs.insert(0, s.lib)
    def inv(s, st, cc, R, W, own_r, own_w):
        B = 1 << 40
        st.assume(z3.And(cc == R - W, z3.Or(R == 0, W == 0), z3.ULT(R, B), z3.ULT(W, B), z3.UGE(R, own_r), z3.UGE(W, own_w)))
    def hook(s, ex, st, kind, p, t, x, y, order):
        if kind == 'fence': st.ghost['fence'] = 1; return None
        if not isinstance(p, Ptr) or p.obj != s.L: return NotImplemented
        w = ex.mod.resolve(t)
        if p.off != 0 or w.w != 64: raise Unsupported('lock state is not one 64-bit counter')
        n = st.ghost['~opn']
        if s.quiet: cc, R, W = st.ghost['c'], None, None
        else:
            cc, R, W = z3.BitVecs('c!op%d R!op%d W!op%d' % (n, n, n), 64)
            if st.ghost['~inst'] != n + 1: s.inv(st, cc, R, W, st.ghost['own_r'], st.ghost['own_w']); st.ghost['~inst'] = n + 1
        if kind == 'load':
            st.ghost['~opn'] = n + 1
            if s.op is None: st.ghost['~last'] = cc
            return cc
        if kind.startswith('cmpxchg'):
            ok = eq(cc, x, 64)
            if kind == 'cmpxchg_weak': ok = And(ok, z3.Bool('weak!op%d' % n))
            ok = ex.decide(st, ok)
            if ok: s.trans(st, cc, bv(y, 64), R, W, order)
            st.ghost['~opn'] = n + 1
            return [cc, int(ok)]
        if kind == 'store': new = bv(x, 64); old = None
        else: old = cc; new = bv(rmw(kind[4:], cc, x, 64), 64)
        s.trans(st, cc, new, R, W, order)
        st.ghost['~opn'] = n + 1
        return old
    def trans(s, st, old, new, R, W, order):
        ex = s.ex; op = s.op
        if op and op.startswith('guard'): op = ('acq' if st.ghost['acq'] == 0 else 'rel') + op[5]
        if op is None: ex.oblige(st, 'an observer does not change the lock', simp(new) == simp(old)); return
        k = op[3]; rd = k == 'R'; nm = 'read' if rd else 'write'
        fenced = bool(st.ghost['fence'])
        if op.startswith('acq'):
            ex.oblige(st, 'lock(%s): the update adds exactly one %s hold' % (nm, nm), new == (old + 1 if rd else old - 1))
            if not s.quiet: ex.oblige(st, 'lock(%s): a %s hold is taken only while no %s hold exists' % (nm, nm, 'write' if rd else 'read'), (W if rd else R) == 0)
            if not fenced: ex.oblige(st, 'lock(%s): the update has acquire ordering' % nm, order in ACQ)
            st.ghost['acq'] = st.ghost['acq'] + 1
            if s.op.startswith('guard'): st.ghost['own_r' if rd else 'own_w'] += 1
        else:
            ex.oblige(st, 'unlock(%s): the update removes exactly one %s hold' % (nm, nm), new == (old - 1 if rd else old + 1))
            if not fenced: ex.oblige(st, 'unlock(%s): the update has release ordering' % nm, order in REL)
            st.ghost['rel'] = st.ghost['rel'] + 1
            if s.op.startswith('guard'): st.ghost['own_r' if rd else 'own_w'] -= 1
        st.ghost['~last'] = new
        if s.quiet: st.ghost['c'] = new
    def lib(s, ex, name, dem):
        if name == 'u_body':
            def h(ex, st, a, ins, nm):
                ex.oblige(st, 'guard: exactly one hold while the guarded body runs', gint(st, 'acq', 1, 'rel', 0)); return fresh(32, 'body')
            return h
        return None
def gint(st, *kv):
    """ghost counters have these values (they are concrete unless changed in a loop)"""
    c = []
    for k, v in zip(kv[::2], kv[1::2]): c.append(eq(st.ghost[k], v, 64))
    return And(*c)
