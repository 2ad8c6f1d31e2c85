"""spinning mutex: at most one holder (rely/guarantee, any number of threads)"""
from irv.prop import *
from irv.exec import rmw
from lockspec import ACQ, REL, gint
NATIVE = [('spin.cpp', ['-O2'])]
ASSUMPTIONS = ['a thread unlocks only a mutex it holds (precondition)', 'the flag is one atomic object of the C++ memory model']
class MX:
    """shared: flag f, ghost H (someone holds).  Invariant f != 0 <-> H."""
    def __init__(s, ex, st, op):
        s.ex, s.op = ex, op
        s.L = ex.alloc(st, 64, 'cells', 'mutex')
        for k in range(8): ex.store(st, Ptr(s.L, 4 + 4 * k), X.IntTy(32), fresh(32, 'spin_state'))
        st.ghost.update({'~opn': 0, 'acq': 0, 'rel': 0, 'own': 1 if op == 'rel' else 0, 'fence': 0})
        ex.max_iters = 3; ex.atomic_hook = s.hook; ex.libs.insert(0, s.lib)
    def hook(s, ex, st, kind, p, t, x, y, order):
        if kind == 'fence': st.ghost['fence'] = 1; return None
        if not isinstance(p, Ptr) or p.obj != s.L: return NotImplemented
        w = ex.mod.resolve(t).w
        if p.off != 0: raise Unsupported('mutex state is not one flag')
        n = st.ghost['~opn']; st.ghost['~w'] = w
        f = z3.BitVec('f!op%d' % n, w); H = z3.Bool('H!op%d' % n)
        st.assume((f != 0) == H)
        if st.ghost['own'] > st.ghost['rel']: st.assume(H)
        held = ex.decide(st, H)
        if kind == 'load': st.ghost['~opn'] = n + 1; return f
        if kind.startswith('cmpxchg'):
            ok = eq(f, x, w)
            if kind == 'cmpxchg_weak': ok = And(ok, z3.Bool('weak!op%d' % n))
            ok = ex.decide(st, ok)
            if ok: s.trans(st, held, f, bv(y, w), order)
            st.ghost['~opn'] = n + 1; return [f, int(ok)]
        new = bv(x, w) if kind == 'store' else bv(rmw(kind[4:], f, x, w), w)
        s.trans(st, held, f, new, order)
        st.ghost['~opn'] = n + 1
        return f
    def trans(s, st, held, old, new, order):
        ex = s.ex; fenced = bool(st.ghost['fence'])
        if s.op == 'acq':
            if held: ex.oblige(st, 'lock: never releases a mutex another thread holds', new != 0); return
            ex.oblige(st, 'lock: marks the free mutex as taken', new != 0)
            if not fenced: ex.oblige(st, 'lock: the taking update has acquire ordering', order in ACQ)
            st.ghost['acq'] = st.ghost['acq'] + 1
            ex.oblige(st, 'lock: takes the mutex once', gint(st, 'acq', 1))
        else:
            ex.oblige(st, 'unlock: frees the mutex', new == 0)
            if not fenced: ex.oblige(st, 'unlock: the freeing update has release ordering', order in REL)
            st.ghost['rel'] = st.ghost['rel'] + 1
    def lib(s, ex, name, dem):
        if name in ('u_spin', 'u_spin_reset'): return lambda ex, st, a, ins, nm: None
        return None
def prove(c):
    def f(i, what):
        m = c.module('spin.cpp'); ex = c.executor(m, budget=100); st = X.State()
        mx = MX(ex, st, 'acq' if what == 'lock' else 'rel')
        done = ex.run_function(st, 'u_m%d_%s' % (i, what), [Ptr(mx.L, 0)])
        for d in done:
            if what == 'lock': ex.oblige(d.st, 'lock: returns only with the mutex taken by this call', d.kind == 'ret' and gint(d.st, 'acq', 1))
            else: ex.oblige(d.st, 'unlock: frees the mutex exactly once', d.kind == 'ret' and gint(d.st, 'rel', 1))
            c.reach('%s %d' % (what, i), d.st)
        c.collect(ex, '%s %d' % (what, i))
    def ctor(i):
        m = c.module('spin.cpp'); ex = c.executor(m, budget=60); st = X.State(); o = ex.alloc(st, 64, 'cells', 'mutex')
        for d in ex.run_function(st, 'u_m%d_ctor' % i, [Ptr(o, 0)]): ex.oblige(d.st, 'a new mutex is free', eq(ex.load(d.st, Ptr(o, 0), X.IntTy(8)), 0, 8))
        c.collect(ex, 'ctor')
    for i, nm in ((0, 'no wait strategy'), (1, 'any wait strategy'), (2, 'SpinWait')):
        for what in ('lock', 'unlock'): c.attempt('%s, %s' % (what, nm), lambda: f(i, what))
        c.attempt('constructor, ' + nm, lambda: ctor(i))
    # exclusion: own(t) holds for at most one t in every reachable state
    H, f0 = z3.Bool('H'), z3.BitVec('f', 8)
    c.lemma('taking needs a free flag, so at most one thread holds', [(f0 != 0) == H, f0 == 0], z3.Not(H))
