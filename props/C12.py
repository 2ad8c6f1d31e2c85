"""timed spinning wait: returns true only after the condition was seen true, false only when the time is over, never false without a timeout"""
from irv.prop import *
from lockspec import gint
NATIVE = ['spin.cpp']
ASSUMPTIONS = ['the steady clock never goes back and stays below 2^62 ns', 'the sleep/yield calls of the C++ runtime return']
NS = 1000000
class World:
    def __init__(s, ex, st, late=None):
        s.ex, s.late = ex, late
        st.ghost.update({'seen': 2, 'ticks': 0, 'first': z3.BitVecVal(0, 64), 'last': z3.BitVecVal(0, 64), '~n': 0})
        ex.libs.insert(0, s.lib); ex.max_iters = 40 if late is not None else 3
    def ms(s, st, t): return s.ex.divmod(st, t, NS, 64)[0]
    def lib(s, ex, name, dem):
        if name == 'u_cond':
            def h(ex, st, a, ins, nm):
                if s.late is not None: st.ghost['seen'] = 0; return 0
                n = st.ghost['~n']; v = ex.decide(st, z3.Bool('cond!%d' % n)); st.ghost['~n'] = n + 1
                st.ghost['seen'] = 1 if v else 0; return int(v)
            return h
        if '_clock::now()' in dem:
            def h(ex, st, a, ins, nm):
                t = fresh(64, 'now'); st.assume(z3.And(z3.ULE(st.ghost['last'], t), z3.ULT(t, 1 << 62)))
                if is_c(st.ghost['ticks']) and st.ghost['ticks'] == 0: st.ghost['first'] = t; st.ghost['ticks'] = 1
                elif s.late is not None: st.assume(z3.UGE(s.ms(st, t) - s.ms(st, st.ghost['first']), s.late))
                st.ghost['last'] = t; return t
            return h
        if 'std::this_thread::sleep_for' in dem or name in ('sched_yield', 'nanosleep', '__gthrw_sched_yield') or dem.startswith('__gthread_yield'): return lambda ex, st, a, ins, nm: 0
        if s.late is not None and 'spinWaitInternal(int)' in dem: return lambda ex, st, a, ins, nm: None    # frame verified below
        return None
def prove(c):
    def until(fn, forever=False):
        m = c.module('spin.cpp'); ex = c.executor(m, budget=200); st = X.State(); w = World(ex, st)
        T = z3.BitVec('timeout', 64); c.T = T
        done = ex.run_function(st, fn, [] if forever else [T])
        kinds = set()
        for d in done:
            s = d.st
            if d.kind == 'throw':
                ex.oblige(s, '%s: refuses only timeouts below -1' % fn[2:], z3.BoolVal(False) if forever else T < -1); kinds.add('throw'); continue
            if not forever: ex.oblige(s, '%s: a timeout below -1 is refused' % fn[2:], T >= -1)
            v = ex.cond(simp(bv(d.val, 1))) if not isinstance(d.val, int) else bool(d.val)
            if v is not True and v is not False: v = None
            kinds.add(v)
            if v is not False: ex.oblige(s, '%s: success only right after the condition was seen true' % fn[2:], Or(Not(bv(d.val, 1) == 1), gint(s, 'seen', 1)))
            if v is not True:
                over = z3.And(T > 0, w.ms(s, s.ghost['last']) - w.ms(s, s.ghost['first']) >= T)
                goal = z3.BoolVal(False) if forever else z3.And(T != -1, z3.Or(T == 0, over))
                ex.oblige(s, '%s: gives up only without waiting (0) or after the whole timeout, never without a timeout (-1)' % fn[2:], z3.Or(bv(d.val, 1) == 1, goal))
                ex.oblige(s, '%s: gives up only while the condition is false' % fn[2:], Or(bv(d.val, 1) == 1, gint(s, 'seen', 0)))
        for d in done: c.reach(fn + ' ' + d.kind, d.st)
        c.collect(ex, fn)
    def late(fn):
        m = c.module('spin.cpp'); ex = c.executor(m, budget=60); st = X.State(); T = z3.BitVec('timeout', 64); st.assume(z3.And(T >= 0, T < 1 << 40)); w = World(ex, st, T)
        done = ex.run_function(st, fn, [T])
        for d in done: ex.oblige(d.st, '%s: gives up once the timeout is over' % fn[2:], d.kind == 'ret' and eq(d.val, 0, 1))
        c.reach(fn, done[0].st); c.collect(ex, fn + ' late')
    for fn in ('u_until', 'u_until2'):
        c.attempt(fn, lambda: until(fn)); c.attempt(fn + ' after the deadline', lambda: late(fn))
    def frame():
        m = c.module('spin.cpp'); ex = c.executor(m, budget=60)
        for f in [f for f in m.funcs if 'spinWaitInternal' in m.demangled.get(f, f)]:
            st = X.State(); World(ex, st); g = dict(st.ghost)
            for d in ex.run_function(st, f, [z3.BitVec('n', 32)]): ex.oblige(d.st, 'spinning has no effect', d.kind == 'ret' and all(d.st.ghost[k] is g[k] for k in g))
        c.collect(ex, 'frame')
    c.attempt('spin frame', frame)
    c.attempt('no timeout', lambda: until('u_until_forever', True))
def inputs_from(c, o): return []
