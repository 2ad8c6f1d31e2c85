"""thread names and scheduling parameters: what reaches the system and what is read back.  System calls enter by contract (sysspec)."""
from irv.prop import *
from irv.spec import *
from sysspec import *
from C14 import target, check_target, outcome, NM
NATIVE = ['affinity.cpp']
ASSUMPTIONS = ['a name holds no NUL character', 'pthread_getname_np leaves a NUL-terminated text in the buffer it is given', 'the text of error messages is not specified', 'process names (written through std::ofstream to /proc) are not under contract']
KNOWN = '[setThreadName-positive-rc]'
def prove(c):
    m = c.module('affinity.cpp')
    def setname_(c, kind):
        ex = c.executor(m, [syslib], budget=200); st = X.State(); what = 'set name ' + NM[kind]; args, h, valid = target(c, ex, st, kind); st.assume(SELF != 0)
        n = z3.BitVec('n', 64); st.assume(z3.ULT(n, MAXLEN)); b = ex.new_arr(st, n, 'name given'); arr = st.mem[b].arr; c.n, c.arr = n, arr
        k = z3.BitVec('nk', 64); st.define(z3.ForAll([k], z3.Implies(z3.ULT(k, n), z3.Select(arr, k) != 0), patterns=[z3.Select(arr, k)]))
        c.reach(what, st)
        for d in ex.run_function(st, 'a_name_' + kind, [Ptr(b, 0), n] + args):
            s = d.st; es = events(s, 'setname'); rcs = [e[3] for e in es]
            if d.kind == 'ret':
                ex.oblige(s, '%s: one system call for a valid thread' % what, z3.And(z3.BoolVal(len(es) == 1), valid))
                ex.oblige(s, '%s: a negative result of the system is reported' % what, z3.And([r >= 0 for r in rcs]))
                ex.oblige(s, '%s: an error code of the system is reported %s' % (what, KNOWN), z3.And([r <= 0 for r in rcs]))
            else:
                ex.oblige(s, '%s: an error is reported as a system error' % what, sys_error(s))
                ex.oblige(s, '%s: no error is raised if the thread is valid and the system call succeeds' % what, z3.Not(z3.And(valid, *[r == 0 for r in rcs])) if es else z3.Not(valid))
                ex.oblige(s, '%s: nothing is passed to the system for an invalid thread' % what, valid if es else True)
            for e in es:
                check_target(ex, s, what, e[1], h)
                ex.oblige(s, '%s: exactly the given characters are passed' % what, rope_equal(ex, s, e[2], [('s', arr, 0, n)]))
            c.reach('%s %s' % (what, d.kind), s)
        c.collect(ex, what)
    def getname_(c, kind):
        ex = c.executor(m, [syslib], budget=200); ex.name_body = True; st = X.State(); what = 'get name ' + NM[kind]; args, h, valid = target(c, ex, st, kind); st.assume(SELF != 0)
        out = ex.alloc(st, 32, 'cells', 'result'); c.reach(what, st)
        for d in ex.run_function(st, 'a_getname_' + kind, [Ptr(out, 0)] + args):
            s = d.st; es = events(s, 'getname'); ok = outcome(ex, d, what, valid, es, [e[4] for e in es])
            for e in es: check_target(ex, s, what, e[1], h)
            if ok and es:
                r = rope_of(ex, s, Ptr(out, 0)); cs, ln = es[-1][2], es[-1][3]
                ex.oblige(s, '%s: the length of the text of the system' % what, eq(r_len(r), ln))
                q = z3.BitVec('pos!%d' % uid(), 64); w = cs[-1]
                for i in range(len(cs) - 2, -1, -1): w = z3.If(q == i, cs[i], w)
                ex.oblige(s, '%s: the characters of the text of the system' % what, z3.Implies(z3.ULT(q, ln), eq(r_read(r, q), w, 8)))
            c.reach('%s %s' % (what, d.kind), s)
        c.collect(ex, what)
    def setsched(c, kind):
        ex = c.executor(m, [syslib], budget=200); st = X.State(); what = 'set scheduling ' + NM[kind]; args, h, valid = target(c, ex, st, kind); st.assume(SELF != 0)
        pol, pr = z3.BitVec('policy_given', 32), z3.BitVec('priority_given', 32); valid = z3.And(valid, prio_min(pol) <= pr, pr <= prio_max(pol)); c.reach(what, st)
        for d in ex.run_function(st, 'a_sched_' + kind, [pol, pr] + args):
            s = d.st; es = events(s, 'setsched'); outcome(ex, d, what, valid, es, [e[5] for e in es])
            for e in es:
                check_target(ex, s, what, e[2], h)
                ex.oblige(s, '%s: exactly the given policy is passed' % what, eq(e[3], pol, 32)); ex.oblige(s, '%s: exactly the given priority is passed' % what, eq(e[4], pr, 32))
            c.reach('%s %s' % (what, d.kind), s)
        c.collect(ex, what)
    def getsched(c, kind):
        ex = c.executor(m, [syslib], budget=200); st = X.State(); what = 'get scheduling ' + NM[kind]; args, h, valid = target(c, ex, st, kind); st.assume(SELF != 0)
        out = ex.alloc(st, 8, 'cells', 'result'); c.reach(what, st)
        for d in ex.run_function(st, 'a_getsched_' + kind, [Ptr(out, 0)] + args):
            s = d.st
            es = events(s, 'getparam') if kind == 'p' else events(s, 'getsched'); ok = outcome(ex, d, what, valid, es, [e[-1] for e in es])
            for e in es + events(s, 'getscheduler'): check_target(ex, s, what, e[1], h)
            if ok and es:
                pol = events(s, 'getscheduler')[-1][2] if kind == 'p' and events(s, 'getscheduler') else es[-1][2]; pr = es[-1][-2]
                mp = z3.If(z3.Or(pol == 0, pol == 1, pol == 2), pol, z3.BitVecVal(-1, 32))
                ex.oblige(s, '%s: the policy of the system (or UNKNOWN)' % what, eq(ex.load(s, Ptr(out, 0), I32), mp, 32)); ex.oblige(s, '%s: the priority of the system' % what, eq(ex.load(s, Ptr(out, 4), I32), pr, 32))
            c.reach('%s %s' % (what, d.kind), s)
        c.collect(ex, what)
    P = []
    for k in NM:
        if k != 'p': P += [('set name ' + k, lambda c, k=k: setname_(c, k)), ('get name ' + k, lambda c, k=k: getname_(c, k))]
        P += [('set scheduling ' + k, lambda c, k=k: setsched(c, k)), ('get scheduling ' + k, lambda c, k=k: getsched(c, k))]
    c.parallel(P)
def inputs_from(c, o): return []
