"""affinity masks: bit i <-> flag i.  The system calls enter by contract (sysspec): they are recorded with the exact values passed."""
from irv.prop import *
from irv.spec import *
from irv.ll import IntTy
from sysspec import *
NATIVE = ['affinity.cpp']
ASSUMPTIONS = ['a bool flag is stored as 0 or 1', 'CPU_SETSIZE is 1024 (16 words of 64 bits), as in the installed headers', 'the text of error messages is not specified']
def flags(c, ex, st):
    n = z3.BitVec('n', 64); st.assume(z3.ULT(n, 1 << 40)); b = ex.new_arr(st, n, 'flags given'); arr = st.mem[b].arr
    k = z3.BitVec('fk', 64); st.define(z3.ForAll([k], z3.ULE(z3.Select(arr, k), 1), patterns=[z3.Select(arr, k)]))
    f = ex.alloc(st, 16, 'cells', 'flag list'); ex.store(st, Ptr(f, 0), PTR, Ptr(b, 0)); ex.store(st, Ptr(f, 8), I64, n)
    c.n, c.arr = n, arr
    return f, n, arr
def want(arr, n, k):
    k = z3.BitVecVal(k, 64) if is_c(k) else k
    return z3.And(z3.ULT(k, n), z3.ULT(k, z3.ZeroExt(32, HW)), z3.Select(arr, k) != 0)
K = z3.BitVec('any_cpu', 64)            # an arbitrary CPU: what is shown for it holds for every CPU
def cpus_of(st, oid):
    o = st.mem[oid]; out = []
    for w in range(NW):
        c = o.cells.get(8 * w)
        if c is None or c[0] != 8: return None
        out.append(bv(c[1], 64))
    return out
def positions(lc, skip=()): return [v for v in int_vars(lc) if v[0] in ('phi', 'ghost') or (v[0] == 'cell' and v[1][0] not in skip)]
def set_hints(ex, arr, n):
    """the set holds exactly the flags before the position reached (for an arbitrary CPU), or exactly those from it on"""
    def hint(lc, vars_):
        out = []; objs = sorted({v[1][0] for v in lc.vars if v[0] == 'cell' and v[2] == 64 and v[1][1] % 8 == 0 and v[1][1] < 8 * NW and cpus_of(lc.S0, v[1][0]) is not None})
        for o in objs:
            for i in positions(lc, objs):
                for up in (True, False):
                    def at(lc, st, o=o, i=i, up=up):
                        x = bv(lc.get(st, i), 64); done = z3.ULT(K, x) if up else z3.UGE(K, x)
                        return (bit(cpus_of(st, o), K) == 1) == z3.And(done, want(arr, n, K))
                    out.append(Cand(('cpus', o, i, up), at, True, group=('cpus', o)))
        return out
    ex.hints.append(hint)
def get_hints(ex, holder):
    def hint(lc, vars_):
        out = []
        for a in [v for v in lc.vars if v[0] == 'arr']:
            for i in positions(lc):
                for up in (True, False):
                    def at(lc, st, a=a, i=i, up=up):
                        x = bv(lc.get(st, i), 64); ws = events(st, 'getaff')[-1][3]
                        return z3.Implies(z3.And(z3.ULT(K, x) if up else z3.UGE(K, x), z3.ULT(K, bv(st.mem[a[1]].size, 64))), z3.Select(st.mem[a[1]].arr, K) == z3.ZeroExt(7, bit(ws, K)))
                    out.append(Cand(('flags', a, i, up), at, True, group=('flags', a)))
        return out
    ex.hints.append(hint)
def target(c, ex, st, kind):
    """the thread or process addressed: (argument list, handle term, valid condition)"""
    if kind == 't':
        h = z3.BitVec('handle', 64); t = ex.alloc(st, 8, 'cells', 'std::thread'); ex.store(st, Ptr(t, 0), I64, h); return [Ptr(t, 0)], h, h != 0
    if kind == 'p':
        p = z3.BitVec('pid', 32); return [p], p, p > 0
    return [], SELF, z3.BoolVal(True)
def check_target(ex, s, what, e, h):
    ex.oblige(s, '%s: addresses the given thread or process' % what, eq(e, h, h.size()))
NM = {'t': 'of a thread', 'self': 'of the calling thread', 'p': 'of a process'}
def outcome(ex, d, what, valid, calls, rcs):
    """returns exactly if the target is valid and every call succeeded; otherwise a system error, without further effect"""
    s = d.st; okc = z3.And(valid, *[r == 0 for r in rcs])
    if d.kind == 'ret':
        ex.oblige(s, '%s: returns only after a successful system call' % what, z3.And(z3.BoolVal(len(calls) == 1), okc))
        return True
    ex.oblige(s, '%s: an error is reported as a system error' % what, sys_error(s))
    ex.oblige(s, '%s: no error is raised if the target is valid and the system call succeeds' % what, z3.Not(okc) if calls else z3.Not(valid))
    ex.oblige(s, '%s: nothing is passed to the system for an invalid target' % what, valid if calls else z3.BoolVal(True))
    ex.oblige(s, '%s: nothing is changed twice' % what, len(calls) <= 1)
    return False
def prove(c):
    m = c.module('affinity.cpp')
    def setter(c, kind):
        ex = c.executor(m, [syslib], budget=300); st = X.State(); ex.pow2_shift = True; st.assume(z3.ULT(K, 1024)); f, n, arr = flags(c, ex, st); set_hints(ex, arr, n); what = 'set affinity ' + NM[kind]
        args, h, valid = target(c, ex, st, kind); st.assume(SELF != 0)
        c.reach(what, st)
        for d in ex.run_function(st, 'a_set_' + kind, [Ptr(f, 0)] + args):
            s = d.st; es = events(s, 'setaff')
            ok = outcome(ex, d, what, valid, es, [e[4] for e in es])
            for e in es:
                check_target(ex, s, what, e[2], h)
                ex.oblige(s, '%s: CPU i is enabled exactly if flag i is given and set' % what, (bit(e[3], K) == 1) == want(arr, n, K))
            if ok and kind == 'p': ex.oblige(s, '%s: success is reported' % what, eq(d.val, 1, 1))
            c.reach('%s %s' % (what, d.kind), s)
        c.collect(ex, what)
    def getter(c, kind):
        ex = c.executor(m, [syslib], budget=300); st = X.State(); ex.pow2_shift = True; st.assume(z3.ULT(K, 1024)); get_hints(ex, None); what = 'get affinity ' + NM[kind]
        args, h, valid = target(c, ex, st, kind); out = ex.alloc(st, 40, 'cells', 'result'); st.assume(SELF != 0)
        c.reach(what, st); c.n = None
        for d in ex.run_function(st, 'a_get_' + kind, [Ptr(out, 0)] + args):
            s = d.st; es = events(s, 'getaff')
            ok = outcome(ex, d, what, valid, es, [e[4] for e in es])
            for e in es: check_target(ex, s, what, e[2], h)
            if ok and es:
                o = s.mem[vb(s, Ptr(out, 0))]; k = K; hw = z3.ZeroExt(32, HW)
                ex.oblige(s, '%s: one flag per CPU' % what, eq(o.size, z3.If(z3.ULT(hw, 1024), hw, z3.BitVecVal(1024, 64))))
                ex.oblige(s, '%s: flag i is set exactly if CPU i is enabled' % what, z3.Implies(z3.ULT(k, bv(o.size, 64)), z3.Select(o.arr, k) == z3.ZeroExt(7, bit(es[-1][3], k))))
            c.reach('%s %s' % (what, d.kind), s)
        c.collect(ex, what)
    c.parallel([('set ' + k, lambda c, k=k: setter(c, k)) for k in NM] + [('get ' + k, lambda c, k=k: getter(c, k)) for k in NM])
def inputs_from(c, o): return []
