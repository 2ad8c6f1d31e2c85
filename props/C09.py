"""reader-writer lock: readers and writers never hold it together (rely/guarantee, any number of threads)"""
from irv.prop import *
from lockspec import *
NATIVE = [('rwlock.cpp', ['-O2'])]
ASSUMPTIONS = ['threads release only holds they own (precondition of unlock)', 'fewer than 2^40 simultaneous holds', 'per-location coherence and acquire/release semantics of the C++ memory model (the counter is one atomic object)']
def call(c, fn, op, own_r=0, own_w=0, quiet=False):
    m = c.module('rwlock.cpp'); ex = c.executor(m, budget=100); st = X.State()
    rw = RW(c, ex, st, op, own_r, own_w, quiet)
    done = ex.run_function(st, fn, [Ptr(rw.L, 0)])
    c.reach(fn, st if not done else done[0].st)
    return ex, rw, done
def prove(c):
    def acq(fn, op):
        def f():
            ex, rw, done = call(c, fn, op)
            for d in done:
                ex.oblige(d.st, '%s: returns only with exactly one new hold' % fn[2:], d.kind == 'ret' and gint(d.st, 'acq', 1, 'rel', 0))
            c.collect(ex, fn)
        return f
    def tr(fn, op):
        def f():
            ex, rw, done = call(c, fn, op)
            for d in done:
                ok = Not(eq(d.val, 0, 64))
                ex.oblige(d.st, '%s: success exactly with one new hold, failure with none' % fn[2:], And(zb(ok) == zb(gint(d.st, 'acq', 1, 'rel', 0)), zb(Not(ok)) == zb(gint(d.st, 'acq', 0, 'rel', 0))))
            c.collect(ex, fn)
        return f
    def rel(fn, op, r, w):
        def f():
            ex, rw, done = call(c, fn, op, r, w)
            for d in done: ex.oblige(d.st, '%s: removes exactly one hold' % fn[2:], d.kind == 'ret' and gint(d.st, 'acq', 0, 'rel', 1))
            c.collect(ex, fn)
        return f
    def guard(fn, op):
        def f():
            ex, rw, done = call(c, fn, op)
            for d in done: ex.oblige(d.st, '%s: the hold is released exactly once on every exit' % fn[2:], gint(d.st, 'acq', 1, 'rel', 1))
            ex.oblige(done[0].st, 'guard: both exits (return, exception) are covered', {d.kind for d in done} == {'ret', 'throw'})
            c.collect(ex, fn)
        return f
    c.attempt('lock read', acq('u_lock_r', 'acqR')); c.attempt('lock write', acq('u_lock_w', 'acqW'))
    c.attempt('tryLock read', tr('u_try_r', 'acqR')); c.attempt('tryLock write', tr('u_try_w', 'acqW'))
    c.attempt('unlock read', rel('u_unlock_r', 'relR', 1, 0)); c.attempt('unlock write', rel('u_unlock_w', 'relW', 0, 1))
    c.attempt('guard read', guard('u_guard_r', 'guardR')); c.attempt('guard write', guard('u_guard_w', 'guardW'))
    c.attempt('constructor', lambda: ctor(c))
    R, W, cc = z3.BitVecs('R W c', 64); B = 1 << 40
    inv = lambda c, R, W: z3.And(c == R - W, z3.Or(R == 0, W == 0))
    pre = [inv(cc, R, W), z3.ULT(R, B), z3.ULT(W, B)]
    # the permitted transitions preserve the invariant, hence exclusion holds in every reachable state of every schedule
    c.lemma('transition acquire-read keeps the invariant', pre + [W == 0], inv(cc + 1, R + 1, W))
    c.lemma('transition acquire-write keeps the invariant', pre + [R == 0], inv(cc - 1, R, W + 1))
    c.lemma('transition release-read keeps the invariant', pre + [z3.UGE(R, 1)], inv(cc - 1, R - 1, W))
    c.lemma('transition release-write keeps the invariant', pre + [z3.UGE(W, 1)], inv(cc + 1, R, W - 1))
    c.lemma('invariant means exclusion', pre, z3.Not(z3.And(z3.UGT(R, 0), z3.UGT(W, 0))))
def ctor(c):
    m = c.module('rwlock.cpp'); ex = c.executor(m, budget=60); st = X.State()
    o = ex.alloc(st, 128, 'cells', 'lock')
    for d in ex.run_function(st, 'u_ctor', [Ptr(o, 0)]): ex.oblige(d.st, 'a new lock has no holds', eq(ex.load(d.st, Ptr(o, 0), IntTy(64)), 0, 64))
    c.collect(ex, 'ctor')
