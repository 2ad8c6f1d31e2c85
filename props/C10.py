"""reader-writer lock: results of try-lock, lock, unlock and value"""
from irv.prop import *
from lockspec import *
from C09 import call, ASSUMPTIONS
NATIVE = [('rwlock.cpp', ['-O2'])]
def prove(c):
    def ret_is_last(fn, op, r=0, w=0):
        def f():
            ex, rw, done = call(c, fn, op, r, w)
            for d in done: ex.oblige(d.st, '%s: returns the hold count right after its own update' % fn[2:], d.kind == 'ret' and bv(d.val, 64) == d.st.ghost['~last'])
            c.collect(ex, fn)
        return f
    for fn, op, r, w in (('u_lock_r', 'acqR', 0, 0), ('u_lock_w', 'acqW', 0, 0), ('u_unlock_r', 'relR', 1, 0), ('u_unlock_w', 'relW', 0, 1)): c.attempt(fn, ret_is_last(fn, op, r, w))
    def val():
        ex, rw, done = call(c, 'u_value', None)
        for d in done: ex.oblige(d.st, 'value: returns the hold count at one instant', bv(d.val, 64) == d.st.ghost['~last'])
        c.collect(ex, 'value')
    c.attempt('value', val)
    def quiet(fn, op, rd):
        def f():
            ex, rw, done = call(c, fn, op, quiet=True)
            free = rw.W0 == 0 if rd else rw.R0 == 0
            for d in done:
                ok = Not(eq(d.val, 0, 64))
                ex.oblige(d.st, '%s: without interference succeeds exactly if no conflicting hold exists' % fn[2:], zb(ok) == free)
                ex.oblige(d.st, '%s: reports success as 1 and failure as 0' % fn[2:], z3.ULE(bv(d.val, 64), 1))
                ex.oblige(d.st, '%s: failure leaves the lock as it was, success adds one hold' % fn[2:], d.st.ghost['c'] == z3.If(zb(ok), rw.c0 + (1 if rd else -1), rw.c0))
            c.collect(ex, fn)
        return f
    c.attempt('tryLock read, no interference', quiet('u_try_r', 'acqR', True)); c.attempt('tryLock write, no interference', quiet('u_try_w', 'acqW', False))
    def tr(fn, op):
        def f():
            ex, rw, done = call(c, fn, op)
            for d in done:
                ok = Not(eq(d.val, 0, 64))
                ex.oblige(d.st, '%s: success exactly with one new hold, failure with none' % fn[2:], And(zb(ok) == zb(gint(d.st, 'acq', 1, 'rel', 0)), zb(Not(ok)) == zb(gint(d.st, 'acq', 0, 'rel', 0))))
            c.collect(ex, fn)
        return f
    c.attempt('tryLock read', tr('u_try_r', 'acqR')); c.attempt('tryLock write', tr('u_try_w', 'acqW'))
    def guard(fn, op):
        def f():
            ex, rw, done = call(c, fn, op)
            for d in done: ex.oblige(d.st, '%s: releases exactly what it took' % fn[2:], gint(d.st, 'acq', 1, 'rel', 1))
            c.collect(ex, fn)
        return f
    c.attempt('guard read', guard('u_guard_r', 'guardR')); c.attempt('guard write', guard('u_guard_w', 'guardW'))
