"""no producer overtakes a consumer: see seqspec for the shared state and its rely/guarantee conditions"""
from irv.prop import *
from irv.lib import *
from seqspec import *
NATIVE = [('disruptor.cpp', ['-O2'])]
NATIVE_BUDGET_FAIL = 90
SIZES = (8, 1024)
ASSUMPTIONS = ['sequence numbers stay below 2^60', 'a consumer only ever advances its own sequence, and the list of gating sequences does not change during a call', 'one thread at a time uses a single-producer strategy', 'buffer capacity: instantiated for 8 and 1024']
LAYOUT = ['st_off_next', 'st_off_cached', 'mt_off_gate', 'mt_off_avail', 'mt_sizeof', 'd_size'] + [p + x for p in ('rb_', 'rs_') for x in ('sizeof', 'off_entries', 'off_cs', 'off_gate', 'off_cursor', 'ep_sizeof', 'ep_off_data', 'ep_off_seq', 'ep_off_gate', 'ep_off_last')]
def setup(c, size, **kw):
    m = c.module('disruptor.cpp', ('-DRBSIZE=%d' % size,)); consts(c, m, LAYOUT)
    ex = c.executor(m, budget=200); st = X.State(); return ex, st, World(c, ex, st, size, **kw)
def nslots(st, size):
    n = z3.BitVec('n', 32); st.assume(z3.And(n > 0, n < size)); return n, z3.SignExt(32, n)
def prove(c):
    parts = []
    def minimum(c, size):
        what = 'minimum of the sequences'
        ex, st, w = setup(c, size, mincontract=False); mn = z3.BitVec('minimum', 64)
        for d in ex.run_function(st, 'd_min', [Ptr(w.V, 0), mn]):
            ex.oblige(d.st, what + ': at most the given bound', bv(d.val, 64) <= mn); ex.oblige(d.st, what + ': at most the sequence of every consumer', bv(d.val, 64) <= d.st.ghost['D']); c.reach(what, d.st)
        c.collect(ex, what)
        lo = z3.BitVec('low', 64); ex, st, w = setup(c, size, some=False, low=lo, mincontract=False)
        for d in ex.run_function(st, 'd_min', [Ptr(w.V, 0), mn]): ex.oblige(d.st, what + ': not below all of them', z3.Or(bv(d.val, 64) >= lo, bv(d.val, 64) == mn)); ex.oblige(d.st, what + ': one of them or the bound', z3.Or(within(bv(d.val, 64)), bv(d.val, 64) == mn))
        c.collect(ex, what)
    def single(c, size):
        for fn, what in (('st_next', 'claim (one producer)'), ('st_try', 'try-claim (one producer)')):
            ex, st, w = setup(c, size); n, n64 = nslots(st, size); nx, ca = z3.BitVecs('next0 cached0', 64)
            st.assume(z3.And(within(nx, ca), ca <= st.ghost['D'], nx == st.ghost['C'])); st, o = st_object(c, ex, st, w, nx, ca)
            for d in ex.run_function(st, fn, [Ptr(o, 0), Ptr(w.V, 0), n]):
                s = d.st; D = s.ghost['D']; cached = bv(ex.load(s, Ptr(o, c.const['st_off_cached']), I64), 64)
                ex.oblige(s, what + ': the cached minimum stays at most the sequence of every consumer', cached <= D)
                if d.kind == 'ret': ex.oblige(s, what + ': at most the capacity ahead of every consumer', bv(d.val, 64) - size <= D)
                else: ex.oblige(s, what + ': fails only with NoCapacityException', 'NoCapacity' in str(getattr(s.exc, 'ti', '')) if s.exc else 'NoCapacity' in str(d.val))
                c.reach('%s %s' % (what, d.kind), s)
            c.collect(ex, what)
            # no false refusal
            if fn == 'st_try':
                lo = z3.BitVec('low', 64); ex, st, w = setup(c, size, some=False, low=lo); n, n64 = nslots(st, size); st.assume(z3.And(within(nx, ca, lo), lo >= nx + n64 - size)); st, o = st_object(c, ex, st, w, nx, ca)
                for d in ex.run_function(st, fn, [Ptr(o, 0), Ptr(w.V, 0), n]): ex.oblige(d.st, what + ': not refused while every consumer leaves room', d.kind == 'ret')
                c.collect(ex, what)
        what = 'capacity test (one producer)'
        ex, st, w = setup(c, size); n, n64 = nslots(st, size); st.assume(z3.And(within(nx, ca), ca <= st.ghost['D'])); st, o = st_object(c, ex, st, w, nx, ca)
        for d in ex.run_function(st, 'st_has', [Ptr(o, 0), Ptr(w.V, 0), n, z3.BitVec('cv', 64)]):
            s = d.st; ex.oblige(s, what + ': true only if the slots are free', z3.Implies(bv(d.val, 1) == 1, nx + n64 - size <= s.ghost['D'])); ex.oblige(s, what + ': the cached minimum stays at most the sequence of every consumer', bv(ex.load(s, Ptr(o, c.const['st_off_cached']), I64), 64) <= s.ghost['D'])
        c.collect(ex, what); what = 'remaining capacity (one producer)'
        ex, st, w = setup(c, size); st.assume(within(nx, ca)); st, o = st_object(c, ex, st, w, nx, ca)
        for d in ex.run_function(st, 'st_rem', [Ptr(o, 0), Ptr(w.V, 0)]): ex.oblige(d.st, what + ': never more than there is', bv(d.val, 64) <= size - (nx - d.st.ghost['D'])); ex.oblige(d.st, what + ': never more than the capacity', z3.Or(bv(d.val, 64) <= size))
        c.collect(ex, what)
    def multi(c, size):
        for fn, what in (('mt_next', 'claim (several producers)'), ('mt_try', 'try-claim (several producers)')):
            ex, st, w = setup(c, size, multi=True); n, n64 = nslots(st, size); o = mt_object(c, ex, st, w, size)
            for d in ex.run_function(st, fn, [Ptr(o, 0), Ptr(w.V, 0), n]):
                s = d.st
                if d.kind == 'ret': ex.oblige(s, what + ': at most the capacity ahead of every consumer', bv(d.val, 64) - size <= s.ghost['D'])
                else: ex.oblige(s, what + ': fails only with NoCapacityException', 'NoCapacity' in str(getattr(s.exc, 'ti', '')) if s.exc else 'NoCapacity' in str(d.val))
                c.reach('%s %s' % (what, d.kind), s)
            c.collect(ex, what)
        what = 'capacity test (several producers)'
        ex, st, w = setup(c, size, multi=True); n, n64 = nslots(st, size); o = mt_object(c, ex, st, w, size); cv = z3.BitVec('cv', 64); st.assume(within(cv))
        for d in ex.run_function(st, 'mt_has', [Ptr(o, 0), Ptr(w.V, 0), n, cv]): ex.oblige(d.st, what + ': true only if the slots are free', z3.Implies(bv(d.val, 1) == 1, cv + n64 - size <= d.st.ghost['D'])); c.reach(what, d.st)
        c.collect(ex, what); what = 'remaining capacity (several producers)'
        ex, st, w = setup(c, size, multi=True); o = mt_object(c, ex, st, w, size)
        for d in ex.run_function(st, 'mt_rem', [Ptr(o, 0), Ptr(w.V, 0)]): ex.oblige(d.st, what + ': never more than there was when asked', bv(d.val, 64) <= size - (w.C0 - d.st.ghost['D'])); ex.oblige(d.st, what + ': never more than the capacity', bv(d.val, 64) <= size)
        c.collect(ex, what)
    for size in SIZES:
        parts += [('minimum %d' % size, lambda c, size=size: minimum(c, size)), ('single %d' % size, lambda c, size=size: single(c, size)), ('multi %d' % size, lambda c, size=size: multi(c, size))]
    c.parallel(parts)
def inputs_from(c, o): return []
