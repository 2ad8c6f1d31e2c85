"""rely/guarantee contracts of the ring-buffer sequences.
Shared state: the producers' cursor C, the sequence D of an arbitrary registered consumer (index K: what is shown for it holds for
each), the cached minimum G of the multi-producer strategy.  Invariant at all times: C - SIZE <= D, G <= D.
Rely (between any two atomic operations of the verified call): D only grows; with several producers C only grows and G may be
replaced, both within the invariant.  Guarantee: every atomic update of the call keeps the invariant and is a permitted one."""
from irv.prop import *
from irv.spec import *
from irv.lib import *
from irv.ll import IntTy, PtrTy
from irv.exec import rmw, Throw, Multi, Exc, same
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')
LIM = 1 << 60
K = z3.BitVec('any_consumer', 64)
class Ptrs:
    """buffer of a std::vector<std::shared_ptr<Sequence>>: element k owns sequence k"""
    def __init__(s, S): s.S = S
    def read(s, ex, st, oid, off, n, t):
        if not isinstance(t, PtrTy): raise Unsupported('shared_ptr read as integer')
        if ex.valid(st, eq(bv(off, 64) & 15, 8)): raise Unsupported('control block of a sequence')
        ok = simp(bv(off, 64) & 15 == 0); ex.oblige(st, 'memory-safety: element of the list of sequences', ok, 'safety'); st.assume(ok)
        return Ptr(s.S, simp(bv(off, 64) * 4))
    def write(s, *a): raise Unsupported('write to the list of sequences')
    def same(s, o): return s is o
    def havoc(s, ex, st, oid, lc): return s
def within(*xs): return z3.And([z3.And(x > -LIM, x < LIM) for x in xs])
class World:
    def __init__(s, c, ex, st, size, multi=False, some=True, low=None, static=False, mincontract=True):
        """some: there is at least one consumer (the arbitrary one, K); low: a value no sequence is ever below; static: no interference"""
        s.ex, s.size, s.multi, s.some, s.low, s.static, s.mincontract = ex, size, multi, some, low, static, mincontract
        n = s.n = z3.BitVec('consumers', 64); st.assume(z3.ULT(n, 1 << 32))
        if some: st.assume(z3.ULT(K, n))
        s.S = ex.alloc(st, None, 'cells', 'consumer sequences'); s.B = ex.alloc(st, simp(n * 16), 'cells', 'list of sequences')
        o = st.w(s.B); o.kind = 'custom'; o.meta = Ptrs(s.S)
        s.V = ex.alloc(st, 24, 'cells', 'vector of sequences')
        for i, q in enumerate((0, simp(n * 16), simp(n * 16))): ex.store(st, Ptr(s.V, 8 * i), PTR, Ptr(s.B, q))
        s.C = ex.alloc(st, 64, 'cells', 'cursor'); s.G = ex.alloc(st, 64, 'cells', 'gating cache'); s.W = ex.alloc(st, 64, 'cells', 'wait strategy'); s.A = s.coff = s.aoff = None
        C, D, G = z3.BitVecs('C0 D0 G0', 64); s.C0 = C
        st.ghost.update({'C': C, 'D': D, 'G': G, 'cas': 0, '~claim': (), 'cw': 0})
        s.inv(st, C, D, G); ex.atomic_hook = s.hook; ex.max_iters = 2
        s.step_ops = []
        ex.libs.insert(0, s.lib)
        def hint(lc, vars_):
            """the running minimum is at most the value last read from consumer K once that one was visited, and at least the lower bound"""
            out = []
            P = [v for v in lc.vars if v[0] in ('phip', 'cellp')]; M = [v for v in lc.vars if v[0] in ('phi', 'cell') and v[2] == 64]
            for m in M:
                for p in P + [lc.it]:
                    if s.some:
                        def at(lc, t, m=m, p=p):
                            pos = lc.get(t, p); pos = bv(pos, 64); vis = z3.ULT(K * 16, pos) if p is not lc.it else z3.ULT(K, pos)
                            return z3.Implies(vis, bv(lc.get(t, m), 64) <= bv(t.ghost['D'], 64))
                        out.append(Cand(('seen', m, p), at, False))
                out.append(Cand(('init', m), lambda lc, t, m=m: bv(lc.get(t, m), 64) <= bv(lc.get(lc.entry, m), 64), False))
                out.append(Cand(('range', m), lambda lc, t, m=m: z3.Or(within(bv(lc.get(t, m), 64)), eq(lc.get(t, m), lc.get(lc.entry, m), 64)), False))
                if s.low is not None: out.append(Cand(('low', m), lambda lc, t, m=m: z3.Or(bv(lc.get(t, m), 64) >= s.low, bv(lc.get(t, m), 64) >= bv(lc.get(lc.entry, m), 64)), False))
                out.append(Cand(('le D', m), lambda lc, t, m=m: bv(lc.get(t, m), 64) <= bv(t.ghost['D'], 64), False)) if s.some else None
            out.append(Cand(('D grows',), lambda lc, t: bv(t.ghost['D'], 64) >= bv(lc.entry.ghost['D'], 64), False))
            out.append(Cand(('C grows',), lambda lc, t: bv(t.ghost['C'], 64) >= bv(lc.entry.ghost['C'], 64), False))
            out.append(Cand(('inv',), lambda lc, t: s.invf(*[bv(t.ghost[k], 64) for k in 'CDG']), False))
            return out
        ex.hints.append(hint)
    def invf(s, C, D, G):
        f = [within(C, D, G)]
        if s.some: f += [C - s.size <= D, G <= D]
        if s.low is not None: f += [G >= s.low] if False else []
        return z3.And(f)
    def inv(s, st, C, D, G): st.assume(s.invf(C, D, G))
    def env(s, st):
        """other threads run"""
        g = st.ghost; D, G, C = g['D'], g['G'], g['C']
        if s.static: return
        d = fresh(64, 'D'); st.assume(d >= D); g['D'] = d
        if s.multi:
            cc, gg = fresh(64, 'C'), fresh(64, 'G'); st.assume(cc >= C); g['C'], g['G'] = cc, gg
        s.inv(st, g['C'], d, g['G'])
    def hook(s, ex, st, kind, p, t, x, y, order):
        if kind == 'fence': return None
        if not isinstance(p, Ptr) or p.obj not in (s.S, s.C, s.G, s.A): return NotImplemented
        if p.obj == s.C and s.coff is not None and not same(p.off, s.coff): return NotImplemented     # other members of the object that holds the cursor
        if p.obj == s.A and s.aoff is not None and is_c(p.off) and not s.aoff[0] <= p.off < s.aoff[1]: return NotImplemented
        w = ex.mod.resolve(t).w; g = st.ghost; n = g.get('~opn', 0)
        if g.get('~inst') != n: s.env(st); g['~inst'] = n       # once per operation, also if the path forks in it
        r = s.op(ex, st, kind, p, w, x, y, order); g['~opn'] = n + 1; return r
    def op(s, ex, st, kind, p, w, x, y, order):
        g = st.ghost
        if p.obj == s.A: return s.avail(ex, st, kind, p, w, x, order)
        if w != 64: raise Unsupported('a sequence is not one 64-bit counter')
        if kind == 'load':
            ex.oblige(st, 'a sequence is read with acquire ordering', order in ACQ)
        elif kind == 'store': ex.oblige(st, 'a sequence is written with release ordering', order in REL)
        else: ex.oblige(st, 'a sequence is updated with acquire and release ordering', order in ('acq_rel', 'seq_cst'))
        if p.obj == s.S:
            off = bv(p.off, 64); ok = z3.And(z3.ULT(off, s.n * 64), off & 63 == 0); ex.oblige(st, 'memory-safety: consumer sequence in the list', ok, 'safety'); st.assume(ok)
            if kind != 'load': ex.oblige(st, 'a producer does not change the sequence of a consumer', False); raise X.PathEnd()
            v = fresh(64, 'seq'); st.assume(within(v))
            if s.low is not None: st.assume(v >= s.low)
            if s.some: st.assume(z3.Implies(off == K * 64, v == g['D']))
            return v
        if p.obj == s.G:
            if kind == 'load': return g['G']
            if kind != 'store': raise Unsupported('gating cache update')
            if s.some: ex.oblige(st, 'the cached minimum is at most the sequence of every consumer', bv(x, 64) <= g['D'])
            g['G'] = bv(x, 64); return None
        if kind == 'load': return g['C']
        if kind in ('cmpxchg', 'cmpxchg_weak'):
            ok = eq(g['C'], x, 64)
            if kind == 'cmpxchg_weak': ok = And(ok, z3.Bool('weak!%d' % g.get('~opn', 0)))
            old = g['C']
            if ex.decide(st, ok): s.advance(st, old, bv(y, 64)); return [old, 1]
            return [old, 0]
        if kind == 'store': s.write(st, bv(x, 64)); return None
        old = g['C']; s.advance(st, old, bv(rmw(kind[4:], old, x, 64), 64)); return old
    def advance(s, st, old, new):
        """a producer takes the sequences (old, new]"""
        ex = s.ex
        if s.some: ex.oblige(st, 'a claim is at most the buffer capacity ahead of every consumer', new - s.size <= st.ghost['D'])
        ex.oblige(st, 'a claim moves the cursor forward', new > old)
        st.ghost['~claim'] += ((old, new),); st.ghost['cas'] = add(st.ghost['cas'], 1); st.ghost['C'] = new
    def write(s, st, v):
        if s.multi: s.ex.oblige(st, 'several producers never overwrite the cursor', False)
        st.ghost['C'] = v; st.ghost['cw'] = add(st.ghost['cw'], 1)
    def lib(s, ex, name, dem):
        d = nrm(dem)
        if re.match(r'(void )?opencmw::SpinWait(<[^>]*>)?::(spinOnce|reset|spin_once)\(', d): 
            h = lambda ex, st, a, ins, nm: None
            h.trust = 'SpinWait has no effect on the shared state (its frame: C12)'; return h
        if s.mincontract and 'opencmw::disruptor::detail::getMinimumSequence(' in d:
            def h(ex, st, a, ins, nm):
                if not (isinstance(a[0], Ptr) and a[0].obj == s.V and is_c(a[0].off) and a[0].off == 0): raise Unsupported('minimum over another list')
                s.env(st); r = fresh(64, 'min'); m = bv(a[1], 64); st.assume(z3.And(r <= m, z3.Or(r == m, within(r))))
                if s.some: st.assume(r <= st.ghost['D'])
                if s.low is not None: st.assume(z3.Or(r == m, r >= s.low))
                return r
            return h
        return None
import re
def slots(w, o, c, size, st, at=0):
    """publication flags of the multi-producer strategy: any other producer may publish at any time, so a load returns any value; every operation is recorded"""
    w.A = o; base = at + c.const['mt_off_avail']; st.ghost['~slots'] = ()
    def avail(ex, st, kind, p, wd, x, order):
        off = bv(simp(bv(p.off, 64) - base), 64); ok = simp(z3.And(z3.ULT(off, 4 * size), off & 3 == 0)); z3.is_true(zb(ok)) or (ex.oblige(st, 'memory-safety: publication flag inside the buffer', ok, 'safety'), st.assume(ok))
        if wd != 32: raise Unsupported('publication flags are not 32-bit values')
        if kind == 'load': ex.oblige(st, 'a publication flag is read with acquire ordering', order in ACQ); v = fresh(32, 'flag')
        elif kind == 'store': ex.oblige(st, 'a publication flag is written with release ordering', order in REL); v = bv(x, 32)
        else: raise Unsupported('read-modify-write of a publication flag')
        st.ghost['~slots'] += ((kind, simp(z3.LShR(off, 2)), v),)
        if w.watch: w.watch(st, kind, z3.LShR(off, 2), v)
        return v if kind == 'load' else None
    w.avail = avail; w.watch = None
def mt_object(c, ex, st, w, size):
    n = c.const['mt_sizeof']; o = ex.alloc(st, n, 'cells', 'multi-producer strategy')
    ex.store(st, Ptr(o, 0), PTR, Ptr(w.C, 0)); ex.store(st, Ptr(o, 64), PTR, Ptr(w.W, 0)); g = c.const['mt_off_gate']
    ex.store(st, Ptr(o, g), PTR, Ptr(w.G, 0)); ex.store(st, Ptr(o, g + 8), PTR, Ptr(None, 0)); return o
def st_object(c, ex, st, w, nxt, cached):
    o = ex.alloc(st, 256, 'cells', 'single-producer strategy')
    for d in ex.run_function(st, 'st_ctor', [Ptr(o, 0), Ptr(w.C, 0), Ptr(w.W, 0)]): st = d.st
    ex.store(st, Ptr(o, c.const['st_off_next']), I64, nxt); ex.store(st, Ptr(o, c.const['st_off_cached']), I64, cached); return st, o
def consts(c, m, names):
    c.const = {}
    for nm in names:
        ex = c.executor(m); d = ex.run_function(X.State(), nm, []); v = d[0].val
        if len(d) != 1 or not is_c(v): raise Unsupported('layout constant ' + nm)
        c.const[nm] = v

def ring(c, ex, st, w, P):
    """a ring buffer as its real constructor leaves it, gated by the consumers of the world"""
    o = ex.alloc(st, c.const[P + '_sizeof'], 'cells', 'ring buffer'); it = ex.max_iters; ex.max_iters = 5000; hook = ex.atomic_hook; ex.atomic_hook = None
    ds = [d for d in ex.run_function(st, P + '_ctor', [Ptr(o, 0)]) if d.kind == 'ret']; ex.max_iters = it; ex.atomic_hook = hook
    if len(ds) != 1: raise Unsupported('constructor of the ring buffer')
    st = ds[0].st; ex.obl = []
    cs = ex.load(st, Ptr(o, c.const[P + '_off_cs']), PTR); cu = ex.load(st, Ptr(o, c.const[P + '_off_cursor']), PTR)
    w.C, w.coff = cu.obj, cu.off; ex.store(st, Ptr(o, c.const[P + '_off_gate']), PTR, Ptr(w.V, 0))
    return st, o, cs, cu
def exceptions(ex, name, dem):
    d = nrm(dem)
    if d.startswith('std::current_exception('):
        def h(ex, st, a, ins, nm): st.ghost['~cur'] = st.caught[-1] if st.caught else None; ex.store(st, a[0], PTR, Ptr(None, 0)); return None
        h.trust = 'std::current_exception refers to the exception being handled'; return h
    if d.startswith('std::rethrow_exception('):
        h = lambda ex, st, a, ins, nm: Throw(st.ghost['~cur'])
        h.trust = 'std::rethrow_exception throws the exception referred to'; return h
    if re.match(r'std::__exception_ptr::exception_ptr::(~?exception_ptr|_M_release|_M_addref)\(', d): return lambda ex, st, a, ins, nm: None
    return None
