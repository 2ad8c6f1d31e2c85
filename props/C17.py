"""sequences are handed out once, without gap, and become visible only when published: see seqspec"""
from irv.prop import *
from irv.lib import *
from seqspec import *
import C16
NATIVE = [('disruptor.cpp', ['-O2'])]
NATIVE_BUDGET_FAIL = 90
ASSUMPTIONS = C16.ASSUMPTIONS + ['a publication flag distinguishes sequences less than 2^31 times the capacity apart', 'a single producer publishes what it claimed before it claims again']
def prove(c):
    setup = lambda c, size, **kw: C16.setup(c, size, **kw); nslots = C16.nslots
    def single(c, size):
        nx, ca, q = z3.BitVecs('next0 cached0 q', 64)
        for fn, what in (('st_next', 'claim (one producer)'), ('st_try', 'try-claim (one producer)')):
            ex, st, w = setup(c, size); n, n64 = nslots(st, size)
            st.assume(z3.And(within(nx, ca), ca <= st.ghost['D'], nx == st.ghost['C'])); st, o = st_object(c, ex, st, w, nx, ca)
            for d in ex.run_function(st, fn, [Ptr(o, 0), Ptr(w.V, 0), n]):
                s = d.st; nv = bv(ex.load(s, Ptr(o, c.const['st_off_next']), I64), 64)
                ex.oblige(s, what + ': nothing becomes visible to consumers', s.ghost['C'] == w.C0)
                if d.kind == 'ret': ex.oblige(s, what + ': the claim follows the previous one without gap or overlap', z3.And(bv(d.val, 64) == nx + n64, nv == bv(d.val, 64)))
                else: ex.oblige(s, what + ': a refused claim takes nothing', nv == nx)
                c.reach('%s %s' % (what, d.kind), s)
            c.collect(ex, what)
        ex, st, w = setup(c, size); st.assume(within(nx, ca)); st, o = st_object(c, ex, st, w, nx, ca)
        for fn, args, what in (('st_publish', [q], 'publish (one producer)'), ('st_avail', [q], 'availability (one producer)'), ('st_high', [z3.BitVec('lo', 64), q], 'highest published (one producer)'), ('st_has', None, 'capacity test (one producer)')):
            s0 = st.fork()
            if args is None: n, n64 = nslots(s0, size); args = [Ptr(w.V, 0), n, q]
            s0.assume(within(q))
            if fn == 'st_high': s0.assume(q <= s0.ghost['C'])
            for d in ex.run_function(s0, fn, [Ptr(o, 0)] + args):
                s = d.st; ex.oblige(s, what + ': does not throw', d.kind == 'ret'); nv = bv(ex.load(s, Ptr(o, c.const['st_off_next']), I64), 64)
                ex.oblige(s, what + ': the next sequence to hand out is unchanged', nv == nx)
                if fn == 'st_publish': ex.oblige(s, what + ': the cursor is set once, to the published sequence', z3.And(s.ghost['C'] == q, eq(s.ghost['cw'], 1, 64)))
                else: ex.oblige(s, what + ': publishes nothing', z3.And(s.ghost['C'] == w.C0, eq(s.ghost['cw'], 0, 64)))
                if fn == 'st_avail': ex.oblige(s, what + ': exactly the sequences up to the cursor', (bv(d.val, 1) == 1) == (q <= s.ghost['C']))
                if fn == 'st_high': ex.oblige(s, what + ': the given sequence, which is published', bv(d.val, 64) == q)
                c.reach(what, s)
            c.collect(ex, what)
    def claims(c, size):
        for fn, what in (('mt_next', 'claim (several producers)'), ('mt_try', 'try-claim (several producers)')):
            ex, st, w = setup(c, size, multi=True); n, n64 = nslots(st, size); o = mt_object(c, ex, st, w, size); slots(w, o, c, size, st)
            for d in ex.run_function(st, fn, [Ptr(o, 0), Ptr(w.V, 0), n]):
                s = d.st; cl = s.ghost['~claim']
                ex.oblige(s, what + ': publishes nothing', not s.ghost['~slots'])
                if d.kind == 'ret':
                    ex.oblige(s, what + ': takes sequences exactly once', And(len(cl) == 1, eq(s.ghost['cas'], 1, 64)))
                    if len(cl) == 1: ex.oblige(s, what + ': takes as many sequences as asked for and returns the last of them', z3.And(cl[0][1] == cl[0][0] + n64, bv(d.val, 64) == cl[0][1]))
                else: ex.oblige(s, what + ': a refused claim takes nothing', And(len(cl) == 0, eq(s.ghost['cas'], 0, 64)))
                c.reach('%s %s' % (what, d.kind), s)
            c.collect(ex, what)
    def highest(c, fn, via, I, F):
        what = 'highest published (several producers)'
        ex, st, w, o = via(fn); lo, hi, Q = z3.BitVecs('lo hi any_sequence', 64); st.assume(within(lo, hi, Q))
        st.ghost['seen'] = 0; st.ghost['miss'] = 0
        def watch(s, kind, i, v):
            ex.oblige(s, what + ': changes nothing', kind == 'load')
            s.ghost['seen'] = simp(z3.If(z3.And(i == I(Q), v == F(Q)), z3.BitVecVal(1, 64), bv(s.ghost['seen'], 64)))
            s.ghost['miss'] = simp(z3.If(z3.And(i == I(Q), v != F(Q)), z3.BitVecVal(1, 64), bv(s.ghost['miss'], 64)))
        w.watch = watch
        def hint(lc, vs):
            out = []
            for m in [v for v in lc.vars if v[0] in ('phi', 'cell') and v[2] == 64]:
                out.append(Cand(('published', m), lambda lc, t, m=m: z3.Implies(z3.And(lo <= Q, Q < bv(lc.get(t, m), 64)), bv(t.ghost['seen'], 64) == 1), False))
                out.append(Cand(('lower', m), lambda lc, t, m=m: bv(lc.get(t, m), 64) >= lo, False)); out.append(Cand(('upper', m), lambda lc, t, m=m: z3.Or(bv(lc.get(t, m), 64) <= hi + 1, lo > hi), False))
            out.append(Cand(('miss',), lambda lc, t: z3.Or(eq(t.ghost['miss'], 0, 64), eq(t.ghost['miss'], 1, 64)), False))
            return out
        ex.hints.append(hint)
        for d in ex.run_function(st, fn, [Ptr(o, 0), lo, hi]):
            s = d.st; ex.oblige(s, what + ': does not throw', d.kind == 'ret'); r = bv(d.val, 64)
            ex.oblige(s, what + ': at most the given sequence', r <= hi); ex.oblige(s, what + ': not before the first one asked for', z3.Or(r >= lo - 1, lo > hi))
            ex.oblige(s, what + ': every sequence up to the result was seen published', z3.Implies(z3.And(lo <= Q, Q <= r), bv(s.ghost['seen'], 64) == 1))
            ex.oblige(s, what + ': the one after the result was seen not published', z3.Implies(z3.And(lo <= hi, r < hi, Q == r + 1), bv(s.ghost['miss'], 64) == 1)); c.reach(what, s)
        c.collect(ex, what)
    def flags(c, size):
        q, p, k = z3.BitVecs('q p k', 64)
        what = 'publish (several producers)'
        ex, st, w = setup(c, size, multi=True); o = mt_object(c, ex, st, w, size); slots(w, o, c, size, st); st.assume(within(q)); base = st
        ds = ex.run_function(base.fork(), 'mt_publish', [Ptr(o, 0), q])
        if len(ds) != 1: raise Unsupported('publish has several paths')
        s = ds[0].st; ops = s.ghost['~slots']; ex.oblige(s, what + ': sets exactly one publication flag', len(ops) == 1 and ops[0][0] == 'store'); ex.oblige(s, what + ': takes no sequence', And(len(s.ghost['~claim']) == 0, eq(s.ghost['cas'], 0, 64)))
        c.reach(what, s); c.collect(ex, what)
        if len(ops) != 1: return
        I = lambda x: z3.substitute(ops[0][1], (q, x)); F = lambda x: z3.substitute(ops[0][2], (q, x))
        if not z3.is_expr(ops[0][1]) or not z3.is_expr(ops[0][2]): raise Unsupported('constant flag')
        lim = size << 31; rng = lambda x: z3.And(x >= 0, x < lim)
        c.lemma(what + ': two sequences never share slot and flag', [rng(p), rng(q), p != q], z3.Or(I(p) != I(q), F(p) != F(q)))
        c.lemma(what + ': sequences less than the capacity apart use different slots', [rng(p), rng(q), p < q, q - p < size], I(p) != I(q))
        what = 'availability (several producers)'
        def via(fn):
            ex, st, w = setup(c, size, multi=True)
            if fn.startswith('mt'): o = mt_object(c, ex, st, w, size); slots(w, o, c, size, st); return ex, st, w, o
            st, o, cs, cu = ring(c, ex, st, w, 'rb'); a = cs.off + c.const['mt_off_avail']; w.aoff = (a, a + 4 * size); slots(w, cs.obj, c, size, st, cs.off); return ex, st, w, o
        for fn in ('mt_avail',) + (('rb_avail', 'rb_ispub') if size == 8 else ()):
          ex, st, w, o = via(fn); st.assume(within(q))
          for d in ex.run_function(st, fn, [Ptr(o, 0), q]):
            s = d.st; ex.oblige(s, what + ': does not throw', d.kind == 'ret'); r = bv(d.val, 1) == 1; ops2 = s.ghost['~slots']
            ex.oblige(s, what + ': changes nothing', all(x[0] == 'load' for x in ops2))
            ex.oblige(s, what + ': true only if the flag of this sequence was seen in its slot', Implies(r, Or(*[z3.And(x[1] == I(q), x[2] == F(q)) for x in ops2])))
            ex.oblige(s, what + ': false only if another flag was seen in its slot', Implies(Not(r), Or(*[z3.And(x[1] == I(q), x[2] != F(q)) for x in ops2]))); c.reach(what, s)
          c.collect(ex, what)
        for fn in ('mt_high',) + (('rb_high',) if size == 8 else ()): highest(c, fn, via, I, F)
        what = 'new strategy (several producers)'
        if size > (1024 if c.thorough else 64): return
        ex, st, w = setup(c, size, multi=True, static=True); ex.max_iters = size + 10; o = ex.alloc(st, c.const['mt_sizeof'], 'cells', 'multi-producer strategy'); slots(w, o, c, size, st); J = z3.BitVec('any_slot', 64); st.assume(z3.ULT(J, size)); st.ghost['flagJ'] = z3.BitVec('flag0', 32); st.ghost['setJ'] = 0
        def watch(s, kind, i, v):
            s.ghost['flagJ'] = z3.If(i == J, v, s.ghost['flagJ']); s.ghost['setJ'] = z3.If(i == J, z3.BitVecVal(1, 64), bv(s.ghost['setJ'], 64))
        w.watch = watch
        def hint(lc, vs):
            out = []
            for m in [v for v in lc.vars if v[0] in ('phi', 'cell', 'ghost') and v[2] == 64]:
                done = lambda t: z3.And(bv(t.ghost['setJ'], 64) == 1, bv(t.ghost['flagJ'], 32) == 0xffffffff)
                out.append(Cand(('down', m), lambda lc, t, m=m: z3.Implies(z3.UGT(J, bv(lc.get(t, m), 64)), done(t)), False)); out.append(Cand(('up', m), lambda lc, t, m=m: z3.Implies(z3.ULT(J, bv(lc.get(t, m), 64)), done(t)), False))
            return out
        ex.hints.append(hint)
        for d in ex.run_function(st, 'mt_ctor', [Ptr(o, 0), Ptr(w.C, 0), Ptr(w.W, 0)]):
            s = d.st
            if d.kind != 'ret': continue        # out of memory
            ex.oblige(s, what + ': every publication flag is set', eq(s.ghost['setJ'], 1, 64)); ex.oblige(s, what + ': no sequence counts as published', z3.Implies(z3.And(rng(q), I(q) == J), F(q) != bv(s.ghost['flagJ'], 32))); c.reach(what, s)
        c.collect(ex, what)
    def slot_of(c, ex, st, o, P, q):
        ds = ex.run_function(st.fork(), P + '_at', [Ptr(o, 0), q])
        if len(ds) != 1 or not isinstance(ds[0].val, Ptr) or not z3.is_expr(ds[0].val.off): raise Unsupported('slot lookup')
        return ds[0]
    def slot(c, size):
        for P in ('rb', 'rs'):
            what = 'event slot'; q, p = z3.BitVecs('q p', 64)
            ex, st, w = setup(c, size); o = ex.alloc(st, c.const[P + '_sizeof'], 'cells', 'ring buffer'); base = c.const[P + '_off_entries']; st.assume(within(q))
            d = slot_of(c, ex, st, o, P, q); r = d.val
            ex.oblige(d.st, what + ': inside the buffer', r.obj == o and z3.And(z3.UGE(bv(r.off, 64), base), z3.ULE(bv(r.off, 64), c.const[P + '_sizeof'] - 8))); c.reach(what, d.st); c.collect(ex, what)
            Q = z3.substitute(r.off, (q, p)); c.lemma(what + ': sequences less than the capacity apart use different slots', [within(q, p), p < q, q - p < size], z3.Or(z3.ULE(Q + 8, r.off), z3.ULE(r.off + 8, Q)))
    def delegates(c, size):
        """the ring buffer hands each call to its claim strategy, with its own gating list"""
        for P, cls in (('rb', 'MultiThreadedStrategy'), ('rs', 'SingleThreadedStrategy')):
            ex, st, w = setup(c, size, multi=P == 'rb'); st, o, cs, cu = ring(c, ex, st, w, P); a, b = z3.BitVecs('a b', 64); n = z3.BitVec('n', 32); st.assume(z3.And(within(a, b), n > 0, n < size))
            def lib(ex, name, dem, P=P, cls=cls):
                m = re.search(r'opencmw::disruptor::%s<[^>]*>::(next|tryNext|publish|hasAvailableCapacity|getRemainingCapacity|isAvailable|getHighestPublishedSequence)\(' % cls, nrm(dem))
                if not m or 'RingBuffer' in nrm(dem)[:m.start()]: return None
                op = m.group(1)
                def h(ex, st, args, ins, nm):
                    r = {'publish': None, 'hasAvailableCapacity': fresh(1, 'r'), 'isAvailable': fresh(1, 'r')}.get(op, 0)
                    if r == 0 and is_c(r): r = fresh(64, 'r')
                    st.ghost['~calls'] = st.ghost.get('~calls', ()) + ((op, tuple(args), r),)
                    if op == 'tryNext': return Multi([(st.fork(), r), (st, Throw(Exc('_ZTIN7opencmw9disruptor19NoCapacityExceptionE')))])
                    return r
                return h
            ex.libs.insert(0, lib)
            for fn, args, op in (('has', [n], 'hasAvailableCapacity'), ('next', [n], 'next'), ('try', [n], 'tryNext'), ('rem', [], 'getRemainingCapacity'), ('publish', [a], 'publish')):
                what = 'RingBuffer::%s (%s)' % (op, cls)
                for d in ex.run_function(st.fork(), P + '_' + fn, [Ptr(o, 0)] + args):
                    s = d.st; cl = s.ghost.get('~calls', ())
                    ok = len(cl) == 1 and cl[0][0] == op; ex.oblige(s, what + ': one call of the claim strategy', ok)
                    if not ok: continue
                    x = cl[0][1]; want = [cs] + ([] if op == 'publish' else [Ptr(w.V, 0)]) + args
                    ex.oblige(s, what + ': with its own gating sequences and the given arguments', And(*[(isinstance(g, Ptr) and g.obj == v.obj and simp(eq(g.off, v.off, 64))) if isinstance(v, Ptr) else eq(bv(g, 64) if z3.is_expr(g) and g.size() == 64 and v.size() == 32 else g, z3.SignExt(32, v) if z3.is_expr(g) and g.size() == 64 and v.size() == 32 else v, 64 if (not z3.is_expr(v)) or v.size() == 64 or (z3.is_expr(g) and g.size() == 64) else 32) for g, v in zip(x, want)]))
                    if op == 'hasAvailableCapacity': ex.oblige(s, what + ': relative to the cursor', bv(x[3], 64) == s.ghost['C'] if P == 'rb' else True)
                    if d.kind == 'ret' and d.val is not None: ex.oblige(s, what + ': passes the result on', eq(d.val, cl[0][2], 1 if op.startswith('has') else 64))
                    if d.kind != 'ret': ex.oblige(s, what + ': only the refusal of the strategy is passed on', op == 'tryNext')
                    c.reach(what, s)
                c.collect(ex, what)
            for fn, what in (('cursor', 'RingBuffer::cursor'), ('min', 'RingBuffer::getMinimumGatingSequence')):
                for d in ex.run_function(st.fork(), P + '_' + fn, [Ptr(o, 0)]):
                    s = d.st; ex.oblige(s, what + ': ' + ('the cursor' if fn == 'cursor' else 'at most the cursor and every consumer'), bv(d.val, 64) == s.ghost['C'] if fn == 'cursor' and P == 'rs' else z3.And(bv(d.val, 64) <= s.ghost['C'], z3.Or(fn == 'cursor', bv(d.val, 64) <= s.ghost['D']))); c.reach(what, s)
                c.collect(ex, what)
    def events(c, size):
        """publishEvent / tryPublishEvent: claim one sequence, fill exactly its slot, publish exactly it - also if the translator throws"""
        for P, cls in (('rb', 'MultiThreadedStrategy'), ('rs', 'SingleThreadedStrategy')):
            for fn in ('event', 'tryevent'):
                what = ('publishEvent' if fn == 'event' else 'tryPublishEvent') + ' (%s)' % cls
                ex, st, w = setup(c, size, multi=P == 'rb'); st, o, cs, cu = ring(c, ex, st, w, P); q = z3.BitVec('q', 64); st.assume(within(q)); at = slot_of(c, ex, st, o, P, q).val
                def lib(ex, name, dem, cls=cls, o=o, at=at, q=q, what=what):
                    if name == 'cb_translate':
                        def h(ex, st, a, ins, nm):
                            ex.oblige(st, what + ': the translator runs once, after the claim and before publication', st.ghost.get('~ev', ()) == ('claim',))
                            ex.oblige(st, what + ': the translator is given the slot and number of the claimed sequence', And(isinstance(a[0], Ptr) and a[0].obj == o, isinstance(a[0], Ptr) and eq(a[0].off, at.off, 64), eq(a[1], q, 64)))
                            st.ghost['~ev'] = st.ghost.get('~ev', ()) + ('fill',); return Multi([(st.fork(), None), (st, Throw(Exc('_ZTIi')))])
                        return h
                    m = re.search(r'opencmw::disruptor::%s<[^>]*>::(next|tryNext|publish)\(' % cls, nrm(dem))
                    if not m or 'RingBuffer' in nrm(dem)[:m.start()]: return None
                    op = m.group(1)
                    def h(ex, st, a, ins, nm):
                        if op == 'publish': ex.oblige(st, what + ': publishes the claimed sequence after it was filled', And(st.ghost.get('~ev', ()) == ('claim', 'fill'), eq(a[1], q, 64))); st.ghost['~ev'] = st.ghost.get('~ev', ()) + ('publish',); return None
                        ex.oblige(st, what + ': claims one slot, once', And(st.ghost.get('~ev', ()) == (), eq(a[2], 1, 32))); bad = st.fork(); st.ghost['~ev'] = st.ghost.get('~ev', ()) + ('claim',)
                        return q if op == 'next' else Multi([(st, q), (bad, Throw(Exc('_ZTIN7opencmw9disruptor19NoCapacityExceptionE')))])
                    return h
                ex.libs.insert(0, lib)
                for d in ex.run_function(st, P + '_' + fn, [Ptr(o, 0)]):
                    s = d.st; ev = s.ghost.get('~ev', ()); ex.oblige(s, what + ': no exception leaves', d.kind == 'ret'); full = ev == ('claim', 'fill', 'publish')
                    ex.oblige(s, what + ': a claimed sequence is published, whatever the translator does', full or ev == ())
                    if fn == 'tryevent' and d.kind == 'ret': ex.oblige(s, what + ': true exactly if an event was published', eq(d.val, int(full), 1))
                    if fn == 'event': ex.oblige(s, what + ': publishes', full)
                    c.reach(what + str(ev), s)
                c.collect(ex, what)
    def poll(c, size):
        for P in ('rb', 'rs'):
            for fn in ('poll', 'pollv'):
                what = 'poll (%s%s)' % ('several producers' if P == 'rb' else 'one producer', '' if fn == 'poll' else ', handler without result')
                ex, st, w = setup(c, size, multi=True); st, o, cs, cu = ring(c, ex, st, w, P); cur, L, Q, X0 = z3.BitVecs('current last any_sequence av0', 64); st.assume(within(cur, L, Q))
                q = z3.BitVec('q', 64); at = slot_of(c, ex, st, o, P, q).val
                E = ex.alloc(st, c.const[P + '_ep_sizeof'], 'cells', 'poller'); Sq = ex.alloc(st, 64, 'cells', 'sequence of the poller'); k = lambda n: c.const[P + '_ep_off_' + n]
                for off, v in ((k('data'), Ptr(o, 0)), (k('data') + 8, Ptr(None, 0)), (k('seq'), Ptr(Sq, 0)), (k('seq') + 8, Ptr(None, 0))): ex.store(st, Ptr(E, off), PTR, v)
                for i in range(3): ex.store(st, Ptr(E, k('gate') + 8 * i), PTR, ex.load(st, Ptr(w.V, 8 * i), PTR))
                ex.store(st, Ptr(E, k('last')), I64, L)
                # invariant of a poller: what it remembers as available is published
                st.assume(z3.Implies(z3.And(cur < Q, Q <= L), X0 == 1)); st.ghost.update({'av': X0, 'exp': cur + 1, '~max': None, 'n': 0, 'endseen': 0, 'stop': 0, 'set': 0, 'val': cur, '~gmin': None})
                base = ex.atomic_hook
                def hook(ex, s, kind, p, t, x, y, order):
                    if kind == 'fence' or not isinstance(p, Ptr) or p.obj != Sq: return base(ex, s, kind, p, t, x, y, order)
                    if kind == 'load': ex.oblige(s, 'a sequence is read with acquire ordering', order in ACQ); return s.ghost['val']
                    if kind != 'store': raise Unsupported('update of the own sequence')
                    ex.oblige(s, 'a sequence is written with release ordering', order in REL); ex.oblige(s, what + ': the consumer passes exactly the events that were handled', bv(x, 64) == bv(s.ghost['exp'], 64) - 1); ex.oblige(s, what + ': the consumer never goes back', bv(x, 64) >= bv(s.ghost['val'], 64))
                    s.ghost['val'] = bv(x, 64); s.ghost['set'] = 1; return None
                ex.atomic_hook = hook
                def lib(ex, name, dem):
                    d = nrm(dem)
                    if name == 'cb_handle':
                        def h(ex, s, a, ins, nm):
                            e = s.ghost['exp']; r = s.ghost['~max']
                            ex.oblige(s, what + ': events are handed out in order without gap', eq(a[1], e, 64)); s.assume(eq(a[1], e, 64))
                            ex.oblige(s, what + ': only published events are handed out', z3.Implies(bv(a[1], 64) == Q, bv(s.ghost['av'], 64) == 1))
                            ex.oblige(s, what + ': the handler is given the slot of the sequence', And(isinstance(a[0], Ptr) and a[0].obj == o, isinstance(a[0], Ptr) and eq(a[0].off, z3.substitute(bv(at.off, 64), (q, bv(a[1], 64))), 64)))
                            ex.oblige(s, what + ': nothing follows the end of the batch or a stop', And(eq(s.ghost['endseen'], 0, 64), eq(s.ghost['stop'], 0, 64)))
                            if r is not None: ex.oblige(s, what + ': the end of the batch is the last available event', simp((bv(a[2], 1) == 1) == (bv(a[1], 64) == r)))
                            bad = s.fork(); s.ghost['exp'] = simp(bv(e, 64) + 1); s.ghost['n'] = 1; s.ghost['endseen'] = simp(z3.If(bv(a[2], 1) == 1, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
                            goon = z3.BitVec('goon!%d' % uid(), 1)
                            if fn == 'poll': s.ghost['stop'] = simp(z3.If(goon == 1, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64)))
                            return Multi([(s, goon), (bad, Throw(Exc('_ZTIi')))])
                        return h
                    if 'opencmw::disruptor::detail::getMinimumSequence(' in d:
                        def h(ex, s, a, ins, nm):
                            ok = isinstance(a[0], Ptr) and a[0].obj == E and same(a[0].off, k('gate')); ex.oblige(s, what + ': gated by the sequences the poller was given', ok)
                            r = fresh(64, 'min'); s.assume(z3.And(r <= bv(a[1], 64), z3.Or(r == bv(a[1], 64), within(r)))); s.ghost['~gmin'] = r; return r
                        return h
                    if re.search(r'RingBuffer<.*>::getHighestPublishedSequence\(', d):
                        def h(ex, s, a, ins, nm):
                            lo, hi = bv(a[1], 64), bv(a[2], 64); r = fresh(64, 'high'); s.assume(z3.And(r <= hi, z3.Or(r >= lo - 1, z3.And(lo > hi, r == hi)), z3.Implies(hi >= lo, r >= lo - 1)))
                            ex.oblige(s, what + ': nothing beyond what the poller waits for', s.ghost['~gmin'] is not None and hi <= s.ghost['~gmin'])
                            s.ghost['av'] = simp(z3.If(z3.And(lo <= Q, Q <= r), z3.BitVecVal(1, 64), bv(s.ghost['av'], 64))); s.ghost['~max'] = r; return r
                        return h
                    return None
                ex.libs[:0] = [lib, exceptions]
                def hint(lc, vs):
                    out = [Cand(('end',), lambda lc, t: eq(t.ghost['endseen'], 0, 64)), Cand(('stop',), lambda lc, t: eq(t.ghost['stop'], 0, 64)), Cand(('n',), lambda lc, t: z3.Or(bv(t.ghost['n'], 64) == 0, bv(t.ghost['n'], 64) == 1)), Cand(('exp',), lambda lc, t: z3.And(bv(t.ghost['exp'], 64) >= cur + 1, (bv(t.ghost['exp'], 64) == cur + 1) == (bv(t.ghost['n'], 64) == 0)))]
                    if lc.entry.ghost['~max'] is not None: out.append(Cand(('room',), lambda lc, t: bv(t.ghost['exp'], 64) <= lc.entry.ghost['~max']))
                    for m in [v for v in lc.vars if v[0] in ('phi', 'cell') and v[2] == 64]:
                        for dd in (0, 1): out.append(Cand(('next', m, dd), lambda lc, t, m=m, dd=dd: bv(lc.get(t, m), 64) == bv(t.ghost['exp'], 64) - dd))
                    return out
                ex.hints.append(hint)
                for d in ex.run_function(st, P + '_' + fn, [Ptr(E, 0)]):
                    s = d.st; g = s.ghost; n = bv(g['n'], 64); ex.oblige(s, what + ': the consumer passed exactly the events that were handled', bv(g['val'], 64) == bv(g['exp'], 64) - 1)
                    last = bv(ex.load(s, Ptr(E, k('last')), I64), 64)
                    ex.oblige(s, what + ': what it remembers as available is published', z3.Implies(z3.And(bv(g['val'], 64) < Q, Q <= last), bv(g['av'], 64) == 1))
                    if d.kind == 'ret':
                        r = bv(d.val, 64); ex.oblige(s, what + ': reports processing exactly if an event was handled', (r == 0) == (n == 1)); ex.oblige(s, what + ': otherwise reports idle or gating', z3.And(r >= 0, r <= 2))
                        if g['~max'] is not None: ex.oblige(s, what + ': all available events are handled unless the handler stops', z3.Or(bv(g['stop'], 64) == 1, bv(g['exp'], 64) > g['~max']))
                    else: ex.oblige(s, what + ': only the exception of the handler leaves', d.val.exc.ti == '_ZTIi' if isinstance(d.val, Throw) else 'ZTIi' in str(getattr(d.val, 'ti', getattr(s.exc, 'ti', ''))))
                    c.reach('%s %s' % (what, d.kind), s)
                c.collect(ex, what)
    def sequence(c, size):
        ex, st, w = setup(c, size); a, b, v = z3.BitVecs('a b v', 64); st.assume(within(a, b, v))
        S = ex.alloc(st, 64, 'cells', 'sequence'); log = []
        def hook(ex, s, kind, p, t, x, y, order):
            if kind == 'fence': return None
            if not isinstance(p, Ptr) or p.obj != S: return NotImplemented
            if p.off != 0 or ex.mod.resolve(t).w != 64: raise Unsupported('a sequence is not one 64-bit counter')
            n = s.ghost.get('~n', 0); old = z3.BitVec('old!%d' % n, 64)
            if kind == 'load': new = None; ok = order in ACQ
            elif kind == 'store': new = bv(x, 64); ok = order in REL; 
            elif kind.startswith('cmpxchg'):
                if kind == 'cmpxchg_weak': raise Unsupported('weak compare-exchange')
                hit = ex.decide(s, eq(old, x, 64)); new = bv(y, 64) if hit else None; ok = order in ('acq_rel', 'seq_cst')
            else: new = bv(rmw(kind[4:], old, x, 64), 64); ok = order in ('acq_rel', 'seq_cst')
            ex.oblige(s, 'Sequence: memory ordering', ok); s.ghost['~n'] = n + 1; s.ghost['~ops'] = s.ghost.get('~ops', ()) + ((old, new),)
            if kind.startswith('cmpxchg'): return [old, int(hit)]
            return None if kind == 'store' else old
        ex.atomic_hook = hook
        for fn, args, what, post in (('sq_value', [], 'Sequence::value', lambda o, n, r: n is None and r == o), ('sq_set', [v], 'Sequence::setValue', lambda o, n, r: n is not None and n == v), ('sq_cas', [a, b], 'Sequence::compareAndSet', lambda o, n, r: z3.And(o == a, n == b, r == 1) if n is not None else z3.And(o != a, r == 0)),
                                     ('sq_inc', [], 'Sequence::incrementAndGet', lambda o, n, r: n is not None and z3.And(n == o + 1, r == n)), ('sq_add', [v], 'Sequence::addAndGet', lambda o, n, r: n is not None and z3.And(n == o + v, r == n))):
            for d in ex.run_function(st.fork(), fn, [Ptr(S, 0)] + args):
                ops = d.st.ghost.get('~ops', ()); r = d.val if d.val is None else bv(d.val, 1 if fn == 'sq_cas' else 64)
                ex.oblige(d.st, what + ': one atomic operation', len(ops) == 1)
                if len(ops) == 1: ex.oblige(d.st, what + ': reads and writes exactly as named', post(ops[0][0], ops[0][1], r))
                c.reach(what, d.st)
            c.collect(ex, what)
    parts = [('sequence', lambda c: sequence(c, 8))]
    for size in (8, 64, 1024):
        parts += [(n + ' %d' % size, lambda c, size=size, f=f: f(c, size)) for n, f in (('single', single), ('claims', claims), ('flags', flags), ('slot', slot))]
    parts += [('delegates', lambda c: delegates(c, 8)), ('events', lambda c: events(c, 8)), ('poll', lambda c: poll(c, 8))]
    c.parallel(parts)
def inputs_from(c, o): return []
