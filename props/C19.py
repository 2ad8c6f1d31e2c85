"""multi-dimensional arrays: layout computed by the constructors, index <-> indices, element access, element-wise operators.

Code obligations are over 32-bit machine arithmetic for arbitrary sizes, strides and offsets; the uniqueness lemmas are over the integers
under the stated size limit (all sums below 2^32), where machine and integer arithmetic agree."""
from irv.prop import *
from irv.spec import *
from irv.lib import *
from irv.ll import IntTy
from seqspec import consts
I8, I32 = IntTy(8), IntTy(32)
NATIVE = ['multiarray.cpp']
ASSUMPTIONS = ['the number of elements and the positions addressed stay below 2^32', 'instantiated for 1, 2, 3 and 4 dimensions and 8-bit elements', 'strides are positive where a position is converted back to indices']
LAYOUT = ['ma_sizeof', 'ma_off_n', 'ma_off_dims', 'ma_off_strides', 'ma_off_offsets', 'ma_off_el']
ZERO = z3.BitVecVal(0, 32)
def words(nm, n): return [z3.BitVec('%s%d' % (nm, i), 32) for i in range(n)]
def array(ex, st, ws, nm):
    o = ex.alloc(st, 4 * len(ws), 'cells', nm)
    for i, w in enumerate(ws): ex.store(st, Ptr(o, 4 * i), I32, w)
    return o
def vector(ex, st, n, nm, at=None):
    b = ex.new_arr(st, n, nm + ' elements'); v = at or Ptr(ex.alloc(st, 24, 'cells', nm), 0)
    for k, x in enumerate((0, n, n)): ex.store(st, Ptr(v.obj, add(v.off, 8 * k)), PTR, Ptr(b, x))
    return v, b, st.mem[b].arr
def read_vec(ex, st, p):
    b, e = ex.load(st, Ptr(p.obj, p.off), PTR), ex.load(st, Ptr(p.obj, add(p.off, 8)), PTR); return b, e
def make(c, ex, st, nd, nm, cnt=None, dims=None):
    """an arbitrary MultiArray object"""
    k = c.const; o = ex.alloc(st, k['ma_sizeof'], 'cells', nm); n = z3.BitVec(nm + '_size', 64); st.assume(z3.ULT(n, 1 << 40))
    v, b, arr = vector(ex, st, n, nm, Ptr(o, k['ma_off_el'])); cnt = cnt if cnt is not None else z3.BitVec(nm + '_count', 32); ex.store(st, Ptr(o, k['ma_off_n']), I32, cnt)
    d, s, f = dims or words(nm + '_dim', nd), words(nm + '_stride', nd), words(nm + '_offset', nd)
    for off, ws in ((k['ma_off_dims'], d), (k['ma_off_strides'], s), (k['ma_off_offsets'], f)):
        for i, w in enumerate(ws): ex.store(st, Ptr(o, off + 4 * i), I32, w)
    class R: pass
    r = R(); r.o, r.n, r.b, r.arr, r.cnt, r.d, r.s, r.f = o, n, b, arr, cnt, d, s, f; return r
def rd(ex, st, o, off, i): return bv(ex.load(st, Ptr(o, off + 4 * i), I32), 32)
def elem(ex, st, oid, off):
    o = st.mem[oid]
    if o.kind == 'arr': return z3.Select(o.arr, bv(off, 64))
    if o.kind == 'rope': return bv(r_read(o.rope, off), 8)
    if is_c(off): return bv(ex.read_byte(st, oid, off), 8)
    raise Unsupported('elements in %s memory' % o.kind)
def prod(ws):
    p = z3.BitVecVal(1, 32)
    for w in ws: p = p * w
    return p
def position(s, f, idx):
    r = ZERO
    for a, b, x in zip(s, f, idx): r = r + (b + x) * a
    return r
def tuple_of(k, s, f):
    out = []; r = k
    for a, b in zip(s, f): q = z3.UDiv(r, a); out.append(q - b); r = r - q * a
    return out
K = z3.BitVec('any_position', 64)
def memcmp_lib(ex, name, dem):
    """memcmp: zero exactly if the bytes agree (stated for the arbitrary position, with a witness for a difference)"""
    if nrm(dem) != 'memcmp' and name != 'memcmp': return None
    def h(ex, st, a, ins, nm):
        n = bv(a[2], 64); r, w = fresh(32, 'memcmp'), fresh(64, 'differs')
        if is_c(a[2]) and a[2] == 0: return 0
        ex.check_access(st, a[0], a[2], 'memcmp'); ex.check_access(st, a[1], a[2], 'memcmp')
        x = lambda p, k: elem(ex, st, p.obj, add(p.off, k))
        if is_c(a[2]) and a[2] <= 64 and a[2] % 4 == 0:
            w = lambda p: [bv(ex.load(st, Ptr(p.obj, add(p.off, 4 * i)), I32), 32) for i in range(a[2] // 4)]
            st.assume((r == 0) == z3.And([p == q for p, q in zip(w(a[0]), w(a[1]))])); return r
        if any(st.mem[p.obj].kind not in ('arr', 'rope') for p in a[:2]): raise Unsupported('memcmp of other memory')
        st.assume(z3.Implies(r == 0, z3.Implies(z3.ULT(K, n), x(a[0], K) == x(a[1], K)))); st.assume(z3.Implies(r != 0, z3.And(z3.ULT(w, n), x(a[0], w) != x(a[1], w)))); return r
    h.trust = 'memcmp'; return h
def elem_hints(ex):
    """loops over the elements: what is stored so far, for an arbitrary position"""
    def hint(lc, vars_):
        out = []
        for a in [v for v in lc.vars if v[0] == 'arr']:
            for i in [lc.it] + [v for v in lc.vars if v[0] in ('phi', 'cell', 'ghost') and v[2] in (32, 64)]:
                for want in ex.elem_want:
                    def at(lc, st, a=a, i=i, want=want):
                        x = bv(lc.get(st, i), 64) if not (z3.is_expr(lc.get(st, i)) and lc.get(st, i).size() == 32) else z3.ZeroExt(32, lc.get(st, i))
                        return z3.Implies(z3.ULT(K, bv(st.mem[a[1]].size, 64)), z3.Select(st.mem[a[1]].arr, K) == z3.If(z3.ULT(K, x), want, z3.Select(lc.S0.mem[a[1]].arr if False else ex.elem_orig(lc, a[1]), K)))
                    out.append(Cand(('elem', a, i, str(want)[:30]), at, True, group=('elem', a)))
        return out
    ex.hints.append(hint)
def prove(c):
    c.const = getattr(c, 'const', {})
    def setup(c, nd):
        m = c.module('multiarray.cpp', ('-DND=%d' % nd,)); ex = c.executor(m, [memcmp_lib], budget=200); st = X.State(); consts(c, m, LAYOUT); return ex, st
    def layout(ex, s, c, nd, o, d, what):
        k = c.const
        ex.oblige(s, what + ': number of elements is the product of the sizes', bv(ex.load(s, Ptr(o, k['ma_off_n']), I32), 32) == prod(d))
        for i in range(nd):
            ex.oblige(s, what + ': sizes are kept', rd(ex, s, o, k['ma_off_dims'], i) == d[i])
            ex.oblige(s, what + ': row-major strides', rd(ex, s, o, k['ma_off_strides'], i) == prod(d[i + 1:]))
            ex.oblige(s, what + ': no offsets', rd(ex, s, o, k['ma_off_offsets'], i) == 0)
    def same_layout(ex, s, c, nd, o, m, what):
        k = c.const
        ex.oblige(s, what + ': number of elements is kept', bv(ex.load(s, Ptr(o, k['ma_off_n']), I32), 32) == m.cnt)
        for i in range(nd):
            ex.oblige(s, what + ': sizes are kept', rd(ex, s, o, k['ma_off_dims'], i) == m.d[i]); ex.oblige(s, what + ': strides are kept', rd(ex, s, o, k['ma_off_strides'], i) == m.s[i]); ex.oblige(s, what + ': offsets are kept', rd(ex, s, o, k['ma_off_offsets'], i) == m.f[i])
    def ctors(c, nd):
        for kind in ('dims', 'default', 'copy', 'move', 'full'):
            what = 'constructor (%s)' % {'dims': 'given sizes', 'default': 'default', 'copy': 'copied elements', 'move': 'moved elements', 'full': 'custom layout'}[kind]
            ex, st = setup(c, nd); k = c.const; d = words('dim', nd); out = ex.alloc(st, k['ma_sizeof'], 'cells', 'result'); st.assume(z3.ULT(K, 1 << 40))
            if kind == 'default': d = [ZERO] * nd
            ao = array(ex, st, d, 'sizes'); args = [Ptr(out, 0)]; n = z3.BitVec('n', 64); st.assume(z3.ULT(n, 1 << 40)); arr = None
            if kind in ('copy', 'move', 'full'): v, b, arr = vector(ex, st, n, 'given'); args.append(v)
            if kind != 'default': args.append(Ptr(ao, 0))
            if kind == 'full': s_, f_ = words('stride', nd), words('offset', nd); args += [Ptr(array(ex, st, s_, 'strides'), 0), Ptr(array(ex, st, f_, 'offsets'), 0)]
            for r in ex.run_function(st, 'ma_ctor_' + kind, args):
                s = r.st
                if r.kind != 'ret': ex.oblige(s, what + ': does not fail', False); continue
                p, e = read_vec(ex, s, Ptr(out, k['ma_off_el'])); ln = sub(e.off, p.off) if not (e.obj == 0 and p.obj == 0) else 0
                if kind == 'full':
                    ex.oblige(s, what + ': number of elements is that of the data', bv(ex.load(s, Ptr(out, k['ma_off_n']), I32), 32) == z3.Extract(31, 0, n))
                    for i in range(nd):
                        for off, ws in (('dims', d), ('strides', s_), ('offsets', f_)): ex.oblige(s, what + ': %s are kept' % off, rd(ex, s, out, k['ma_off_' + off], i) == ws[i])
                else: layout(ex, s, c, nd, out, d, what)
                ex.oblige(s, what + ': the data has %s' % ('one element per position' if arr is None else 'the given number of elements'), eq(ln, z3.ZeroExt(32, prod(d)) if arr is None else n))
                if p.obj: 
                    x = elem(ex, s, p.obj, add(p.off, K)); ex.oblige(s, what + (': elements start as zero' if arr is None else ': elements are the given ones'), z3.Implies(ult(K, ln), bv(x, 8) == (0 if arr is None else z3.Select(arr, K))))
                c.reach('%s %d' % (what, nd), s)
            c.collect(ex, what)
    def access(c, nd):
        ex, st = setup(c, nd); m = make(c, ex, st, nd, 'm'); idx = words('i', nd); ai = array(ex, st, idx, 'indices'); pos = position(m.s, m.f, idx)
        what = 'index'
        for r in ex.run_function(st.fork(), 'ma_index', [Ptr(m.o, 0), Ptr(ai, 0)]): ex.oblige(r.st, what + ': sum of (offset + index) * stride', bv(r.val, 32) == pos); c.reach(what, r.st)
        c.collect(ex, what)
        ex, st = setup(c, nd); m = make(c, ex, st, nd, 'm'); what = 'indices'; k = z3.BitVec('k', 32); out = ex.alloc(st, 4 * nd, 'cells', 'result')
        for x in m.s: st.assume(x != 0)
        for r in ex.run_function(st, 'ma_indices', [Ptr(m.o, 0), k, Ptr(out, 0)]):
            for i, t in enumerate(tuple_of(k, m.s, m.f)): ex.oblige(r.st, what + ': repeated division of the rest by the strides, less the offset', rd(ex, r.st, out, 0, i) == t)
            c.reach(what, r.st)
        c.collect(ex, what)
        for fn in ('lin', 'lin_c', 'lin_p', 'lin_pc', 'get', 'get_c', 'tup', 'tup_c', 'gett', 'gett_c') + (('par', 'par_c', 'getp', 'getp_c') if nd > 1 else ()):
            ex, st = setup(c, nd); m = make(c, ex, st, nd, 'm'); k = z3.BitVec('k', 32); lin = fn.startswith('lin') or fn in ('get', 'get_c'); idx = words('i', nd); ai = array(ex, st, idx, 'indices')
            pos = k if lin else position(m.s, m.f, idx); what = ('access by position (%s)' if lin else 'access by indices (%s)') % fn; ok = z3.ULT(z3.ZeroExt(32, pos), m.n); checked = fn.startswith('get')
            if not checked: st.assume(ok)
            for r in ex.run_function(st, 'ma_' + fn, [Ptr(m.o, 0), k if lin else Ptr(ai, 0)]):
                s = r.st
                if r.kind == 'ret':
                    ex.oblige(s, what + ': the element at that position of the data', z3.And(z3.BoolVal(r.val.obj == m.b), eq(r.val.off, z3.ZeroExt(32, pos))))
                    if checked: ex.oblige(s, what + ': outside the data is refused', ok)
                else: ex.oblige(s, what + ': refused only outside the data, as out of range', z3.And(z3.Not(ok), z3.BoolVal('out_of_range' in str(getattr(s.exc, 'ti', s.exc)))))
                c.reach('%s %s' % (what, r.kind), s)
            c.collect(ex, what)
        for fn, off in (('ma_off', 'offsets'), ('ma_str', 'strides'), ('ma_n', 'dims')):
            for j in range(nd):
                ex, st = setup(c, nd); m = make(c, ex, st, nd, 'm')
                for r in ex.run_function(st, fn, [Ptr(m.o, 0), j]): ex.oblige(r.st, off + ' accessor: the entry of that dimension', z3.And(z3.BoolVal(r.val.obj == m.o), eq(r.val.off, c.const['ma_off_' + off] + 4 * j)))
                c.collect(ex, off)
    def ops(c, nd, kinds):
        for fn in kinds:
            ex, st = setup(c, nd); what = {'addeq': 'element-wise +=', 'addeq_n': '+= number', 'add': 'element-wise +', 'add_n': '+ number', 'eq': 'comparison'}[fn]; st.assume(z3.ULT(K, 1 << 40))
            m = make(c, ex, st, nd, 'm'); o = make(c, ex, st, nd, 'o'); x = z3.BitVec('x', 8); k = c.const; cnt = z3.ZeroExt(32, m.cnt); st.assume(z3.And(z3.ULE(cnt, m.n), z3.ULE(z3.ZeroExt(32, o.cnt), o.n)))
            a0, b0 = z3.Select(m.arr, K), z3.Select(o.arr, K)
            if fn != 'eq': st.assume(z3.ULE(cnt, o.n))
            res = ex.alloc(st, k['ma_sizeof'], 'cells', 'result'); want = {'addeq': a0 + b0, 'addeq_n': a0 + x, 'add': a0 + b0, 'add_n': a0 + x}.get(fn)
            if want is not None:
                ex.elem_want = [want]; ex.elem_orig = lambda lc, oid: m.arr; elem_hints(ex)
            if fn == 'eq':
                def hint(lc, vars_):
                    out = []
                    for i in [lc.it] + [v for v in lc.vars if v[0] in ('phi', 'cell', 'ghost') and v[2] in (32, 64)]:
                        def at(lc, st, i=i):
                            x = lc.get(st, i); x = z3.ZeroExt(32, x) if z3.is_expr(x) and x.size() == 32 else bv(x, 64)
                            return z3.Implies(z3.ULT(K, x), a0 == b0)
                        out.append(Cand(('same', i), at, False))
                    return out
                ex.hints.append(hint)
            args = ([Ptr(res, 0)] if fn in ('add', 'add_n') else []) + [Ptr(m.o, 0), x if fn.endswith('_n') else Ptr(o.o, 0)]
            if fn == 'eq': args = [Ptr(m.o, 0), Ptr(o.o, 0)]
            for r in ex.run_function(st, 'ma_' + fn, args):
                s = r.st
                if r.kind != 'ret': ex.oblige(s, what + ': does not fail', False); continue
                if fn == 'eq':
                    same = z3.And([p == q for p, q in zip(m.d, o.d)] + [m.cnt == o.cnt]); y = bv(r.val, 1) == 1
                    ex.oblige(s, what + ': equal only with the same sizes and elements', z3.Implies(y, z3.And(same, z3.Implies(z3.ULT(K, cnt), a0 == b0))))
                    q = z3.BitVec('q', 64); ex.oblige(s, what + ': different only if a size or an element differs', z3.Implies(z3.And(same, z3.ForAll([q], z3.Implies(z3.ULT(q, cnt), z3.Select(m.arr, q) == z3.Select(o.arr, q)))), y))
                    c.reach(what, s); continue
                tgt = m.o if fn.startswith('addeq') else res; p, e = read_vec(ex, s, Ptr(tgt, k['ma_off_el']))
                if fn.startswith('addeq'): ex.oblige(s, what + ': the data stays in place', z3.And(z3.BoolVal(p.obj == m.b), eq(sub(e.off, p.off), m.n))); ex.oblige(s, what + ': elements beyond the valid ones are untouched', z3.Implies(z3.And(z3.UGE(K, cnt), z3.ULT(K, m.n)), bv(elem(ex, s, p.obj, K), 8) == a0))
                else: same_layout(ex, s, c, nd, res, m, what); ex.oblige(s, what + ': room for every element', z3.UGE(bv(0 if not p.obj else sub(e.off, p.off), 64), cnt)); ex.oblige(s, what + ': the operand is unchanged', z3.Select(s.mem[m.b].arr, K) == a0)
                if p.obj: ex.oblige(s, what + ': every element is the sum at its position', z3.Implies(z3.ULT(K, cnt), bv(elem(ex, s, p.obj, add(p.off, K)), 8) == want))
                else: ex.oblige(s, what + ': no data only without elements', cnt == 0)
                c.reach(what, s)
            c.collect(ex, what)
    def lemmas(c, nd):
        """over the integers: the contracts above imply that indices and positions correspond one to one"""
        tag = 'lemma (%d dimensions): ' % nd; A, S, q = z3.Ints('A S q')
        grow = lambda lo, hi, plo, phi, st: z3.Implies(hi >= lo + 1, phi >= plo + st)         # instance of the first lemma, for products named plo = lo*st, phi = hi*st
        c.lemma(tag + 'products grow with the factor', [S > 0, q >= A + 1], q * S >= A * S + S)
        I = lambda nm: [z3.Int('%s%d' % (nm, i)) for i in range(nd)]
        d, x, o, s, ds, xs, qq, qs = I('d'), I('x'), I('o'), I('s'), I('ds'), I('xs'), I('q'), I('qs'); N = z3.Int('N'); n = range(nd)
        up = [N] + s[:-1]                                                                      # row major: sizes[i] * strides[i] is the next outer stride
        major = [s[-1] == 1] + [d[i] >= 1 for i in n] + [ds[i] == up[i] for i in n] + [grow(z3.IntVal(0), d[i], z3.IntVal(0), ds[i], s[i]) for i in n]
        c.lemma(tag + 'row-major strides are positive and at most the number of elements', major, z3.And([s[i] >= 1 for i in n] + [s[i] <= N for i in n]))
        def quot(r0):
            """q_i = r_i div s_i, r_{i+1} = r_i - q_i * s_i"""
            out = []; r = r0
            for i in n: out += [qs[i] <= r, r < qs[i] + s[i]]; r = r - qs[i]
            return out, r
        pos = z3.Sum(xs); qf, last = quot(pos); both = [grow(x[i], qq[i], xs[i], qs[i], s[i]) for i in n] + [grow(qq[i], x[i], qs[i], xs[i], s[i]) for i in n] + [z3.Implies(x[i] == qq[i], xs[i] == qs[i]) for i in n]
        inr = [z3.And(0 <= x[i], x[i] < d[i]) for i in n] + [grow(x[i], d[i], xs[i], ds[i], s[i]) for i in n] + [grow(z3.IntVal(-1), x[i], -s[i], xs[i], s[i]) for i in n]
        pos_s = [s[i] >= 1 for i in n]
        c.lemma(tag + 'an in-range index tuple addresses a position below the number of elements', major + pos_s + inr, z3.And(pos >= 0, pos < N))
        c.lemma(tag + 'indices(index(t)) is t, so different tuples address different positions', major + pos_s + inr + qf + both, z3.And([qq[i] == x[i] for i in n]))
        c.vac.append((tag + 'hypotheses', solve.check([zb(t) for t in major + pos_s + inr + qf + both], 4000) != 'unsat'))
        k = z3.Int('k'); qf, last = quot(k)
        rng_ = [grow(d[i] - 1, qq[i], ds[i] - s[i], qs[i], s[i]) for i in n] + [grow(qq[i], z3.IntVal(0), qs[i], z3.IntVal(0), s[i]) for i in n] 
        c.lemma(tag + 'every position below the number of elements has one in-range index tuple', major + pos_s + [0 <= k, k < N] + qf + rng_, z3.And([z3.And(qq[i] >= 0, qq[i] < d[i]) for i in n] + [z3.Sum(qs) == k]))
        # custom layouts: x is offset + index; each stride exceeds what the inner dimensions can add
        qf, last = quot(pos)
        nest = pos_s + [x[i] >= 0 for i in n] + [grow(z3.IntVal(-1), x[i], -s[i], xs[i], s[i]) for i in n] + [z3.Sum([z3.IntVal(0)] + xs[i + 1:]) < s[i] for i in n]
        c.vac.append((tag + 'custom hypotheses', solve.check([zb(t) for t in nest + qf + both], 4000) != 'unsat'))
        c.lemma(tag + 'custom layout: indices(index(t)) is t', nest + qf + both, z3.And([qq[i] - o[i] == x[i] - o[i] for i in n]))
    def machine(c, nd, w):
        """the same statements over machine words, for all sizes that fit: decided by bit-blasting at a reduced word width (bounded cross-check of the lemma chain)"""
        d = [z3.BitVec('d%d' % i, w) for i in range(nd)]; Z = lambda t: z3.ZeroExt(w * (nd - 1), t) if nd > 1 else t
        p = z3.BitVecVal(1, w * nd)
        for t in d: p = p * Z(t)
        pre = [z3.ULT(p, 1 << w)] + [t != 0 for t in d]; s = []
        for i in range(nd):
            q = z3.BitVecVal(1, w)
            for t in d[i + 1:]: q = q * t
            s.append(q)
        f = [z3.BitVecVal(0, w)] * nd; x = [z3.BitVec('x%d' % i, w) for i in range(nd)]; pos = z3.BitVecVal(0, w)
        for a, t in zip(s, x): pos = pos + t * a
        t = tuple_of(pos, s, f)
        c.lemma('one-to-one, %d dimensions at %d bits: indices(index(t)) = t and index(t) < number of elements' % (nd, w), pre + [z3.ULT(a, b) for a, b in zip(x, d)], z3.And([a == b for a, b in zip(t, x)] + [z3.ULT(pos, z3.Extract(w - 1, 0, p))]))
        k = z3.BitVec('k', w); t = tuple_of(k, s, f); pos = z3.BitVecVal(0, w)
        for a, b in zip(s, t): pos = pos + b * a
        c.lemma('one-to-one, %d dimensions at %d bits: index(indices(k)) = k and every index is in range' % (nd, w), pre + [z3.ULT(k, z3.Extract(w - 1, 0, p))], z3.And([pos == k] + [z3.ULT(a, b) for a, b in zip(t, d)]))
    parts = []
    for nd in (1, 2, 3, 4):
        parts += [('constructors %d' % nd, lambda c, nd=nd: ctors(c, nd)), ('access %d' % nd, lambda c, nd=nd: access(c, nd)), ('operators %d' % nd, lambda c, nd=nd: ops(c, nd, ('addeq', 'addeq_n', 'add', 'add_n', 'eq'))), ('lemmas %d' % nd, lambda c, nd=nd: lemmas(c, nd))]
    parts += [('machine %d' % nd, lambda c, nd=nd: machine(c, nd, 6 if nd < 3 else 5 if nd < 4 else 4)) for nd in (1, 2, 3, 4)]
    c.parallel(parts)
def inputs_from(c, o): return []
