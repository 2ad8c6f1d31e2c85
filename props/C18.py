"""IoBuffer: representation invariant, append (put), read (get), growth, ownership.

Representation invariant: either no buffer (capacity 0, size 0), or a live buffer of exactly `capacity` bytes that came from the buffer's own memory resource, size <= capacity.
Memory functions enter by contract (malloc/realloc/free of the C library; an arbitrary memory resource): each buffer is given back once, whole, with its size, to where it came from."""
from irv.prop import *
from irv.spec import *
from irv.lib import *
from irv.ll import IntTy
from seqspec import consts
I8, I32 = IntTy(8), IntTy(32)
NATIVE = [('iobuffer.cpp', ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,alignment,pointer-overflow', '-fno-sanitize-recover=undefined'], [], 'c++23', 'clang++-18')]
ASSUMPTIONS = ['allocation succeeds and sizes stay below 2^40 bytes (2^31 per string or array)', 'little-endian machine', 'string arrays and bool arrays are covered by the bounded native search only', 'a wrapped array that would have to grow ends the process (documented: its allocator refuses); such writes are excluded']
LAYOUT = ['io_sizeof', 'io_off_alloc', 'io_off_buf', 'io_off_pos', 'io_off_size', 'io_off_cap', 'io_sizeof_plain']
K, J = z3.BitVec('any_byte', 64), z3.BitVec('any_element', 64)
LIM = 1 << 40
def origin(st, oid): return st.ghost.get('~origin', {}).get(oid)
def set_origin(st, oid, w): d = dict(st.ghost.get('~origin', {})); d[oid] = w; st.ghost['~origin'] = d
def new_buf(ex, st, n, w, arr=None):
    b = ex.new_arr(st, n, 'buffer'); st.mem[b].heap = True
    set_origin(st, b, w); return b
def release(ex, st, p, w, n=None):
    if p.obj is None: return True
    o = st.mem[p.obj]; org = origin(st, p.obj)
    if org is None: return False
    ex.oblige(st, 'memory-safety: a buffer is released once', o.alive, 'safety'); ex.oblige(st, 'memory-safety: a buffer is given back to the resource it came from', org == w, 'safety')
    ex.oblige(st, 'memory-safety: a buffer is released as a whole', eq(p.off, 0), 'safety')
    if n is not None: ex.oblige(st, 'memory-safety: a buffer is given back with its size', eq(n, o.size), 'safety')
    if not o.alive or org != w: raise X.PathEnd()
    st.w(p.obj).alive = False; return True
def dyn_type(ex, st, p):
    v = ex.load(st, Ptr(p.obj, p.off), PTR)
    if not isinstance(v, Ptr) or v.obj is None: raise Unsupported('dynamic type')
    n = st.mem[v.obj].name; i = n.find('_ZTV')
    if i < 0: raise Unsupported('dynamic type of ' + n)
    return '_ZTI' + n[i + 4:]
def iolib(ex, name, dem):
    d = nrm(dem); h = None
    if name == 'malloc' or name == 'plain_alloc':
        def h(ex, st, a, ins, nm): return Ptr(new_buf(ex, st, a[0], name), 0)
    elif name == 'free':
        def h(ex, st, a, ins, nm):
            if not release(ex, st, a[0], 'malloc'): raise Unsupported('free of other memory')
    elif name == 'plain_free':
        def h(ex, st, a, ins, nm):
            if not release(ex, st, a[0], 'plain_alloc', a[1]): raise Unsupported('release of other memory')
    elif name == 'realloc':
        def h(ex, st, a, ins, nm):
            p, n = a
            if p.obj is None: return Ptr(new_buf(ex, st, n, 'malloc'), 0)
            o = st.mem[p.obj]
            if not release(ex, st, p, 'malloc'): raise Unsupported('realloc of other memory')
            b = new_buf(ex, st, n, 'malloc'); na = st.mem[b].arr; k = z3.BitVec('rk!%d' % uid(), 64)
            st.define(z3.ForAll([k], z3.Implies(z3.And(z3.ULT(k, bv(n, 64)), z3.ULT(k, bv(o.size, 64))), z3.Select(na, k) == z3.Select(o.arr, k)), patterns=[z3.Select(na, k)])); return Ptr(b, 0)
    elif name == '__dynamic_cast':
        def h(ex, st, a, ins, nm):
            if a[0].obj is None: return NULL
            return a[0] if ex.exc_matches(dyn_type(ex, st, a[0]), st.mem[a[2].obj].name.lstrip('@')) else NULL
    elif d == 'std::pmr::get_default_resource()':
        def h(ex, st, a, ins, nm): return st.ghost['~plain']
    elif d == 'std::pmr::memory_resource::~memory_resource()' or name in ('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit'):
        def h(ex, st, a, ins, nm): return 0
    elif name == '__cxa_guard_acquire':
        def h(ex, st, a, ins, nm):
            g = st.ghost.get('~guards', ())
            if a[0].obj in g: return 0
            st.ghost['~guards'] = g + (a[0].obj,); return 1
    elif d == 'std::format' or d.startswith('std::string std::format<') or d.startswith('std::format<'):
        def h(ex, st, a, ins, nm): mk(ex, st, a[0], [('s', fresh_arr('text'), 0, havoc_len(st))])     # the text of a message is not specified
    if h is None: return None
    h.trust = name if len(name) < 30 else d; return h
class Buf: pass
class W:
    """executor, state and resources"""
    def __init__(w, c, tag=''):
        w.c = c; m = c.module('iobuffer.cpp'); consts(c, m, LAYOUT); w.ex = ex = c.executor(m, [iolib], budget=240); st = X.State(); w.k = c.const
        pl = ex.alloc(st, w.k['io_sizeof_plain'], 'cells', 'plain resource'); d = ex.run_function(st, 'io_plain', [Ptr(pl, 0)]); st = d[0].st; st.ghost['~plain'] = Ptr(pl, 0); w.plain = Ptr(pl, 0)
        d = ex.run_function(st, 'io_realloc', []); st = d[0].st; w.realloc = d[0].val
        d = ex.run_function(st, 'io_throwing', []); st = d[0].st; w.throwing = d[0].val
        ex.obl = []; w.st = st; st.assume(z3.And(z3.ULT(K, LIM), z3.ULT(J, LIM)))
    def res(w, kind): return {'malloc': w.realloc, 'plain_alloc': w.plain, 'foreign': w.throwing}[kind]
    def make(w, st, kind, nm, null=False):
        """an arbitrary buffer in a legal state"""
        ex, k = w.ex, w.k; r = Buf(); r.o = ex.alloc(st, k['io_sizeof'], 'cells', nm); r.kind = kind; r.null = null
        if null: r.cap = r.size = r.pos = z3.BitVecVal(0, 64); r.b, r.arr = None, z3.K(BV64, z3.BitVecVal(0, 8)); p = NULL
        else:
            r.cap, r.size, r.pos = z3.BitVecs('%s_cap %s_size %s_pos' % (nm, nm, nm), 64); st.assume(z3.And(z3.ULT(r.cap, LIM), r.cap != 0, z3.ULE(r.size, r.cap), z3.ULE(r.pos, r.size)))
            if kind == 'foreign': st.assume(r.cap == r.size)
            r.b = new_buf(ex, st, r.cap, kind); r.arr = st.mem[r.b].arr; p = Ptr(r.b, 0)
        ex.store(st, Ptr(r.o, k['io_off_alloc']), PTR, w.res(kind)); ex.store(st, Ptr(r.o, k['io_off_buf']), PTR, p)
        for f, v in (('pos', r.pos), ('size', r.size), ('cap', r.cap)): ex.store(st, Ptr(r.o, k['io_off_' + f]), I64, v)
        return r
    def read(w, s, o):
        ex, k = w.ex, w.k; r = Buf(); r.o = o; r.p = ex.load(s, Ptr(o, k['io_off_buf']), PTR); r.res = ex.load(s, Ptr(o, k['io_off_alloc']), PTR)
        r.pos, r.size, r.cap = [bv(ex.load(s, Ptr(o, k['io_off_' + f]), I64), 64) for f in ('pos', 'size', 'cap')]; r.arr = None if r.p.obj is None else s.mem[r.p.obj].arr
        return r
    def legal(w, s, o, what, kinds=('malloc', 'plain_alloc')):
        """the representation invariant holds"""
        ex = w.ex; r = w.read(s, o)
        if r.p.obj is None: ex.oblige(s, what + ': without a buffer there is no content', z3.And(r.cap == 0, r.size == 0)); return r
        ob = s.mem[r.p.obj]; org = origin(s, r.p.obj)
        ex.oblige(s, what + ': the buffer is live and starts at its memory', z3.And(z3.BoolVal(bool(ob.alive)), zb(eq(r.p.off, 0)))); ex.oblige(s, what + ': the capacity is that of the memory', eq(r.cap, ob.size)); ex.oblige(s, what + ': the content fits the capacity', z3.ULE(r.size, r.cap))
        ex.oblige(s, what + ': the buffer belongs to its own memory resource', z3.BoolVal(org in kinds and r.res.obj == w.res(org).obj))
        return r
    def byte(w, r, i): return z3.Select(r.arr, bv(i, 64)) if r.arr is not None else z3.BitVecVal(0, 8)
def le(v, n): return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]
def kept(w, s, r0, r1, what, upto=None):
    w.ex.oblige(s, what + ': earlier content is unchanged', z3.Implies(z3.ULT(K, r0.size if upto is None else upto), w.byte(r1, K) == z3.Select(r0.arr, K)))
NUMS = [('u8', 1), ('i8', 1), ('i16', 2), ('i32', 4), ('i64', 8), ('f32', 4), ('f64', 8), ('bool', 1), ('char', 1)]
FPS = {'f32': 32, 'f64': 64}
STATES = [('malloc', False), ('malloc', True), ('plain_alloc', False), ('plain_alloc', True)]
def word(w, r, at, n): return z3.Concat(*[w.byte(r, at + i) for i in reversed(range(n))]) if n > 1 else w.byte(r, at)
def header(w, st, r):
    """any content whose next four bytes are a non-negative 32-bit number -> that number"""
    x = z3.Extract(30, 0, z3.BitVec('length', 64)); h = z3.Concat(z3.BitVecVal(0, 1), x); a = r.arr
    for i in range(4): a = z3.Store(a, r.pos + i, z3.Extract(8 * i + 7, 8 * i, h))
    r.arr = st.w(r.b).arr = z3.simplify(a); return z3.simplify(z3.ZeroExt(33, x))
def arg(v, nm): return FP(FPS[nm], v) if nm in FPS else v
def prove(c):
    parts = []
    def run(w, fn, args): return w.ex.run_function(w.st, fn, args)
    def puts(c, kind, null):
        for nm, n in NUMS:
            what = 'put %s' % nm; w = W(c); r0 = w.make(w.st, kind, 'b', null); v = z3.BitVec('v', 8 * n if nm != 'bool' else 1)
            for d in run(w, 'io_put_' + nm, [Ptr(r0.o, 0), arg(v, nm)]):
                s = d.st; w.ex.oblige(s, what + ': does not fail', d.kind == 'ret'); r1 = w.legal(s, r0.o, what); vv = v if nm != 'bool' else z3.ZeroExt(7, v)
                w.ex.oblige(s, what + ': the content grows by the size of the value and the read position stays', z3.And(r1.size == r0.size + n, r1.pos == r0.pos)); kept(w, s, r0, r1, what)
                w.ex.oblige(s, what + ': the value is appended', z3.And([w.byte(r1, r0.size + i) == x for i, x in enumerate(le(vv, n))])); c.reach(what, s)
            c.collect(w.ex, what)
    def put_strings(c, kind, null):
        for fn in ('put_sv', 'put_str', 'put_raw'):
            what = {'put_sv': 'put text view', 'put_str': 'put string', 'put_raw': 'put raw text'}[fn]; w = W(c); ex = w.ex; st = w.st; r0 = w.make(st, kind, 'b', null); n = z3.BitVec('n', 64); st.assume(z3.ULT(n, (1 << 31) - 1)); src = ex.new_arr(st, n, 'text'); sa = st.mem[src].arr
            if fn == 'put_str': o = ex.alloc(st, 32, 'cells', 'string'); mk(ex, st, Ptr(o, 0), [('s', sa, 0, n)]); args = [Ptr(o, 0)]
            else: args = [Ptr(src, 0), n]
            for d in run(w, 'io_' + fn, [Ptr(r0.o, 0)] + args):
                s = d.st; ex.oblige(s, what + ': does not fail', d.kind == 'ret'); r1 = w.legal(s, r0.o, what); h = 0 if fn == 'put_raw' else 4; kept(w, s, r0, r1, what)
                ex.oblige(s, what + ': the content grows by the encoded size and the read position stays', z3.And(r1.size == r0.size + n + (h + 1 if h else 0), r1.pos == r0.pos))
                if h: ex.oblige(s, what + ': length with terminator first', word(w, r1, r0.size, 4) == z3.Extract(31, 0, n + 1)); ex.oblige(s, what + ': zero byte last', w.byte(r1, r0.size + 4 + n) == 0)
                ex.oblige(s, what + ': the characters follow', z3.Implies(z3.ULT(J, n), w.byte(r1, r0.size + h + J) == z3.Select(sa, J))); c.reach(what, s)
            c.collect(ex, what)
    def put_arrays(c, kind, null):
        for nm, n in (('i8', 1), ('i16', 2), ('i32', 4), ('i64', 8), ('f32', 4), ('f64', 8)):
            for fn in ('puta', 'putv'):
                what = 'put array of %s' % nm; w = W(c); ex, st = w.ex, w.st; r0 = w.make(st, kind, 'b', null); cnt = z3.BitVec('n', 64); st.assume(z3.ULT(cnt, 1 << 31)); src = ex.new_arr(st, cnt * n, 'values'); sa = st.mem[src].arr
                if fn == 'putv':
                    v = ex.alloc(st, 24, 'cells', 'vector')
                    for i, x in enumerate((0, cnt * n, cnt * n)): ex.store(st, Ptr(v, 8 * i), PTR, Ptr(src, x))
                    args = [Ptr(v, 0)]
                else: args = [Ptr(src, 0), cnt]
                for d in run(w, 'io_%s_%s' % (fn, nm), [Ptr(r0.o, 0)] + args):
                    s = d.st; ex.oblige(s, what + ': does not fail', d.kind == 'ret'); r1 = w.legal(s, r0.o, what); kept(w, s, r0, r1, what)
                    ex.oblige(s, what + ': the content grows by the encoded size and the read position stays', z3.And(r1.size == r0.size + 4 + cnt * n, r1.pos == r0.pos)); ex.oblige(s, what + ': the count first', word(w, r1, r0.size, 4) == z3.Extract(31, 0, cnt))
                    ex.oblige(s, what + ': the bytes of the values follow', z3.Implies(z3.ULT(J, cnt * n), w.byte(r1, r0.size + 4 + J) == z3.Select(sa, J))); c.reach(what, s)
                c.collect(ex, what)
    def same(w, s, r0, what, pos):
        r1 = w.legal(s, r0.o, what, ('malloc', 'plain_alloc', 'foreign')); w.ex.oblige(s, what + ': only the read position changes', z3.And(z3.BoolVal(r1.p.obj == r0.b), r1.size == r0.size, r1.cap == r0.cap)); w.ex.oblige(s, what + ': the read position advances by what was read', r1.pos == pos)
        kept(w, s, r0, r1, what); return r1
    def gets(c, kind):
        for nm, n in NUMS:
            what = 'get %s' % nm; w = W(c); r0 = w.make(w.st, kind, 'b'); w.st.assume(z3.ULE(n, r0.size - r0.pos)); ex = w.ex
            if nm == 'bool': w.st.assume(z3.ULE(z3.Select(r0.arr, r0.pos), 1))
            for d in run(w, 'io_get_' + nm, [Ptr(r0.o, 0)]):
                s = d.st; ex.oblige(s, what + ': does not fail', d.kind == 'ret'); same(w, s, r0, what, r0.pos + n); v = d.val.b if isinstance(d.val, FP) else bv(d.val, 8 * n if nm != 'bool' else 1)
                ex.oblige(s, what + ': the value at the read position', (v if nm != 'bool' else z3.ZeroExt(7, v)) == word(w, r0, r0.pos, n)); c.reach(what, s)
            c.collect(ex, what)
        for fn in ('get_str', 'get_sv'):
            what = {'get_str': 'get string', 'get_sv': 'get text view'}[fn]; w = W(c); ex, st = w.ex, w.st; r0 = w.make(st, kind, 'b'); st.assume(z3.ULE(4, r0.size - r0.pos)); l64 = header(w, st, r0); st.assume(z3.And(l64 != 0, z3.ULE(l64, r0.size - r0.pos - 4))); out = ex.alloc(st, 32, 'cells', 'result')
            for d in run(w, 'io_' + fn, [Ptr(out, 0), Ptr(r0.o, 0)]):
                s = d.st; ex.oblige(s, what + ': does not fail', d.kind == 'ret'); same(w, s, r0, what, r0.pos + 4 + l64)
                rope = rope_of(ex, s, Ptr(out, 0)) if fn == 'get_str' else ex.bytes_rope(s, ex.load(s, Ptr(out, 8), PTR), ex.load(s, Ptr(out, 0), I64))
                ex.oblige(s, what + ': the length without the terminator', eq(r_len(rope), l64 - 1)); ex.oblige(s, what + ': the characters after the length', z3.Implies(z3.ULT(J, l64 - 1), bv(r_read(rope, J), 8) == w.byte(r0, r0.pos + 4 + J))); c.reach(what, s)
            c.collect(ex, what)
    def get_arrays(c, kind):
        for nm, n in (('i8', 1), ('i16', 2), ('i32', 4), ('i64', 8), ('f32', 4), ('f64', 8)):
            what = 'get array of %s' % nm; w = W(c); ex, st = w.ex, w.st; r0 = w.make(st, kind, 'b'); st.assume(z3.ULE(4, r0.size - r0.pos)); cnt = header(w, st, r0); st.assume(z3.ULE(cnt * n, r0.size - r0.pos - 4))
            req = z3.BitVec('requested', 64); got = z3.If(z3.ULT(req, cnt), req, cnt); v = ex.alloc(st, 24, 'cells', 'vector')
            for i in range(3): ex.store(st, Ptr(v, 8 * i), PTR, NULL)
            for d in run(w, 'io_getv_' + nm, [Ptr(v, 0), Ptr(r0.o, 0), req]):
                s = d.st; ex.oblige(s, what + ': does not fail', d.kind == 'ret'); same(w, s, r0, what, r0.pos + 4 + got * n)
                p, e = ex.load(s, Ptr(v, 0), PTR), ex.load(s, Ptr(v, 8), PTR); ln = 0 if p.obj is None else sub(e.off, p.off)
                ex.oblige(s, what + ': as many values as stored, at most the requested number', eq(ln, got * n))
                if p.obj is not None: ex.oblige(s, what + ': the bytes of the stored values', z3.Implies(z3.ULT(J, got * n), elem(ex, s, p.obj, add(p.off, J)) == w.byte(r0, r0.pos + 4 + J)))
                c.reach(what, s)
            c.collect(ex, what)
    def checked(c, kind, null):
        w = W(c); ex = w.ex; r0 = w.make(w.st, kind, 'b', null); n = z3.BitVec('n', 32); what = 'skip'; to = r0.pos + z3.SignExt(32, n); ok = z3.ULE(to, r0.size)
        for d in run(w, 'io_skip', [Ptr(r0.o, 0), n]):
            s = d.st
            if d.kind == 'ret': same(w, s, r0, what, to); ex.oblige(s, what + ': leaves the content only by an error', ok)
            else: refused(ex, s, what, ok); same(w, s, r0, what, r0.pos)
            c.reach('%s %s' % (what, d.kind), s)
        c.collect(ex, what); what = 'text view of the content'
        for full in (False, True):
            w = W(c); ex = w.ex; r0 = w.make(w.st, kind, 'b', null); i = z3.BitVec('index', 64); n = z3.BitVec('n', 32); w.st.assume(n < 0 if full else n >= 0); out = ex.alloc(w.st, 16, 'cells', 'view'); ok = z3.And(z3.ULE(i, r0.size), z3.BoolVal(True) if full else z3.ULE(z3.ZeroExt(32, n), r0.size - i))
            for d in run(w, 'io_asstr', [Ptr(out, 0), Ptr(r0.o, 0), i, n]):
                s = d.st; same(w, s, r0, what, r0.pos)
                if d.kind == 'ret':
                    p, ln = ex.load(s, Ptr(out, 8), PTR), bv(ex.load(s, Ptr(out, 0), I64), 64); ex.oblige(s, what + ': given only inside the content', ok); ex.oblige(s, what + ': the requested part', z3.And(z3.BoolVal(p.obj == r0.b), ln == (r0.size - i if full else z3.ZeroExt(32, n)), z3.BoolVal(True) if r0.b is None else zb(eq(p.off, i))))
                else: refused(ex, s, what, ok)
                c.reach('%s %s' % (what, d.kind), s)
            c.collect(ex, what)
        for nm, n in (('u8', 1), ('i16', 2), ('i32', 4), ('i64', 8), ('f64', 8)):
            what = 'checked access as %s' % nm; w = W(c); ex = w.ex; r0 = w.make(w.st, kind, 'b', null); i = z3.BitVec('index', 64); ok = z3.And(z3.ULT(i, r0.size), z3.ULE(n, r0.size - i))
            for d in run(w, 'io_at_' + nm, [Ptr(r0.o, 0), i]):
                s = d.st; same(w, s, r0, what, r0.pos)
                if d.kind == 'ret': ex.oblige(s, what + ': given only if the value lies inside the content', ok); ex.oblige(s, what + ': the value at that index', z3.And(z3.BoolVal(d.val.obj == r0.b), zb(eq(d.val.off, i))))
                else: refused(ex, s, what, ok)
                c.reach('%s %s' % (what, d.kind), s)
            c.collect(ex, what)
    def refused(ex, s, what, ok): ex.oblige(s, what + ': refused only outside the content', z3.Not(ok)); ex.oblige(s, what + ': refused as out of range', z3.BoolVal('out_of_range' in str(getattr(s.exc, 'ti', s.exc))))
    def sizes(c, kind, null):
        n = z3.BitVec('n', 64); zero = z3.BitVecVal(0, 64)
        for fn, what, args, want in (('reserve', 'reserve', [n], lambda r: (r.size, r.pos)), ('reserve_spare', 'reserve more', [n], lambda r: (r.size, r.pos)), ('resize', 'resize', [n], lambda r: (n, r.pos)), ('shrink', 'shrink to fit', [], lambda r: (r.size, r.pos)), ('clear', 'clear', [], lambda r: (zero, zero)), ('reset', 'rewind', [], lambda r: (r.size, zero)), ('setpos', 'set read position', [n], lambda r: (r.size, n))):
            w = W(c); ex = w.ex; w.st.assume(z3.ULT(n, LIM)); r0 = w.make(w.st, kind, 'b', null)
            for d in run(w, 'io_' + fn, [Ptr(r0.o, 0)] + args):
                s = d.st; ex.oblige(s, what + ': does not fail', d.kind == 'ret'); r1 = w.legal(s, r0.o, what); sz, pos = want(r0); ex.oblige(s, what + ': size and read position', z3.And(r1.size == sz, r1.pos == pos)); kept(w, s, r0, r1, what, z3.If(z3.ULT(r0.size, sz), r0.size, sz) if fn != 'clear' else zero)
                if fn in ('reserve', 'reserve_spare'): ex.oblige(s, what + ': enough capacity afterwards', z3.UGE(r1.cap, n if fn == 'reserve' else r0.size + n))
                if fn == 'shrink': ex.oblige(s, what + ': no spare capacity', r1.cap == r1.size)
                c.reach(what, s)
            c.collect(ex, what)
        for fn, f in (('getpos', 'pos'), ('getsize', 'size'), ('getcap', 'cap')):
            w = W(c); r0 = w.make(w.st, kind, 'b', null)
            for d in run(w, 'io_' + fn, [Ptr(r0.o, 0)]): w.ex.oblige(d.st, fn + ': reports the field', bv(d.val, 64) == getattr(r0, f))
            c.collect(w.ex, fn)
        w = W(c); r0 = w.make(w.st, kind, 'b', null)
        for d in run(w, 'io_empty', [Ptr(r0.o, 0)]): w.ex.oblige(d.st, 'empty: exactly without content', (bv(d.val, 1) == 1) == (r0.size == 0))
        c.collect(w.ex, 'empty')
        if null: return
        w = W(c); r0 = w.make(w.st, kind, 'b', null); i = z3.BitVec('i', 64); w.st.assume(z3.ULT(i, r0.size))
        for d in run(w, 'io_elem', [Ptr(r0.o, 0), i]): w.ex.oblige(d.st, 'indexing: the byte of the content', z3.And(z3.BoolVal(d.val.obj == r0.b), zb(eq(d.val.off, i))))
        for d in run(w, 'io_data', [Ptr(r0.o, 0)]): w.ex.oblige(d.st, 'data: the start of the content', z3.And(z3.BoolVal(d.val.obj == r0.b), zb(eq(d.val.off, 0))))
        c.collect(w.ex, 'data')
    def equal(w, s, r0, r1, what): w.ex.oblige(s, what + ': size and read position are taken over', z3.And(r1.size == r0.size, r1.pos == r0.pos)); w.ex.oblige(s, what + ': the content is taken over', z3.Implies(z3.ULT(K, r0.size), w.byte(r1, K) == z3.Select(r0.arr, K)))
    def ctors(c):
        n = z3.BitVec('n', 64)
        for fn in ('ctor', 'ctor_a', 'ctor_0', 'ctor_data', 'ctor_wrap'):
            what = {'ctor': 'construct with capacity', 'ctor_a': 'construct with capacity and resource', 'ctor_0': 'construct empty', 'ctor_data': 'construct from data', 'ctor_wrap': 'wrap data'}[fn]; w = W(c); ex, st = w.ex, w.st; st.assume(z3.ULT(n, LIM)); o = ex.alloc(st, w.k['io_sizeof'], 'cells', 'result')
            src = new_buf(ex, st, n, 'foreign'); sa = st.mem[src].arr; args = {'ctor': [n], 'ctor_a': [n, w.plain], 'ctor_0': [], 'ctor_data': [Ptr(src, 0), n], 'ctor_wrap': [Ptr(src, 0), n]}[fn]
            for d in run(w, 'io_' + fn, [Ptr(o, 0)] + args):
                s = d.st; ex.oblige(s, what + ': does not fail', d.kind == 'ret'); r1 = w.legal(s, o, what, {'ctor_a': ('plain_alloc',), 'ctor_wrap': ('foreign',)}.get(fn, ('malloc',)))
                full = fn in ('ctor_data', 'ctor_wrap'); ex.oblige(s, what + ': size', r1.size == (n if full else 0)); ex.oblige(s, what + ': reading starts at the beginning', r1.pos == 0); ex.oblige(s, what + ': capacity', r1.cap == (0 if fn == 'ctor_0' else n))
                if full: ex.oblige(s, what + ': the content is the data', z3.Implies(z3.ULT(K, n), w.byte(r1, K) == z3.Select(sa, K)))
                if fn == 'ctor_wrap': ex.oblige(s, what + ': the data itself is used', z3.BoolVal(r1.p.obj == src))
                c.reach(what, s)
                for e in ex.run_function(s, 'io_dtor', [Ptr(o, 0)]): ex.oblige(e.st, what + ', then destroy: ' + ('the data stays' if fn == 'ctor_wrap' else 'the buffer is released'), z3.BoolVal(r1.p.obj is None or bool(e.st.mem[r1.p.obj].alive) == (fn == 'ctor_wrap')))
            c.collect(ex, what)
    def life(c, kind, null):
        what = 'destroy'; w = W(c); ex = w.ex; r0 = w.make(w.st, kind, 'b', null); wrapped = kind == 'foreign'
        for d in run(w, 'io_dtor', [Ptr(r0.o, 0)]): ex.oblige(d.st, what + (': wrapped data stays' if wrapped else ': the buffer is released'), z3.BoolVal(null or bool(d.st.mem[r0.b].alive) == wrapped)); c.reach(what, d.st)
        c.collect(ex, what)
        for fn, what in (('copy', 'copy construct'), ('move', 'move construct')):
            w = W(c); ex = w.ex; r0 = w.make(w.st, kind, 'b', null); o = ex.alloc(w.st, w.k['io_sizeof'], 'cells', 'result')
            for d in run(w, 'io_' + fn, [Ptr(o, 0), Ptr(r0.o, 0)]):
                s = d.st; ex.oblige(s, what + ': does not fail', d.kind == 'ret'); r1 = w.legal(s, o, what, ('malloc', 'plain_alloc', 'foreign') if fn == 'move' else ('malloc', 'plain_alloc')); src = w.legal(s, r0.o, what + ', source', ('malloc', 'plain_alloc', 'foreign')); equal(w, s, r0, r1, what)
                if fn == 'copy': same(w, s, r0, what + ', source', r0.pos); ex.oblige(s, what + ': the copy has its own memory', z3.BoolVal(r1.p.obj is None or r1.p.obj != src.p.obj))
                else: ex.oblige(s, what + ', source: left empty', z3.And(src.size == 0, src.pos == 0, z3.BoolVal(src.p.obj is None)))
                c.reach(what, s)
            c.collect(ex, what)
    def pair(c, a, b):
        for fn, what in (('assign', 'copy assign'), ('massign', 'move assign'), ('swap', 'swap')):
            w = W(c); ex = w.ex; ra = w.make(w.st, a[0], 'a', a[1]); rb = w.make(w.st, b[0], 'b', b[1])
            for d in run(w, 'io_' + fn, [Ptr(ra.o, 0), Ptr(rb.o, 0)]):
                s = d.st; ex.oblige(s, what + ': does not fail', d.kind == 'ret'); ALL = ('malloc', 'plain_alloc', 'foreign'); qa = w.legal(s, ra.o, what, ALL); qb = w.legal(s, rb.o, what + ', source', ALL); equal(w, s, rb, qa, what)
                if fn == 'assign': same(w, s, rb, what + ', source', rb.pos)
                if fn == 'massign': ex.oblige(s, what + ', source: left empty', z3.And(qb.size == 0, z3.BoolVal(qb.p.obj is None)))
                if fn == 'swap': equal(w, s, ra, qb, what + ', other')
                else: ex.oblige(s, what + ': the previous buffer is released', z3.BoolVal(a[1] or a[0] == 'foreign' or not s.mem[ra.b].alive))
                ex.oblige(s, what + ': no memory is shared', z3.BoolVal(qa.p.obj is None or qa.p.obj != qb.p.obj)); c.reach(what, s)
            c.collect(ex, what)
        if a == b:
            for fn, what in (('assign', 'copy assign to itself'), ('massign', 'move assign to itself')):
                w = W(c); ex = w.ex; ra = w.make(w.st, a[0], 'a', a[1])
                for d in run(w, 'io_' + fn, [Ptr(ra.o, 0), Ptr(ra.o, 0)]): qa = w.legal(d.st, ra.o, what, ('malloc', 'plain_alloc', 'foreign')); equal(w, d.st, ra, qa, what)
                c.collect(ex, what)
    for k, z in STATES:
        t = '%s%s' % (k, ' (no buffer yet)' if z else '')
        for nm, f in (('put', puts), ('put text', put_strings), ('put array', put_arrays), ('sizes', sizes), ('lifetime', life)): parts.append(('%s, %s' % (nm, t), lambda c, f=f, k=k, z=z: f(c, k, z)))
    parts.append(('lifetime, wrapped', lambda c: life(c, 'foreign', False)))
    for k, z in (('malloc', False), ('malloc', True), ('foreign', False)): parts.append(('checked access, %s %s' % (k, z), lambda c, k=k, z=z: checked(c, k, z)))
    for k in ('malloc', 'foreign'): parts += [('get, ' + k, lambda c, k=k: gets(c, k)), ('get array, ' + k, lambda c, k=k: get_arrays(c, k))]
    parts.append(('constructors', ctors))
    PS = STATES[:3] + [('foreign', False)]
    for a in PS:
        for b in PS: parts.append(('assign %s' % (a + b,), lambda c, a=a, b=b: pair(c, a, b)))
    c.parallel(parts)
def elem(ex, st, oid, off):
    o = st.mem[oid]
    if o.kind == 'arr': return z3.Select(o.arr, bv(off, 64))
    if o.kind == 'rope': return bv(r_read(o.rope, off), 8)
    raise Unsupported('elements in %s memory' % o.kind)
def inputs_from(c, o): return []
