"""contracts of the ZeroMQ C API (from its reference manual) and, for callers, of IoBuffer (discharged by C18) and URI (discharged by C05/C06)"""
from irv.prop import *
from irv.spec import *
from irv.lib import *
from irv.ll import IntTy
I32 = IntTy(32); EAGAIN = 11; MAXI = (1 << 31) - 1
class Msg(LibVal):
    """zmq_msg_t: 'empty' | 'own' (data handed over by the caller with a free function) | 'recv' (library-owned content) | 'closed'"""
    size = 64; frozen = True
    def __init__(s, kind, data=None, n=0, ffn=None, hint=None): s.kind, s.data, s.n, s.ffn, s.hint = kind, data, n, ffn, hint
    def key(s): return (s.kind, repr(s.data), str(s.n), repr(s.ffn), repr(s.hint))
    def same(s, o): return isinstance(o, Msg) and s.key() == o.key()
    def check_same_shape(s, o):
        if not s.same(o): raise Unsupported('message content changes in loop')
    def havoc(s, ex, st, lc, loc):
        if s.kind in ('empty', 'closed'): return s
        raise Unsupported('message content changes in loop')
class Buf(LibVal):
    """IoBuffer: an owned byte sequence"""
    size = 40
    def __init__(s, buf): s.buf = buf
    def same(s, o): return isinstance(o, Buf) and s.buf == o.buf
uri_ok = z3.Function('uri_accepts', SEQ, z3.BoolSort())
def raw(st, p):
    c = st.mem[p.obj].cells.get(p.off); return c[1] if c is not None and isinstance(c[1], Msg) else None
def put(ex, st, p, m): setcell(ex, st, p, m)
def free(ex, st, m):
    """the library releases a message content, exactly once"""
    if m.kind == 'recv': st.w(m.data.obj).alive = False
    if m.kind == 'own' and isinstance(m.ffn, FnPtr):
        d = ex.run_function(st.fork(), m.ffn.name, [m.data, m.hint])
        if len(d) != 1 or d[0].kind != 'ret': raise Unsupported('free function of a message')
        s2 = d[0].st
        for k in ('pc', 'mem', 'ghost', 'taint', 'exc', 'trace', 'caught'): setattr(st, k, getattr(s2, k))
        for f, g in zip(st.frames, s2.frames): f.env = g.env
def content(ex, st, m):
    if m.kind in ('own', 'recv'): return ex.bytes_rope(st, m.data, m.n)
    return []
def zmq_lib(c):
    def err(ex, st):
        s2 = st.fork(); e = fresh(32, 'errno'); s2.assume(e != 0); ex.store(s2, Ptr(c.errno, 0), I32, e); s2.ghost['~failed'] = True; s2.ghost['~errno'] = e; return s2
    def need(ex, st, p, what):
        m = raw(st, p)
        ex.oblige(st, 'messages: %s is given an initialised message' % what, m is not None and m.kind != 'closed')
        if m is None or m.kind == 'closed': raise PathEnd()
        return m
    def fresh_ok(ex, st, p):
        m = raw(st, p); ex.oblige(st, 'messages: initialising does not lose a content that was never released', m is None or m.kind in ('empty', 'closed'))
    def init(ex, st, a, ins, nm): fresh_ok(ex, st, a[0]); put(ex, st, a[0], Msg('empty')); return 0
    def init_data(ex, st, a, ins, nm): fresh_ok(ex, st, a[0]); put(ex, st, a[0], Msg('own', a[1], a[2], a[3], a[4])); return 0
    def close(ex, st, a, ins, nm):
        m = raw(st, a[0])
        if m is None: need(ex, st, a[0], 'zmq_msg_close')
        if m.kind == 'closed': return 0xffffffff
        free(ex, st, m); put(ex, st, a[0], Msg('closed')); return 0
    def move(ex, st, a, ins, nm):
        src = need(ex, st, a[1], 'zmq_msg_move'); dst = need(ex, st, a[0], 'zmq_msg_move')
        if a[0].obj == a[1].obj and same(a[0].off, a[1].off): return 0
        free(ex, st, dst)
        if src.kind == 'recv':           # a short content lies inside the message object: its address changes
            o = ex.new_arr(st, src.n, 'frame content'); st.mem[o].arr = st.mem[src.data.obj].arr; st.w(src.data.obj).alive = False; st.w(src.data.obj).name = 'frame content before the message was moved'; src = Msg('recv', Ptr(o, 0), src.n)
        put(ex, st, a[0], src); put(ex, st, a[1], Msg('empty')); return 0
    def data(ex, st, a, ins, nm):
        m = need(ex, st, a[0], 'zmq_msg_data')
        if m.kind == 'empty': return Ptr(ex.new_arr(st, 0, 'empty message'), 0)
        return m.data
    def size(ex, st, a, ins, nm): return need(ex, st, a[0], 'zmq_msg_size').n
    def send(ex, st, a, ins, nm):
        m = need(ex, st, a[0], 'zmq_msg_send'); s2 = err(ex, st); s2.ghost['~failed'] = st.ghost.get('~failed', False) if False else True
        st.ghost['~sent'] = st.ghost.get('~sent', ()) + ((tuple(content(ex, st, m)), a[2]),)
        free(ex, st, m); put(ex, st, a[0], Msg('empty')); n = bv(m.n, 64)
        return Multi([(st, simp(z3.If(z3.UGT(n, MAXI), z3.BitVecVal(MAXI, 32), z3.Extract(31, 0, n)))), (s2, 0xffffffff)])
    def recv(ex, st, a, ins, nm):
        m = need(ex, st, a[0], 'zmq_msg_recv'); s2 = err(ex, st); k = st.ghost['k']
        ex.oblige(st, 'reception: never reads beyond the frames of one message', z3.ULT(bv(k, 64), c.total)); st.assume(z3.ULT(bv(k, 64), c.total))
        free(ex, st, m)
        if is_c(k) and k < len(c.frames): arr, n = c.frames[k]
        else: arr, n = fresh_arr('frame'), fresh(64, 'n'); st.assume(z3.ULT(n, 1 << 56))
        o = ex.new_arr(st, n, 'frame content'); st.mem[o].arr = arr; put(ex, st, a[0], Msg('recv', Ptr(o, 0), n)); st.ghost['k'] = add(k, 1)
        return Multi([(st, simp(z3.If(z3.UGT(bv(n, 64), MAXI), z3.BitVecVal(MAXI, 32), z3.Extract(31, 0, bv(n, 64))))), (s2, 0xffffffff)])
    def getopt(ex, st, a, ins, nm):
        if a[1] != 13: raise Unsupported('zmq_getsockopt option')
        ln = ex.load(st, a[3], I64)
        if not is_c(ln) or ln < 4: ex.oblige(st, 'messages: room for the more flag', False); raise PathEnd()
        s2 = err(ex, st); v = simp(z3.If(z3.ULT(bv(st.ghost['k'], 64), c.total), z3.BitVecVal(1, 8 * ln), z3.BitVecVal(0, 8 * ln))); ex.store(st, a[2], IntTy(8 * ln), v); ex.store(st, a[3], I64, 4)   # flag, remaining bytes zero
        return Multi([(st, 0), (s2, 0xffffffff)])
    T = {'zmq_msg_init': init, 'zmq_msg_init_data': init_data, 'zmq_msg_close': close, 'zmq_msg_move': move, 'zmq_msg_data': data, 'zmq_msg_size': size, 'zmq_msg_send': send, 'zmq_msg_recv': recv, 'zmq_getsockopt': getopt,
         '__errno_location': lambda ex, st, a, ins, nm: Ptr(c.errno, 0)}
    def newbuf(ex, st, p, rope):
        b = ex.new_rope(st, r_norm(rope), 'buffer content'); st.mem[b].meta = 'iobuffer'; setcell(ex, st, p, Buf(b)); return b
    c.newbuf = newbuf
    def bget(ex, st, p): v = cell(st, p, Buf); alive(ex, st, v, 'use'); return v
    def b_default(ex, st, a, ins, nm): newbuf(ex, st, a[0], [])
    def b_copyof(ex, st, a, ins, nm): newbuf(ex, st, a[0], ex.bytes_rope(st, a[1], a[2]))
    def b_cstr(ex, st, a, ins, nm): newbuf(ex, st, a[0], cstr_rope(ex, st, a[1]))
    def b_move(ex, st, a, ins, nm): v = bget(ex, st, a[1]); newbuf(ex, st, a[1], []); setcell(ex, st, a[0], v)
    def b_copy(ex, st, a, ins, nm): v = bget(ex, st, a[1]); newbuf(ex, st, a[0], st.mem[v.buf].rope)
    def b_assign(ex, st, a, ins, nm):
        v = bget(ex, st, a[1]); w = bget(ex, st, a[0])
        if v.buf == w.buf: return a[0]
        st.w(w.buf).alive = False; newbuf(ex, st, a[1], [('s', fresh_arr('moved'), 0, havoc_len(st))]); setcell(ex, st, a[0], v); return a[0]
    def b_cassign(ex, st, a, ins, nm):
        v = bget(ex, st, a[1]); w = bget(ex, st, a[0])
        if v.buf != w.buf: st.w(w.buf).alive = False; newbuf(ex, st, a[0], st.mem[v.buf].rope)
        return a[0]
    def b_dtor(ex, st, a, ins, nm): v = bget(ex, st, a[0]); st.w(v.buf).alive = False; st.w(a[0].obj).cells.pop(a[0].off, None)
    def b_data(ex, st, a, ins, nm): return Ptr(bget(ex, st, a[0]).buf, 0)
    def b_size(ex, st, a, ins, nm):
        o = ex.alloc(st, 8, 'cells', 'buffer size'); ex.store(st, Ptr(o, 0), I64, r_len(st.mem[bget(ex, st, a[0]).buf].rope)); return Ptr(o, 0)
    def b_empty(ex, st, a, ins, nm): return b2i(eq(r_len(st.mem[bget(ex, st, a[0]).buf].rope), 0))
    IB = 'opencmw::IoBuffer::'
    B = {IB + 'IoBuffer()': b_default, IB + 'IoBuffer(char const*, unsigned long, std::pmr::polymorphic_allocator<unsigned char>)': b_copyof, IB + 'IoBuffer(char const*)': b_cstr, IB + 'IoBuffer(opencmw::IoBuffer&&)': b_move, IB + 'IoBuffer(opencmw::IoBuffer const&)': b_copy,
         IB + 'operator=(opencmw::IoBuffer&&)': b_assign, IB + 'operator=(opencmw::IoBuffer const&)': b_cassign, IB + '~IoBuffer()': b_dtor, IB + 'data()': b_data, IB + 'data() const': b_data, IB + 'size() const': b_size, IB + 'empty() const': b_empty,
         'opencmw::Reallocator::defaultReallocator()': lambda ex, st, a, ins, nm: Ptr(c.res, 0)}
    O = lambda p: Ptr(p.obj, add(p.off, c.const['zq_uristr']))
    def u_ctor(ex, st, a, ins, nm):
        rope = r_norm(rope_of(ex, st, a[1])); lit_ = expand(rope); ok = uri_ok(r_term(rope))
        if 'string&&' in nrm(ex.mod.demangled.get(nm, nm)): set_rope(ex, st, a[1], [('o', fresh_seq('moved'), havoc_len(st))])
        if lit_ == [47]: mk(ex, st, O(a[0]), rope); return None      # "/" is a URI (C05)
        s2 = st.fork(); s2.assume(z3.Not(ok)); st.assume(ok); mk(ex, st, O(a[0]), rope)
        return Multi([(st, None), (s2, Throw(Exc('_ZTIN7opencmw18URISyntaxExceptionE')))])
    def u_init(ex, st, a, ins, nm): mk(ex, st, O(a[0]), rope_of(ex, st, O(a[1])))
    def u_assign(ex, st, a, ins, nm):
        if a[0].obj == a[1].obj and same(a[0].off, a[1].off): return a[0]
        r = rope_of(ex, st, O(a[1])); set_rope(ex, st, O(a[0]), r)
        if nrm(ex.mod.demangled.get(nm, nm)).endswith('&&)'): set_rope(ex, st, O(a[1]), [('o', fresh_seq('moved'), havoc_len(st))])
        return a[0]
    def u_dtor(ex, st, a, ins, nm):
        v = cell(st, O(a[0]), Str); st.w(v.buf).alive = False; st.w(a[0].obj).cells.pop(O(a[0]).off, None)
    U = 'opencmw::URI<(opencmw::uri_check)0>'
    V = {U + '::URI(std::string const&)': u_ctor, U + '::URI(std::string&&)': u_ctor, U + '::URI(%s const&&)' % U: u_init, U + '::URI(%s const&)' % U: u_init, U + '::URI(%s&&)' % U: u_init, U + '::operator=(%s const&)' % U: u_assign, U + '::operator=(%s&&)' % U: u_assign, U + '::~URI()': u_dtor}
    def lib(ex, name, dem):
        h = T.get(name)
        if h is not None: h.trust = 'ZeroMQ/C library: ' + name; return h
        d = nrm(dem); h = B.get(d) or V.get(d)
        if h is None: return None
        h.trust = ('IoBuffer contract (discharged by C18): ' if d in B else 'URI contract (discharged by C05, C06): ') + d; return h
    return lib
