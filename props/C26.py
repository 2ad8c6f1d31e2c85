"""MDP messages on the wire: zmq::send, zmq::receive and MessageFrame (ZmqUtils.hpp) against the ZeroMQ API contract"""
from mdpspec import *
from seqspec import consts
NATIVE = [('mdp.cpp', ['-fsanitize=address', '-DNDEBUG'], [], 'c++23', 'clang++-18')]
ASSUMPTIONS = ['the ZeroMQ functions behave as their reference manual says (the library is not installed; they are declared by stubs/zmq.h): one multi-part message is delivered frame by frame, each content is released exactly once after it was sent or closed, the address of a received content may change when its message is moved',
               'release build: assertions are off (with assertions a send error other than EAGAIN stops the program)', 'allocation succeeds; frames shorter than 2^56 bytes', 'the command of a message to be sent is one of the declared commands']
FIELDS = [('protocolName', 's', 0), ('command', 'c', 1), ('serviceName', 's', 2), ('clientRequestID', 'b', 3), ('topic', 'u', 4), ('data', 'b', 5), ('error', 's', 6), ('rbac', 'b', 7)]
DEFS = ('-DNDEBUG',)
def setup(c, size):
    m = c.module('mdp.cpp', DEFS); names = ['zq_off%d_%s' % (size, f) for f in ['sourceId'] + [f for f, _, _ in FIELDS]] + ['zq_size%d' % size, 'zq_opt%d' % size, 'zq_frame', 'zq_msg', 'zq_uri', 'zq_uristr', 'zq_buf']
    consts(c, m, names)
    if c.const['zq_buf'] != 40: Buf.size = c.const['zq_buf']
    ex = c.executor(m, [zmq_lib(c)], budget=60); st = X.State(); c.errno = ex.alloc(st, 8, 'cells', 'errno'); c.res = ex.alloc(st, 8, 'cells', 'memory resource'); ex.store(st, Ptr(c.errno, 0), I32, fresh(32, 'errno0'))
    sock = ex.alloc(st, 8, 'cells', 'socket'); h = ex.alloc(st, 8, 'cells', 'zmq socket'); ex.store(st, Ptr(sock, 0), PTR, Ptr(h, 0)); c.total = z3.BitVec('frames_in_message', 64); c.frames = []
    ex.peel = lambda f: 11 if 'opencmw::zmq::' in f and 'sendFrame' not in f else 0
    def hint(lc, vars_): return [Cand(('more',), lambda lc, t: z3.ULT(bv(t.ghost['k'], 64), c.total), False)]
    ex.hints.append(hint)
    return m, ex, st, sock
def leaks(ex, s, what, before, keep=()):
    heap = [o for o in s.mem if o not in before and s.mem[o].heap and s.mem[o].alive]; bufs = [o for o in s.mem if s.mem[o].meta == 'iobuffer' and s.mem[o].alive and o not in keep]
    ex.oblige(s, what + ': all memory is released', not heap and not bufs)
def prove(c):
    def send(c, size, cmd):
        m, ex, st, sock = setup(c, size); what = 'sending (%d frames)' % size; k = c.const; off = lambda f: k['zq_off%d_%s' % (size, f)]; first = size - 8
        msg = ex.alloc(st, k['zq_size%d' % size], 'cells', 'message'); want = {}
        for i in range(0, k['zq_size%d' % size], 8): ex.store(st, Ptr(msg, i), I64, fresh(64, 'junk'))
        def text(f): n = z3.BitVec('n_' + f, 64); st.assume(z3.ULT(n, 1 << 56)); return [('s', z3.Const('text_' + f, ARR), 0, n)]
        if size == 9: want[0] = text('sourceId'); mk(ex, st, Ptr(msg, off('sourceId')), want[0])
        for f, t, i in FIELDS:
            r = want[i + first] = text(f) if t != 'c' else None; p = Ptr(msg, off(f))
            if t == 's': mk(ex, st, p, r)
            elif t == 'b': c.newbuf(ex, st, p, r)
            elif t == 'u': mk(ex, st, Ptr(msg, off(f) + k['zq_uristr']), r)
            else:
                ex.store(st, p, I8, cmd); want[i + first] = [('c', cmd)]
        c.reach(what + ' precondition', st); before = set(st.mem); own = [(f, cell(st, Ptr(msg, off(f)), Buf).buf) for f, t, _ in FIELDS if t == 'b']
        for d in ex.run_function(st, 'zq_send%d' % size, [Ptr(msg, 0), Ptr(sock, 0)]):
            s = d.st; ex.oblige(s, what + ': raises no exception', d.kind == 'ret')
            if d.kind != 'ret': continue
            sent = s.ghost.get('~sent', ()); good = eq(d.val, 0, 32); ok = len(sent) == size
            ex.oblige(s, what + ': reports success exactly if every frame was accepted', Not(good) if ok else good)
            ex.oblige(s, what + ': sends at most the frames of the message', len(sent) <= size)
            for i, (r, fl) in enumerate(sent[:size]):
                ex.oblige(s, what + ': all frames but the last are marked as continued', eq(simp(z3.Extract(1, 1, bv(fl, 32))), 1 if i + 1 < size else 0, 1)); r = list(r); w = want[i]
                ex.oblige(s, what + ': each frame has the length of its field', eq(r_len(r), r_len(w))); ex.oblige(s, what + ': each frame carries its field, in protocol order', r_eq(r, w) if i != first + 1 else And(eq(r_len(r), 1), eq(r_read(r, 0), w[0][1], 8)))
            if not ok: ex.oblige(s, what + ': gives up only after an error other than "try again"', z3.BoolVal(False) if '~errno' not in s.ghost else s.ghost['~errno'] != EAGAIN)
            still = [x[1].buf for x in s.mem[msg].cells.values() if isinstance(x[1], Buf)]; leaks(ex, s, what, before, still); c.reach('%s %d sent' % (what, len(sent)), s)
        c.collect(ex, what)
    def recv(c, size):
        m, ex, st, sock = setup(c, size); what = 'reception (%d frames)' % size; k = c.const; off = lambda f: k['zq_off%d_%s' % (size, f)]; first = size - 8
        for i in range(11):
            n = z3.BitVec('n_frame%d' % i, 64); st.assume(z3.ULT(n, 1 << 56)); c.frames.append((z3.Const('frame%d' % i, ARR), n))
        st.assume(z3.And(z3.UGE(c.total, 1), z3.ULT(c.total, 1 << 56))); st.ghost['k'] = 0; out = ex.alloc(st, k['zq_opt%d' % size], 'cells', 'result'); c.reach(what + ' precondition', st); before = set(st.mem)
        cn, ca = c.frames[first + 1][1], c.frames[first + 1][0]; tn, ta = c.frames[first + 4][1], c.frames[first + 4][0]
        good = z3.And(c.total == size, cn == 1, z3.ULE(z3.Select(ca, z3.BitVecVal(0, 64)), 10), uri_ok(r_term([('s', ta, 0, tn)])))
        for d in ex.run_function(st, 'zq_recv%d' % size, [Ptr(out, 0), Ptr(sock, 0)]):
            s = d.st; ex.oblige(s, what + ': raises no exception', d.kind == 'ret')
            if d.kind != 'ret': continue
            for d2 in ex.run_function(s.fork(), 'zq_has%d' % size, [Ptr(out, 0)]):
                s = d2.st; v = d2.val
                if not is_c(v): raise Unsupported('result state')
                failed = s.ghost.get('~failed', False)
                if v & 1: ex.oblige(s, what + ': a message only from a complete, well-formed set of frames', And(not failed, good))
                else: ex.oblige(s, what + ': refused only if malformed or the library reported an error', True if failed else Not(good))
                if not failed: ex.oblige(s, what + ': the whole message is taken from the socket', eq(s.ghost['k'], c.total))
                if v & 1:
                    def same_as(f, r, i):
                        w = [('s', c.frames[i][0], 0, c.frames[i][1])]; ex.oblige(s, what + ': %s has the length of its frame' % f, eq(r_len(r), c.frames[i][1])); ex.oblige(s, what + ': %s is the content of its frame' % f, r_eq(r_norm(r), w))
                    if size == 9: same_as('sourceId', rope_of(ex, s, Ptr(out, off('sourceId'))), 0)
                    for f, t, i in FIELDS:
                        p = Ptr(out, off(f))
                        if t == 'c': ex.oblige(s, what + ': command is the content of its frame', eq(ex.load(s, p, I8), simp(z3.Select(ca, z3.BitVecVal(0, 64))), 8)); continue
                        r = rope_of(ex, s, p) if t == 's' else rope_of(ex, s, Ptr(out, off(f) + k['zq_uristr'])) if t == 'u' else alive(ex, s, cell(s, p, Buf), 'result').rope; same_as(f, r, i + first)
                c.reach('%s %s%s' % (what, 'message' if v & 1 else 'refused', ' after error' if failed else ''), s)
                for d3 in ex.run_function(s, 'zq_free%d' % size, [Ptr(out, 0)]): leaks(ex, d3.st, what, before); ex.oblige(d3.st, what + ': every frame content is released', not [o for o in d3.st.mem.values() if o.alive and o.name == 'frame content'])
        c.collect(ex, what)
    def frames(c):
        m, ex, st, sock = setup(c, 8); k = c.const; K = z3.BitVec('any_position', 64)
        def frame(s): return ex.alloc(s, k['zq_frame'], 'cells', 'frame')
        def text(s, nm): n = z3.BitVec('n_' + nm, 64); s.assume(z3.ULT(n, 1 << 56)); return [('s', z3.Const('text_' + nm, ARR), 0, n)]
        def build(s, kind, nm):
            f = frame(s); r = text(s, nm); o = None
            if kind == 'string': o = ex.alloc(s, 32, 'cells', 'text'); mk(ex, s, Ptr(o, 0), r); a = [Ptr(o, 0)]
            elif kind == 'buffer': o = ex.alloc(s, k['zq_buf'], 'cells', 'buffer'); c.newbuf(ex, s, Ptr(o, 0), r); a = [Ptr(o, 0)]
            elif kind == 'char': ch = z3.BitVec('char_' + nm, 8); r = [('c', ch)]; a = [ch]
            elif kind == 'static': b = ex.new_arr(s, r[0][3], 'static text'); s.mem[b].arr = r[0][1]; s.mem[b].const = True; a = [Ptr(b, 0), r[0][3]]
            else: r = []; a = []
            return f, r, [(d.st, d.kind) for d in ex.run_function(s, 'zq_f_' + kind, [Ptr(f, 0)] + a)]
        def holds(s, f, r, what):
            o = ex.alloc(s, 16, 'cells', 'view')
            for d in ex.run_function(s, 'zq_f_data', [Ptr(o, 0), Ptr(f, 0)]):
                s = d.st; n = ex.load(s, Ptr(o, 0), I64); ex.oblige(s, what + ': length', eq(n, r_len(r))); x = ex.bytes_rope(s, ex.load(s, Ptr(o, 8), PTR), n)
                ex.oblige(s, what + ': content', r_eq(r_norm(x), r_norm(r)) if len(r) != 1 or r[0][0] != 'c' else And(eq(r_len(x), 1), eq(r_read(x, 0), r[0][1], 8)) if r_norm(x) else z3.BoolVal(False)) if r else None
            return s
        def gone(s, what): leaks(ex, s, what, before); 
        before = set(st.mem)
        for kind in ('default', 'string', 'buffer', 'char', 'static'):
            what = 'frame from ' + kind; f, r, rs = build(st.fork(), kind, 'a')
            for s, kd in rs:
                ex.oblige(s, what + ': no exception', kd == 'ret'); s = holds(s, f, r, what); c.reach(what, s)
                g = frame(s)
                for d in ex.run_function(s.fork(), 'zq_f_move', [Ptr(g, 0), Ptr(f, 0)]):
                    s1 = holds(d.st, g, r, what + ', moved')
                    for d in ex.run_function(s1, 'zq_f_free', [Ptr(f, 0)]):
                        s1 = holds(d.st, g, r, what + ', moved, source destroyed')
                        for d in ex.run_function(s1, 'zq_f_free', [Ptr(g, 0)]): done(ex, d.st, what + ', moved', kind, before)
                for kind2 in ('string', 'default'):
                    g, r2, rs2 = build(s.fork(), kind2, 'b')
                    for s2, _ in rs2:
                        for d in ex.run_function(s2.fork(), 'zq_f_assign', [Ptr(g, 0), Ptr(f, 0)]):
                            s3 = holds(d.st, g, r, what + ', assigned over ' + kind2)
                            for d in ex.run_function(s3, 'zq_f_free', [Ptr(f, 0)]):
                                for d in ex.run_function(d.st, 'zq_f_free', [Ptr(g, 0)]): done(ex, d.st, what + ', assigned over ' + kind2, kind, before)
                for d in ex.run_function(s.fork(), 'zq_f_free', [Ptr(f, 0)]): done(ex, d.st, what + ', destroyed', kind, before)
                for kind2 in ('string', 'char'):
                    g, r2, rs2 = build(s.fork(), kind2, 'b')
                    for s2, _ in rs2:
                        for d in ex.run_function(s2, 'zq_f_swap', [Ptr(g, 0), Ptr(f, 0)]):
                            s3 = holds(holds(d.st, g, r, what + ', swapped'), f, r2, what + ', swapped partner')
                            for d in ex.run_function(s3, 'zq_f_free', [Ptr(f, 0)]):
                                for d in ex.run_function(d.st, 'zq_f_free', [Ptr(g, 0)]): done(ex, d.st, what + ', swapped', kind, before)
                c.frames = [(z3.Const('received', ARR), z3.BitVec('n_received', 64))]; s5 = s.fork(); s5.ghost['k'] = 0; s5.assume(z3.And(z3.UGE(c.total, 1), z3.ULT(c.total, 1 << 56), z3.ULT(c.frames[0][1], 1 << 56)))
                for d in ex.run_function(s5, 'zq_f_recv', [Ptr(f, 0), Ptr(sock, 0), 1]):
                    s6 = d.st; bad = s6.ghost.get('~failed', False); ex.oblige(s6, what + ', received into: success exactly if delivered', eq(d.val, 0 if bad else 1, 32))
                    if not bad: s6 = holds(s6, f, [('s', c.frames[0][0], 0, c.frames[0][1])], what + ', received into')
                    for d in ex.run_function(s6, 'zq_f_free', [Ptr(f, 0)]):
                        if not bad: done(ex, d.st, what + ', received into and destroyed', kind, before); ex.oblige(d.st, what + ', received into: the received content is released', not [o for o in d.st.mem.values() if o.alive and o.name == 'frame content'])
                for d in ex.run_function(s.fork(), 'zq_f_send', [Ptr(f, 0), Ptr(sock, 0), 1]):
                    s4 = d.st; sent = s4.ghost.get('~sent', ()); ok = d.val
                    ex.oblige(s4, what + ', sent: success exactly if accepted', eq(ok, 1 if sent else 0, 32)); 
                    if not sent: s4 = holds(s4, f, r, what + ', after a failed send')
                    for d in ex.run_function(s4, 'zq_f_free', [Ptr(f, 0)]): done(ex, d.st, what + ', sent and destroyed', kind, before)
        c.collect(ex, 'frames')
    def done(ex, s, what, kind, before):
        heap = [o for o in s.mem if o not in before and s.mem[o].heap and s.mem[o].alive]; ex.oblige(s, what + ': its memory is released', not heap)
    c.parallel([('send %d %d' % (n, k), lambda c, n=n, k=k: send(c, n, k)) for n in (8, 9) for k in range(11)] + [('recv %d' % n, lambda c, n=n: recv(c, n)) for n in (8, 9)] + [('frames', frames)])
def inputs_from(c, o): return []
