"""Symbolic executor / verification-condition generator over the LLVM IR of the real code."""
import z3, time
from . import ll
from .vals import *
from . import solve
from .ll import IntTy, PtrTy, FloatTy, ArrTy, StructTy, VoidTy, PTR

class NeedCut(Exception): pass
class Budget(Unsupported): pass

class Obj:
    __slots__ = ('size', 'kind', 'cells', 'arr', 'rope', 'alive', 'const', 'name', 'base', 'heap', 'meta', 'zero')
    def __init__(s, size, kind='cells', name=''):
        s.size, s.kind, s.name = size, kind, name
        s.cells = {}; s.arr = None; s.rope = None; s.alive = True; s.const = False; s.base = None; s.heap = False; s.meta = None
        s.zero = False
    def copy(s):
        o = Obj.__new__(Obj)
        for k in Obj.__slots__: setattr(o, k, getattr(s, k))
        o.cells = dict(s.cells)
        if s.rope is not None: o.rope = list(s.rope)
        return o
    def length(s):
        return r_len(s.rope) if s.kind == 'rope' else s.size

class Frame:
    __slots__ = ('f', 'blk', 'ip', 'env', 'ret', 'prev', 'allocas', 'onret', 'owner', 'lid')
    def __init__(s, f, owner):
        s.f, s.blk, s.ip, s.env, s.ret, s.prev, s.allocas = f, f.entry, 0, {}, None, None, []
        s.onret = None; s.owner = owner
    def copy(s, owner):
        r = Frame.__new__(Frame)
        r.f, r.blk, r.ip, r.ret, r.prev, r.onret = s.f, s.blk, s.ip, s.ret, s.prev, s.onret
        r.env = dict(s.env); r.allocas = list(s.allocas); r.owner = owner
        return r

class State:
    __slots__ = ('pc', 'mem', 'frames', 'ghost', 'taint', 'exc', 'trace', 'outcome', 'caught')
    def __init__(s):
        s.pc = []; s.mem = {}; s.frames = []; s.ghost = {}; s.taint = frozenset(); s.exc = None; s.trace = (); s.outcome = None; s.caught = ()
    def fork(s):
        r = State.__new__(State)
        r.pc = list(s.pc); r.mem = dict(s.mem); r.ghost = dict(s.ghost); r.taint = s.taint; r.exc = s.exc; r.trace = s.trace; r.outcome = s.outcome
        r.caught = s.caught
        r.frames = [f.copy(r) for f in s.frames]
        return r
    def assume(s, c):
        if c is True or (not isinstance(c, bool) and z3.is_true(c)): return
        s.pc.append(zb(c))
    def define(s, c):
        """a fact that only constrains freshly introduced symbols (consistent on every path)"""
        if c is True or (not isinstance(c, bool) and z3.is_true(c)): return
        c = zb(c); DEFS[c.get_id()] = c; s.pc.append(c)
    def w(s, oid):
        o = s.mem[oid].copy(); s.mem[oid] = o; return o

DEFS = {}
class Oblig:
    def __init__(s, name, pc, goal, taint, kind='post', info=None, state=None):
        s.name, s.pc, s.goal, s.taint, s.kind, s.info, s.state = name, pc, goal, taint, kind, info, state
        s.status = None; s.model = None; s.time = 0; s.backend = None

class Done:
    def __init__(s, st, kind, val=None): s.st, s.kind, s.val = st, kind, val   # kind: ret | throw | abort

class Executor:
    def __init__(ex, mod, libs, budget_s=240, max_states=6000):
        ex.mod = mod; ex.libs = libs; ex.obl = []; ex.hints = []; ex.contracts = {}
        ex.globals = {}; ex.next_id = 1; ex.hcache = {}; ex.fn_seen = {}
        ex.deadline = time.time() + budget_s; ex.nsteps = 0; ex.max_states = max_states
        ex.used_contracts = {}; ex.loops_cut = []; ex.safety = True
        ex.max_iters = 600; ex.atomic_hook = None; ex.nsw_check = False; ex.loopdepth = 0
        ex.access_hook = None; ex.peel = None
        ex.opaque_ok = []   # regexes of functions that may be havoced
        ex.log = []
        ex.houdini_quant = True; ex.pow2_shift = False; ex.divs = {}; ex.mcache = {}; ex.mergew = 1

    # ------------------------------------------------------------ solver
    def feasible(ex, st, extra=None):
        cs = st.pc if extra is None else st.pc + [zb(extra)]
        return solve.feasible(cs)
    def valid(ex, st, goal, ms=4000):
        if goal is True: return True
        if goal is False: return solve.check(st.pc, ms) == 'unsat'
        return solve.check(st.pc + [Not(goal)], ms) == 'unsat'
    def oblige(ex, st, name, goal, kind='post', info=None):
        if goal is True: goal = z3.BoolVal(True)
        ex.obl.append(Oblig(name, list(st.pc), zb(goal), st.taint, kind, info, st))
    def split(ex, st, c):
        """-> (st_true or None, st_false or None); st is consumed"""
        if isinstance(c, bool): return (st, None) if c else (None, st)
        c = z3.simplify(c)
        if z3.is_true(c): return st, None
        if z3.is_false(c): return None, st
        t = ex.feasible(st, c)
        if not t:
            st.assume(z3.Not(c)); return None, st
        f = ex.feasible(st, z3.Not(c))
        if not f:
            st.assume(c); return st, None
        s2 = st.fork()
        st.assume(c); s2.assume(z3.Not(c))
        return st, s2

    def decide(ex, st, c):
        """truth of c on this path; forks the path (ForkOn) when both are possible"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        nc = z3.Not(c)
        for p in reversed(st.pc):
            if p.eq(c): return True
            if p.eq(nc): return False
        if not ex.feasible(st, c): st.assume(nc); return False
        if not ex.feasible(st, nc): st.assume(c); return True
        raise ForkOn(c)
    # ------------------------------------------------------------ memory
    def alloc(ex, st, size, kind='cells', name=''):
        oid = ex.next_id; ex.next_id += 1
        st.mem[oid] = Obj(size, kind, name)
        return oid
    def new_arr(ex, st, size, name='buf', arr=None):
        oid = ex.alloc(st, size, 'arr', name)
        st.mem[oid].arr = arr if arr is not None else fresh_arr(name)
        return oid
    def new_rope(ex, st, rope, name='str'):
        oid = ex.alloc(st, None, 'rope', name)
        st.mem[oid].rope = list(rope)
        return oid
    def base(ex, st, oid):
        o = st.mem[oid]
        if o.base is None:
            o = st.w(oid); o.base = z3.BitVec('base!%d' % oid, 64)
        return o.base
    def p2i(ex, st, p):
        if isinstance(p, FnPtr): return z3.BitVec('fnaddr!' + p.name, 64)
        if p.obj is None: return p.off
        return add(z3.BitVec('base!%d' % p.obj, 64), p.off)
    def i2p(ex, st, v):
        v = norm(v)
        if is_c(v): return Ptr(None, v)
        # base!k + off ?
        bs = [t for t in z3_terms(v) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('base!')]
        for b in bs:
            off = simp(v - b)
            if is_c(off) or b.decl().name() not in str(off):
                return Ptr(int(b.decl().name()[5:]), off)
        return Ptr(None, v)

    def global_obj(ex, st, nm):
        nm = ex.mod.aliases.get(nm, nm)
        if nm in ex.mod.funcs or nm in ex.mod.decls: return FnPtr(nm)
        if nm not in ex.globals:
            oid = ex.next_id; ex.next_id += 1
            ex.globals[nm] = oid
        oid = ex.globals[nm]
        if oid not in st.mem:
            t, init, const = ex.mod.global_init(nm)
            try: size = ex.mod.size(t)
            except ll.IRError: size = 0
            o = Obj(size, 'cells', '@' + nm); o.const = const
            st.mem[oid] = o
            if init is not None: ex.init_cells(st, o, 0, t, init)
        return Ptr(oid, 0)
    def init_cells(ex, st, o, off, t, v):
        m = ex.mod; t = m.resolve(t)
        if v[0] == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
        elif v[0] == 'zero':
            ex.zero_cells(o, off, t)
        elif v[0] == 'undef': pass
        elif v[0] == 'agg':
            if isinstance(t, StructTy):
                for (et, ev), eo in zip(v[1], m.offsets(t)): ex.init_cells(st, o, off + eo, et, ev)
            else:
                z = m.size(t.el)
                for i, (et, ev) in enumerate(v[1]): ex.init_cells(st, o, off + i * z, et, ev)
        else:
            val = ex.const(st, t, v)
            o.cells[off] = (m.size(t), val)
    def zero_cells(ex, o, off, t):
        m = ex.mod; t = m.resolve(t)
        if isinstance(t, StructTy):
            for e, eo in zip(t.els, m.offsets(t)): ex.zero_cells(o, off + eo, e)
        elif isinstance(t, ArrTy):
            z = m.size(t.el)
            if t.n * z > 65536: raise Unsupported('big zero array')
            for i in range(t.n): ex.zero_cells(o, off + i * z, t.el)
        elif isinstance(t, PtrTy): o.cells[off] = (8, NULL)
        elif isinstance(t, FloatTy): o.cells[off] = (m.size(t), FP(m.size(t) * 8, 0))
        elif isinstance(t, IntTy): o.cells[off] = (m.size(t), 0)

    def conc_off(ex, st, off):
        """try to make an offset concrete under the path condition"""
        if is_c(off): return off
        off = simp(off)
        if is_c(off): return off
        r, mdl = solve.check(st.pc, 2000, want_model=True)
        if r == 'sat':
            v = mdl.eval(off, model_completion=True).as_long()
            if solve.check(st.pc + [off != v], 2000) == 'unsat': return v
        return off
    def check_access(ex, st, p, n, what):
        if not isinstance(p, Ptr): raise Unsupported('access through %r' % (p,))
        if p.obj is None:
            if is_c(p.off) and p.off == 0:
                ex.oblige(st, 'memory-safety: null dereference in %s' % what, False, 'safety')
                raise PathEnd()
            raise Unsupported('access through raw pointer ' + what)
        if p.obj not in st.mem: raise Unsupported('unknown object')
        o = st.mem[p.obj]
        if not o.alive:
            ex.oblige(st, 'memory-safety: use of a dead object %s in %s' % (o.name, what), False, 'safety')
            raise PathEnd()
        lim = o.length()
        if o.kind == 'rope': lim = add(lim, 1)   # the terminating NUL may be read
        if lim is not None:
            ok = And(ule(n, lim), ule(p.off, sub(lim, n)))
            if ok is not True:
                ok = zb(ok)
                ex.oblige(st, 'memory-safety: %s inside %s' % (what, o.name), ok, 'safety', info=('bounds', o.name))
                st.assume(ok)
        return o
    def load(ex, st, p, t, what='load'):
        m = ex.mod; t = m.resolve(t)
        n = m.size(t)
        if isinstance(t, (StructTy, ArrTy)):
            if isinstance(t, StructTy):
                return [ex.load(st, Ptr(p.obj, add(p.off, eo)), e, what) for e, eo in zip(t.els, m.offsets(t))]
            z = m.size(t.el)
            return [ex.load(st, Ptr(p.obj, add(p.off, i * z)), t.el, what) for i in range(t.n)]
        if isinstance(t, IntTy): n = (t.w + 7) // 8
        o = ex.check_access(st, p, n, what)
        if ex.access_hook:
            r = ex.access_hook(ex, st, 'r', p, n, t, None)
            if r is not None: return r
        return ex.read(st, p.obj, p.off, n, t)
    def read(ex, st, oid, off, n, t):
        o = st.mem[oid]
        if o.kind == 'arr':
            bs = [simp(o.arr[bv(add(off, i), 64)]) for i in range(n)]
            return ex.from_bytes(bs, t)
        if o.kind == 'rope':
            L = r_len(o.rope)
            bs = []
            for i in range(n):
                k = add(off, i)
                isnul = eq(k, L)
                if isnul is True: bs.append(0); continue
                v = r_read(o.rope, k)
                if isnul is not False and ex.valid(st, Not(isnul), 1500): isnul = False
                bs.append(ite(isnul, 0, v, 8))
            return ex.from_bytes(bs, t)
        if o.kind == 'custom':
            return o.meta.read(ex, st, oid, off, n, t)
        if not (o.const and len(o.cells) > 8): off = ex.conc_off(st, off)
        if not is_c(off):
            # symbolic offset into a cell object: ite over the cells of matching size
            vals = [(k, c[1]) for k, c in sorted(o.cells.items()) if c[0] == n]
            if not vals or not isinstance(t, IntTy) or any(not (is_c(v) or z3.is_bv(v)) for k, v in vals):
                raise Unsupported('symbolic offset into %s' % o.name)
            w = t.w
            ks = [k for k, v in vals]
            if len(ks) > 512: raise Unsupported('big table')
            if all(is_c(v) for k, v in vals) and n == 1 and ks == list(range(ks[0], ks[0] + len(ks))):
                return tree_lookup(sub(off, ks[0]), [v for k, v in vals], w)
            ex_ok = zb(Or(*[eq(off, k) for k in ks]))
            if not ex.valid(st, ex_ok): raise Unsupported('symbolic unaligned offset into %s' % o.name)
            r = vals[-1][1]
            for k, v in reversed(vals[:-1]): r = ite(eq(off, k), v, r, n * 8)
            r = simp(bv(r, n * 8))
            return r if t.w == n * 8 else simp(z3.Extract(t.w - 1, 0, bv(r, n * 8)))
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return ex.as_type(st, c[1], t)
        # assemble from bytes
        bs = []
        for i in range(n):
            b = ex.read_byte(st, oid, off + i)
            bs.append(b)
        return ex.from_bytes(bs, t)
    def read_byte(ex, st, oid, k):
        o = st.mem[oid]
        for off in range(k, max(-1, k - 64), -1):
            c = o.cells.get(off)
            if c is not None:
                if off + c[0] > k:
                    v = c[1]
                    if v is JUNK: return JUNK
                    if isinstance(v, FP): v = v.b
                    if isinstance(v, Ptr): v = ex.p2i(st, v)
                    if not (is_c(v) or z3.is_bv(v)): raise Unsupported('partial read of %r' % v)
                    sh = (k - off) * 8
                    if is_c(v): return (v >> sh) & 255
                    w = v.size()
                    if w < c[0] * 8: v = z3.ZeroExt(c[0] * 8 - w, v)
                    return simp(z3.Extract(sh + 7, sh, v))
                break
        b = fresh(8, 'un')
        o = st.w(oid); o.cells[k] = (1, b)
        return b
    def from_bytes(ex, bs, t):
        if any(b is JUNK for b in bs): raise Unsupported('read of junk bytes')
        if all(is_c(b) for b in bs):
            v = sum(b << (8 * i) for i, b in enumerate(bs))
        else:
            v = simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if len(bs) > 1 else bs[0]
        return ex.as_type(None, v, t, len(bs) * 8)
    def as_type(ex, st, v, t, w=None):
        if v is JUNK: raise Unsupported('read of a value the loop havoc lost')
        if isinstance(t, IntTy):
            if isinstance(v, (Ptr, FnPtr)): return ex.p2i(st, v)
            if isinstance(v, FP): v = v.b
            if is_c(v): return v & ((1 << t.w) - 1)
            if z3.is_bv(v):
                if v.size() == t.w: return v
                if v.size() > t.w: return simp(z3.Extract(t.w - 1, 0, v))
                return simp(z3.ZeroExt(t.w - v.size(), v))
            raise Unsupported('int view of %r' % (v,))
        if isinstance(t, PtrTy):
            if isinstance(v, (Ptr, FnPtr)): return v
            if is_c(v) or z3.is_bv(v): return ex.i2p(st, v)
            raise Unsupported('ptr view of %r' % (v,))
        if isinstance(t, FloatTy):
            if isinstance(v, FP): return v
            return FP(ex.mod.size(t) * 8, v)
        raise Unsupported('type %r' % t)
    def store(ex, st, p, t, v, what='store'):
        m = ex.mod; t = m.resolve(t)
        n = m.size(t)
        if isinstance(t, StructTy):
            for e, eo, x in zip(t.els, m.offsets(t), v): ex.store(st, Ptr(p.obj, add(p.off, eo)), e, x, what)
            return
        if isinstance(t, ArrTy):
            z = m.size(t.el)
            for i, x in enumerate(v): ex.store(st, Ptr(p.obj, add(p.off, i * z)), t.el, x, what)
            return
        if isinstance(t, IntTy): n = (t.w + 7) // 8
        ex.check_access(st, p, n, what)
        if ex.access_hook:
            r = ex.access_hook(ex, st, 'w', p, n, t, v)
            if r is not None: return
        ex.write(st, p.obj, p.off, n, v)
    def write(ex, st, oid, off, n, v):
        o = st.mem[oid]
        if o.const: raise Unsupported('write to constant ' + o.name)
        o = st.w(oid)
        if o.kind == 'arr':
            if isinstance(v, FP): v = v.b
            if isinstance(v, (Ptr, FnPtr)): v = ex.p2i(st, v)
            for i in range(n):
                b = ((v >> (8 * i)) & 255) if is_c(v) else (v if v.size() == 8 else z3.Extract(8 * i + 7, 8 * i, v if v.size() == 8 * n else z3.ZeroExt(8 * n - v.size(), v)))
                o.arr = z3.Store(o.arr, bv(add(off, i), 64), bv(b, 8))
            return
        if o.kind == 'rope':
            if n != 1: raise Unsupported('wide store into string')
            o.rope = ex.rope_store(st, o.rope, off, v)
            return
        if o.kind == 'custom':
            return o.meta.write(ex, st, oid, off, n, v)
        off = ex.conc_off(st, off)
        if not is_c(off):
            ks = [k for k, c in sorted(o.cells.items()) if c[0] == n]
            if ks and ex.valid(st, zb(Or(*[eq(off, k) for k in ks]))):
                for k in ks:
                    old = o.cells[k][1]
                    if not ((is_c(old) or z3.is_bv(old)) and (is_c(v) or z3.is_bv(v))): raise Unsupported('symbolic store')
                    o.cells[k] = (n, ite(eq(off, k), v, old, n * 8))
                return
            raise Unsupported('store at symbolic offset into %s' % o.name)
        if o.cells.get(off, (None,))[0] != n:
            for k in range(max(0, off - 512), off + n):
                c = o.cells.get(k)
                if c is None or k + c[0] <= off: continue
                if k >= off and k + c[0] <= off + n:
                    del o.cells[k]
                else:
                    val = c[1]
                    if isinstance(val, FP): val = val.b
                    if isinstance(val, Ptr): val = ex.p2i(st, val)
                    del o.cells[k]
                    for j in range(c[0]):
                        if off <= k + j < off + n: continue
                        if val is JUNK: o.cells[k + j] = (1, JUNK); continue
                        if not (is_c(val) or z3.is_bv(val)): raise Unsupported('partial overwrite')
                        if is_c(val): b = (val >> (8 * j)) & 255
                        else:
                            vv = val if val.size() == 8 * c[0] else z3.ZeroExt(8 * c[0] - val.size(), val)
                            b = simp(z3.Extract(8 * j + 7, 8 * j, vv))
                        o.cells[k + j] = (1, b)
        if n > 0: o.cells[off] = (n, v)
    def rope_arr(ex, st, rope):
        """an array/offset holding the same content as the rope"""
        rope = r_norm(rope)
        if len(rope) == 1 and rope[0][0] == 's': return rope[0][1], rope[0][2], rope[0][3]
        n = r_len(rope)
        ch = expand(rope)
        a = fresh_arr('rp')
        if ch is not None:
            for i, c in enumerate(ch): a = z3.Store(a, z3.BitVecVal(i, 64), bv(c, 8))
            return a, 0, n
        k = z3.BitVec('k!%d' % uid(), 64)
        if len(rope) == 1 and rope[0][0] == 'o':
            # opaque content: its bytes are seq_at(term, k)
            st.define(z3.ForAll([k], z3.Select(a, k) == f_seqat(rope[0][1], k), patterns=[z3.Select(a, k)]))
            return a, 0, n
        pos = 0; conds = []
        for p in rope:
            l = 1 if p[0] == 'c' else p[3] if p[0] == 's' else p[2]
            d = k - bv(pos, 64)
            v = bv(p[1], 8) if p[0] == 'c' else p[1][bv(p[2], 64) + d] if p[0] == 's' else f_seqat(p[1], d)
            conds.append(z3.Implies(z3.And(z3.UGE(k, bv(pos, 64)), z3.ULT(d, bv(l, 64))), z3.Select(a, k) == v)); pos = add(pos, l)
        st.define(z3.ForAll([k], z3.And(*conds), patterns=[z3.Select(a, k)]))
        return a, 0, n
    def rope_store(ex, st, rope, i, v):
        rope = r_norm(rope)
        if is_c(i):
            ch = expand(rope)
            if ch is not None and i < len(ch):
                ch = list(ch); ch[i] = v; return [('c', c) for c in ch]
        L = r_len(rope)
        isnul = eq(i, L)
        if isnul is True: return rope
        a, f, n = ex.rope_arr(st, rope)
        return [('s', z3.Store(a, bv(add(f, i), 64), bv(v, 8)), f, n)]
    def bytes_rope(ex, st, p, n):
        """content of memory [p, p+n) as a rope (for string construction etc.)"""
        if is_c(n) and n == 0: return []
        if not isinstance(p, Ptr) or p.obj is None:
            if ex.valid(st, eq(n, 0)): return []
            if isinstance(p, Ptr) and is_c(p.off) and p.off == 0:
                ex.oblige(st, 'memory-safety: reading from null', eq(n, 0), 'safety'); st.assume(eq(n, 0)); return []
            raise Unsupported('bytes from raw pointer')
        o = st.mem[p.obj]
        if not o.alive:
            ok = eq(n, 0)
            if not ex.valid(st, ok):
                ex.oblige(st, 'memory-safety: view into dead object %s' % o.name, ok, 'safety'); raise PathEnd()
            return []
        lim = o.length()
        if lim is not None:
            ok = And(ule(n, lim), ule(p.off, sub(lim, n)))
            if ok is not True:
                ok = zb(Or(eq(n, 0), ok))
                ex.oblige(st, 'memory-safety: byte range inside %s' % o.name, ok, 'safety', info=('bounds', o.name)); st.assume(ok)
        if o.kind == 'arr': return [('s', o.arr, p.off, n)]
        if o.kind == 'rope':
            r = r_sub(o.rope, p.off, n)
            if r is None:
                a, f, _ = ex.rope_arr(st, o.rope)
                o = st.w(p.obj); o.rope = [('s', a, f, r_len(o.rope))] if False else o.rope
                return [('s', a, add(f, p.off), n)]
            return r
        off = ex.conc_off(st, p.off); nn = ex.conc_off(st, n)
        if is_c(off) and is_c(nn):
            return [('c', ex.read(st, p.obj, off + i, 1, IntTy(8))) for i in range(nn)]
        # constant table: make an array
        if is_c(o.size) and o.size <= 4096:
            a = z3.K(BV64, z3.BitVecVal(0, 8))
            for i in range(o.size): a = z3.Store(a, z3.BitVecVal(i, 64), bv(ex.read(st, p.obj, i, 1, IntTy(8)), 8))
            return [('s', a, off, n)]
        raise Unsupported('bytes of %s' % o.name)
    def put_bytes(ex, st, p, rope):
        """store the rope's bytes at p"""
        n = r_len(rope)
        if is_c(n) and n == 0: return
        o = ex.check_access(st, p, n, 'memcpy-store')
        if o.kind == 'custom' and hasattr(o.meta, 'put'):
            return o.meta.put(ex, st, p, rope)
        if o.kind == 'arr':
            o = st.w(p.obj)
            ch = expand(r_norm(rope))
            if ch is not None and len(ch) <= 32:
                for i, c in enumerate(ch): o.arr = z3.Store(o.arr, bv(add(p.off, i), 64), bv(c, 8))
                return
            a, f, n = ex.rope_arr(st, rope)
            k = z3.BitVec('k!%d' % uid(), 64); d = k - bv(p.off, 64)
            na = fresh_arr('cp')
            body = z3.Select(na, k) == z3.If(z3.And(z3.UGE(k, bv(p.off, 64)), z3.ULT(d, bv(n, 64))), z3.Select(a, bv(f, 64) + d), z3.Select(o.arr, k))
            st.define(z3.ForAll([k], body, patterns=[z3.Select(na, k)]))
            o.arr = na
            return
        if o.kind == 'rope':
            L = r_len(o.rope)
            if is_c(p.off) and p.off == 0 and eq(n, L) is True:
                st.w(p.obj).rope = list(rope); return
            pre = r_sub(o.rope, 0, p.off); e = add(p.off, n); post = r_sub(o.rope, e, sub(L, e))
            if pre is None or post is None: raise Unsupported('memcpy into middle of string')
            st.w(p.obj).rope = r_norm(pre + list(rope) + post); return
        ch = expand(r_norm(rope))
        if ch is None: raise Unsupported('symbolic-length memcpy into %s' % o.name)
        for i, c in enumerate(ch): ex.write(st, p.obj, add(p.off, i), 1, c)
    def memcpy(ex, st, d, s, n, what='memcpy'):
        n = ex.conc_off(st, n)
        if is_c(n) and n == 0: return
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj is not None and s.obj is not None:
            so, do = st.mem[s.obj], st.mem[d.obj]
            if so.kind == 'cells' and do.kind == 'cells' and is_c(n):
                ex.check_access(st, s, n, what); ex.check_access(st, d, n, what)
                a, b = ex.conc_off(st, s.off), ex.conc_off(st, d.off)
                if is_c(a) and is_c(b):
                    so = st.mem[s.obj]
                    items = [(k, c) for k, c in so.cells.items() if k >= a and k + c[0] <= a + n]
                    part = [k for k, c in so.cells.items() if k < a + n and k + c[0] > a and not (k >= a and k + c[0] <= a + n)]
                    if not part:
                        o = st.w(d.obj)
                        for k in list(o.cells):
                            c = o.cells[k]
                            if k >= b and k + c[0] <= b + n: del o.cells[k]
                        for k, c in items: ex.write(st, d.obj, k - a + b, c[0], c[1])
                        return
        r = ex.bytes_rope(st, s, n)
        ex.put_bytes(st, d, r)

    # ------------------------------------------------------------ operands
    def const(ex, st, t, v):
        m = ex.mod
        k = v[0]
        if k == 'int': return v[1] & ((1 << m.resolve(t).w) - 1)
        if k == 'null': return NULL
        if k == 'global': return ex.global_obj(st, v[1])
        if k == 'undef': return ex.undef(t)
        if k == 'zero': return ex.zero(t)
        if k == 'agg': return [ex.const(st, et, ev) for et, ev in v[1]]
        if k == 'str': return list(v[1])
        if k == 'cgep':
            return ex.gep(st, v[1], ex.const(st, PTR, v[2]), [(it, ex.const(st, it, iv)) for it, iv in v[3]])
        if k == 'ccast':
            x = ex.const(st, v[2], v[3])
            if v[1] == 'ptrtoint': return ex.as_type(st, ex.p2i(st, x), v[4])
            if v[1] == 'inttoptr': return ex.i2p(st, x)
            return x
        if k == 'cbin':
            a, b = ex.const(st, v[2], v[3]), ex.const(st, v[2], v[4]); w = m.resolve(v[2]).w
            return binop(v[1], a, b, w)
        if k == 'fp': return FP(m.size(m.resolve(t)) * 8, fpbits(v[1], m.resolve(t).name))
        raise Unsupported('const %r' % (v,))
    def undef(ex, t):
        t = ex.mod.resolve(t)
        if isinstance(t, IntTy): return fresh(t.w, 'undef')
        if isinstance(t, PtrTy): return NULL
        if isinstance(t, FloatTy): return FP(ex.mod.size(t) * 8, fresh(ex.mod.size(t) * 8, 'undef'))
        if isinstance(t, StructTy): return [ex.undef(e) for e in t.els]
        if isinstance(t, ArrTy): return [ex.undef(t.el) for _ in range(t.n)]
        raise Unsupported('undef')
    def zero(ex, t):
        t = ex.mod.resolve(t)
        if isinstance(t, IntTy): return 0
        if isinstance(t, PtrTy): return NULL
        if isinstance(t, FloatTy): return FP(ex.mod.size(t) * 8, 0)
        if isinstance(t, StructTy): return [ex.zero(e) for e in t.els]
        if isinstance(t, ArrTy): return [ex.zero(t.el) for _ in range(t.n)]
        raise Unsupported('zero')
    def val(ex, st, fr, t, v):
        if v[0] == 'local': return fr.env[v[1]]
        return ex.const(st, t, v)
    def gep(ex, st, bt, base, idx):
        m = ex.mod
        if isinstance(base, FnPtr): raise Unsupported('gep on function')
        off = base.off
        t = bt
        first = True
        for it, iv in idx:
            w = m.resolve(it).w
            if first:
                sz = m.size(t); first = False
                d = ext(iv, w)
                off = add(off, mul(d, sz))
                continue
            rt = m.resolve(t)
            if isinstance(rt, StructTy):
                off = add(off, m.offsets(rt)[iv]); t = rt.els[iv]
            else:
                off = add(off, mul(ext(iv, w), m.size(rt.el))); t = rt.el
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ running
    def call_function(ex, st, name, args, onret=None):
        """push a frame"""
        f = ex.mod.funcs[name].parse()
        ex.fn_seen[name] = ex.fn_seen.get(name, 0) + 1
        if len(st.frames) > 120: raise Unsupported('recursion depth')
        fr = Frame(f, st)
        for (t, nm, at), a in zip(f.params, args):
            if 'byval' in at:
                bt = at['byval']; oid = ex.alloc(st, ex.mod.size(bt), 'cells', 'byval')
                ex.memcpy(st, Ptr(oid, 0), a, ex.mod.size(bt)); a = Ptr(oid, 0); fr.allocas.append(oid)
            fr.env[nm] = a
        fr.onret = onret
        st.frames.append(fr)

    def run_function(ex, st, name, args):
        """run to completion; -> list of Done"""
        depth = len(st.frames)
        ex.call_function(st, name, args)
        ex.enter_block(st, st.frames[-1].f.entry, None, check_loop=False)
        done, exits, backs = ex.explore([st], depth)
        return done

    def eval_phis(ex, st, fr, blk, prev):
        b = fr.f.blocks[blk]
        if b.phis:
            vals = []
            for ph in b.phis:
                t, inc = ph.a
                vals.append((ph.res, ex.val(st, fr, t, inc[prev])))
            for r, v in vals: fr.env[r] = v

    def enter_block(ex, st, blk, prev, check_loop=True):
        fr = st.frames[-1]
        if prev is not None: ex.eval_phis(st, fr, blk, prev)
        fr.prev = prev; fr.blk = blk; fr.ip = 0

    def explore(ex, states, depth, region=None, header=None, probe=None):
        """run states until frame `depth` finishes; with a region also stop at leaving it / reaching its header"""
        done, exits, backs = [], [], []
        work = list(states)
        while work:
            if time.time() > ex.deadline: raise Budget('time budget exhausted')
            st = work.pop()
            try:
                res = ex.run_one(st, depth, region, header, probe)
            except PathEnd:
                continue
            for r in res:
                k, s = r[0], r[1]
                if k == 'work': work.append(s)
                elif k == 'done': done.append(r[2])
                elif k == 'exit': exits.append(s)
                elif k == 'back':
                    if probe is not None:
                        probe['iters'] += 1
                        if probe['iters'] > ex.max_iters or len(work) > 48: raise NeedCut()
                        work.append(s)
                    else: backs.append(s)
            if len(work) > ex.max_states: raise Budget('too many states')
        return done, exits, backs

    def run_one(ex, st, depth, region, header, probe):
        """execute until a fork or stop; returns list of (kind, state[, Done])"""
        while True:
            ex.nsteps += 1
            if ex.nsteps & 0x3ff == 0 and time.time() > ex.deadline: raise Budget('time budget exhausted')
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.blk]
            if fr.ip >= len(blk.insts): raise Unsupported('fell off block')
            ins = blk.insts[fr.ip]
            nxt = None
            op = ins.op
            if op in ('jmp', 'br', 'switch'):
                targets = []
                if op == 'jmp': targets = [(st, ins.a[0])]
                elif op == 'br':
                    c = ex.cond(ex.val(st, fr, IntTy(1), ins.a[0]))
                    a, b = ins.a[1], ins.a[2]
                    exiting = region is not None and len(st.frames) - 1 == depth and ((a in region) != (b in region))
                    if a == b: targets = [(st, a)]
                    else:
                        conc = isinstance(c, bool)
                        if exiting and ex.cur_bounds is not None and not conc and probe is None: ex.cur_bounds.append(c)
                        t, f = ex.split(st, c)
                        if exiting and probe is not None:
                            if t is not None and f is not None:
                                probe['sym'] += 1
                                if probe['conc'] == 0 or probe['sym'] > 40: raise NeedCut()
                            elif conc: probe['conc'] += 1
                        if t is not None: targets.append((t, a))
                        if f is not None: targets.append((f, b))
                else:
                    t, v, d, cases = ins.a
                    v = ex.val(st, fr, t, v); w = ex.mod.resolve(t).w
                    if is_c(v):
                        tgt = d
                        for k, l in cases:
                            if (k & ((1 << w) - 1)) == v: tgt = l
                        targets = [(st, tgt)]
                    else:
                        cur = st
                        grp = {}
                        for k, l in cases: grp.setdefault(l, []).append(k & ((1 << w) - 1))
                        for l, ks in grp.items():
                            if cur is None: break
                            t1, cur = ex.split(cur, zb(Or(*[eq(v, k, w) for k in ks])))
                            if t1 is not None: targets.append((t1, l))
                        if cur is not None: targets.append((cur, d))
                out = []
                for s, tgt in targets:
                    r = ex.goto(s, tgt, depth, region, header, probe)
                    out.extend(r)
                if len(out) == 1 and out[0][0] == 'work':
                    st = out[0][1]; continue
                return out
            if op == 'ret':
                v = None
                if ins.a[1] is not None: v = ex.val(st, fr, ins.a[0], ins.a[1])
                r = ex.fix(ex.do_return(st, v, depth), depth, region, header, probe)
                if r is None: continue
                if len(r) == 1 and r[0][0] == 'work': st = r[0][1]; continue
                return r
            if op == 'unreachable':
                raise PathEnd()
            if op == 'resume':
                r = ex.fix(ex.unwind(st, depth), depth, region, header, probe)
                if len(r) == 1 and r[0][0] == 'work': st = r[0][1]; continue
                return r
            if op in ('call', 'invoke'):
                r = ex.do_call(st, fr, ins, depth, region, header, probe)
                if r is None: continue
                if len(r) == 1 and r[0][0] == 'work': st = r[0][1]; continue
                return r
            try:
                ex.step(st, fr, ins)
            except ForkOn as fk:
                s2 = st.fork()
                st.assume(fk.c); s2.assume(Not(fk.c))
                return [('work', s) for s in (st, s2) if ex.feasible(s)]
            fr.ip += 1

    cur_bounds = None

    def goto(ex, st, tgt, depth, region, header, probe):
        fr = st.frames[-1]
        here = len(st.frames) - 1 == depth
        prev = fr.blk
        if region is not None and here:
            if tgt == header:
                ex.enter_block(st, tgt, prev); return [('back', st)]
            if tgt not in region:
                ex.enter_block(st, tgt, prev)
                return [('exit', st)]
        ex.enter_block(st, tgt, prev)
        L = ll.loops(fr.f)
        if tgt in L and not (region is not None and here and tgt == header):
            outs = ex.handle_loop(st, tgt, L[tgt])
            res = []
            for s in outs:
                # an exit state may itself be positioned outside the enclosing region / at its header / at another loop header
                res.extend(ex.after_exit(s, depth, region, header, probe))
            return res
        return [('work', st)]

    def after_exit(ex, s, depth, region, header, probe):
        if isinstance(s, Done):
            if s.kind == 'throw' and len(s.st.frames) > depth:
                return ex.fix(ex.throw(s.st, s.val, depth), depth, region, header, probe)
            return [('done', s.st, s)]
        d = len(s.frames) - 1
        if d < depth: return [('exit', s)]
        if d == depth and region is not None:
            b = s.frames[-1].blk
            if b == header: return [('back', s)]
            if b not in region: return [('exit', s)]
        fr = s.frames[-1]
        L = ll.loops(fr.f)
        if fr.ip == 0 and fr.blk in L:
            res = []
            for s2 in ex.handle_loop(s, fr.blk, L[fr.blk]): res.extend(ex.after_exit(s2, depth, region, header, probe))
            return res
        return [('work', s)]

    def do_return(ex, st, v, depth):
        fr = st.frames.pop()
        for oid in fr.allocas:
            if oid in st.mem:
                o = st.mem[oid]
                if o.alive: st.w(oid).alive = False
        if fr.onret is not None:
            v = fr.onret(ex, st, v)
        if len(st.frames) == depth:
            return [('done', st, Done(st, 'ret', v))]
        cf = st.frames[-1]
        ins = cf.f.blocks[cf.blk].insts[cf.ip]
        if ins.res is not None: cf.env[ins.res] = v
        return ex.advance(st, ins)

    def advance(ex, st, ins):
        """after a completed call: move on (handles invoke's normal edge); returns None to keep running"""
        fr = st.frames[-1]
        if ins.op == 'invoke':
            return [('goto', st, ins.a[3])]
        fr.ip += 1
        return None

    def unwind(ex, st, depth):
        """propagate st.exc; None = keep running"""
        # the current frame's function is being left
        while True:
            fr = st.frames.pop()
            for oid in fr.allocas:
                if oid in st.mem and st.mem[oid].alive: st.w(oid).alive = False
            if len(st.frames) == depth or not st.frames:
                return [('done', st, Done(st, 'throw', st.exc))]
            cf = st.frames[-1]
            ins = cf.f.blocks[cf.blk].insts[cf.ip]
            if ins.op == 'invoke':
                return [('goto', st, ins.a[4])]
    def throw(ex, st, exc, depth):
        """exception raised by the call instruction the current frame is at"""
        st.exc = exc
        cf = st.frames[-1]
        ins = cf.f.blocks[cf.blk].insts[cf.ip]
        if ins.op == 'invoke':
            return [('goto', st, ins.a[4])]
        return ex.unwind(st, depth)

    def cond(ex, v):
        if is_c(v): return bool(v & 1)
        v = simp(v == 1)
        return v if isinstance(v, bool) else v

    # ------------------------------------------------------------ instructions
    def step(ex, st, fr, ins):
        op, a = ins.op, ins.a
        V = lambda t, v: ex.val(st, fr, t, v)
        m = ex.mod
        if op == 'bin':
            o, fl, t, x, y = a
            w = m.resolve(t)
            if not isinstance(w, IntTy): raise Unsupported('vector op')
            w = w.w
            x, y = V(t, x), V(t, y)
            if ex.nsw_check and 'nsw' in fl and o in ('add', 'sub', 'mul', 'shl'):
                ok = nsw_ok(o, x, y, w)
                if ok is not True:
                    ex.oblige(st, 'no signed overflow: %s in %s' % (o, m.demangled.get(fr.f.name, fr.f.name)), ok, 'safety'); st.assume(ok)
            if o in ('udiv', 'sdiv', 'urem', 'srem'):
                nz = Not(eq(y, 0, w))
                if nz is not True:
                    ex.oblige(st, 'no division by zero', nz, 'safety'); st.assume(nz)
            if o in ('udiv', 'urem') and ex.pow2_shift and is_c(y) and y > 1 and y & (y - 1) == 0 and not is_c(x):
                fr.env[ins.res] = simp(z3.LShR(x, y.bit_length() - 1) if o == 'udiv' else x & (y - 1))
            elif o in ('udiv', 'urem') and is_c(y) and y > 1 and not is_c(x) and w >= 32:
                q, r = ex.divmod(st, x, y, w)
                fr.env[ins.res] = q if o == 'udiv' else r
            elif o == 'urem' and not is_c(y): fr.env[ins.res] = simp(bv(x, w) - z3.UDiv(bv(x, w), y) * y)      # remainder in terms of the quotient: one division for the solver
            else: fr.env[ins.res] = binop(o, x, y, w)
        elif op == 'icmp':
            pr, t, x, y = a
            rt = m.resolve(t)
            x, y = V(t, x), V(t, y)
            fr.env[ins.res] = ex.icmp(st, pr, rt, x, y)
        elif op == 'cast':
            o, t, v, t2 = a
            fr.env[ins.res] = ex.cast(st, o, m.resolve(t), V(t, v), m.resolve(t2))
        elif op == 'load':
            t, p, order = a
            p = V(PTR, p)
            if order is not None and ex.atomic_hook:
                r = ex.atomic_hook(ex, st, 'load', p, t, None, None, order)
                if r is not NotImplemented: fr.env[ins.res] = r; return
            fr.env[ins.res] = ex.load(st, p, t, 'load in ' + ex.fname(fr))
        elif op == 'store':
            t, v, p, order = a
            v, p = V(t, v), V(PTR, p)
            if order is not None and ex.atomic_hook:
                r = ex.atomic_hook(ex, st, 'store', p, t, v, None, order)
                if r is not NotImplemented: return
            ex.store(st, p, t, v, 'store in ' + ex.fname(fr))
        elif op == 'getelementptr':
            bt, b, idx = a
            b = V(PTR, b)
            fr.env[ins.res] = ex.gep(st, bt, b, [(t, V(t, v)) for t, v in idx])
        elif op == 'alloca':
            t, n = a
            n = V(IntTy(64), n)
            if not is_c(n): raise Unsupported('vla')
            oid = ex.alloc(st, m.size(t) * n, 'cells', 'local in ' + ex.fname(fr))
            fr.allocas.append(oid); fr.env[ins.res] = Ptr(oid, 0)
        elif op == 'select':
            c, t, x, y = a
            c = ex.cond(V(IntTy(1), c)); x, y = V(t, x), V(t, y)
            fr.env[ins.res] = ex.select(st, c, m.resolve(t), x, y)
        elif op == 'extractvalue':
            t, v, ix = a
            v = V(t, v)
            for i in ix: v = v[i]
            fr.env[ins.res] = v
        elif op == 'insertvalue':
            t, v, t2, w, ix = a
            v = V(t, v); w = V(t2, w)
            fr.env[ins.res] = ins_val(v, ix, w)
        elif op == 'freeze':
            fr.env[ins.res] = V(a[0], a[1])
        elif op == 'landingpad':
            sel = ex.landing(st, a[1])
            fr.env[ins.res] = [Ptr(None, 0) if st.exc is None else st.exc.ptr, sel]
        elif op == 'cmpxchg':
            t, p, x, y, weak, order = a
            p, x, y = V(PTR, p), V(t, x), V(t, y)
            w = m.resolve(t)
            if not isinstance(w, IntTy): raise Unsupported('pointer cmpxchg')
            if ex.atomic_hook:
                r = ex.atomic_hook(ex, st, 'cmpxchg_weak' if weak else 'cmpxchg', p, t, x, y, order)
                if r is not NotImplemented: fr.env[ins.res] = r; return
            old = ex.load(st, p, t)
            ok = eq(old, x, w.w)
            ex.store(st, p, t, ite(ok, y, old, w.w))
            fr.env[ins.res] = [old, b2i(ok)]
        elif op == 'atomicrmw':
            o, t, p, v, order = a
            p, v = V(PTR, p), V(t, v); w = m.resolve(t).w
            if ex.atomic_hook:
                r = ex.atomic_hook(ex, st, 'rmw_' + o, p, t, v, None, order)
                if r is not NotImplemented: fr.env[ins.res] = r; return
            old = ex.load(st, p, t)
            ex.store(st, p, t, rmw(o, old, v, w))
            fr.env[ins.res] = old
        elif op == 'fence':
            if ex.atomic_hook: ex.atomic_hook(ex, st, 'fence', None, None, None, None, a[0])
        elif op in ('fbin', 'fcmp', 'fneg'):
            fr.env[ins.res] = ex.fop(st, fr, ins)
        else:
            raise Unsupported('instruction ' + ins.text.strip()[:120])
    def divmod(ex, st, x, c, w):
        """quotient and remainder by a constant as fresh values with their defining equations"""
        key = (x.get_id(), c, w)
        if key not in ex.divs or not ex.divs[key][0].eq(x):
            n = uid(); ex.divs[key] = (x, z3.BitVec('quo!%d' % n, w), z3.BitVec('rem!%d' % n, w))
        _, q, r = ex.divs[key]
        d = z3.And(x == q * c + r, z3.ULT(r, c), z3.ULE(q, z3.BitVecVal(((1 << w) - 1) // c, w)), z3.ULE(q * c, x))
        if not any(p.eq(d) for p in st.pc): st.define(d)
        return q, r
    def fname(ex, fr): return ex.mod.demangled.get(fr.f.name, fr.f.name)[:160]
    def fop(ex, st, fr, ins):
        a = ins.a
        if ins.op == 'fcmp':
            pr, t, x, y = a
            x, y = ex.val(st, fr, t, x), ex.val(st, fr, t, y)
            fx, fy = tofp(x), tofp(y)
            st_ = {'oeq': lambda: z3.fpEQ(fx, fy), 'une': lambda: z3.Not(z3.fpEQ(fx, fy)), 'olt': lambda: z3.fpLT(fx, fy), 'ogt': lambda: z3.fpGT(fx, fy),
                   'ole': lambda: z3.fpLEQ(fx, fy), 'oge': lambda: z3.fpGEQ(fx, fy), 'uno': lambda: z3.Or(z3.fpIsNaN(fx), z3.fpIsNaN(fy)),
                   'ord': lambda: z3.Not(z3.Or(z3.fpIsNaN(fx), z3.fpIsNaN(fy)))}
            if pr not in st_: raise Unsupported('fcmp ' + pr)
            return b2i(simp(st_[pr]()))
        raise Unsupported('floating point ' + ins.op)
    def icmp(ex, st, pr, rt, x, y):
        if isinstance(rt, PtrTy):
            if isinstance(x, FnPtr) or isinstance(y, FnPtr):
                if isinstance(x, FnPtr) and isinstance(y, FnPtr): same = x.name == y.name
                else: same = False
                if pr == 'eq': return int(same)
                if pr == 'ne': return int(not same)
                raise Unsupported('fn ptr cmp')
            if x.obj == y.obj:
                return cmp(pr, x.off, y.off, 64)
            if x.obj is None or y.obj is None:
                o = y if x.obj is None else x; r = x if x.obj is None else y
                if is_c(r.off) and r.off == 0 :
                    if pr == 'eq': return 0
                    if pr == 'ne': return 1
                if pr in ('eq', 'ne') :
                    pass
            else:
                # different objects: distinct addresses (one-past-the-end coincidences are not modelled)
                if pr == 'eq': return 0
                if pr == 'ne': return 1
            return cmp(pr, ex.p2i(st, x), ex.p2i(st, y), 64)
        if not isinstance(rt, IntTy): raise Unsupported('vector icmp')
        return cmp(pr, x, y, rt.w)
    def cast(ex, st, o, t, v, t2):
        if o == 'trunc':
            if is_c(v): return v & ((1 << t2.w) - 1)
            return simp(z3.Extract(t2.w - 1, 0, v))
        if o == 'zext':
            if is_c(v): return v
            return simp(z3.ZeroExt(t2.w - t.w, v))
        if o == 'sext':
            if is_c(v): return sgn(v, t.w) & ((1 << t2.w) - 1)
            return simp(z3.SignExt(t2.w - t.w, v))
        if o == 'ptrtoint': return ex.as_type(st, ex.p2i(st, v), t2)
        if o == 'inttoptr': return ex.i2p(st, v)
        if o == 'bitcast':
            if isinstance(v, FP) and isinstance(t2, IntTy): return v.b
            if isinstance(t, IntTy) and isinstance(t2, FloatTy): return FP(t.w, v)
            return v
        if o in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            if isinstance(t2, FloatTy): return FP(ex.mod.size(t2) * 8, fresh(ex.mod.size(t2) * 8, 'fpc'))
            raise Unsupported('cast ' + o)
        raise Unsupported('cast ' + o)
    def select(ex, st, c, t, x, y):
        if isinstance(c, bool): return x if c else y
        if isinstance(t, IntTy): return ite(c, x, y, t.w)
        if isinstance(t, PtrTy) and isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj == y.obj: return Ptr(x.obj, ite(c, x.off, y.off, 64))
        d = ex.decide(st, c)
        return x if d else y
    def landing(ex, st, clauses):
        exc = st.exc
        for c in clauses:
            if c[0] == 'catch':
                if c[1][0] == 'null': return 1
                nm = c[1][1]
                if exc is not None and ex.exc_matches(exc.ti, nm): return ex.typeid(nm)
        return 0
    def typeid(ex, nm):
        return (hash(nm) & 0xffff) + 2
    def exc_matches(ex, ti, nm):
        if ti is None: return False
        if ti == nm: return True
        seen = set(); todo = [ti]
        while todo:
            x = todo.pop()
            if x == nm: return True
            if x in seen: continue
            seen.add(x)
            if x in ex.mod.globals:
                g = ex.mod.globals[x]
                import re
                todo += [y for y in re.findall(r'@(_ZTI\w+)', g)]
            todo += KNOWN_BASES.get(x, [])
        return False

    # ------------------------------------------------------------ calls
    def do_call(ex, st, fr, ins, depth, region, header, probe):
        t, callee, args, nd, ud = ins.a
        if callee[0] == 'asm':
            if ins.res is not None: raise Unsupported('asm with result')
            return ex.finish_call(st, ins, None, depth, region, header, probe)
        cv = ex.val(st, fr, PTR, callee)
        if isinstance(cv, Ptr):
            raise Unsupported('indirect call through %r in %s' % (cv, ex.fname(fr)))
        name = cv.name
        argv = [ex.val(st, fr, at, av) if av[0] != 'meta' else None for at, av, _ in args]
        try:
            return ex.invoke_fn(st, fr, ins, name, argv, depth, region, header, probe)
        except ForkOn as fk:
            s2 = st.fork()
            st.assume(fk.c); s2.assume(Not(fk.c))
            return [('work', s) for s in (st, s2) if ex.feasible(s)]
    def invoke_fn(ex, st, fr, ins, name, argv, depth, region, header, probe):
        h = ex.handler(name)
        if h is not None:
            r = h(ex, st, argv, ins, name)
            if r is INLINE: pass
            else: return ex.handle_result(st, ins, r, depth, region, header, probe)
        if name in ex.mod.funcs:
            if ex.merge_calls and ex.mergeable(name):
                return ex.merged_call(st, ins, name, argv, depth, region, header, probe)
            ex.call_function(st, name, argv)
            f = st.frames[-1].f
            st.frames[-1].blk = f.entry
            L = ll.loops(f)
            if f.entry in L: raise Unsupported('loop at entry')
            return None
        raise Unsupported('no contract for external %s' % ex.mod.demangled.get(name, name)[:200])
    merge_calls = True
    def ret_type(ex, f):
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'ret' and i.a[1] is not None: return ex.mod.resolve(i.a[0])
        return None
    def mergeable(ex, name):
        r = ex.mcache.get(name)
        if r is None:
            f = ex.mod.funcs[name].parse()
            rt = ex.ret_type(f)
            r = isinstance(rt, IntTy) and len(f.blocks) > 1
            ex.mcache[name] = r
        return r
    def merged_call(ex, st, ins, name, argv, depth, region, header, probe):
        """call whose outcomes are joined again (the callee's paths become one value)"""
        n0 = len(st.pc); ids0 = set(st.mem); nf = len(st.frames)
        sb = ex.cur_bounds; ex.cur_bounds = None
        try: done = ex.run_function(st.fork(), name, argv)
        finally: ex.cur_bounds = sb
        rets = [d for d in done if d.kind == 'ret']; others = [d for d in done if d.kind != 'ret']
        groups = []
        for d in rets:
            for g in groups:
                if ex.can_merge(g[0].st, d.st, ids0) and (isinstance(g[0].val, int) or z3.is_bv(g[0].val)): g.append(d); break
            else: groups.append([d])
        alts = []
        ex.mergew = ex.ret_type(ex.mod.funcs[name].parse()).w
        for g in groups:
            if len(g) == 1: alts.append((g[0].st, g[0].val)); continue
            s, v = ex.merge(g, n0, ids0)
            alts.append((s, v))
        for d in others: alts.append((d.st, Throw(d.val)))
        if not alts: raise PathEnd()
        return ex.handle_result(st, ins, Multi(alts), depth, region, header, probe)
    def can_merge(ex, a, b, ids):
        if a.taint != b.taint or a.caught != b.caught: return False
        for k in ids:
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y: continue
            if x is None or y is None or x.kind != y.kind or x.alive != y.alive: return False
            if x.kind == 'rope':
                if not rope_same(x.rope, y.rope): return False
            elif x.kind == 'arr':
                if not (x.arr.eq(y.arr) and same(x.size, y.size)): return False
            elif x.kind == 'custom':
                if not x.meta.same(y.meta): return False
            else:
                for c in set(x.cells) | set(y.cells):
                    p, q = x.cells.get(c), y.cells.get(c)
                    if p is None or q is None or p[0] != q[0]: return False
                    if same(p[1], q[1]): continue
                    if not ((is_c(p[1]) or z3.is_bv(p[1])) and (is_c(q[1]) or z3.is_bv(q[1]))): return False
        for k in a.ghost:
            if not same(a.ghost[k], b.ghost.get(k)): return False
        return True
    def merge(ex, g, n0, ids):
        s = g[0].st
        conds = []; defs = []; seen = set()
        for d in g:
            cs = []
            for c in d.st.pc[n0:]:
                if c.get_id() in DEFS and DEFS[c.get_id()].eq(c):
                    if c.get_id() not in seen: seen.add(c.get_id()); defs.append(c)
                else: cs.append(c)
            conds.append(zb(And(*cs)))
        s.pc = s.pc[:n0] + defs + [z3.simplify(z3.Or(*conds))]
        def pick(vals, w):
            r = vals[-1]
            for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])): r = ite(c, v, r, w)
            return r
        for k in ids:
            o = s.mem.get(k)
            if o is None or o.kind != 'cells': continue
            for c, (n, v) in list(o.cells.items()):
                vs = [d.st.mem[k].cells[c][1] for d in g]
                if all(same(v, x) for x in vs): continue
                o = s.w(k); o.cells[c] = (n, pick(vs, next((x.size() for x in vs if z3.is_bv(x)), n * 8)))
        v = None
        vs = [d.val for d in g]
        if vs[0] is not None:
            w = next((x.size() for x in vs if z3.is_bv(x)), None)
            if w is None:
                w = ex.mergew
            v = pick(vs, w)
        return s, v
    def handle_result(ex, st, ins, r, depth, region, header, probe):
        if isinstance(r, Throw):
            return ex.fix(ex.throw(r.st or st, r.exc, depth), depth, region, header, probe)
        if isinstance(r, Multi):
            out = []
            for s, v in r.alts:
                if isinstance(v, Throw): out.extend(ex.fix(ex.throw(s, v.exc, depth), depth, region, header, probe))
                elif isinstance(v, Abort): pass
                else:
                    x = ex.finish_call(s, ins, v, depth, region, header, probe)
                    out.extend([('work', s)] if x is None else x)
            return out
        return ex.finish_call(st, ins, r, depth, region, header, probe)
    def finish_call(ex, st, ins, v, depth, region, header, probe):
        fr = st.frames[-1]
        if ins.res is not None: fr.env[ins.res] = v
        if ins.op == 'invoke':
            return ex.fix([('goto', st, ins.a[3])], depth, region, header, probe)
        fr.ip += 1
        return None
    def fix(ex, rs, depth, region, header, probe):
        out = []
        if rs is None: return None
        for r in rs:
            if r[0] == 'goto':
                s = r[1]
                out.extend(ex.goto(s, r[2], depth, region, header, probe))
            else: out.append(r)
        return out

    def handler(ex, name):
        if name in ex.hcache: return ex.hcache[name]
        dem = ex.mod.demangled.get(name, name)
        h = None
        for lib in ex.libs:
            h = lib(ex, name, dem)
            if h is not None:
                ex.used_contracts[dem[:200]] = getattr(h, 'trust', 'lib')
                break
        ex.hcache[name] = h
        return h

    # ------------------------------------------------------------ loops
    def handle_loop(ex, st, hdr, body):
        """-> list of exit states (positioned after the loop) ; st is positioned at the header (phis evaluated)"""
        depth = len(st.frames) - 1
        nobl = len(ex.obl)
        save_bounds = ex.cur_bounds
        np = ex.peel(ex.mod.demangled.get(st.frames[-1].f.name, st.frames[-1].f.name)) if ex.peel else 0
        if np:
            # the first iterations one by one, the remaining ones by an invariant
            try:
                ex.cur_bounds = None; work = [st]; outs = []
                for _ in range(np):
                    nxt = []
                    for s in work:
                        done, exits, backs = ex.explore([s], depth, body, hdr, None); outs += exits + done; nxt += backs
                    work = nxt
                    if not work: break
                for s in work: outs += ex.cut_loop(s, hdr, body, depth)
                return outs
            finally:
                ex.cur_bounds = save_bounds
        try:
            ex.cur_bounds = None
            snap = st.fork()
            probe = {'iters': 0, 'sym': 0, 'conc': 0}
            ex.nocut = getattr(ex, 'nocut', 0)
            try:
                done, exits, backs = ex.explore([snap], depth, body, hdr, probe)
                return exits + done
            except NeedCut:
                del ex.obl[nobl:]
            return ex.cut_loop(st, hdr, body, depth)
        finally:
            ex.cur_bounds = save_bounds

    def cut_loop(ex, entry, hdr, body, depth):
        fr = entry.frames[-1]
        f = fr.f
        nobl = len(ex.obl)
        phis = f.blocks[hdr].phis
        mod = {}     # (oid, kind/off) -> descriptor
        keep_off = set()
        cands = None; removed = set(); groups = set()
        rounds = 0
        itk = 'it:%d:%s' % (depth, hdr)
        entry.ghost[itk] = 0
        ex.loopdepth += 1
        try:
            while True:
                rounds += 1
                if rounds > 40: raise Unsupported('loop fixpoint does not converge in ' + ex.fname(fr))
                del ex.obl[nobl:]
                lc = LoopCtx(ex, f, hdr, entry, depth)
                S0 = entry.fork()
                it = fresh(64, 'it'); lc.it = ('ghost', itk, 64); lc.vars.append(lc.it)
                ex.havoc(S0, entry, phis, mod, lc)
                S0.ghost[itk] = it; S0.assume(z3.ULT(it, z3.BitVecVal(1 << 56, 64)))
                lc.S0 = S0
                active = []
                if cands is not None:
                    for c in cands:
                        if c.key not in removed:
                            g = c.at(lc, S0)
                            if g is None: continue
                            active.append(c); S0.assume(g)
                    for g in lc.facts(S0): S0.assume(g)
                lc.init_pc = len(S0.pc)
                ex.cur_bounds = []
                S0c = S0.fork()
                done, exits, backs = ex.explore([S0c], depth, body, hdr, None)
                bounds = ex.cur_bounds; ex.cur_bounds = None
                nb = []
                for b in backs:      # an iteration after which the loop certainly ends may change what no invariant can describe
                    try: ex.diff(S0, b); nb.append(b)
                    except Unsupported:
                        d2, e2, b2 = ex.explore([b.fork()], depth, body, hdr, None)
                        if b2: raise
                        done = done + d2; exits = exits + e2
                backs = nb
                for b in backs: b.ghost[itk] = simp(it + 1)
                # 1. modified memory
                grew = False
                for b in backs:
                    for k, d in ex.diff(S0, b):
                        if k not in mod or (mod[k] != d and d == 'junk'):
                            mod[k] = d; grew = True
                if grew:
                    cands = None; continue
                # 2. candidates
                if cands is None:
                    cands = ex.gen_candidates(lc, S0, backs, bounds)
                    groups = {c.group for c in cands if c.group is not None}
                    removed = set()
                    keep = []; fs = lc.facts(entry); todo = []
                    for c in cands:
                        g = c.at(lc, entry)
                        if g is None: continue
                        if g is True or (g is not False and z3.is_true(g)): keep.append(c); continue
                        todo.append((c, g))
                    rs = solve.pmap([lambda g=g: solve.check(entry.pc + fs + [zb(Not(g))], 4000) for c, g in todo])
                    for (c, g), r in zip(todo, rs):
                        if r == 'unsat': keep.append(c)
                        elif c.must: ex.log.append('candidate %s fails on entry' % (c.key,))
                    cands = keep
                    if cands: continue
                # 3. inductiveness
                bad = []; jobs = []
                fS = lc.facts(S0)
                for b in backs:
                    fb = lc.facts(b)
                    for c in active:
                        g = c.at(lc, b)
                        if g is None: bad.append(c); continue
                        if g is True or (g is not False and z3.is_true(g)): continue
                        jobs.append((c, b, g, fb))
                rs = solve.pmap([lambda b=b, g=g, fb=fb: solve.check(b.pc + fS + fb + [zb(Not(g))], 5000) for c, b, g, fb in jobs])
                for (c, b, g, fb), r in zip(jobs, rs):
                    if r != 'unsat' and c not in bad: bad.append(c)
                if bad:
                    for c in bad:
                        removed.add(c.key)
                        if c.must: ex.log.append('candidate %s not inductive' % (c.key,))
                    continue
                # structural invariants
                for b in backs: ex.check_struct(lc, S0, b, phis, mod)
                ex.loops_cut.append((ex.fname(fr), hdr, [c.key for c in active]))
                lost = groups - {c.group for c in active}
                for s in exits + done:
                    if s in exits:
                        for g in lc.facts(S0): s.assume(g)
                    if lost: (s if isinstance(s, State) else s.st).taint |= frozenset('invariant of %s at %s not found: %s' % (ex.fname(fr)[:60], hdr, g) for g in lost)
                return exits + done
        finally:
            ex.loopdepth -= 1

    def havoc(ex, S0, entry, phis, mod, lc):
        fr = S0.frames[-1]
        for ph in phis:
            t = ex.mod.resolve(ph.a[0]); v = fr.env[ph.res]
            if isinstance(t, IntTy):
                nv = fresh(t.w, 'h_' + ph.res); fr.env[ph.res] = nv
                lc.vars.append(('phi', ph.res, t.w))
            elif isinstance(t, PtrTy):
                if isinstance(v, Ptr) and v.obj is not None:
                    fr.env[ph.res] = Ptr(v.obj, fresh(64, 'h_' + ph.res)); lc.vars.append(('phip', ph.res, 64))
                else: fr.env[ph.res] = JUNK
            elif isinstance(t, FloatTy):
                fr.env[ph.res] = FP(ex.mod.size(t) * 8, fresh(ex.mod.size(t) * 8, 'h'))
            else: raise Unsupported('aggregate phi')
        for (oid, off), d in mod.items():
            if oid not in S0.mem: continue
            if d == 'junk':
                o = S0.w(oid); n = o.cells.get(off, (1,))[0]; o.cells[off] = (n, JUNK); continue
            o = S0.w(oid)
            if off == 'rope':
                n = fresh(64, 'hl'); o.rope = [('o', fresh_seq('h'), n)]
                S0.assume(z3.ULT(n, z3.BitVecVal(1 << 62, 64)))
                lc.vars.append(('rope', oid, 64))
            elif off == 'arr':
                o.arr = fresh_arr('ha'); lc.vars.append(('arr', oid, 0))
            elif off == 'size':
                o.size = fresh(64, 'hs'); lc.vars.append(('size', oid, 64))
            elif off == 'custom':
                o.meta = o.meta.havoc(ex, S0, oid, lc)
            else:
                n, v = o.cells.get(off, (None, None))
                if d[0] == 'int':
                    o.cells[off] = (d[1], fresh(d[1] * 8, 'hm')); lc.vars.append(('cell', (oid, off), d[1] * 8))
                elif d[0] == 'ptr' and isinstance(v, Ptr) and v.obj is not None and v.obj == d[1]:
                    o.cells[off] = (8, Ptr(v.obj, fresh(64, 'hm'))); lc.vars.append(('cellp', (oid, off), 64))
                elif d[0] == 'lib':
                    o.cells[off] = (n, v.havoc(ex, S0, lc, (oid, off)))
                else:
                    o.cells[off] = (n if n else d[1] if d[0] == 'int' else 8, JUNK)
        if 'ghost' in mod: pass
        for g, v in list(S0.ghost.items()):
            if isinstance(g, str) and g.startswith('~'): continue    # bookkeeping that is not part of the loop state
            if mod.get(('ghost', g)):
                S0.ghost[g] = fresh_like(v); lc.vars.append(('ghost', g, v.size() if z3.is_bv(v) else 64 if is_c(v) else 0))

    def diff(ex, S0, b):
        out = []
        for oid, o in S0.mem.items():
            p = b.mem.get(oid)
            if p is o or p is None: continue
            if o.alive != p.alive:
                out.append(((oid, '*alive'), 'junk'))
                raise Unsupported('object lifetime changes in loop: ' + o.name)
            if o.kind != p.kind: raise Unsupported('object kind changes in loop')
            if o.kind == 'rope':
                if not rope_same(o.rope, p.rope): out.append(((oid, 'rope'), ('rope',)))
            elif o.kind == 'arr':
                if not o.arr.eq(p.arr): out.append(((oid, 'arr'), ('arr',)))
                if not same(o.size, p.size): out.append(((oid, 'size'), ('size',)))
            elif o.kind == 'custom':
                if not o.meta.same(p.meta): out.append(((oid, 'custom'), ('custom',)))
            else:
                for k in set(o.cells) | set(p.cells):
                    c, d = o.cells.get(k), p.cells.get(k)
                    if c is not None and c[1] is JUNK: continue
                    if c is not None and d is not None and c[0] == d[0] and same(c[1], d[1]): continue
                    if d is None:
                        out.append(((oid, k), 'junk')); continue
                    if isinstance(d[1], LibVal) and c is not None and isinstance(c[1], LibVal):
                        if getattr(d[1], 'frozen', False): raise Unsupported('%s changes in loop' % type(d[1]).__name__)
                        out.append(((oid, k), ('lib',)))
                    elif is_c(d[1]) or z3.is_bv(d[1]):
                        if c is None or not (is_c(c[1]) or z3.is_bv(c[1])) or c[0] != d[0]:
                            # not initialised before the loop: any value
                            out.append(((oid, k), ('int', d[0]) if c is None else 'junk'))
                        else: out.append(((oid, k), ('int', d[0])))
                    elif isinstance(d[1], Ptr) and c is not None and isinstance(c[1], Ptr) and c[1].obj == d[1].obj and c[1].obj is not None:
                        out.append(((oid, k), ('ptr', d[1].obj)))
                    else:
                        out.append(((oid, k), 'junk'))
        for g, v in S0.ghost.items():
            if isinstance(g, str) and g.startswith('~'): continue
            w = b.ghost.get(g)
            if g.startswith('it:'): continue
            if not same(v, w): out.append((('ghost', g), ('ghost',)))
        return out

    def check_struct(ex, lc, S0, b, phis, mod):
        fr = b.frames[-1]; f0 = S0.frames[-1]
        for ph in phis:
            v, u = fr.env[ph.res], f0.env[ph.res]
            if isinstance(u, Ptr) and isinstance(v, Ptr) and u.obj != v.obj:
                raise Unsupported('pointer phi changes object')
            if isinstance(u, Ptr) and not isinstance(v, Ptr): raise Unsupported('ptr phi')
        for (oid, off), d in mod.items():
            if oid == 'ghost' or d == 'junk': continue
            o, p = S0.mem[oid], b.mem[oid]
            if isinstance(off, int):
                c, e = o.cells.get(off), p.cells.get(off)
                if isinstance(c[1], LibVal):
                    c[1].check_same_shape(e[1])
                elif c[1] is JUNK: pass
                elif isinstance(c[1], Ptr) and (not isinstance(e[1], Ptr) or e[1].obj != c[1].obj): raise Unsupported('ptr cell changes object')

    # ---- candidate invariants (Houdini): inferred from the loop itself, plus the property's hints
    def gen_candidates(ex, lc, S0, backs, bounds):
        cs = []
        vars_ = [v for v in lc.vars if v[0] in ('phi', 'phip', 'cell', 'cellp', 'rope', 'size', 'ghost') and v[2] in (8, 16, 32, 64)]
        E = lambda v: lc.get(lc.entry, v)
        delta = {}
        for v in vars_:
            ds = set()
            for b in backs:
                x, y = lc.get(b, v), lc.get(S0, v)
                if x is None or y is None: ds.add(None); continue
                d = sub(x, y, v[2])
                ds.add(d if is_c(d) else None)
            if len(ds) == 1 and None not in ds: delta[v] = ds.pop()
        lc.delta = delta
        # linear relations between constantly advancing variables
        dv = [v for v in vars_ if v in delta and delta[v] != 0]
        import math
        itv = lc.it
        for v in dv:
            if v == itv: continue
            W = v[2]; d = delta[v]
            def lin(lc, s, v=v, d=d, W=W):
                k = lc.get(s, itv)
                if not is_c(k): k = z3.Extract(W - 1, 0, k) if W < 64 else k
                return eq(lc.get(s, v), add(lc.get(lc.entry, v), mul(k, d, W), W), W)
            cs.append(Cand(('lin', v), lin))
        for v in vars_:
            if v in delta and delta[v] == 0:
                cs.append(Cand(('const', v), lambda lc, s, v=v: eq(lc.get(s, v), lc.get(lc.entry, v), v[2])))
                continue
            if v == itv: continue
            sd = sgn(delta[v], v[2]) if v in delta else None
            if sd is not None: 
                cs.append(Cand(('mono', v), lambda lc, s, v=v, sd=sd: (ule(lc.get(lc.entry, v), lc.get(s, v), v[2]) if sd > 0 else ule(lc.get(s, v), lc.get(lc.entry, v), v[2]))))
                continue
            cs.append(Cand(('ge', v), lambda lc, s, v=v: ule(lc.get(lc.entry, v), lc.get(s, v), v[2])))
            if v[2] < 64 or v[0] in ('phi', 'cell'):
                cs.append(Cand(('sge', v), lambda lc, s, v=v: simp(bv(lc.get(lc.entry, v), v[2]) <= bv(lc.get(s, v), v[2]))))
            cs.append(Cand(('le0', v), lambda lc, s, v=v: ule(lc.get(s, v), lc.get(lc.entry, v), v[2])))
        # bounds compared against in exit conditions
        hv = lc.havoc_names()
        bs = {}; signed = False
        for c in bounds:
            for t in z3_terms(c):
                if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ): signed = True
            for t in z3_terms(c):
                if z3.is_bv(t) and t.size() in (8, 16, 32, 64) and not z3.is_bv_value(t) and t.num_args() <= 3 or z3.is_bv_value(t):
                    if not (names_in(t) & hv): bs[t.get_id()] = t
        for v in vars_:
            # a bound that never changes: entry values of other quantities and bound terms of equal width
            for t in list(bs.values())[:24]:
                if t.size() != v[2]: continue
                cs.append(Cand(('ub', v, str(t)), lambda lc, s, v=v, t=t: ule(lc.get(s, v), t, v[2])))
                if signed: cs.append(Cand(('sub', v, str(t)), lambda lc, s, v=v, t=t: simp(bv(lc.get(s, v), v[2]) <= t)))
        # generalised path condition: every element already passed satisfied what the iteration established about it
        if ex.houdini_quant and backs:
            cs += ex.gen_quant(lc, S0, backs, vars_)
        for h in ex.hints: cs += h(lc, vars_) or []
        return cs

    def gen_quant(ex, lc, S0, backs, vars_):
        out = []
        for v in vars_:
            if v[2] != 64 or v not in lc.delta or sgn(lc.delta[v], 64) not in (1, -1): continue
            x = lc.get(S0, v)
            if not (z3.is_const(x)): continue
            xn = x.decl().name()
            hv = lc.havoc_names() - {xn}
            disj = []
            for b in backs:
                conj = []
                for c in b.pc[lc.init_pc:]:
                    nm = names_in(c)
                    if xn in nm and not (nm & hv) and not has_fresh_quant(c) and any(z3.is_select(t) for t in z3_terms(c)): conj.append(c)
                disj.append(And(*conj))
            phi = Or(*disj)
            if phi is True or phi is False: continue
            e = bv(lc.get(lc.entry, v), 64)
            up = sgn(lc.delta[v], 64) == 1
            def at(lc, s, v=v, phi=phi, x=x, e=e, up=up):
                y = bv(lc.get(s, v), 64)
                k = z3.BitVec('q!k', 64)
                body = z3.substitute(phi, (x, k))
                rng = z3.And(z3.ULE(e, k), z3.ULT(k, y)) if up else z3.And(z3.ULE(k, e), z3.UGT(k, y))
                pats = [t for t in z3_terms(body) if z3.is_select(t) and 'q!k' in names_in(t)]
                return z3.ForAll([k], z3.Implies(rng, body), patterns=pats[:1]) if pats else None
            out.append(Cand(('quant', v, str(phi)[:80]), at))
        return out

class Cand:
    def __init__(s, key, fn, must=False, group=None): s.key, s.fn, s.must, s.group = key, fn, must, group
    def at(s, lc, st):
        try: return s.fn(lc, st)
        except (Unsupported, AttributeError, KeyError, TypeError): return None

class LoopCtx:
    def __init__(lc, ex, f, hdr, entry, depth):
        lc.ex, lc.f, lc.hdr, lc.entry, lc.depth = ex, f, hdr, entry, depth
        lc.vars = []; lc.S0 = None; lc.delta = {}; lc.init_pc = 0; lc._facts = []
    def get(lc, st, v):
        k = v[0]
        if k == 'phi': return st.frames[lc.depth].env[v[1]]
        if k == 'phip':
            p = st.frames[lc.depth].env[v[1]]; return p.off
        if k == 'cell': return st.mem[v[1][0]].cells[v[1][1]][1]
        if k == 'cellp': return st.mem[v[1][0]].cells[v[1][1]][1].off
        if k == 'rope': return r_len(st.mem[v[1]].rope)
        if k == 'size': return st.mem[v[1]].size
        if k == 'ghost': return st.ghost[v[1]]
        if k == 'lib': return st.mem[v[1][0]].cells[v[1][1]][1].lcget(v[2:])
        raise KeyError(k)
    def havoc_names(lc):
        ns = set()
        for v in lc.vars:
            try: x = lc.get(lc.S0, v)
            except Exception: continue
            if z3.is_expr(x): ns |= names_in(x)
        return ns
    def facts(lc, st):
        out = []
        for h in getattr(lc.ex, 'fact_hints', []): out += [zb(x) for x in h(lc, st)]
        return out

class LibVal:
    """abstract value of a standard-library object (immutable)"""
    size = 0
    def havoc(s, ex, st, lc, loc): raise Unsupported('havoc of ' + type(s).__name__)
    def check_same_shape(s, o):
        if type(o) is not type(s): raise Unsupported('library object changes shape in loop')
    def same(s, o): return s is o

class PathEnd(Exception): pass
class ForkOn(Exception):
    def __init__(s, c): s.c = zb(c)
class Exc:
    def __init__(s, ti, ptr=NULL): s.ti, s.ptr = ti, ptr
class Throw:
    def __init__(s, exc, st=None): s.exc, s.st = exc, st
class Abort: pass
class Multi:
    def __init__(s, alts): s.alts = alts
class _Inline: pass
INLINE = _Inline()

KNOWN_BASES = {
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt12system_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
}

# ---------------------------------------------------------------- helpers
def same(a, b):
    if a is b: return True
    if is_c(a) or is_c(b): return is_c(a) and is_c(b) and a == b
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
    if isinstance(a, FP) and isinstance(b, FP): return same(a.b, b.b)
    if isinstance(a, LibVal) and isinstance(b, LibVal): return type(a) is type(b) and a.same(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b if isinstance(a, (str, type(None))) else False
def rope_same(a, b):
    return len(a) == len(b) and all(len(p) == len(q) and p[0] == q[0] and all(same(x, y) for x, y in zip(p[1:], q[1:])) for p, q in zip(a, b))
def fresh_like(v):
    if z3.is_bv(v): return fresh(v.size(), 'hg')
    if is_c(v): return fresh(64, 'hg')
    if z3.is_expr(v): return z3.Const('hg!%d' % uid(), v.sort())
    raise Unsupported('ghost havoc')
def z3_terms(e):
    seen = set(); st = [e]; out = []
    while st:
        x = st.pop()
        if not z3.is_expr(x) or x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x)
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return out
def names_in(e):
    return {t.decl().name() for t in z3_terms(e) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED}
def has_fresh_quant(c): return any(z3.is_quantifier(t) for t in z3_terms(c))
def ext(v, w):
    if w == 64: return v
    if is_c(v): return sgn(v, w) & ((1 << 64) - 1)
    return simp(z3.SignExt(64 - w, v))
def b2i(c):
    if isinstance(c, bool): return int(c)
    return simp(z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
def ins_val(v, ix, w):
    v = list(v)
    if len(ix) == 1: v[ix[0]] = w
    else: v[ix[0]] = ins_val(v[ix[0]], ix[1:], w)
    return v
def rmw(o, old, v, w):
    if o == 'add': return add(old, v, w)
    if o == 'sub': return sub(old, v, w)
    if o == 'xchg': return v
    if o in ('or', 'and', 'xor'): return binop(o, old, v, w)
    raise Unsupported('atomicrmw ' + o)
def binop(o, a, b, w):
    M = (1 << w) - 1
    if is_c(a) and is_c(b):
        if o == 'add': return (a + b) & M
        if o == 'sub': return (a - b) & M
        if o == 'mul': return (a * b) & M
        if o == 'and': return a & b
        if o == 'or': return a | b
        if o == 'xor': return a ^ b
        if o == 'shl': return (a << b) & M if b < w else 0
        if o == 'lshr': return a >> b if b < w else 0
        if o == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & M
        if o == 'udiv' and b: return a // b
        if o == 'urem' and b: return a % b
        if o in ('sdiv', 'srem') and b:
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if o == 'sdiv' else x - q * y) & M
    x, y = bv(a, w), bv(b, w)
    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
         'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
         'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[o]()
    return simp(r)
def nsw_ok(o, a, b, w):
    x, y = bv(a, w), bv(b, w)
    if o == 'add': return simp(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
    if o == 'sub': return simp(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
    if o == 'mul': return simp(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
    if o == 'shl': return simp(z3.And(z3.ULT(y, w), ((x << y) >> y) == x))
    return True
def cmp(pr, a, b, w):
    if is_c(a) and is_c(b):
        x, y = sgn(a, w), sgn(b, w)
        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pr])
    x, y = bv(a, w), bv(b, w)
    c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
         'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pr]()
    return b2i(simp(c))
def tree_lookup(idx, vals, w):
    idx = bv(idx, 64)
    bits = max(1, (len(vals) - 1).bit_length())
    lo = z3.Extract(bits - 1, 0, idx)
    def build(l, h, b):
        if h - l == 1 or len(set(vals[l:h])) == 1: return z3.BitVecVal(vals[l], w)
        mid = l + (1 << (b - 1))
        if mid >= h: return build(l, h, b - 1)
        return z3.If(z3.Extract(b - 1, b - 1, idx) == 1, build(mid, h, b - 1), build(l, mid, b - 1))
    return simp(build(0, len(vals), bits))
def tofp(v):
    s = {32: z3.Float32(), 64: z3.Float64()}.get(v.w)
    if s is None: raise Unsupported('fp80')
    return z3.fpBVToFP(bv(v.b, v.w), s)
def fpbits(txt, name):
    import struct
    if txt.startswith('0x') and not txt[2].isalpha() or txt.startswith('0x') and txt[2] in 'abcdefABCDEF':
        d = int(txt[2:], 16)
        if name == 'double': return d
        if name == 'float': return struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', d))[0]))[0]
        return d
    if txt.startswith('0x'): return 0
    x = float(txt)
    return struct.unpack('<Q', struct.pack('<d', x))[0] if name == 'double' else struct.unpack('<I', struct.pack('<f', x))[0]
