"""base64 encode = RFC 4648"""
from irv.prop import *
from irv.spec import *
NATIVE = ['base64.cpp']
def sym64(x):
    """value of a 6-bit digit -> character of the RFC 4648 alphabet (x: 8-bit term < 64)"""
    return z3.If(z3.ULT(x, 26), x + 65, z3.If(z3.ULT(x, 52), x + 71, z3.If(z3.ULT(x, 62), x - 4, z3.If(x == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8)))))
def quad(a, b, c):
    return [sym64(z3.LShR(a, 2)), sym64(((a & 3) << 4) | z3.LShR(b, 4)), sym64(((b & 15) << 2) | z3.LShR(c, 6)), sym64(c & 63)]
def at(arr, k): return z3.Select(arr, k)
def prove(c):
    def part():
        m = c.module('base64.cpp')
        ex = c.executor(m)
        st = X.State(); n = z3.BitVec('n', 64); st.assume(z3.ULT(n, 1 << 56))
        buf = ex.new_arr(st, n, 'input'); out = ex.alloc(st, 32, 'cells', 'result')
        arr = st.mem[buf].arr
        c.n, c.arr = n, arr
        F = Fold('enc3', lambda k: quad(at(arr, 3 * k), at(arr, 3 * k + 1), at(arr, 3 * k + 2)))
        F.attach(ex)
        c.reach('encode precondition', st)
        done = ex.run_function(st, 'u_encode', [Ptr(out, 0), Ptr(buf, 0), n])
        Z = z3.BitVecVal(0, 8)
        for d in done:
            s = d.st
            if d.kind == 'throw': ex.oblige(s, 'encode does not throw', False); continue
            q, r = ex.divmod(s, n, 3, 64); s.assume(F.zero())
            rope = r_norm(lib.rope_of(ex, s, Ptr(out, 0)))
            base = F.F(q); a0, a1 = at(arr, 3 * q), at(arr, 3 * q + 1)
            e1 = quad(a0, Z, Z)[:2] + [z3.BitVecVal(61, 8)] * 2
            e2 = quad(a0, a1, Z)[:3] + [z3.BitVecVal(61, 8)]
            want = z3.If(r == 0, base, z3.If(r == 1, snocs(base, e1), snocs(base, e2)))
            t = r_term(rope)
            ex.oblige(s, 'encode: result = RFC 4648 encoding of the input', z3.And(z3.Implies(r == 0, t == base), z3.Implies(r == 1, t == snocs(base, e1)), z3.Implies(r == 2, t == snocs(base, e2))))
            ex.oblige(s, 'encode: result length = 4*ceil(n/3)', bv(r_len(rope), 64) == 4 * (q + z3.If(r == 0, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))))
        for d in done: c.reach('encode exit', d.st)
        c.collect(ex)
    c.attempt('encode', part)
def inputs_from(c, o):
    out = []
    m = small_model(o, [c.n])
    for mm in (m, o.model):
        if mm is None: continue
        b = bytes_of(mm, c.arr, c.n)
        if b is not None: out.append(b.hex() or '00len0')
    return out
