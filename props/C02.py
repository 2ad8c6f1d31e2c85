"""base64 decode accepts exactly the well-formed texts and inverts encode"""
from irv.prop import *
from irv.spec import *
import C01
from C01 import quad, sym64, at
NATIVE = ['base64.cpp']
def val(ch):
    """character -> 6-bit value (8-bit term)"""
    return z3.If(z3.And(z3.UGE(ch, 65), z3.ULE(ch, 90)), ch - 65, z3.If(z3.And(z3.UGE(ch, 97), z3.ULE(ch, 122)), ch - 71, z3.If(z3.And(z3.UGE(ch, 48), z3.ULE(ch, 57)), ch + 4, z3.If(ch == 43, z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))
def ok(ch):
    return z3.Or(z3.And(z3.UGE(ch, 65), z3.ULE(ch, 90)), z3.And(z3.UGE(ch, 97), z3.ULE(ch, 122)), z3.And(z3.UGE(ch, 48), z3.ULE(ch, 57)), ch == 43, ch == 47)
def bytes3(a, b, c, d):
    a, b, c, d = val(a), val(b), val(c), val(d)
    return [(a << 2) | z3.LShR(b, 4), ((b & 15) << 4) | z3.LShR(c, 2), ((c & 3) << 6) | d]
EQ = 61
def prove(c):
    def part():
        m = c.module('base64.cpp')
        ex = c.executor(m, budget=400)
        st = X.State(); n = z3.BitVec('n', 64); st.assume(z3.ULT(n, 1 << 56))
        buf = ex.new_arr(st, n, 'text'); out = ex.alloc(st, 32, 'cells', 'result')
        arr = st.mem[buf].arr
        c.n, c.arr = n, arr
        A = lambda k: at(arr, k)
        F = Fold('dec4', lambda k: bytes3(A(4 * k), A(4 * k + 1), A(4 * k + 2), A(4 * k + 3)))
        F.attach(ex)
        c.reach('decode precondition', st)
        done = ex.run_function(st, 'u_decode', [Ptr(out, 0), Ptr(buf, 0), n])
        k = z3.BitVec('wk', 64)
        for d in done:
            s = d.st
            if d.kind == 'throw': ex.oblige(s, 'decode does not throw', False); continue
            q, r = ex.divmod(s, n, 4, 64); s.assume(F.zero())
            has = ex.load(s, Ptr(out, 24), IntTy8)
            has = ex.cond(simp(z3.Extract(0, 0, bv(has, 8))))
            L1, L2, L3 = A(n - 1), A(n - 2), A(n - 3)
            tail = z3.Or(z3.And(ok(L2), z3.Or(ok(L1), L1 == EQ)), z3.And(L2 == EQ, L1 == EQ))
            # "well formed" split into two implications so that each needs the quantifier in one polarity only
            allok = z3.ForAll([k], z3.Implies(z3.ULT(k, n - 2), ok(A(k))), patterns=[A(k)])
            s1 = s.fork()
            if has is not False:
                s1.assume(has)
                w = z3.BitVec('w!%d' % uid(), 64)
                ex.oblige(s1, 'decode: accepts only texts whose length is a multiple of four', r == 0)
                ex.oblige(s1, 'decode: accepts only well-formed text', z3.Or(n == 0, z3.And(z3.Implies(z3.ULT(w, n - 2), ok(A(w))), tail)))
                v = s.mem[out].cells.get(0)
                rope = None
                if v is not None and isinstance(v[1], lib.Vec):
                    rope = r_norm(lib.rope_of(ex, s1, Ptr(out, 0), lib.Vec)); t = r_term(rope)
                    b = F.F(q - 1); lb = bytes3(A(n - 4), L3, L2, L1)
                    ex.oblige(s1, 'decode: empty text gives no bytes', z3.Implies(n == 0, bv(r_len(rope), 64) == 0))
                    pre = z3.And(n != 0, r == 0, ok(A(n - 4)), ok(L3))
                    ex.oblige(s1, 'decode: bytes of text without padding', z3.Implies(z3.And(pre, ok(L2), ok(L1)), t == snocs(b, lb)))
                    ex.oblige(s1, 'decode: bytes of text with one pad character', z3.Implies(z3.And(pre, ok(L2), L1 == EQ), t == snocs(b, lb[:2])))
                    ex.oblige(s1, 'decode: bytes of text with two pad characters', z3.Implies(z3.And(pre, L2 == EQ, L1 == EQ), t == snocs(b, lb[:1])))
                else: ex.oblige(s1, 'decode: an engaged result holds a vector', False)
            s2 = s.fork()
            if has is not True:
                s2.assume(Not(has))
                ex.oblige(s2, 'decode: rejects only ill-formed text', z3.Not(z3.Or(n == 0, z3.And(r == 0, allok, tail))))
        c.reach('some text is accepted', done[0].st)
        c.collect(ex)
    c.attempt('decode', part)
    # decode inverts encode, group by group (induction step of the fold; the tails are closed cases)
    a, b, d = z3.BitVecs('la lb lc', 8)
    qd = quad(a, b, d)
    c.lemma('every encoded digit is in the alphabet', [], z3.And(*[ok(x) for x in qd]))
    c.lemma('decoding an encoded triple gives the triple back', [], z3.And(*[x == y for x, y in zip(bytes3(*qd), (a, b, d))]))
    Z = z3.BitVecVal(0, 8)
    q2 = quad(a, b, Z); q1 = quad(a, Z, Z)
    c.lemma('decoding an encoded pair (one pad) gives the pair back', [], z3.And(*[x == y for x, y in zip(bytes3(q2[0], q2[1], q2[2], z3.BitVecVal(65, 8))[:2], (a, b))]))
    c.lemma('decoding an encoded byte (two pads) gives the byte back', [], bytes3(q1[0], q1[1], z3.BitVecVal(65, 8), z3.BitVecVal(65, 8))[0] == a)
from irv.ll import IntTy
IntTy8 = IntTy(8)
def inputs_from(c, o):
    if o.kind == 'lemma': return []
    return C01.inputs_from(c, o)
