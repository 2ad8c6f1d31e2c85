"""percent-encoding: encode writes exactly the RFC 3986 encoding, decode inverts it"""
from irv.prop import *
from irv.spec import *
NATIVE = ['uri.cpp']
B = lambda x: z3.BitVecVal(x, 8)
def between(c, a, b): return z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
def alnum(c): return z3.Or(between(c, 'A', 'Z'), between(c, 'a', 'z'), between(c, '0', '9'))
def unres(c): return z3.Or(alnum(c), c == 45, c == 46, c == 95, c == 126)
def hexU(x): return z3.If(z3.ULT(x, 10), x + 48, x + 55)
def isx(c): return z3.Or(between(c, '0', '9'), between(c, 'a', 'f'), between(c, 'A', 'F'))
def xval(c): return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))
PC = 37
def enc3(c): return [B(PC), hexU(z3.LShR(c, 4)), hexU(c & 15)]
def text(c, ex, nm):
    st = X.State(); n = z3.BitVec('n', 64); st.assume(z3.ULT(n, 1 << 56))
    buf = ex.new_arr(st, n, nm); out = ex.alloc(st, 32, 'cells', 'result')
    c.n, c.arr = n, st.mem[buf].arr
    return st, n, buf, out, st.mem[buf].arr
def exc_is(ex, st, nm):
    e = st.exc
    t = getattr(e, 'ti', None) if e is not None else None
    return t is not None and (nm in str(t))
def decode_chain(arr, n, strict):
    A = lambda k: z3.Select(arr, k)
    def br(i):
        esc = z3.And(z3.ULT(i, n), A(i) == PC, z3.ULT(i + 2, n), isx(A(i + 1)), isx(A(i + 2)))
        bad = z3.And(z3.ULT(i, n), A(i) == PC, z3.Not(z3.And(z3.ULT(i + 2, n), isx(A(i + 1)), isx(A(i + 2)))))
        lit = z3.And(z3.ULT(i, n), A(i) != PC)
        out = [(esc, z3.simplify(i + 3), [(xval(A(i + 1)) << 4) | xval(A(i + 2))]), (lit, z3.simplify(i + 1), [A(i)])]
        if not strict: out.append((bad, z3.simplify(i + 1), [B(PC)]))
        return out
    return Chain('dec', br)
def bad_at(arr, n, i):
    A = lambda k: z3.Select(arr, k)
    return z3.And(z3.ULT(i, n), A(i) == PC, z3.Not(z3.And(z3.ULT(i + 2, n), isx(A(i + 1)), isx(A(i + 2)))))
def prove_decode(c, strict):
    m = c.module('uri.cpp'); ex = c.executor(m, budget=300)
    st, n, buf, out, arr = text(c, ex, 'escaped')
    ch = decode_chain(arr, n, strict); ch.attach(ex); st.define(ch.init())
    c.reach('decode precondition', st)
    nm = 'STRICT' if strict else 'RELAXED'
    done = ex.run_function(st, 'u_dec_s' if strict else 'u_dec_r', [Ptr(out, 0), Ptr(buf, 0), n])
    k = z3.BitVec('wi', 64)
    for d in done:
        s = d.st
        if d.kind == 'throw':
            if strict: ex.oblige(s, 'decode(STRICT): throws the syntax error type', exc_is(ex, s, 'URISyntaxException'))
            if strict: ex.oblige(s, 'decode(STRICT): throws only at a "%" that two hex digits do not follow', z3.Exists([k], z3.And(ch.At(k), bad_at(arr, n, k)), patterns=[ch.At(k)]))
            else: ex.oblige(s, 'decode(RELAXED): does not throw', False)
            continue
        rope = r_norm(lib.rope_of(ex, s, Ptr(out, 0)))
        ex.oblige(s, 'decode(%s): the whole text is consumed as well-formed tokens and the result is their decoding' % nm, z3.And(ch.At(n), r_term(rope) == ch.D(n)))
    for d in done: c.reach('decode exit ' + d.kind, d.st)
    c.collect(ex)
def prove(c):
    def part():
        m = c.module('uri.cpp'); ex = c.executor(m, budget=300)
        st, n, buf, out, arr = text(c, ex, 'raw')
        A = lambda k: z3.Select(arr, k)
        F = Fold('enc', None, rec=lambda p, k: z3.If(unres(A(k)), snocs(p, [A(k)]), snocs(p, enc3(A(k))))); F.attach(ex, ints=True)
        c.reach('encode precondition', st)
        done = ex.run_function(st, 'u_enc', [Ptr(out, 0), Ptr(buf, 0), n])
        for d in done:
            if d.kind == 'throw': ex.oblige(d.st, 'encode does not throw', False); continue
            d.st.assume(F.zero())
            ex.oblige(d.st, 'encode: result = RFC 3986 percent-encoding of the input', r_term(r_norm(lib.rope_of(ex, d.st, Ptr(out, 0)))) == F.F(n))
            c.reach('encode exit', d.st)
        c.collect(ex)
    c.attempt('encode', part)
    c.attempt('decode strict', lambda: prove_decode(c, True))
    c.attempt('decode relaxed', lambda: prove_decode(c, False))
    roundtrip(c)
def roundtrip(c):
    # induction step of decode(encode(s)) = s: at the image p of input position k, one decoder token yields s[k] and ends at the image of k+1
    ch8 = z3.BitVec('s_k', 8); p = z3.BitVec('p', 64); n = z3.BitVec('len', 64); e = z3.Array('e', BV64, z3.BitVecSort(8))
    E = lambda k: z3.Select(e, k)
    for strict in (True, False):
        dc = decode_chain(e, n, strict); nm = 'STRICT' if strict else 'RELAXED'
        pre = [z3.ULT(n, 1 << 60), z3.ULT(p, n), dc.At(p), dc.inst(p)]
        c.lemma('round trip (%s): a literal character decodes to itself' % nm, pre + [unres(ch8), E(p) == ch8], z3.And(dc.At(p + 1), dc.D(p + 1) == snocs(dc.D(p), [ch8])))
        x = enc3(ch8)
        c.lemma('round trip (%s): an escaped character decodes to itself' % nm, pre + [z3.ULT(p + 2, n), z3.Not(unres(ch8))] + [E(p + i) == x[i] for i in range(3)], z3.And(dc.At(p + 3), dc.D(p + 3) == snocs(dc.D(p), [ch8])))
    c.lemma('encoded text uses only unreserved characters, "%" and upper-case hex digits', [], z3.Implies(z3.Not(unres(ch8)), z3.And([z3.Or(isx(y), y == PC) for y in enc3(ch8)])))
def inputs_from(c, o):
    if o.kind == 'lemma': return []
    out = []
    for mm in (small_model(o, [c.n]), o.model):
        if mm is None: continue
        b = bytes_of(mm, c.arr, c.n)
        if b is not None: out.append(b.hex() or '00len0')
    return out
