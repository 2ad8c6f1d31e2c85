"""Assumed contracts on the C++ standard library / runtime (the trusted interface of the proofs)."""
import re, z3
from .vals import *
from .exec import *
from .ll import IntTy, PtrTy, PTR

I8, I32, I64 = IntTy(8), IntTy(32), IntTy(64)
NPOS = (1 << 64) - 1
MAXLEN = 1 << 60      # assumption: no object is larger than 2^60 bytes

def nrm(d):
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    d = d.replace('std::basic_string_view<char, std::char_traits<char> >', 'std::string_view')
    d = d.replace('std::basic_string_view<char, std::char_traits<char>>', 'std::string_view')
    d = d.replace('std::string >', 'std::string>').replace('[abi:cxx11]', '').replace('std::__cxx11::', 'std::').replace('> >', '>>').replace('> >', '>>')
    return d

# ------------------------------------------------------------------ strings
class Str(LibVal):
    size = 32
    def __init__(s, buf): s.buf = buf
    def same(s, o): return s.buf == o.buf
    def check_same_shape(s, o):
        if not isinstance(o, Str) or o.buf != s.buf: raise Unsupported('string object replaced in loop')
    def havoc(s, ex, st, lc, loc):
        b = ex.new_rope(st, [('o', fresh_seq('h'), havoc_len(st))]); return Str(b)
class Vec(LibVal):
    """std::vector of 1-byte trivially copyable elements"""
    size = 24
    def __init__(s, buf): s.buf = buf
    def same(s, o): return s.buf == o.buf
    def check_same_shape(s, o):
        if not isinstance(o, Vec) or o.buf != s.buf: raise Unsupported('vector object replaced in loop')
    def havoc(s, ex, st, lc, loc):
        b = ex.new_rope(st, [('o', fresh_seq('h'), havoc_len(st))]); return Vec(b)
def havoc_len(st):
    n = fresh(64, 'hl'); st.assume(z3.ULT(n, z3.BitVecVal(MAXLEN, 64))); return n

def cell(st, p, cls):
    if not isinstance(p, Ptr) or p.obj is None or not is_c(p.off): raise Unsupported('library object at %r' % (p,))
    o = st.mem[p.obj]
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[1], cls): raise Unsupported('no %s at %r' % (cls.__name__, p))
    return c[1]
def setcell(ex, st, p, v):
    if not isinstance(p, Ptr) or p.obj is None or not is_c(p.off): raise Unsupported('library object at %r' % (p,))
    ex.check_access(st, p, v.size, 'construct')
    ex.write(st, p.obj, p.off, v.size, v)
def alive(ex, st, v, what):
    o = st.mem[v.buf]
    if not o.alive:
        ex.oblige(st, 'memory-safety: %s on a destroyed object' % what, False, 'safety'); raise PathEnd()
    return o
def rope_of(ex, st, p, cls=Str): return alive(ex, st, cell(st, p, cls), 'use').rope
def set_rope(ex, st, p, rope, cls=Str):
    """replace content, invalidating old views"""
    v = cell(st, p, cls)
    if v.buf in st.mem: st.w(v.buf).alive = False
    mk(ex, st, p, rope, cls)
def upd_rope(ex, st, p, rope, cls=Str):
    v = cell(st, p, cls); alive(ex, st, v, 'modify'); st.w(v.buf).rope = r_norm(list(rope))
def mk(ex, st, p, rope, cls=Str):
    b = ex.new_rope(st, r_norm(rope), 'string content' if cls is Str else 'vector content'); setcell(ex, st, p, cls(b)); return b
def sv_of(ex, st, p):
    """pointer to a string_view struct -> (len, ptr)"""
    return ex.load(st, p, I64), ex.load(st, Ptr(p.obj, add(p.off, 8)), PTR)
def sv_rope(ex, st, p):
    n, q = sv_of(ex, st, p); return ex.bytes_rope(st, q, n)
def strlen(ex, st, p):
    o = ex.check_access(st, p, 1, 'strlen')
    off = ex.conc_off(st, p.off)
    if o.kind == 'cells' and is_c(off):
        k = off
        while True:
            if is_c(o.size) and k >= o.size: break
            b = ex.read(st, p.obj, k, 1, I8)
            if not is_c(b): break
            if b == 0: return k - off
            k += 1
        if is_c(o.size) and k < o.size and o.size - k <= 256:
            bs = [ex.read(st, p.obj, j, 1, I8) for j in range(k, o.size)]
            ok = zb(Or(*[eq(b, 0, 8) for b in bs])); ex.oblige(st, 'memory-safety: text in %s ends with NUL' % o.name, ok, 'safety'); st.assume(ok)
            r = o.size - 1 - off
            for j in range(len(bs) - 1, -1, -1): r = ite(eq(bs[j], 0, 8), k + j - off, r, 64)
            return r
        raise Unsupported('strlen')
    # symbolic: first NUL at or after off
    if o.kind == 'rope':
        L = r_len(o.rope)
        a, f, n = ex.rope_arr(st, o.rope) if r_norm(o.rope) else (None, 0, 0)
        if a is None: return 0
        r = first_index(ex, st, a, add(f, p.off), add(f, n), lambda c: c == 0)
        return sub(r, add(f, p.off))
    if o.kind == 'arr':
        r = first_index(ex, st, o.arr, p.off, o.size, lambda c: c == 0)
        return sub(r, p.off)
    raise Unsupported('strlen')
def cstr_rope(ex, st, p):
    return ex.bytes_rope(st, p, strlen(ex, st, p))

def first_index(ex, st, arr, lo, hi, pred, nm='fi', quant=True):
    """least index r in [lo,hi) with pred(arr[r]), hi if none   (lo<=hi assumed)"""
    if is_c(lo) and is_c(hi) and hi - lo <= 8 and hi >= lo:
        r = hi
        for k in range(hi - 1, lo - 1, -1): r = ite(simp(zb(pred(arr[z3.BitVecVal(k, 64)]))), k, r, 64)
        return r
    r, ax = fi_term(pred, arr, lo, hi)
    for x in ax if quant else ax[:1]:
        if not any(x.eq(p) for p in st.pc): st.define(x)
    return r
ARR8 = z3.ArraySort(BV64, BV8)
_fi = {}
def pred_sig(pred):
    """the set of byte values satisfying pred (None when it depends on more than the byte)"""
    out = 0
    for v in range(256):
        r = pred(z3.BitVecVal(v, 8))
        if not isinstance(r, bool):
            r = z3.simplify(r)
            if z3.is_true(r): r = True
            elif z3.is_false(r): r = False
            else: return None
        if r: out |= 1 << v
    return out
def fi_term(pred, arr, lo, hi):
    """canonical term for 'least index in [lo,hi) whose byte satisfies pred, hi if none', and its defining axioms"""
    sig = pred_sig(pred); lo_, hi_ = bv(lo, 64), bv(hi, 64)
    if sig is None: r = fresh(64, 'fi')
    else:
        f = _fi.setdefault(sig, None)
        if f is None: f = _fi[sig] = z3.Function('first_%x' % sig, ARR8, BV64, BV64, BV64)
        r = f(arr, lo_, hi_)
    k = z3.BitVec('k!', 64)
    return r, [z3.Implies(z3.ULE(lo_, hi_), z3.And(z3.ULE(lo_, r), z3.ULE(r, hi_), z3.Or(r == hi_, zb(pred(arr[r]))))),
               z3.ForAll([k], z3.Implies(z3.And(z3.ULE(lo_, hi_), z3.ULE(lo_, k), z3.ULT(k, r)), z3.Not(zb(pred(z3.Select(arr, k))))), patterns=[z3.Select(arr, k)])]
def last_index(ex, st, arr, lo, hi, pred):
    """greatest index r in [lo,hi) with pred, lo-1 (wrapping) if none"""
    lo_, hi_ = bv(lo, 64), bv(hi, 64)
    r = fresh(64, 'li'); none = freshb('none'); k = z3.BitVec('k!', 64)
    st.define(z3.Implies(z3.Not(none), z3.And(z3.ULE(lo_, r), z3.ULT(r, hi_), zb(pred(arr[r])))))
    st.define(z3.ForAll([k], z3.Implies(z3.And(z3.Or(none, z3.UGT(k, r)), z3.ULE(lo_, k), z3.ULT(k, hi_)), z3.Not(zb(pred(z3.Select(arr, k))))), patterns=[z3.Select(arr, k)]))
    return r, none
def in_set(chars):
    cs = sorted(set(chars))
    def pred(c):
        if is_c(c): return c in cs
        # compress to ranges
        rs = []; i = 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1: j += 1
            rs.append((cs[i], cs[j])); i = j + 1
        return z3.Or(*[c == a if a == b else z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in rs]) if rs else z3.BoolVal(False)
    return pred
def content_arr(ex, st, rope):
    rope = r_norm(rope)
    if not rope: return fresh_arr('e'), 0, 0
    return ex.rope_arr(st, rope)
def find_pred(ex, st, rope, pos, pred):
    """string find contract: first index >= pos satisfying pred, npos if none"""
    a, f, n = content_arr(ex, st, rope)
    if ex.decide(st, ult(n, pos)): return NPOS
    lo = add(f, pos); hi = add(f, n)
    r = first_index(ex, st, a, lo, hi, pred, quant=getattr(ex, 'find_quant', True))   # without the quantified half: weaker, still sound
    return NPOS if ex.decide(st, eq(r, hi)) else sub(r, f)
def rfind_pred(ex, st, rope, pos, pred):
    a, f, n = content_arr(ex, st, rope)
    hi = ite(ult(pos, n), add(pos, 1), n, 64) if not (is_c(pos) and pos == NPOS) else n
    r, none = last_index(ex, st, a, f, add(f, hi), pred)
    return simp(z3.If(none, z3.BitVecVal(NPOS, 64), r - bv(f, 64)))
def lit(rope):
    ch = expand(r_norm(rope))
    if ch is None or not all(is_c(c) for c in ch): raise Unsupported('non-literal character set')
    return ch
def rope_equal(ex, st, a, b):
    a, b = r_norm(a), r_norm(b)
    for x, y in ((a, b), (b, a)):
        ch = expand(y)
        if ch is not None:
            n = r_len(x)
            cs = [eq(n, len(ch))]
            if cs[0] is False: return False
            for i, c in enumerate(ch): cs.append(eq(r_read(x, i), c, 8))
            return And(*cs)
    return r_eq(a, b)

# ------------------------------------------------------------------ ctype
def ct(pred):
    def h(ex, st, a, ins, name):
        c = a[0]
        if is_c(c): return int(bool(pred(sgn(c, 32)) if not callable(getattr(pred, 'sym', None)) else pred(sgn(c, 32))))
        return simp(z3.If(zb(pred(c)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    h.trust = 'ctype (C locale)'
    return h
def rng(c, a, b):
    if is_c(c): return a <= c <= b
    return z3.And(c >= a, c <= b)
def p_digit(c): return rng(c, 48, 57)
def p_upper(c): return rng(c, 65, 90)
def p_lower(c): return rng(c, 97, 122)
def p_alpha(c): return Or(p_upper(c), p_lower(c))
def p_alnum(c): return Or(p_alpha(c), p_digit(c))
def p_xdigit(c): return Or(p_digit(c), rng(c, 65, 70), rng(c, 97, 102))
def p_space(c): return Or(rng(c, 9, 13), rng(c, 32, 32))
def h_toupper(ex, st, a, ins, name):
    c = a[0]
    if is_c(c): return c - 32 if p_lower(c) else c
    return simp(z3.If(p_lower(c), c - 32, c))
def h_tolower(ex, st, a, ins, name):
    c = a[0]
    if is_c(c): return c + 32 if p_upper(c) else c
    return simp(z3.If(p_upper(c), c + 32, c))

# ------------------------------------------------------------------ streams
class OSS(LibVal):
    size = 8
    def __init__(s, rope=(), hexf=False, upper=False, fill=32, width=0): s.rope, s.hexf, s.upper, s.fill, s.width = tuple(rope), hexf, upper, fill, width
    def w(s, **k):
        d = dict(rope=s.rope, hexf=s.hexf, upper=s.upper, fill=s.fill, width=s.width); d.update(k); return OSS(**d)
    def same(s, o): return rope_same(s.rope, o.rope) and (s.hexf, s.upper, s.fill, s.width) == (o.hexf, o.upper, o.fill, o.width)
    def havoc(s, ex, st, lc, loc):
        lc.vars.append(('lib', loc, 'rope'))
        return s.w(rope=[('o', fresh_seq('h'), havoc_len(st))])
    def check_same_shape(s, o):
        if not isinstance(o, OSS) or (s.hexf, s.upper, s.fill, s.width) != (o.hexf, o.upper, o.fill, o.width): raise Unsupported('stream flags change across iterations')
    def lcget(s, what): return r_len(s.rope)
class ISS(LibVal):
    size = 8
    def __init__(s, rope, hexf=False): s.rope, s.hexf = tuple(rope), hexf
    def same(s, o): return rope_same(s.rope, o.rope) and s.hexf == o.hexf
VB = {'ostringstream': 112, 'istringstream': 120, 'stringstream': 128}
def strm(st, p, cls=OSS):
    if isinstance(p, Ptr) and p.obj is not None:
        for k, c in st.mem[p.obj].cells.items():
            if isinstance(c[1], cls): return k, c[1]
    raise Unsupported('no stream at %r' % (p,))
def h_oss_ctor(kind):
    def h(ex, st, a, ins, name):
        p = a[0]
        vt = ex.alloc(st, 64, 'cells', 'vtable'); st.mem[vt].cells[0] = (8, VB[kind])
        o = st.w(p.obj); o.cells = {k: c for k, c in o.cells.items() if False}
        o.cells[0] = (8, Ptr(vt, 24))
        if kind == 'ostringstream': o.cells[8] = (8, OSS())
        else:
            r = rope_of(ex, st, a[1]); o = st.w(p.obj); o.cells[8] = (8, ISS(r))
        return None
    return h
def oss_put(ex, st, p, pieces):
    k, s = strm(st, p)
    n = r_len(pieces)
    pad = []
    if s.width:
        if not is_c(n): raise Unsupported('padding of symbolic text')
        pad = [('c', s.fill)] * max(0, s.width - n)
    st.w(p.obj).cells[k] = (8, s.w(rope=r_norm(list(s.rope) + pad + list(pieces)), width=0))
    return p
def hexdig(x, upper, w=32):
    """low nibble x -> character"""
    if is_c(x): return ord(('%X' if upper else '%x') % x)
    x8 = z3.Extract(7, 0, x)
    return simp(z3.If(z3.ULT(x8, 10), x8 + 48, x8 + (55 if upper else 87)))
f_dec = z3.Function('decimal', z3.BitVecSort(64), SEQ)
f_declen = z3.Function('decimal_len', z3.BitVecSort(64), z3.BitVecSort(64))
def dec_rope(v, w, signed):
    if is_c(v): return r_lit(str(sgn(v, w) if signed else v).encode())
    x = z3.SignExt(64 - w, v) if signed and w < 64 else z3.ZeroExt(64 - w, v) if w < 64 else v
    return [('o', f_dec(x), f_declen(x))]
def h_oss_int(ex, st, a, ins, name, w=32, signed=True):
    k, s = strm(st, a[0])
    v = a[1]
    if not s.hexf: return oss_put(ex, st, a[0], dec_rope(v, w, signed))
    if is_c(v): return oss_put(ex, st, a[0], r_lit((('%X' if s.upper else '%x') % v).encode()))
    if not ex.valid(st, z3.ULT(v, 256)): raise Unsupported('hex output of a value >= 256')
    v = z3.ZeroExt(32 - w, v) if w < 32 else z3.Extract(31, 0, v) if w > 32 else v
    lo, hi = hexdig(v & 15, s.upper), hexdig(z3.LShR(v, 4), s.upper)
    if s.width == 2:
        h = simp(z3.If(z3.ULT(v, 16), z3.BitVecVal(s.fill, 8), bv(hi, 8)))
        st.w(a[0].obj).cells[k] = (8, s.w(rope=r_norm(list(s.rope) + [('c', h), ('c', lo)]), width=0))
        return a[0]
    two, one = ex.split(st, z3.UGE(v, 16))
    alts = []
    if two is not None: oss_put(ex, two, a[0], [('c', hi), ('c', lo)]); alts.append((two, a[0]))
    if one is not None: oss_put(ex, one, a[0], [('c', lo)]); alts.append((one, a[0]))
    return Multi(alts)
def h_oss_manip(ex, st, a, ins, name):
    k, s = strm(st, a[0], (OSS, ISS)); f = a[1]
    if not isinstance(f, FnPtr): raise Unsupported('manipulator')
    d = nrm(ex.mod.demangled.get(f.name, f.name))
    m = re.match(r'std::(hex|dec|uppercase|nouppercase|oct|left|right|noskipws|skipws)\(', d)
    if not m: raise Unsupported('manipulator ' + d)
    return manip(st, a[0], k, s, m.group(1))
def manip(st, p, k, s, nm):
    if isinstance(s, ISS):
        if nm in ('hex', 'dec'): st.w(p.obj).cells[k] = (8, ISS(s.rope, nm == 'hex'))
        else: raise Unsupported('manipulator ' + nm)
        return p
    ch = {'hex': dict(hexf=True), 'dec': dict(hexf=False), 'uppercase': dict(upper=True), 'nouppercase': dict(upper=False)}.get(nm)
    if ch is None: raise Unsupported('manipulator ' + nm)
    st.w(p.obj).cells[k] = (8, s.w(**ch)); return p
def h_iss_int(ex, st, a, ins, name):
    k, s = strm(st, a[0], ISS)
    n = r_len(s.rope); p = a[1]
    if not s.hexf: raise Unsupported('decimal extraction')
    if not ex.valid(st, ule(n, 2)): raise Unsupported('hex extraction of long text')
    alts = []
    t, rest = ex.split(st, eq(n, 2))
    hv = lambda c: simp(z3.ZeroExt(24, z3.If(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c - 48, z3.If(z3.UGE(c, 97), c - 87, c - 55))))
    ishex = lambda c: p_xdigit8(c)
    if t is not None:
        c0, c1 = bv(r_read(s.rope, 0), 8), bv(r_read(s.rope, 1), 8)
        b, o = ex.split(t, z3.And(ishex(c0), ishex(c1)))
        if b is not None:
            ex.store(b, p, I32, simp(bv(hv(c0), 32) * 16 + bv(hv(c1), 32))); alts.append((b, a[0]))
        if o is not None:
            ex.store(o, p, I32, fresh(32, 'iss')); alts.append((o, a[0]))
    if rest is not None:
        one, zero = ex.split(rest, eq(n, 1))
        if one is not None:
            c0 = bv(r_read(s.rope, 0), 8)
            b, o = ex.split(one, ishex(c0))
            if b is not None: ex.store(b, p, I32, hv(c0)); alts.append((b, a[0]))
            if o is not None: ex.store(o, p, I32, fresh(32, 'iss')); alts.append((o, a[0]))
        if zero is not None: alts.append((zero, a[0]))   # sentry fails: target left untouched
    return Multi(alts)
def p_xdigit8(c): return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))

# ------------------------------------------------------------------ std::format
def targs(s):
    """split top-level template arguments"""
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def fmt_arg(ex, st, ty, p, spec):
    ty = ty.replace(' const', '').replace('const ', '').rstrip('&').strip()
    if spec == '':
        if ty == 'std::string': return rope_of(ex, st, p)
        if ty == 'std::string_view': return sv_rope(ex, st, p)
        if ty == 'char': return [('c', ex.load(st, p, I8))]
        if re.match(r'char \[\d+\]$', ty): return cstr_rope(ex, st, p)
        if ty == 'char*': return cstr_rope(ex, st, ex.load(st, p, PTR))
        ints = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'unsigned short': (16, 0), 'short': (16, 1), 'unsigned char': (8, 0), 'signed char': (8, 1), 'long long': (64, 1), 'unsigned long long': (64, 0)}
        if ty in ints:
            w, sg = ints[ty]; return dec_rope(ex.load(st, p, IntTy(w)), w, sg)
    if spec in ('02X', '02x') and ty in ('int', 'unsigned int', 'unsigned char'):
        w = 8 if ty == 'unsigned char' else 32
        v = ex.load(st, p, IntTy(w))
        if is_c(v): return r_lit(('%02X' % v if spec[-1] == 'X' else '%02x' % v).encode())
        if w == 8: v = z3.ZeroExt(24, v)
        if ex.valid(st, z3.ULT(v, 256)):
            return [('c', hexdig(z3.LShR(v, 4), spec[-1] == 'X')), ('c', hexdig(v & 15, spec[-1] == 'X'))]
    return [('o', fresh_seq('fmt'), havoc_len(st))]
def do_format(ex, st, fmtrope, tys, ptrs):
    ch = expand(r_norm(fmtrope))
    if ch is None or not all(is_c(c) for c in ch): raise Unsupported('format string')
    s = bytes(ch).decode('latin1'); out = []; i = 0; ai = 0
    while i < len(s):
        if s[i] == '{':
            if s[i + 1] == '{': out.append(('c', 123)); i += 2; continue
            j = s.index('}', i); spec = s[i + 1:j]; spec = spec.split(':', 1)[1] if ':' in spec else ''
            out += fmt_arg(ex, st, tys[ai], ptrs[ai], spec); ai += 1; i = j + 1
        elif s[i] == '}': out.append(('c', 125)); i += 2
        else: out.append(('c', ord(s[i]))); i += 1
    return r_norm(out)
def h_format(tys):
    def h(ex, st, a, ins, name):
        # sret, fmt.len, fmt.ptr, args...
        r = ex.bytes_rope(st, a[2], a[1])
        try: out = do_format(ex, st, r, tys, a[3:])
        except (IndexError, ValueError): raise Unsupported('format')
        mk(ex, st, a[0], out); return None
    h.trust = 'std::format'
    return h

# ------------------------------------------------------------------ string handlers
S = {}
def D(*pats):
    def deco(f):
        for p in pats: S[p] = f
        return f
    return deco
R = []
def RX(pat):
    def deco(f): R.append((re.compile(pat), f)); return f
    return deco
STR = 'std::string::'
AL = r'(std::allocator<char> const&)'

@D(STR + 'basic_string()', STR + 'basic_string(std::allocator<char> const&)')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], [])
@RX(r'std::string::basic_string<std::allocator<char>(, void)?>\(char const\*, std::allocator<char> const&\)$')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], cstr_rope(ex, st, a[1]))
@RX(r'std::string::basic_string<std::allocator<char>(, void)?>\(unsigned long, char, std::allocator<char> const&\)$')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], fill_rope(ex, st, a[1], a[2]))
def fill_rope(ex, st, n, c):
    if is_c(n) and n <= 256: return [('c', c)] * n
    return [('s', z3.K(BV64, bv(c, 8)), 0, n)]
@RX(r'std::string::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$|std::string::basic_string\(char const\*, unsigned long\)$')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], ex.bytes_rope(st, a[1], a[2]))
@D(STR + 'basic_string(std::string const&)')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], rope_of(ex, st, a[1]))
@D(STR + 'basic_string(std::string&&)')
def _(ex, st, a, ins, nm):
    r = rope_of(ex, st, a[1]); mk(ex, st, a[0], r); set_rope(ex, st, a[1], [])
@RX(r'std::string::basic_string\(std::string const&, unsigned long, unsigned long\)$')
def _(ex, st, a, ins, nm): return str_substr(ex, st, a[0], rope_of(ex, st, a[1]), a[2], a[3])
@RX(r'std::string::basic_string<std::string_view, void>\(std::string_view const&, std::allocator<char> const&\)$')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], sv_rope(ex, st, a[1]))
@RX(r'std::string::basic_string<(char const\*|char\*|__gnu_cxx::__normal_iterator<char( const)?\*, std::string>|unsigned char( const)?\*), void>\(.*\)$')
def _(ex, st, a, ins, nm):
    if a[1].obj != a[2].obj: raise Unsupported('iterator range')
    mk(ex, st, a[0], ex.bytes_rope(st, a[1], sub(a[2].off, a[1].off)))
@D(STR + '~basic_string()')
def _(ex, st, a, ins, nm):
    v = cell(st, a[0], Str)
    if not st.mem[v.buf].alive:
        ex.oblige(st, 'memory-safety: string destroyed twice', False, 'safety'); raise PathEnd()
    st.w(v.buf).alive = False
@D(STR + 'size() const', STR + 'length() const')
def _(ex, st, a, ins, nm): return r_len(rope_of(ex, st, a[0]))
@D(STR + 'empty() const')
def _(ex, st, a, ins, nm): return b2i(eq(r_len(rope_of(ex, st, a[0])), 0))
@D(STR + 'max_size() const')
def _(ex, st, a, ins, nm): return MAXLEN
@D(STR + 'capacity() const')
def _(ex, st, a, ins, nm):
    n = fresh(64, 'cap'); st.assume(z3.ULE(bv(r_len(rope_of(ex, st, a[0])), 64), n)); return n
@D(STR + 'data() const', STR + 'data()', STR + 'c_str() const', STR + 'begin()', STR + 'begin() const', STR + 'cbegin() const', STR + '_M_data() const')
def _(ex, st, a, ins, nm): v = cell(st, a[0], Str); alive(ex, st, v, 'data()'); return Ptr(v.buf, 0)
@D(STR + 'end()', STR + 'end() const', STR + 'cend() const')
def _(ex, st, a, ins, nm): v = cell(st, a[0], Str); return Ptr(v.buf, r_len(alive(ex, st, v, 'end()').rope))
@D(STR + 'operator[](unsigned long)', STR + 'operator[](unsigned long) const')
def _(ex, st, a, ins, nm):
    v = cell(st, a[0], Str); o = alive(ex, st, v, 'operator[]')
    ok = ule(a[1], r_len(o.rope))
    if ok is not True: ex.oblige(st, 'memory-safety: string index in range', ok, 'safety', info=('bounds', '')); st.assume(ok)
    return Ptr(v.buf, a[1])
@D(STR + 'at(unsigned long)', STR + 'at(unsigned long) const')
def _(ex, st, a, ins, nm):
    v = cell(st, a[0], Str); o = alive(ex, st, v, 'at')
    t, f = ex.split(st, ult(a[1], r_len(o.rope)))
    return Multi([(s, x) for s, x in ((t, Ptr(v.buf, a[1])), (f, Throw(Exc('_ZTISt12out_of_range')))) if s is not None])
@D(STR + 'front()', STR + 'front() const')
def _(ex, st, a, ins, nm):
    v = cell(st, a[0], Str); o = alive(ex, st, v, 'front'); ok = Not(eq(r_len(o.rope), 0))
    if ok is not True: ex.oblige(st, 'memory-safety: front() of non-empty string', ok, 'safety'); st.assume(ok)
    return Ptr(v.buf, 0)
@D(STR + 'back()', STR + 'back() const')
def _(ex, st, a, ins, nm):
    v = cell(st, a[0], Str); o = alive(ex, st, v, 'back'); n = r_len(o.rope); ok = Not(eq(n, 0))
    if ok is not True: ex.oblige(st, 'memory-safety: back() of non-empty string', ok, 'safety'); st.assume(ok)
    return Ptr(v.buf, sub(n, 1))
@D(STR + 'push_back(char)', STR + 'operator+=(char)')
def _(ex, st, a, ins, nm):
    upd_rope(ex, st, a[0], rope_of(ex, st, a[0]) + [('c', a[1])]); return a[0]
@D(STR + 'append(std::string const&)', STR + 'operator+=(std::string const&)')
def _(ex, st, a, ins, nm): upd_rope(ex, st, a[0], rope_of(ex, st, a[0]) + rope_of(ex, st, a[1])); return a[0]
@D(STR + 'append(char const*)', STR + 'operator+=(char const*)')
def _(ex, st, a, ins, nm): upd_rope(ex, st, a[0], rope_of(ex, st, a[0]) + cstr_rope(ex, st, a[1])); return a[0]
@D(STR + 'append(char const*, unsigned long)')
def _(ex, st, a, ins, nm): upd_rope(ex, st, a[0], rope_of(ex, st, a[0]) + ex.bytes_rope(st, a[1], a[2])); return a[0]
@D(STR + 'append(unsigned long, char)')
def _(ex, st, a, ins, nm): upd_rope(ex, st, a[0], rope_of(ex, st, a[0]) + fill_rope(ex, st, a[1], a[2])); return a[0]
@RX(r'.* std::string::(append|operator\+=)<std::string_view>\(std::string_view const&\)$')
def _(ex, st, a, ins, nm): upd_rope(ex, st, a[0], rope_of(ex, st, a[0]) + sv_rope(ex, st, a[1])); return a[0]
@RX(r'std::string& std::string::append<(char const\*|char\*|__gnu_cxx::__normal_iterator<char( const)?\*, std::string>), void>\(.*\)$')
def _(ex, st, a, ins, nm): upd_rope(ex, st, a[0], rope_of(ex, st, a[0]) + ex.bytes_rope(st, a[1], sub(a[2].off, a[1].off))); return a[0]
@RX(r'.* std::string::operator=<std::string_view>\(std::string_view const&\)$|.* std::string::assign<std::string_view>\(std::string_view const&\)$')
def _(ex, st, a, ins, nm): r = sv_rope(ex, st, a[1]); set_rope(ex, st, a[0], r); return a[0]
@D(STR + 'operator=(std::string const&)', STR + 'assign(std::string const&)')
def _(ex, st, a, ins, nm):
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].obj == a[1].obj and same(a[0].off, a[1].off): return a[0]
    set_rope(ex, st, a[0], rope_of(ex, st, a[1])); return a[0]
@D(STR + 'operator=(std::string&&)')
def _(ex, st, a, ins, nm):
    r = rope_of(ex, st, a[1]); set_rope(ex, st, a[0], r); set_rope(ex, st, a[1], []); return a[0]
@D(STR + 'operator=(char const*)', STR + 'assign(char const*)')
def _(ex, st, a, ins, nm): r = cstr_rope(ex, st, a[1]); set_rope(ex, st, a[0], r); return a[0]
@D(STR + 'assign(char const*, unsigned long)')
def _(ex, st, a, ins, nm): r = ex.bytes_rope(st, a[1], a[2]); set_rope(ex, st, a[0], r); return a[0]
@D(STR + 'operator=(char)')
def _(ex, st, a, ins, nm): set_rope(ex, st, a[0], [('c', a[1])]); return a[0]
@D(STR + 'reserve(unsigned long)', STR + 'reserve()', STR + 'shrink_to_fit()')
def _(ex, st, a, ins, nm):
    # reserve may reallocate and may throw length_error only for n > max_size (assumed away)
    cell(st, a[0], Str); return None
@D(STR + 'clear()')
def _(ex, st, a, ins, nm): upd_rope(ex, st, a[0], [])
@D(STR + 'pop_back()')
def _(ex, st, a, ins, nm):
    r = rope_of(ex, st, a[0]); n = r_len(r); ok = Not(eq(n, 0))
    if ok is not True: ex.oblige(st, 'memory-safety: pop_back() of non-empty string', ok, 'safety'); st.assume(ok)
    x = r[:-1] if r and r[-1][0] == 'c' else r_sub(r, 0, sub(n, 1))
    if x is None: raise Unsupported('pop_back')
    upd_rope(ex, st, a[0], x)
@D(STR + 'resize(unsigned long)', STR + 'resize(unsigned long, char)')
def _(ex, st, a, ins, nm):
    r = rope_of(ex, st, a[0]); c = a[2] if len(a) > 2 else 0
    n = r_len(r)
    if is_c(n) and n == 0: upd_rope(ex, st, a[0], fill_rope(ex, st, a[1], c)); return
    t, f = ex.split(st, ule(n, a[1])); alts = []
    if t is not None: upd_rope(ex, t, a[0], r + fill_rope(ex, t, sub(a[1], n), c)); alts.append((t, None))
    if f is not None:
        x = r_sub(r, 0, a[1])
        if x is None: raise Unsupported('resize')
        upd_rope(ex, f, a[0], x); alts.append((f, None))
    return Multi(alts)
def str_substr(ex, st, out, rope, pos, cnt):
    n = r_len(rope)
    t, f = ex.split(st, ule(pos, n)); alts = []
    if t is not None:
        l = sub(n, pos); m = ite(ult(cnt, l), cnt, l, 64)
        x = r_sub(rope, pos, m)
        if x is None:
            a, o, _ = ex.rope_arr(t, rope); x = [('s', a, add(o, pos), m)]
        mk(ex, t, out, x); alts.append((t, None))
    if f is not None: alts.append((f, Throw(Exc('_ZTISt12out_of_range'))))
    return Multi(alts)
@RX(r'std::string::substr\(unsigned long, unsigned long\) const ?&?$')
def _(ex, st, a, ins, nm): return str_substr(ex, st, a[0], rope_of(ex, st, a[1]), a[2], a[3])
@D(STR + 'erase(unsigned long, unsigned long)')
def _(ex, st, a, ins, nm):
    r = rope_of(ex, st, a[0]); n = r_len(r)
    t, f = ex.split(st, ule(a[1], n)); alts = []
    if t is not None:
        l = sub(n, a[1]); m = ite(ult(a[2], l), a[2], l, 64); e = add(a[1], m)
        x, y = r_sub(r, 0, a[1]), r_sub(r, e, sub(n, e))
        if x is None or y is None: raise Unsupported('erase')
        upd_rope(ex, t, a[0], x + y); alts.append((t, a[0]))
    if f is not None: alts.append((f, Throw(Exc('_ZTISt12out_of_range'))))
    return Multi(alts)
@D(STR + 'swap(std::string&)')
def _(ex, st, a, ins, nm):
    x, y = rope_of(ex, st, a[0]), rope_of(ex, st, a[1]); set_rope(ex, st, a[0], y); set_rope(ex, st, a[1], x)
@D(STR + 'operator std::string_view() const')
def _(ex, st, a, ins, nm):
    v = cell(st, a[0], Str); return [r_len(alive(ex, st, v, 'view').rope), Ptr(v.buf, 0)]
@D(STR + 'compare(std::string const&) const')
def _(ex, st, a, ins, nm): return cmp_result(ex, st, rope_of(ex, st, a[0]), rope_of(ex, st, a[1]))
@D(STR + 'compare(char const*) const')
def _(ex, st, a, ins, nm): return cmp_result(ex, st, rope_of(ex, st, a[0]), cstr_rope(ex, st, a[1]))
f_cmp = z3.Function('memcmp_sign', SEQ, SEQ, z3.BitVecSort(32))
def cmp_result(ex, st, x, y):
    e = rope_equal(ex, st, x, y)
    if isinstance(e, bool) and e: return 0
    r = f_cmp(r_term(x), r_term(y))
    st.assume(zb(e) == (r == 0))
    return r
@RX(r'bool std::operator==<char, std::char_traits<char>, std::allocator<char>>\(std::string const&, std::string const&\)$|std::operator==\(std::string const&, std::string const&\)$')
def _(ex, st, a, ins, nm): return b2i(rope_equal(ex, st, rope_of(ex, st, a[0]), rope_of(ex, st, a[1])))
@RX(r'bool std::operator==<char, std::char_traits<char>, std::allocator<char>>\(std::string const&, char const\*\)$')
def _(ex, st, a, ins, nm): return b2i(rope_equal(ex, st, rope_of(ex, st, a[0]), cstr_rope(ex, st, a[1])))
@RX(r'bool std::operator==<char, std::char_traits<char>>\(std::string_view, (std::string_view|std::type_identity<std::string_view>::type|std::__type_identity<std::string_view>::type)\)$|bool std::operator==<char, std::char_traits<char>>\(std::string_view, std::type_identity<std::string_view>::type\)')
def _(ex, st, a, ins, nm): return b2i(rope_equal(ex, st, ex.bytes_rope(st, a[1], a[0]), ex.bytes_rope(st, a[3], a[2])))
@RX(r'std::string std::operator\+<char, std::char_traits<char>, std::allocator<char>>\(.*\)$')
def _(ex, st, a, ins, nm):
    d = nrm(ex.mod.demangled.get(nm, nm)); sig = d[d.rindex('(') + 1:-1]
    rs = []; moved = []
    for ty, p in zip(targs(sig), a[1:]):
        if ty in ('std::string const&',): rs.append(rope_of(ex, st, p))
        elif ty == 'std::string&&': rs.append(rope_of(ex, st, p)); moved.append(p)
        elif ty == 'char const*': rs.append(cstr_rope(ex, st, p))
        elif ty == 'char': rs.append([('c', p)])
        else: raise Unsupported('operator+ ' + sig)
    mk(ex, st, a[0], rs[0] + rs[1])
    for p in moved: set_rope(ex, st, p, [])
@RX(r'std::to_string\((.*)\)$')
def _(ex, st, a, ins, nm):
    d = nrm(ex.mod.demangled.get(nm, nm)); ty = d[d.index('(') + 1:-1]
    w, sg = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}[ty]
    mk(ex, st, a[0], dec_rope(a[1], w, sg))
# finds on std::string and std::string_view (this: pointer to sv struct)
def haystack(ex, st, d, p):
    return rope_of(ex, st, p) if d.startswith('std::string::') else sv_rope(ex, st, p)
@RX(r'std::string(_view)?::(find|find_first_of|find_first_not_of|rfind|find_last_of|find_last_not_of|contains)\((char|char const\*|std::string_view|std::string const&|char const\*, unsigned long)(, unsigned long)?(, unsigned long)?\) const$')
def _(ex, st, a, ins, nm):
    d = nrm(ex.mod.demangled.get(nm, nm))
    m = re.match(r'std::string(_view)?::(\w+)\((.*)\) const$', d); fn = m.group(2); ts = targs(m.group(3))
    hay = haystack(ex, st, d, a[0])
    rest = list(a[1:])
    if ts[0] == 'char': needle = [('c', rest.pop(0))]; ts = ts[1:]
    elif ts[0] == 'char const*' and len(ts) == 3: q = rest[0]; pos = rest[1]; needle = ex.bytes_rope(st, q, rest[2]); rest = [pos]; ts = ['unsigned long']
    elif ts[0] == 'char const*': needle = cstr_rope(ex, st, rest.pop(0)); ts = ts[1:]
    elif ts[0] == 'std::string_view': n_, q_ = rest[0], rest[1]; needle = ex.bytes_rope(st, q_, n_); rest = rest[2:]; ts = ts[1:]
    else: needle = rope_of(ex, st, rest.pop(0)); ts = ts[1:]
    pos = rest[0] if rest else (NPOS if fn.startswith('rfind') or 'last' in fn else 0)
    if fn in ('find', 'contains') and len(needle) == 1 and needle[0][0] == 'c':
        c = needle[0][1]; r = find_pred(ex, st, hay, pos, lambda x: eq(x, c, 8))
        return b2i(Not(eq(r, NPOS))) if fn == 'contains' else r
    if fn == 'rfind' and len(needle) == 1 and needle[0][0] == 'c':
        c = needle[0][1]; return rfind_pred(ex, st, hay, pos, lambda x: eq(x, c, 8))
    if fn in ('find', 'rfind', 'contains'): raise Unsupported('substring search')
    if len(needle) == 1 and needle[0][0] == 'c' and not is_c(needle[0][1]):
        c = needle[0][1]; ps = lambda x: eq(x, c, 8)
    else: ps = in_set(lit(needle))
    if fn.endswith('not_of'): p = lambda x: Not(ps(x))
    else: p = ps
    return (rfind_pred if 'last' in fn else find_pred)(ex, st, hay, pos, p)
@D('std::char_traits<char>::compare(char const*, char const*, unsigned long)', 'memcmp')
def _(ex, st, a, ins, nm): return cmp_result(ex, st, ex.bytes_rope(st, a[0], a[2]), ex.bytes_rope(st, a[1], a[2]))
@D('std::char_traits<char>::length(char const*)', 'strlen')
def _(ex, st, a, ins, nm): return strlen(ex, st, a[0])
@D('std::char_traits<char>::copy(char*, char const*, unsigned long)', 'std::char_traits<char>::move(char*, char const*, unsigned long)', 'memcpy', 'memmove')
def _(ex, st, a, ins, nm): ex.memcpy(st, a[0], a[1], a[2]); return a[0]
# hashing of strings: an uninterpreted function of the content
f_hash = z3.Function('str_hash', SEQ, BV64)
@RX(r'std::hash<std::string>::operator\(\)\(std::string const&\) const$')
def _(ex, st, a, ins, nm): return f_hash(r_term(r_norm(rope_of(ex, st, a[1]))))

# ------------------------------------------------------------------ vector of bytes
VB_ = r'std::vector<(unsigned char|char|std::byte), std::allocator<(unsigned char|char|std::byte)>>::'
@RX('^' + VB_ + r'vector\(\)$')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], [], Vec)
@RX('^' + VB_ + r'vector\(std::vector<[^>]*>> const&\)$')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], rope_of(ex, st, a[1], Vec), Vec)
@RX('^' + VB_ + r'vector\(std::vector<[^>]*>>&&\)$')
def _(ex, st, a, ins, nm): r = rope_of(ex, st, a[1], Vec); mk(ex, st, a[0], r, Vec); set_rope(ex, st, a[1], [], Vec)
@RX('^' + VB_ + r'vector\(unsigned long, std::allocator<.*> const&\)$')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], fill_rope(ex, st, a[1], 0), Vec)
@RX('^' + VB_ + r'vector\(unsigned long, (unsigned )?char const&, std::allocator<.*> const&\)$')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], fill_rope(ex, st, a[1], ex.load(st, a[2], I8)), Vec)
@RX('^' + VB_ + r'vector<(unsigned )?char( const)?\*, void>\(')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], ex.bytes_rope(st, a[1], sub(a[2].off, a[1].off)), Vec)
@RX('^' + VB_ + r'~vector\(\)$')
def _(ex, st, a, ins, nm):
    v = cell(st, a[0], Vec)
    if not st.mem[v.buf].alive: ex.oblige(st, 'memory-safety: vector destroyed twice', False, 'safety'); raise PathEnd()
    st.w(v.buf).alive = False
@RX('^' + VB_ + r'push_back\((unsigned )?char( const)?&&?\)$')
def _(ex, st, a, ins, nm):
    c = ex.load(st, a[1], I8); upd_rope(ex, st, a[0], rope_of(ex, st, a[0], Vec) + [('c', c)], Vec)
@RX(r'.*' + VB_ + r'emplace_back<(unsigned )?char( const)?&?>\(.*\)$')
def _(ex, st, a, ins, nm):
    c = ex.load(st, a[1], I8); upd_rope(ex, st, a[0], rope_of(ex, st, a[0], Vec) + [('c', c)], Vec)
    v = cell(st, a[0], Vec); return Ptr(v.buf, sub(r_len(rope_of(ex, st, a[0], Vec)), 1))
@RX('^' + VB_ + r'(size)\(\) const$')
def _(ex, st, a, ins, nm): return r_len(rope_of(ex, st, a[0], Vec))
@RX('^' + VB_ + r'empty\(\) const$')
def _(ex, st, a, ins, nm): return b2i(eq(r_len(rope_of(ex, st, a[0], Vec)), 0))
@RX('^' + VB_ + r'(data|begin|cbegin)\(\)( const)?$')
def _(ex, st, a, ins, nm): v = cell(st, a[0], Vec); alive(ex, st, v, 'data'); return Ptr(v.buf, 0)
@RX('^' + VB_ + r'(end|cend)\(\)( const)?$')
def _(ex, st, a, ins, nm): v = cell(st, a[0], Vec); return Ptr(v.buf, r_len(alive(ex, st, v, 'end').rope))
@RX('^' + VB_ + r'operator\[\]\(unsigned long\)( const)?$')
def _(ex, st, a, ins, nm):
    v = cell(st, a[0], Vec); ok = ult(a[1], r_len(alive(ex, st, v, '[]').rope))
    if ok is not True: ex.oblige(st, 'memory-safety: vector index in range', ok, 'safety', info=('bounds', '')); st.assume(ok)
    return Ptr(v.buf, a[1])
@RX('^' + VB_ + r'(reserve|shrink_to_fit)\(')
def _(ex, st, a, ins, nm): cell(st, a[0], Vec)
@RX('^' + VB_ + r'clear\(\)$')
def _(ex, st, a, ins, nm): upd_rope(ex, st, a[0], [], Vec)
@RX('^' + VB_ + r'resize\(unsigned long\)$')
def _(ex, st, a, ins, nm):
    r = rope_of(ex, st, a[0], Vec); n = r_len(r)
    if is_c(n) and n == 0: upd_rope(ex, st, a[0], fill_rope(ex, st, a[1], 0), Vec); return
    t, f = ex.split(st, ule(n, a[1])); alts = []
    if t is not None: upd_rope(ex, t, a[0], r + fill_rope(ex, t, sub(a[1], n), 0), Vec); alts.append((t, None))
    if f is not None:
        x = r_sub(r, 0, a[1])
        if x is None: raise Unsupported('resize')
        upd_rope(ex, f, a[0], x, Vec); alts.append((f, None))
    return Multi(alts)
@RX(r'.*' + VB_ + r'insert<(unsigned char|char) const\*, void>\(')
def _(ex, st, a, ins, nm):
    v = cell(st, a[0], Vec); r = rope_of(ex, st, a[0], Vec)
    if not (isinstance(a[1], Ptr) and a[1].obj == v.buf and eq(a[1].off, r_len(r)) is True): raise Unsupported('vector insert')
    x = ex.bytes_rope(st, a[2], sub(a[3].off, a[2].off)); upd_rope(ex, st, a[0], r + x, Vec); return a[1]
@RX('^' + VB_ + r'operator=\(std::vector<[^>]*>> const&\)$')
def _(ex, st, a, ins, nm): set_rope(ex, st, a[0], rope_of(ex, st, a[1], Vec), Vec); return a[0]
@RX('^' + VB_ + r'operator=\(std::vector<[^>]*>>&&\)$')
def _(ex, st, a, ins, nm): r = rope_of(ex, st, a[1], Vec); set_rope(ex, st, a[0], r, Vec); set_rope(ex, st, a[1], [], Vec); return a[0]

# ------------------------------------------------------------------ algorithms
def pred_summary(ex, st, callee, this, nbytes=1):
    """run the real predicate on an arbitrary byte; -> z3 condition as a function of that byte"""
    s = st.fork(); c = fresh(8, 'elt')
    e = ex.alloc(s, 1, 'cells', 'element'); s.mem[e].cells[0] = (1, c)
    npc = len(s.pc); d0 = len(s.frames)
    mem0 = {k: v for k, v in s.mem.items()}
    nob = len(ex.obl)
    done = ex.run_function(s, callee, [this, Ptr(e, 0)])
    res = []
    for d in done:
        if d.kind != 'ret': raise Unsupported('predicate throws')
        for k, o in mem0.items():
            if k != e and d.st.mem.get(k) is not o and not mem_same(o, d.st.mem.get(k)): raise Unsupported('predicate with side effects')
        res.append((And(*d.st.pc[npc:]), ex.cond(d.val)))
    cond = Or(*[And(p, v) for p, v in res])
    if isinstance(cond, bool): return lambda x: z3.BoolVal(cond)
    cond = z3.simplify(zb(cond))
    return lambda x: z3.substitute(cond, (c, bv(x, 8)))
def mem_same(a, b):
    return b is not None and a.kind == b.kind and a.alive == b.alive and (a.kind != 'cells' or all(same(a.cells[k][1], b.cells.get(k, (0, None))[1]) for k in a.cells))
@RX(r'(unsigned char|char)( const)?\* std::__find_if(_not)?<(unsigned char|char)( const)?\*, .*>\(')
def _(ex, st, a, ins, nm):
    f = ex.mod.funcs[nm].parse(); callee = None
    for b in f.blocks.values():
        for i in b.insts:
            if i.op in ('call', 'invoke') and i.a[1][0] == 'global' and len(i.a[2]) == 2:
                d = ex.mod.demangled.get(i.a[1][1], '')
                if 'operator()' in d: callee = i.a[1][1]; break
        if callee: break
    if callee is None or callee not in ex.mod.funcs: return INLINE
    this = ex.alloc(st, 64, 'cells', 'predicate')
    for i, v in enumerate(a[2:]):
        st.mem[this].cells[8 * i] = (8, v)
    first, last = a[0], a[1]
    if first.obj != last.obj or first.obj is None: return INLINE
    ph = pred_summary(ex, st, callee, Ptr(this, 0))
    ok = ule(first.off, last.off)
    if ok is not True and not ex.valid(st, ok):
        ex.oblige(st, 'memory-safety: iterator range is ordered', ok, 'safety', info=('bounds', '')); st.assume(ok)
    n = sub(last.off, first.off)
    rope = r_norm(ex.bytes_rope(st, first, n))
    if not rope: return first
    arr, o, _ = ex.rope_arr(st, rope)
    r = first_index(ex, st, arr, o, add(o, n), ph)
    return Ptr(first.obj, add(first.off, sub(r, o)))
@RX(r'std::back_insert_iterator<(std::string|std::vector<unsigned char, std::allocator<unsigned char>>)> std::copy<(unsigned char|char)( const)?\*, std::back_insert_iterator<.*>>\(')
def _(ex, st, a, ins, nm):
    cls = Str if 'std::back_insert_iterator<std::string>' in nrm(ex.mod.demangled[nm])[:60] else Vec
    if a[0].obj != a[1].obj: return INLINE
    n = ex.conc_off(st, sub(a[1].off, a[0].off))
    x = ex.bytes_rope(st, a[0], n)
    upd_rope(ex, st, a[2], rope_of(ex, st, a[2], cls) + x, cls)
    return a[2]

# ------------------------------------------------------------------ stream registration
for k in ('ostringstream', 'istringstream'):
    S['std::basic_%s<char, std::char_traits<char>, std::allocator<char>>::~basic_%s()' % (k, k)] = lambda ex, st, a, ins, nm: None
S['std::basic_ostringstream<char, std::char_traits<char>, std::allocator<char>>::basic_ostringstream()'] = h_oss_ctor('ostringstream')
S['std::basic_istringstream<char, std::char_traits<char>, std::allocator<char>>::basic_istringstream(std::string const&, std::_Ios_Openmode)'] = h_oss_ctor('istringstream')
S['std::basic_istringstream<char, std::char_traits<char>, std::allocator<char>>::basic_istringstream(std::string&&, std::_Ios_Openmode)'] = h_oss_ctor('istringstream')
@RX(r'std::basic_ostringstream<.*>::str\(\) const ?&?$|std::basic_ostringstream<.*>::str\(\) &&$')
def _(ex, st, a, ins, nm): mk(ex, st, a[0], list(strm(st, a[1])[1].rope))
@RX(r'std::basic_ios<char, std::char_traits<char>>::fill\(char\)$')
def _(ex, st, a, ins, nm):
    k, s = strm(st, a[0])
    if not is_c(a[1]): raise Unsupported('fill')
    st.w(a[0].obj).cells[k] = (8, s.w(fill=a[1])); return s.fill
@RX(r'std::basic_ostream<char, std::char_traits<char>>::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)$|std::basic_istream<char, std::char_traits<char>>::operator>>\(std::ios_base& \(\*\)\(std::ios_base&\)\)$')
def _(ex, st, a, ins, nm): return h_oss_manip(ex, st, a, ins, nm)
@RX(r'std::basic_ostream<char, std::char_traits<char>>& std::operator<< ?<std::char_traits<char>>\(std::basic_ostream<char, std::char_traits<char>>&, (unsigned |signed )?char\)$')
def _(ex, st, a, ins, nm): return oss_put(ex, st, a[0], [('c', a[1])])
@RX(r'std::basic_ostream<char, std::char_traits<char>>::put\(char\)$')
def _(ex, st, a, ins, nm):
    k, s = strm(st, a[0]); st.w(a[0].obj).cells[k] = (8, s.w(rope=list(s.rope) + [('c', a[1])])); return a[0]
@RX(r'std::basic_ostream<char, std::char_traits<char>>& std::operator<< ?<std::char_traits<char>>\(std::basic_ostream<char, std::char_traits<char>>&, char const\*\)$')
def _(ex, st, a, ins, nm): return oss_put(ex, st, a[0], cstr_rope(ex, st, a[1]))
@RX(r'std::basic_ostream<char, std::char_traits<char>>& std::operator<< ?<char, std::char_traits<char>, std::allocator<char>>\(.*std::string const&\)$')
def _(ex, st, a, ins, nm): return oss_put(ex, st, a[0], rope_of(ex, st, a[1]))
@RX(r'std::basic_ostream<char, std::char_traits<char>>& std::operator<< ?<char, std::char_traits<char>>\(.*std::string_view\)$')
def _(ex, st, a, ins, nm): return oss_put(ex, st, a[0], ex.bytes_rope(st, a[2], a[1]))
@RX(r'std::basic_ostream<char, std::char_traits<char>>& std::operator<< ?<char, std::char_traits<char>>\(.*std::_Setw\)$')
def _(ex, st, a, ins, nm):
    k, s = strm(st, a[0])
    if not is_c(a[1]): raise Unsupported('setw')
    st.w(a[0].obj).cells[k] = (8, s.w(width=a[1])); return a[0]
@RX(r'std::basic_ostream<char, std::char_traits<char>>& std::operator<< ?<char, std::char_traits<char>>\(.*std::_Setfill<char>\)$')
def _(ex, st, a, ins, nm):
    k, s = strm(st, a[0])
    if not is_c(a[1]): raise Unsupported('setfill')
    st.w(a[0].obj).cells[k] = (8, s.w(fill=a[1])); return a[0]
@RX(r'std::basic_ostream<char, std::char_traits<char>>::operator<<\((int|unsigned int|long|unsigned long|unsigned short)\)$')
def _(ex, st, a, ins, nm):
    ty = re.search(r'\(([^()]*)\)$', nrm(ex.mod.demangled[nm])).group(1)
    w, sg = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'unsigned short': (16, 0)}[ty]
    return h_oss_int(ex, st, a, ins, nm, w, sg)
@RX(r'std::basic_istream<char, std::char_traits<char>>::operator>>\((unsigned )?int&\)$')
def _(ex, st, a, ins, nm): return h_iss_int(ex, st, a, ins, nm)
@RX(r'std::ios_base::(setf|unsetf|flags)|std::(hex|dec|uppercase|nouppercase)\(std::ios_base&\)$')
def _(ex, st, a, ins, nm):
    m = re.search(r'std::(hex|dec|uppercase|nouppercase)\(', nrm(ex.mod.demangled[nm]))
    if not m: raise Unsupported('ios flags')
    k, s = strm(st, a[0], (OSS, ISS)); return manip(st, a[0], k, s, m.group(1))

# ------------------------------------------------------------------ runtime
def assert_fail(ex, st, a, ins, nm):
    d = ex.mod.demangled.get(nm, nm)
    msg = ''
    for p in a[::-1]:
        if isinstance(p, Ptr) and p.obj is not None:
            try: msg = bytes(lit(cstr_rope(ex, st, p))).decode('latin1')[:100]; break
            except Unsupported: pass
    txt = []
    for p in a:
        if isinstance(p, Ptr) and p.obj is not None:
            try: txt.append(bytes(lit(cstr_rope(ex, st, p))).decode('latin1')[:90])
            except Unsupported: pass
    ex.oblige(st, 'assertion cannot fail: ' + ' | '.join(txt), False, 'safety', info=('assert',))
    raise PathEnd()
S['std::__glibcxx_assert_fail(char const*, int, char const*, char const*)'] = assert_fail
S['__assert_fail'] = assert_fail
S['abort'] = assert_fail
def terminate(ex, st, a, ins, nm):
    ex.oblige(st, 'no exception escapes a noexcept function (std::terminate unreachable)', False, 'safety', info=('terminate',))
    raise PathEnd()
S['__clang_call_terminate'] = terminate
S['std::terminate()'] = terminate
THROWERS = {'length_error': '_ZTISt12length_error', 'out_of_range_fmt': '_ZTISt12out_of_range', 'out_of_range': '_ZTISt12out_of_range', 'logic_error': '_ZTISt11logic_error',
            'bad_alloc': '_ZTISt9bad_alloc', 'bad_array_new_length': '_ZTISt20bad_array_new_length', 'invalid_argument': '_ZTISt16invalid_argument', 'bad_optional_access': '_ZTISt19bad_optional_access',
            'bad_function_call': '_ZTISt17bad_function_call', 'system_error': '_ZTISt12system_error', 'bad_variant_access': '_ZTISt18bad_variant_access'}
@RX(r'std::__throw_(\w+)\(')
def _(ex, st, a, ins, nm):
    k = re.search(r'std::__throw_(\w+)\(', ex.mod.demangled[nm]).group(1)
    if k not in THROWERS: raise Unsupported('throw ' + k)
    return Throw(Exc(THROWERS[k]))
def form(ex, nm):
    d = ex.mod.demangled.get(nm, nm); return 'malloc' if d in ('malloc', 'free') else 'array' if '[]' in d else 'object'
def h_new(ex, st, a, ins, nm):
    oid = ex.alloc(st, a[0], 'cells' if is_c(a[0]) and a[0] <= 65536 else 'arr', 'heap'); st.mem[oid].heap = form(ex, nm)
    if st.mem[oid].kind == 'arr': st.mem[oid].arr = fresh_arr('heap')
    return Ptr(oid, 0)
def h_delete(ex, st, a, ins, nm):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None:
        o = st.mem[p.obj]
        if not o.alive: ex.oblige(st, 'memory-safety: double free', False, 'safety'); raise PathEnd()
        if isinstance(o.heap, str) and o.heap != form(ex, nm): ex.oblige(st, 'memory-safety: memory released by the counterpart of its allocation', False, 'safety')
        st.w(p.obj).alive = False
for n_ in ('operator new(unsigned long)', 'operator new[](unsigned long)', 'malloc', 'operator new(unsigned long, std::align_val_t)'): S[n_] = h_new
for n_ in ('operator delete(void*)', 'operator delete[](void*)', 'operator delete(void*, unsigned long)', 'free', 'operator delete(void*, std::align_val_t)', 'operator delete(void*, unsigned long, std::align_val_t)'): S[n_] = h_delete
def h_throw(ex, st, a, ins, nm):
    ti = None
    p = a[1]
    if isinstance(p, Ptr) and p.obj is not None: ti = st.mem[p.obj].name[1:]
    return Throw(Exc(ti, a[0]))
S['__cxa_throw'] = h_throw
def h_alloc_exc(ex, st, a, ins, nm): return Ptr(ex.alloc(st, a[0], 'cells', 'exception'), 0)
S['__cxa_allocate_exception'] = h_alloc_exc
S['__cxa_free_exception'] = lambda ex, st, a, ins, nm: None
def h_begin_catch(ex, st, a, ins, nm):
    st.caught = st.caught + (st.exc,); return a[0]
def h_end_catch(ex, st, a, ins, nm):
    st.caught = st.caught[:-1]
    return None
S['__cxa_begin_catch'] = h_begin_catch
S['__cxa_end_catch'] = h_end_catch
S['__cxa_rethrow'] = lambda ex, st, a, ins, nm: Throw(st.caught[-1] if st.caught else Exc(None))
@RX(r'opencmw::URISyntaxException::URISyntaxException\(|std::(logic_error|runtime_error|invalid_argument|out_of_range|ios_base::failure|exception|range_error|length_error|bad_optional_access)(\[abi:cxx11\])?::(~)?\w+\(')
def _(ex, st, a, ins, nm): return None
@RX(r'^std::format<(.*)>\(std::basic_format_string<')
def _(ex, st, a, ins, nm): raise Unsupported('format')
def h_typeid(ex, st, a, ins, nm):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None: return ex.typeid(st.mem[p.obj].name[1:])
    return 1
def intr(name):
    b = name
    if b.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.var.annotation', 'llvm.prefetch', 'llvm.va_')): return lambda ex, st, a, ins, nm: None
    if b.startswith('llvm.memcpy') or b.startswith('llvm.memmove'):
        def h(ex, st, a, ins, nm): ex.memcpy(st, a[0], a[1], a[2], 'memcpy in ' + ex.fname(st.frames[-1]))
        return h
    if b.startswith('llvm.memset'):
        def h(ex, st, a, ins, nm):
            n = ex.conc_off(st, a[2])
            if is_c(n) and n <= 4096 and isinstance(a[0], Ptr) and a[0].obj is not None and st.mem[a[0].obj].kind == 'cells':
                ex.check_access(st, a[0], n, 'memset') if n else None
                off = ex.conc_off(st, a[0].off)
                o = st.w(a[0].obj)
                for k in list(o.cells):
                    if k >= off and k + o.cells[k][0] <= off + n: del o.cells[k]
                i = 0
                while i < n:
                    w = 8 if (off + i) % 8 == 0 and n - i >= 8 and is_c(a[1]) else 1
                    ex.write(st, a[0].obj, off + i, w, a[1] if w == 1 else a[1] * 0x0101010101010101); i += w
                return
            ex.put_bytes(st, a[0], fill_rope(ex, st, n, a[1]))
        return h
    if b.startswith('llvm.assume'):
        def h(ex, st, a, ins, nm): st.assume(ex.cond(a[0]))
        return h
    if b.startswith('llvm.is.constant'): return lambda ex, st, a, ins, nm: 0
    if b.startswith('llvm.expect'): return lambda ex, st, a, ins, nm: a[0]
    if b.startswith('llvm.eh.typeid'): return h_typeid
    if b.startswith('llvm.trap'): return assert_fail
    m = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)', b)
    if m:
        w = int(m.group(2)); o = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[m.group(1)]
        return lambda ex, st, a, ins, nm: ite(ex.cond(cmp(o, a[0], a[1], w)), a[0], a[1], w)
    m = re.match(r'llvm\.abs\.i(\d+)', b)
    if m:
        w = int(m.group(1)); return lambda ex, st, a, ins, nm: ite(ex.cond(cmp('slt', a[0], 0, w)), sub(0, a[0], w), a[0], w)
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', b)
    if m:
        sg, o, w = m.group(1) == 's', m.group(2), int(m.group(3))
        def h(ex, st, a, ins, nm):
            x, y = bv(a[0], w), bv(a[1], w)
            r = binop(o, a[0], a[1], w)
            E = 2 * w if o == 'mul' else w + 1
            ext_ = (lambda v: z3.SignExt(E - w, v)) if sg else (lambda v: z3.ZeroExt(E - w, v))
            full = {'add': ext_(x) + ext_(y), 'sub': ext_(x) - ext_(y), 'mul': ext_(x) * ext_(y)}[o]
            return [r, b2i(simp(full != ext_(bv(r, w))))]
        return h
    m = re.match(r'llvm\.ct(lz|tz|pop)\.i(\d+)', b)
    if m:
        kind, w = m.group(1), int(m.group(2))
        def h(ex, st, a, ins, nm):
            x = a[0]
            if is_c(x):
                if kind == 'pop': return bin(x).count('1')
                if kind == 'lz': return w - x.bit_length()
                return (x & -x).bit_length() - 1 if x else w
            if kind == 'pop':
                r = z3.BitVecVal(0, w)
                for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
                return simp(r)
            r = z3.BitVecVal(w, w)
            rngs = range(w) if kind == 'lz' else range(w - 1, -1, -1)
            for i in rngs: r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if kind == 'lz' else i, w), r)
            return simp(r)
        return h
    return None
for n_, p_ in (('isalnum', p_alnum), ('isalpha', p_alpha), ('isdigit', p_digit), ('isxdigit', p_xdigit), ('isupper', p_upper), ('islower', p_lower), ('isspace', p_space)):
    S[n_] = ct(p_)
S['toupper'] = h_toupper; S['tolower'] = h_tolower

def stdlib(ex, name, dem):
    if name.startswith('llvm.'): return intr(name)
    d = nrm(dem)
    h = S.get(d) or S.get(name)
    if h is not None: return h
    m = re.match(r'std::string std::format<(.*)>\(std::basic_format_string<', d)
    if m: return h_format(targs(m.group(1)))
    for rx, f in R:
        if rx.match(d): return f
    return None

# ------------------------------------------------------------------ std::from_chars on unsigned integers, base 10
f_decval = z3.Function('decimal_value', z3.ArraySort(BV64, BV8), BV64, BV64, BV64)     # value of the digits arr[a,b) (meaningful unless f_decbig)
f_decbig = z3.Function('decimal_exceeds', z3.ArraySort(BV64, BV8), BV64, BV64, z3.BitVecSort(8), z3.BoolSort())   # ... and whether it does not fit into w bits
def is_dig(c): return And(ule(48, c, 8), ule(c, 57, 8))
def dec_parse(arr, a, b, w):
    """spec: src[a,b) is a decimal number that fits into w bits -> (condition, value)"""
    k = z3.BitVec('dk!%d' % uid(), 64); a, b = bv(a, 64), bv(b, 64)
    alld = z3.ForAll([k], z3.Implies(z3.And(z3.ULE(a, k), z3.ULT(k, b)), zb(is_dig(z3.Select(arr, k)))), patterns=[z3.Select(arr, k)])
    return z3.And(z3.ULT(a, b), alld, z3.Not(f_decbig(arr, a, b, z3.BitVecVal(w, 8)))), z3.Extract(w - 1, 0, f_decval(arr, a, b))
WID = {'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned char': 8}
@RX(r'^std::from_chars_result std::from_chars<(unsigned short|unsigned int|unsigned long|unsigned char), 0>\(char const\*, char const\*, ')
def _(ex, st, a, ins, nm):
    w = WID[re.search(r'from_chars<([a-z ]+), 0>', nrm(ex.mod.demangled[nm])).group(1)]
    if not is_c(a[3]) or a[3] != 10: raise Unsupported('from_chars base')
    INV = [a[0], 22]
    if a[0].obj is None: return INV
    if not isinstance(a[1], Ptr) or a[1].obj != a[0].obj: raise Unsupported('from_chars range')
    n = sub(a[1].off, a[0].off)
    rope = ex.bytes_rope(st, a[0], n)
    arr, f, n2 = content_arr(ex, st, rope)
    e = first_index(ex, st, arr, f, add(f, n), lambda c: Not(is_dig(c)))
    alts = []
    none = eq(e, f)
    t, s2 = ex.split(st, none)
    if t is not None: alts.append((t, INV))
    if s2 is not None:
        big = f_decbig(arr, bv(f, 64), bv(e, 64), z3.BitVecVal(w, 8))
        t, s3 = ex.split(s2, big)
        end = Ptr(a[0].obj, add(a[0].off, sub(e, f)))
        if t is not None: alts.append((t, [end, 34]))
        if s3 is not None:
            ex.store(s3, a[2], IntTy(w), simp(z3.Extract(w - 1, 0, f_decval(arr, bv(f, 64), bv(e, 64))))); alts.append((s3, [end, 0]))
    return Multi(alts)
