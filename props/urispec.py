"""specification of how a URI text splits into components (shared by the URI properties)"""
from irv.prop import *
from irv.spec import *
from irv.ll import IntTy
IntTy8 = IntTy(8); IntTy16 = IntTy(16)
from C03 import alnum, unres, text, between, exc_is
def oneof(chars): return lambda c: z3.Or([c == ord(x) for x in chars])
class First:
    """i = least position >= start (< n) whose character satisfies p, or n"""
    def __init__(s, arr, n, start, p, nm):
        s.i, s.axioms = lib.fi_term(p, arr, start, n)
class Split:
    """[scheme:][//authority][path][?query][#fragment] of src[0,n)"""
    def __init__(s, arr, n):
        A = lambda j: z3.Select(arr, j); Z = z3.BitVecVal(0, 64)
        s.A, s.n = A, n
        s.ax = []
        def first(start, chars, nm):
            f = First(arr, n, start, oneof(chars), nm); s.ax += f.axioms; return f.i
        colon = first(Z, ':', 'sp_colon'); sep = first(Z, '/?#', 'sp_sep')
        s.pathOnly = z3.And(n != 0, A(Z) == 47)
        s.hasScheme = z3.And(z3.ULT(colon, sep), z3.ULT(colon, n), z3.Not(s.pathOnly))
        s.colon = colon
        rest = z3.If(s.hasScheme, colon + 1, Z); s.rest = rest
        s.hasAuth = z3.And(s.hasScheme, z3.ULT(rest + 1, n), A(rest) == 47, A(rest + 1) == 47)
        # texts outside the grammar of the property: no scheme, and not starting with '/', '?' or '#'
        s.grammar = z3.Or(n == 0, s.hasScheme, A(Z) == 47, A(Z) == 63, A(Z) == 35)
        a0 = z3.If(s.hasAuth, rest + 2, rest)
        s.ax.append(z3.BitVec('sp_a0', 64) == a0); s.a0 = z3.BitVec('sp_a0', 64)
        ae = first(s.a0, '/?#', 'sp_authend'); 
        s.auth = (s.a0, z3.If(s.hasAuth, ae, s.a0))
        s.p0 = z3.BitVec('sp_p0', 64); s.ax.append(s.p0 == z3.If(s.hasAuth, ae, rest))
        pe = first(s.p0, '?#', 'sp_pathend'); s.path = (s.p0, pe)
        hash_ = first(pe, '#', 'sp_hash')
        s.hasQ = z3.And(z3.ULT(pe, n), A(pe) == 63)
        s.query = (z3.If(s.hasQ, pe + 1, pe), z3.If(s.hasQ, hash_, pe))
        s.frag = (z3.If(z3.ULT(hash_, n), hash_ + 1, n), n)
        s.scheme = (Z, z3.If(s.hasScheme, colon, Z))
        s.first = first
    comps = property(lambda s: [('scheme', s.scheme), ('authority', s.auth), ('path', s.path), ('query', s.query), ('fragment', s.frag)])
class AuthSplit:
    """[user[:password]@]host[:port] of src[a,b); a bracketed host keeps its colons"""
    def __init__(s, arr, n, ab):
        a, b = ab; A = lambda j: z3.Select(arr, j)
        s.ax = []
        def first(start, chars, nm, end=b):
            f = First(arr, end, start, oneof(chars), nm); s.ax += f.axioms; return f.i
        at = first(a, '@', 'au_at'); hasU = z3.ULT(at, b)
        col = first(a, ':', 'au_col')
        ue = z3.If(z3.ULT(col, at), col, at)
        s.user = (a, z3.If(hasU, ue, a))
        s.pwd = (z3.If(z3.And(hasU, z3.ULT(col, at)), col + 1, a), z3.If(z3.And(hasU, z3.ULT(col, at)), at, a))
        h0 = z3.BitVec('au_h0', 64); s.ax.append(h0 == z3.If(hasU, at + 1, a))
        brk = first(h0, ']', 'au_brk')
        lit = z3.And(z3.ULT(h0, b), A(h0) == 91)
        ps = z3.BitVec('au_ps', 64); s.ax.append(ps == z3.If(lit, brk, h0))
        pc = first(ps, ':', 'au_port')
        s.host = (h0, pc)
        s.port = (z3.If(z3.ULT(pc, b), pc + 1, b), b)
def read_opt(ex, s, p):
    """std::optional<std::string> at p -> (engaged condition, rope or None)"""
    f = ex.load(s, Ptr(p.obj, add(p.off, 32)), IntTy8)
    has = ex.cond(simp(z3.Extract(0, 0, bv(f, 8))))
    v = s.mem[p.obj].cells.get(p.off)
    rope = r_norm(lib.rope_of(ex, s, p)) if v is not None and isinstance(v[1], lib.Str) and has is not False else None
    return has, rope
def opt_post(ex, s, p, arr, name, ab, extra=True):
    """the optional at p is engaged iff src[a,b) is not empty and then holds exactly src[a,b)"""
    a, b = ab
    has, rope = read_opt(ex, s, p)
    ex.oblige(s, '%s: reported exactly when it is not empty' % name, zb(has) == z3.ULT(a, b))
    if has is not False:
        s1 = s.fork(); s1.assume(has)
        if rope is None: ex.oblige(s1, '%s: an engaged result holds text' % name, False)
        else: ex.oblige(s1, '%s: exactly the characters between its delimiters' % name, r_eq(rope, [('s', arr, a, sub(b, a))]))
