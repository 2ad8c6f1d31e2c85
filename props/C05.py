"""URI text -> components"""
from irv.prop import *
from irv.spec import *
from urispec import *
NATIVE = ['uri.cpp']
STRICT_ALL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/?#[]@!$&'()*+,;=%"
def legal(chars): return lambda c: z3.Or(alnum(c), *[c == ord(x) for x in chars])
ANY = legal("-._~:/?#[]@!$&'()*+,;=%"); AUTH = legal('@:.-_*[]'); PATH = legal('/.-_')
def bad_in(arr, ab, p):
    k = z3.BitVec('badk', 64); A = z3.Select(arr, k)
    return z3.Exists([k], z3.And(z3.ULE(ab[0], k), z3.ULT(k, ab[1]), z3.Not(p(A))))
def prove(c):
    def parts(c, strict):
        m = c.module('uri.cpp'); ex = c.executor(m, budget=400)
        st, n, buf, out, arr = text(c, ex, 'src')
        o = ex.alloc(st, 200, 'cells', 'components')
        sp = Split(arr, n)
        for a in sp.ax: st.define(a)
        st.assume(sp.grammar)
        c.reach('parse precondition', st)
        nm = 'STRICT' if strict else 'RELAXED'
        def post(c, ex, done):
            for d in done:
                s = d.st
                if d.kind == 'throw':
                    if not strict: ex.oblige(s, 'parse(RELAXED): does not throw', False)
                    else:
                        ex.oblige(s, 'parse(STRICT): throws the syntax error type', exc_is(ex, s, 'URISyntaxException'))
                        ex.oblige(s, 'parse(STRICT): throws only if a component has an illegal character', z3.Or(bad_in(arr, (z3.BitVecVal(0, 64), n), ANY), bad_in(arr, sp.scheme, alnum), bad_in(arr, sp.auth, AUTH), bad_in(arr, sp.path, PATH)))
                    continue
                for i, (cn, ab) in enumerate(sp.comps): opt_post(ex, s, Ptr(o, 40 * i), arr, 'parse(%s) %s' % (nm, cn), ab)
                if strict:
                    w = z3.BitVec('w!%d' % uid(), 64); ch = z3.Select(arr, w)
                    for cn, ab, p in (('text', (z3.BitVecVal(0, 64), n), ANY), ('scheme', sp.scheme, alnum), ('authority', sp.auth, AUTH), ('path', sp.path, PATH)):
                        ex.oblige(s, 'parse(STRICT): every character of the %s is legal' % cn, z3.Implies(z3.And(z3.ULE(ab[0], w), z3.ULT(w, ab[1])), p(ch)))
            for d in done[:1]: c.reach('parse exit', d.st)
        c.explore_par(ex, st, 'u_parts_s' if strict else 'u_parts_r', [Ptr(o, 0), Ptr(buf, 0), n], post, tag='parse ' + nm)
    def auth(c, strict):
        # modular: parseURI's contract (part above) gives an authority [a,b) inside the text; the accessors are verified for every such range
        m = c.module('uri_auth.cpp'); ex = c.executor(m, budget=400)
        st, n, buf, out, arr = text(c, ex, 'src')
        o = ex.alloc(st, 120, 'cells', 'authority parts'); q = ex.alloc(st, 4, 'cells', 'port')
        a, b = fresh(64, 'auth_begin'), fresh(64, 'auth_end')
        st.assume(z3.ULE(a, b)); st.assume(z3.ULE(b, n))
        au = AuthSplit(arr, n, (a, b))
        for x in au.ax: st.define(x)
        c.reach('authority precondition', st); c.ab = (a, b)
        nm = 'STRICT' if strict else 'RELAXED'
        def post(c, ex, done):
            for d in done:
                s = d.st
                if d.kind == 'throw': ex.oblige(s, 'authority(%s): does not throw' % nm, False); continue
                for i, (cn, ab) in enumerate((('user', au.user), ('password', au.pwd), ('host', au.host))): opt_post(ex, s, Ptr(o, 40 * i), arr, 'authority(%s) %s' % (nm, cn), ab)
                port_post(ex, s, q, arr, au.port)
        c.explore_par(ex, st, 'u_auth_s' if strict else 'u_auth_r', [Ptr(o, 0), Ptr(q, 0), Ptr(buf, 0), n, a, b], post, tag='authority ' + nm)
    c.module('uri.cpp'); c.attempt('authority unit', lambda: c.module('uri_auth.cpp'))
    c.parallel([('parse strict', lambda c: parts(c, True)), ('parse relaxed', lambda c: parts(c, False)), ('authority relaxed', lambda c: auth(c, False)), ('authority strict', lambda c: auth(c, True))])
def port_post(ex, s, q, arr, ab):
    f = ex.load(s, Ptr(q, 2), IntTy8); has = ex.cond(simp(z3.Extract(0, 0, bv(f, 8))))
    v = ex.load(s, Ptr(q, 0), IntTy16) if has is not False else 0
    ok, val = lib.dec_parse(arr, ab[0], ab[1], 16)
    ex.oblige(s, 'authority port: reported exactly for a decimal number up to 65535', zb(has) == ok)
    if has is not False:
        s1 = s.fork(); s1.assume(has); ex.oblige(s1, 'authority port: the number written', bv(v, 16) == val)
def inputs_from(c, o):
    import C03; f = C03.inputs_from
    return f(c, o)
