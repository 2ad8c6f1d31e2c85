"""query map.  decode() enters by the contract that C03/C04 prove for it; the map by the contract of std::unordered_map (mapspec).
Specification: the query is consumed token by token; position i -> next position, and each token puts one entry:
  key = decode(q[i, e)) with e the first of "=;&" at or after i (or the end);
  separator or end at e: no value;  '=' at e: value = decode(q[e+1, v)) with v the first of ";&" after e (or the end), no value if e+1 is the end.
The map asked for is the one reached at the end.  Strict mode: each decoded piece is well-formed and every character legal, otherwise a syntax error."""
from irv.prop import *
from irv.spec import *
from irv.ll import IntTy
from mapspec import *
from C03 import alnum, exc_is
import C06
from urispec import oneof
NATIVE = [('uri.cpp', ['-fsanitize=address'])]
NATIVE_BUDGET_FAIL = 60
ASSUMPTIONS = C06.ASSUMPTIONS + ['a std::unordered_map is the finite map of its put operations (operator[] returns the slot of the key, creating a disengaged one)']
DEC = {s: z3.Function('decode_' + s, SEQ, SEQ) for s in 'sr'}; DECOK = z3.Function('decode_wellformed', SEQ, BOOL); DECLEN = {s: z3.Function('decode_len_' + s, SEQ, BV64) for s in 'sr'}
def sub_t(arr, a, e): return s_sub(arr, z3.simplify(bv(a, 64)), z3.simplify(e - a))
def dec_contract(strict):
    """decode(s): STRICT throws a syntax error iff s has a malformed escape; otherwise the decoding, empty exactly for the empty text (proved in C03/C04)"""
    x = 's' if strict else 'r'
    def libf(ex, name, dem):
        if not re.match(r'opencmw::URI<\(opencmw::uri_check\)\d>::decode(\[abi:cxx11\])?\(std::(basic_string_view<char, std::char_traits<char>\s*>|string_view) const&\)$', dem): return None
        def h(ex, st, a, ins, nm):
            rope = r_norm(sv_rope(ex, st, a[1])); t = canon(rope); n = r_len(rope)
            alts = []
            ok, bad = ex.split(st, DECOK(t)) if strict else (st, None)
            if ok is not None:
                l = DECLEN[x](t); ok.define(z3.And(z3.ULE(l, bv(n, 64)), (l == 0) == (bv(n, 64) == 0)))
                mk(ex, ok, a[0], [('o', DEC[x](t), l)]); alts.append((ok, None))
            if bad is not None: alts.append((bad, Throw(Exc('_ZTIN7opencmw18URISyntaxExceptionE'))))
            return Multi(alts)
        h.trust = 'contract of URI::decode (proved in C03/C04)'
        return h
    return libf
def canon(rope):
    if len(rope) == 1 and rope[0][0] == 's': return s_sub(rope[0][1], z3.simplify(bv(rope[0][2], 64)), z3.simplify(bv(rope[0][3], 64)))
    return r_term(rope)
class Tokens:
    """D(i) = map reached at (absolute) position i, At(i): i is the start of a token or the end"""
    def __init__(s, arr, q0, q1, strict):
        s.At, s.D = z3.Function('q.at', BV64, BOOL), z3.Function('q.map', BV64, MAP); s.arr, s.q0, s.q1 = arr, q0, q1; s.x = 's' if strict else 'r'; s.strict = strict
        s.n = q1 - q0
    def init(s): return z3.And(s.At(s.q0), s.D(s.q0) == m_empty)
    def token(s, i):
        A = lambda k: z3.Select(s.arr, k)
        e, ax = lib.fi_term(oneof('=;&'), s.arr, i, s.q1)
        v0 = z3.simplify(e + 1); v, ax2 = lib.fi_term(oneof(';&'), s.arr, v0, s.q1)
        key, val = sub_t(s.arr, i, e), sub_t(s.arr, v0, v)
        hasv = z3.And(z3.ULT(e, s.q1), A(e) == 61, z3.ULT(v0, s.q1))
        return e, v0, v, key, val, hasv, ax[:1] + ax2[:1]
    def bad(s, i):
        e, v0, v, key, val, hasv, ax = s.token(i)
        return z3.Or(z3.Not(DECOK(key)), z3.And(hasv, z3.Not(DECOK(val)))), ax
    def inst(s, i):
        i = z3.simplify(bv(i, 64)); e, v0, v, key, val, hasv, ax = s.token(i); d = DEC[s.x]
        end = z3.If(hasv, v, e)                     # end of the token
        nxt = z3.If(z3.And(z3.ULT(e, s.q1), z3.Not(hasv), z3.Select(s.arr, e) == 61), s.q1, z3.If(z3.ULT(end, s.q1), end + 1, s.q1))
        new = z3.If(hasv, m_put(s.D(i), d(key), z3.BoolVal(True), d(val)), m_put(s.D(i), d(key), z3.BoolVal(False), s_empty))
        bad, _ = s.bad(i)
        ok = z3.And(s.At(i), z3.ULE(s.q0, i), z3.ULT(i, s.q1), *([z3.Not(bad)] if s.strict else []))
        return [z3.Implies(ok, z3.And(s.At(nxt), s.D(nxt) == new))] + ax
    def positions(s, lc):
        for v in int_vars(lc):
            if v == lc.it: continue
            yield v, (z3.BitVecVal(0, 64) if v[0] in ('phip', 'cellp') else s.q0)
    def attach(s, ex):
        def maps(lc): return [v for v in lc.vars if v[0] == 'lib' and v[2] == 'map']
        def hint(lc, vars_):
            out = []
            for v, base in s.positions(lc):
                p = lambda lc, st, v=v, base=base: z3.simplify(base + bv(lc.get(st, v), 64))
                # s.q1 + 1 stands for nothing: a position is in the query
                out.append(Cand(('at', v, str(base)), lambda lc, st, p=p: z3.And(s.At(p(lc, st)), z3.ULE(s.q0, p(lc, st)), z3.ULE(p(lc, st), s.q1)), True))
                for m in maps(lc):
                    out.append(Cand(('map', m, v, str(base)), lambda lc, st, m=m, p=p: z3.And(s.At(p(lc, st)), flushed(ex, st, m[1]) == s.D(p(lc, st))), True, group=('map', m)))
            return out
        def facts(lc, st):
            out = [s.init()]
            for v, base in s.positions(lc):
                for t in (st, lc.S0):
                    if t is None: continue
                    try: x = lc.get(t, v)
                    except Exception: continue
                    if x is not None and not is_c(x): out += s.inst(base + x)
            return out
        ex.hints.append(hint); ex.fact_hints.append(facts)
def flushed(ex, st, loc):
    m = st.mem[loc[0]].cells[loc[1]][1]
    if not m.pend: return m.t
    t = st.fork(); return get(ex, t, Ptr(*loc)).t
LEGAL = lambda c: z3.Or(alnum(c), *[c == ord(x) for x in '-_.~&;=%:/'])
def prove(c):
    m = c.module('uri_query.cpp'); off = C06.offsets(c, m)
    if any(not is_c(x) for x in off): raise Unsupported('field offsets')
    def op(c, strict, mode, cached, name):
        ex = c.executor(m, [dec_contract(strict), ssolib, maplib], budget=300); st = X.State(); ex.find_quant = False
        o = C06.make(c, ex, st, off, 'uri', mode); q0, q1 = o.rng[3]
        c.n, c.arr, c.q = o.n, o.arr, (q0, q1)
        tk = Tokens(o.arr, q0, q1, strict); tk.attach(ex); st.define(tk.init())
        st.assume(m_isempty(o.map) == (o.map == m_empty))
        # class invariant of the cache: it is empty or was built by an earlier call (which found every character and escape legal)
        k = z3.BitVec('ck', 64); alllegal = z3.ForAll([k], z3.Implies(z3.And(z3.ULE(q0, k), z3.ULT(k, q1)), LEGAL(z3.Select(o.arr, k))), patterns=[z3.Select(o.arr, k)])
        if cached: st.assume(z3.And(o.map != m_empty, tk.At(q1), o.map == tk.D(q1), *([alllegal] if strict else [])))
        else: st.assume(o.map == m_empty)
        c.reach('queryParamMap precondition ' + name, st)
        def post(c, ex, done):
            for d in done:
                s = d.st; mm = get(ex, s, Ptr(o.id, off[12])) if d.kind == 'ret' else None
                if d.kind == 'ret':
                    ex.oblige(s, 'query map (%s): refers to the object\'s map' % name, isinstance(d.val, Ptr) and d.val.obj == o.id and eq(d.val.off, off[12]))
                    ex.oblige(s, 'query map (%s): the whole query is consumed and the map is that of its key/value pairs' % name, z3.And(tk.At(q1), mm.t == tk.D(q1)))
                    if strict:
                        w = z3.BitVec('w!%d' % uid(), 64)
                        ex.oblige(s, 'query map (STRICT): every character of the query is legal', z3.Implies(z3.And(z3.ULE(q0, w), z3.ULT(w, q1)), LEGAL(z3.Select(o.arr, w))))
                else:
                    if not strict: ex.oblige(s, 'query map (RELAXED): does not throw', False); continue
                    ex.oblige(s, 'query map (STRICT): throws the syntax error type', exc_is(ex, s, 'URISyntaxException'))
                    k = z3.BitVec('tk', 64); bad, _ = tk.bad(k)
                    b = z3.BitVec('bk', 64)
                    ex.oblige(s, 'query map (STRICT): throws only for an illegal character or a malformed escape', z3.Or(z3.Exists([b], z3.And(z3.ULE(q0, b), z3.ULT(b, q1), z3.Not(LEGAL(z3.Select(o.arr, b))))), z3.Exists([k], z3.And(tk.At(k), z3.ULE(q0, k), z3.ULT(k, q1), bad), patterns=[tk.At(k)])))
                    ex.oblige(s, 'query map (STRICT): nothing is cached after an error', get(ex, s, Ptr(o.id, off[12])).t == o.map)
                # the object is otherwise unchanged
                C06.check_inv_text(c, ex, s, off, 'query map (%s)' % name, o)
            for d in done: c.reach('queryParamMap exit %s %s' % (name, d.kind), d.st)
        c.explore_par(ex, st, 'u_qmap_' + ('s' if strict else 'r'), [Ptr(o.id, 0)], post, tag='query map ' + name)
    parts = []
    for strict in (False, True):
        for mode in (dict(parsed=True, null=()), dict(parsed=False, null=(3, 5, 6, 7, 8))):
            for cached in (False, True):
                if cached and 3 in mode['null']: continue
                nm = ('STRICT' if strict else 'RELAXED') + (', asked before' if cached else ', without query' if 3 in mode['null'] else '')
                parts.append((nm, lambda c, a=(strict, mode, cached, nm): op(c, *a)))
    # the contract of decode used above, discharged against its body
    import C03
    c.module('uri.cpp')
    parts += [('decode strict', lambda c: (setattr(c, 'q', None), C03.prove_decode(c, True))), ('decode relaxed', lambda c: (setattr(c, 'q', None), C03.prove_decode(c, False)))]
    c.parallel(parts)
def inputs_from(c, o):
    out = []
    for mm in (small_model(o, [c.n]), o.model):
        if mm is None: continue
        b = bytes_of(mm, c.arr, c.n)
        if b is None: continue
        if c.q is None:
            out.append(b.hex() or '00len0'); continue
        q0, q1 = (mm.eval(x, model_completion=True).as_long() for x in c.q)
        out.append(b[q0:q1].hex() or '00len0')
    return out
