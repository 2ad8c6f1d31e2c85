"""copy and move of URI objects.
Object state: text T, component views, parsed flag, authority sub-views, cached query map.  Class invariant Inv(T): every component view is some
range of T (which one is C05's concern; here it is arbitrary) or empty, sub-views are those of the authority once parsed (those or empty before), the cached map is empty or
the map of the query, and every non-empty view points into the object's own text.  parseURI establishes the component part (C05), parseAuthority
the sub-views (C05), queryParamMap the map (C07); the reports are functions of this state.  Here: copy/move operations establish Inv(T) on the target."""
from irv.prop import *
from irv.spec import *
from irv.ll import IntTy
from mapspec import *
NATIVE = [('uri.cpp', ['-fsanitize=address'])]
NATIVE_BUDGET_FAIL = 60
ASSUMPTIONS = ['std::string keeps at most 15 characters inside the object and longer ones on the heap; swap and move hand over heap buffers and copy local ones', 'the data pointer of an empty view is never used (each access is checked)']
VIEWS = ['scheme', 'authority', 'path', 'query', 'fragment', 'user', 'password', 'host', 'port']
def offsets(c, m):
    ex = c.executor(m, budget=20); out = []
    for i in range(13):
        d = ex.run_function(X.State(), 'u_off', [i])[0]; out.append(d.val)
    return out
class Obj_:
    pass
def make(c, ex, st, off, nm, mode):
    """an object satisfying the class invariant, for an arbitrary text"""
    o = Obj_(); n = fresh(64, nm + '_n'); o.n = n; st.assume(z3.ULT(n, 1 << 56))
    o.arr = z3.Const(nm + '_text', ARR); o.rng = []
    for v in VIEWS:
        a, e = z3.BitVec('%s_%s_begin' % (nm, v), 64), z3.BitVec('%s_%s_end' % (nm, v), 64); st.assume(z3.And(z3.ULE(a, e), z3.ULE(e, n))); o.rng.append((a, e))
    o.id = ex.alloc(st, off[0], 'cells', nm)
    b = mk(ex, st, Ptr(o.id, off[1]), [('s', o.arr, 0, n)]); o.buf = b
    o.parsed = mode['parsed']
    ex.store(st, Ptr(o.id, off[11]), IntTy(8), int(o.parsed))
    for i in range(9):
        if i in mode['null']:
            if i < 5 or o.parsed or mode.get('split'): st.assume(o.rng[i][0] == o.rng[i][1])
            ex.store(st, Ptr(o.id, off[2 + i]), I64, 0); ex.store(st, Ptr(o.id, off[2 + i] + 8), PTR, NULL)
        else:
            a, e = o.rng[i] if i < 5 or o.parsed or mode.get('split') else (0, 0)
            ex.store(st, Ptr(o.id, off[2 + i]), I64, sub(e, a)); ex.store(st, Ptr(o.id, off[2 + i] + 8), PTR, Ptr(b, simp(a)))
    o.map = z3.Const(nm + '_map', MAP); setcell(ex, st, Ptr(o.id, off[12]), Map(o.map))
    st.assume(z3.Implies(o.rng[3][0] == o.rng[3][1], m_isempty(o.map))); st.assume(m_isempty(m_empty))
    return o
def check_inv(c, ex, s, off, what, t, src):
    """the object t reports everything src reported"""
    v = cell(s, Ptr(t, off[1]), Str)
    ex.oblige(s, '%s: the target owns a live text' % what, s.mem[v.buf].alive)
    if not s.mem[v.buf].alive: return
    rope = r_norm(s.mem[v.buf].rope)
    ex.oblige(s, '%s: same text' % what, r_eq(rope, [('s', src.arr, 0, src.n)]))
    par = ex.load(s, Ptr(t, off[11]), IntTy(8)); par = simp(z3.Extract(0, 0, bv(par, 8)))
    par = bool(par) if is_c(par) else ex.valid(s, par == 1)
    for i in range(9):
        n = ex.load(s, Ptr(t, off[2 + i]), I64); p = ex.load(s, Ptr(t, off[2 + i] + 8), PTR)
        a, e = src.rng[i]
        own = isinstance(p, Ptr) and p.obj == v.buf
        if i >= 5 and not par:        # split again before it is reported: nothing or the right range
            ex.oblige(s, '%s: no stale %s before the authority is split again' % (what, VIEWS[i]), z3.Or(bv(n, 64) == 0, z3.And(bv(n, 64) == e - a, bv(p.off, 64) == a) if own else z3.BoolVal(False))); continue
        ex.oblige(s, '%s: %s keeps its length' % (what, VIEWS[i]), bv(n, 64) == e - a)
        if own: ok = z3.Or(bv(n, 64) == 0, bv(p.off, 64) == a)
        else: ok = bv(n, 64) == 0          # not a view of the object's own text
        ex.oblige(s, '%s: %s is the same range of the target\'s own text' % (what, VIEWS[i]), ok)
    m = get(ex, s, Ptr(t, off[12]))
    ex.oblige(s, '%s: cached query map is empty or that of the source' % what, z3.Or(zb(empty_cond(m.t)), m.t == src.map))
    ex.oblige(s, '%s: no cached map without a query' % what, z3.Implies(src.rng[3][0] == src.rng[3][1], zb(empty_cond(m.t))))
def check_inv_text(c, ex, s, off, what, o):
    """text and component views unchanged"""
    v = cell(s, Ptr(o.id, off[1]), Str)
    ex.oblige(s, '%s: text unchanged' % what, z3.And(z3.BoolVal(s.mem[v.buf].alive), zb(r_eq(r_norm(s.mem[v.buf].rope), [('s', o.arr, 0, o.n)]))))
    for i in range(5):
        n = ex.load(s, Ptr(o.id, off[2 + i]), I64); p = ex.load(s, Ptr(o.id, off[2 + i] + 8), PTR); a, e = o.rng[i]
        ok = isinstance(p, Ptr) and p.obj == v.buf
        ex.oblige(s, '%s: %s unchanged' % (what, VIEWS[i]), z3.And(bv(n, 64) == e - a, z3.Or(bv(n, 64) == 0, bv(p.off, 64) == a if ok else z3.BoolVal(False))))
def reparse(ex, name, dem):
    if '::parseURI()' in dem or '::parseAuthority()' in dem or '::queryParamMap()' in dem:
        def h(ex, st, a, ins, nm): raise Unsupported('the operation parses again (outside this decomposition)')
        return h
    return None
def prove(c):
    m = c.module('uri_copy.cpp'); off = offsets(c, m)
    if any(not is_c(x) for x in off): raise Unsupported('field offsets')
    modes = [dict(parsed=True, null=()), dict(parsed=False, null=(), split=True), dict(parsed=False, null=(5, 6, 7, 8)), dict(parsed=True, null=(0, 1, 5, 6, 7, 8)), dict(parsed=True, null=(3, 4, 6, 8)), dict(parsed=False, null=tuple(range(9))), dict(parsed=True, null=(0, 2, 3, 5))]
    def op(c, fn, strict, ms, md, kind):
        ex = c.executor(m, [reparse, ssolib, maplib], budget=300); st = X.State()
        src = make(c, ex, st, off, 'src', ms)
        if kind == 'assign': dst = make(c, ex, st, off, 'dst', md).id
        elif kind == 'self': dst = src.id
        else: dst = ex.alloc(st, off[0], 'cells', 'new object')
        c.reach('%s precondition' % fn, st)
        done = ex.run_function(st, '%s_%s' % (fn, 's' if strict else 'r'), [Ptr(dst, 0), Ptr(src.id, 0)])
        what = {'u_cassign': 'copy assignment', 'u_massign': 'move assignment', 'u_cctor': 'copy construction', 'u_mctor': 'move construction'}[fn] + (' to itself' if kind == 'self' else '')
        for d in done:
            ex.oblige(d.st, '%s: does not throw' % what, d.kind == 'ret')
            if d.kind != 'ret': continue
            check_inv(c, ex, d.st, off, what, dst, src)
            if fn in ('u_cassign', 'u_cctor') and kind != 'self': check_inv(c, ex, d.st, off, what + ', source', src.id, src)
            if kind != 'self' :
                b = cell(d.st, Ptr(dst, off[1]), Str).buf; b2 = cell(d.st, Ptr(src.id, off[1]), Str).buf
                ex.oblige(d.st, '%s: source and target do not share their text' % what, b != b2)
                # both can be destroyed
                for e in ex.run_function(d.st.fork(), 'u_dtor_' + ('s' if strict else 'r'), [Ptr(src.id, 0)]): check_inv(c, ex, e.st, off, what + ', source destroyed', dst, src)
        c.collect(ex, what)
    parts = []
    for strict in (False, True):
        for i, ms in enumerate(modes):
            for fn in ('u_cassign', 'u_massign'):
                for md in (modes[0], modes[1]) if i == 0 or c.thorough else (modes[0],): parts.append(('%s %d' % (fn, i), lambda c, a=(fn, strict, ms, md, 'assign'): op(c, *a)))
                parts.append(('%s self %d' % (fn, i), lambda c, a=(fn, strict, ms, None, 'self'): op(c, *a)))
            for fn in ('u_cctor', 'u_mctor'): parts.append(('%s %d' % (fn, i), lambda c, a=(fn, strict, ms, None, 'ctor'): op(c, *a)))
    c.parallel(parts)
