"""Exact translation of 64-bit index arithmetic to linear integer arithmetic (characters stay bit-vectors).
Every 64-bit term becomes an integer in [0, 2^64); sums wrap explicitly, so the translation is equivalence preserving.
Raises NoLia for anything outside the fragment."""
import z3
M = 1 << 64
class NoLia(Exception): pass
I = z3.IntSort(); BV64 = z3.BitVecSort(64)
class Tr:
    """global, memoising; every translated term carries the set of side conditions (ranges, wrap definitions) it needs"""
    def __init__(s):
        s.memo = {}; s.conds = []; s.fn = {}; s.cur = [set()]; s.nv = 0
    def sort(s, so):
        if so.kind() == z3.Z3_BV_SORT: return I if so.size() == 64 else so
        if so.kind() == z3.Z3_ARRAY_SORT: return z3.ArraySort(s.sort(so.domain()), s.sort(so.range()))
        return so
    def side(s, cs):
        s.conds.append(cs); s.cur[-1].add(len(s.conds) - 1)
    def var(s, nm):
        s.nv += 1; return z3.Int('%s!%d' % (nm, s.nv))
    def wrap(s, e, lo, hi):
        """lo <= e <= hi  ->  e mod M"""
        if lo >= 0 and hi < M: return e
        v = s.var('lw'); q = s.var('lq')
        s.side([v == e - M * q, v >= 0, v < M, q >= lo // M, q <= hi // M])
        return v
    def t(s, e):
        k = e.get_id()
        m = s.memo.get(k)
        if m is None:
            s.cur.append(set())
            try: r = s.tr(e)
            except NoLia as x: s.cur.pop(); s.memo[k] = (e, x, ()); raise
            m = s.memo[k] = (e, r, s.cur.pop())
        if isinstance(m[1], NoLia): raise m[1]
        s.cur[-1] |= m[2] if isinstance(m[2], set) else set()
        return m[1]
    def top(s, e, acc):
        s.cur = [set()]
        r = s.t(e); acc |= s.cur[0]
        return r
    def ti(s, e):
        """a bit-vector term of any width as an integer in [0, 2^w)"""
        w = e.size()
        if w == 64: return s.t(e)
        if z3.is_bv_value(e): return z3.IntVal(e.as_long())
        k = e.decl().kind()
        if k == z3.Z3_OP_EXTRACT and (e.arg(0).size() == 64 or s.wide(e.arg(0))):
            hi, lo = e.params(); n = e.arg(0).size(); x = s.ti(e.arg(0))
            q, v, r = s.var('xq'), s.var('xv'), s.var('xr')
            s.side([x == q * (1 << (hi + 1)) + v * (1 << lo) + r, v >= 0, v < 1 << (hi - lo + 1), r >= 0, r < 1 << lo, q >= 0, q < 1 << (n - 1 - hi)])
            return v
        if k == z3.Z3_OP_ITE: return z3.If(s.t(e.arg(0)), s.ti(e.arg(1)), s.ti(e.arg(2)))
        if w <= 8 and not s.wide(e):
            v = s.var('b2i'); s.side([v == z3.BV2Int(s.t(e))]); return v
        return s.parts(e)
    def parts(s, e):
        k = e.decl().kind(); w = e.size()
        if w < 64 and k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) or w < 64 and k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            H = 1 << w; sg = lambda n: n - H if n >= H // 2 else n
            cs = [sg(e.arg(0).as_long())] if k == z3.Z3_OP_BMUL else [-1 if k == z3.Z3_OP_BNEG or k == z3.Z3_OP_BSUB and i else 1 for i in range(e.num_args())]
            c = lo = hi = 0; ts = []
            for n, a in zip(cs, e.children()[1:] if k == z3.Z3_OP_BMUL else e.children()):
                if z3.is_bv_value(a): c += n * sg(a.as_long()); continue
                ts.append(n * s.ti(a)); lo, hi = (lo, hi + n * (H - 1)) if n > 0 else (lo + n * (H - 1), hi)
            v, q = s.var('nw'), s.var('nq'); s.side([v == z3.Sum(ts + [z3.IntVal(c)]) - H * q, v >= 0, v < H, q >= (lo + c) // H, q <= (hi + c) // H]); return v
        if k == z3.Z3_OP_ZERO_EXT: return s.ti(e.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            a = s.ti(e.arg(0)); n = e.arg(0).size(); return z3.If(a >= 1 << (n - 1), a + ((1 << w) - (1 << n)), a)
        if k == z3.Z3_OP_CONCAT:
            sh = 0; co = {}
            for a in reversed(e.children()):
                x = co.setdefault(a.get_id(), [a, 0]); x[1] += 1 << sh; sh += a.size()
            return z3.Sum([z3.IntVal(0)] + [s.ti(a) * n for a, n in co.values()])
        raise NoLia('int of ' + e.decl().name())
    def lin(s, e):
        """64-bit term -> (list of (coef, atom), const) modulo M, atoms being 64-bit non-sum terms"""
        if z3.is_bv_value(e): return {}, e.as_long()
        d = e.decl().kind()
        if d == z3.Z3_OP_BADD:
            co, c = {}, 0
            for a in e.children():
                x, y = s.lin(a); c += y
                for i, (n, at) in x.items(): co[i] = (co.get(i, (0, at))[0] + n, at)
            return co, c
        if d == z3.Z3_OP_BSUB:
            x, c = s.lin(e.arg(0)); x = dict(x)
            for a in e.children()[1:]:
                y, c2 = s.lin(a); c -= c2
                for i, (n, at) in y.items(): x[i] = (x.get(i, (0, at))[0] - n, at)
            return x, c
        if d == z3.Z3_OP_BNEG:
            x, c = s.lin(e.arg(0)); return {i: (-n, at) for i, (n, at) in x.items()}, -c
        if d == z3.Z3_OP_BMUL and e.num_args() == 2:
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if z3.is_bv_value(a):
                    m = a.as_long(); m = m - M if m >= M // 2 else m
                    if abs(m) > 1 << 20: raise NoLia('mul')
                    x, c = s.lin(b); return {i: (n * m, at) for i, (n, at) in x.items()}, c * m
            raise NoLia('mul')
        return {k: v for k, v in [(e.get_id(), (1, e))]}, 0
    def wide(s, e):
        """must this narrow bit-vector term be handled as an integer?"""
        if z3.is_bv_value(e): return False
        k = e.decl().kind()
        if k == z3.Z3_OP_EXTRACT: return e.arg(0).size() == 64 or s.wide(e.arg(0))
        if k == z3.Z3_OP_ITE: return s.wide(e.arg(1)) or s.wide(e.arg(2))
        return k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL, z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and any(s.wide(x) for x in e.children())
    def tr(s, e):
        if z3.is_quantifier(e): raise NoLia('quantifier')
        d = e.decl(); k = d.kind(); so = e.sort()
        bv = so.kind() == z3.Z3_BV_SORT
        if bv and so.size() == 64:
            if z3.is_bv_value(e): return z3.IntVal(e.as_long())
            if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
                co, c = s.lin(e)
                c %= M
                if c >= M // 2: c -= M
                lo = hi = c; ts = []
                for n, at in co.values():
                    n %= M
                    if n >= M // 2: n -= M
                    if n == 0: continue
                    if abs(n) > 1 << 20: raise NoLia('coef')
                    x = s.t(at); ts.append(n * x if n != 1 else x)
                    if n > 0: hi += n * (M - 1)
                    else: lo += n * (M - 1)
                return s.wrap(z3.Sum(ts + [z3.IntVal(c)]) if ts else z3.IntVal(c), lo, hi)
            if k == z3.Z3_OP_ITE: return z3.If(s.t(e.arg(0)), s.t(e.arg(1)), s.t(e.arg(2)))
            if k == z3.Z3_OP_UNINTERPRETED: return s.app(e)
            if k == z3.Z3_OP_ZERO_EXT or (k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0 and e.num_args() == 2):
                a = e.arg(e.num_args() - 1)
                if a.size() <= 8 or s.wide(a): return s.ti(a)
            if k in (z3.Z3_OP_CONCAT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT): return s.parts(e)
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) and z3.is_bv_value(e.arg(1)) and 0 < e.arg(1).as_long() < 1 << 20:
                n = e.arg(1).as_long(); x = s.t(e.arg(0)); q, r = s.var('dq'), s.var('dr'); sd = k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I)
                neg = x >= M // 2 if sd else z3.BoolVal(False)
                s.side([z3.If(neg, M - x, x) == n * q + r, q >= 0, r >= 0, r < n]); return z3.If(z3.And(neg, q > 0), M - q, q)
            raise NoLia(d.name())
        if k == z3.Z3_OP_UNINTERPRETED: return s.app(e)
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and (e.arg(0).size() == 64 or s.wide(e.arg(0)) or s.wide(e.arg(1))):
            a, b = s.ti(e.arg(0)), s.ti(e.arg(1))
            return {z3.Z3_OP_ULEQ: lambda: a <= b, z3.Z3_OP_ULT: lambda: a < b, z3.Z3_OP_UGEQ: lambda: a >= b, z3.Z3_OP_UGT: lambda: a > b}[k]()
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT) and (e.arg(0).size() == 64 or s.wide(e.arg(0)) or s.wide(e.arg(1))):
            H = 1 << e.arg(0).size(); sg = lambda x: z3.If(x >= H // 2, x - H, x)
            a, b = sg(s.ti(e.arg(0))), sg(s.ti(e.arg(1)))
            return {z3.Z3_OP_SLEQ: lambda: a <= b, z3.Z3_OP_SLT: lambda: a < b, z3.Z3_OP_SGEQ: lambda: a >= b, z3.Z3_OP_SGT: lambda: a > b}[k]()
        ch = e.children()
        if not ch: return e
        if k == z3.Z3_OP_SELECT: return z3.Select(s.t(ch[0]), s.t(ch[1]))
        if k == z3.Z3_OP_STORE: return z3.Store(s.t(ch[0]), s.t(ch[1]), s.t(ch[2]))
        if k == z3.Z3_OP_EQ:
            if z3.is_bv(ch[0]) and ch[0].size() != 64 and (s.wide(ch[0]) or s.wide(ch[1])): return s.ti(ch[0]) == s.ti(ch[1])
            return s.t(ch[0]) == s.t(ch[1])
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*[s.t(x) for x in ch])
        if k == z3.Z3_OP_ITE: return z3.If(s.t(ch[0]), s.t(ch[1]), s.t(ch[2]))
        if k == z3.Z3_OP_AND: return z3.And(*[s.t(x) for x in ch])
        if k == z3.Z3_OP_OR: return z3.Or(*[s.t(x) for x in ch])
        if k == z3.Z3_OP_NOT: return z3.Not(s.t(ch[0]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.t(ch[0]), s.t(ch[1]))
        if any(c.sort() == BV64 or c.sort().kind() == z3.Z3_ARRAY_SORT for c in ch): raise NoLia(d.name())
        return d(*[s.t(x) for x in ch]) if k not in (z3.Z3_OP_EXTRACT,) else z3.substitute(e, *[(c, s.t(c)) for c in ch if not c.eq(s.t(c))])
    def app(s, e):
        d = e.decl(); nm = d.name(); n = d.arity()
        dom = [s.sort(d.domain(i)) for i in range(n)]; rng = s.sort(d.range())
        key = (nm, tuple(str(x) for x in dom), str(rng))
        f = s.fn.get(key)
        if f is None: f = s.fn[key] = z3.Function('L.' + nm, *dom, rng) if n else z3.Const('L.' + nm, rng)
        r = f(*[s.t(x) for x in e.children()]) if n else f
        if rng == I and e.sort() == BV64: s.side([r >= 0, r < M])
        return r
T = Tr()
_prep = {}
def prep(c):
    """assertion -> (ground parts, one-variable foralls); memoised.  Other quantifiers are skolemised by z3's nnf tactic."""
    k = c.get_id(); r = _prep.get(k)
    if r is not None: return r[1]
    g, q = [], []
    st = [c]; first = True
    while st:
        x = st.pop()
        if z3.is_and(x): st.extend(x.children()); continue
        if not hasq(x): g.append(x); continue
        if z3.is_quantifier(x) and x.is_forall() and not hasq(x.body()): q.append(x); continue
        if first is True:
            first = False
            gl = z3.Goal(); gl.add(x); 
            try: st.extend([f for sub in z3.Tactic('nnf')(gl) for f in sub]); continue
            except z3.Z3Exception: raise NoLia('nnf')
        y = abstract(x, q)
        g.append(y)
    _prep[k] = (c, (g, q))
    return g, q
def abstract(x, q):
    """replace foralls below the boolean structure (positive polarity after nnf) by fresh atoms that imply them"""
    if z3.is_quantifier(x):
        if not x.is_forall(): raise NoLia('quantifier alternation')
        b = z3.Bool('qa!%d' % x.get_id()); _keep.append(x); q.append((b, x)); return b
    if not hasq(x): return x
    if z3.is_and(x): return z3.And(*[abstract(y, q) for y in x.children()])
    if z3.is_or(x): return z3.Or(*[abstract(y, q) for y in x.children()])
    raise NoLia('quantifier position')
_keep = []; _hq = {}
def hasq(e):
    k = e.get_id(); r = _hq.get(k)
    if r is None:
        if z3.is_quantifier(e): f = True
        else: f = any(hasq(x) for x in e.children())
        r = _hq[k] = (e, f)
    return r[1]
_pats = {}
def triggers(q):
    """(decl, arg position) pairs: instantiate q at every ground argument found there"""
    k = q.get_id(); r = _pats.get(k)
    if r is None:
        out = set(); full = True
        st = [q.body()]; seen = set(); n = 0
        pats = [q.pattern(i).arg(j) for i in range(q.num_patterns()) for j in range(q.pattern(i).num_args())]
        st = pats or [q.body()]
        while st:
            x = st.pop()
            if z3.is_var(x): continue
            for i, y in enumerate(x.children()):
                if z3.is_var(y): 
                    kd = x.decl().kind()
                    if kd == z3.Z3_OP_SELECT and i == 1: out.add(('sel', x.arg(0).get_id() if not hasvar(x.arg(0)) else None))
                    elif kd == z3.Z3_OP_UNINTERPRETED: out.add((x.decl().name(), i))
                else: st.append(y)
        r = _pats[k] = (q, out)
    return r[1]
def hasvar(e): return z3.is_var(e) or any(hasvar(x) for x in e.children())
_idx = {}
def index_terms(e):
    """ground (decl, position) -> argument occurrences inside e (memoised per term)"""
    k = e.get_id(); r = _idx.get(k)
    if r is not None: return r[1]
    out = {}
    if not z3.is_quantifier(e):
        for c in e.children():
            for kk, v in index_terms(c).items(): out.setdefault(kk, {}).update(v)
        kd = e.decl().kind() if z3.is_app(e) else None
        if kd == z3.Z3_OP_SELECT:
            out = cp(out); out.setdefault(('sel', None), {})[e.arg(1).get_id()] = e.arg(1); st = [e.arg(0)]
            while st:                       # reading an updated array reads the arrays below it
                a = st.pop(); out.setdefault(('sel', a.get_id()), {})[e.arg(1).get_id()] = e.arg(1)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE: st.append(a.arg(0))
                elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: st += [a.arg(1), a.arg(2)]
        elif kd == z3.Z3_OP_UNINTERPRETED and e.num_args():
            out = cp(out)
            for i, a in enumerate(e.children()): out.setdefault((e.decl().name(), i), {})[a.get_id()] = a
    _idx[k] = (e, out)
    return out
def cp(d): return {k: dict(v) for k, v in d.items()}
_insts = {}
def instance(q, t, b=None):
    k = (q.get_id(), t.get_id(), b.get_id() if b is not None else None); r = _insts.get(k)
    if r is None:
        x = z3.substitute_vars(q.body(), t)
        x = z3.simplify(x) if False else x
        r = _insts[k] = (q, t, z3.Implies(b, x) if b is not None else x)
    return r[2]
def ground(conds, rounds=3, cap=1500):
    """-> ground consequences of the conjunction (trigger instances of its quantifiers), saturated?"""
    gs, qs = [], []
    for c in conds:
        if isinstance(c, bool): c = z3.BoolVal(c)
        g, q = prep(c); gs += g; qs += q
    sat_ok = True
    if qs:
        done = set(); new = gs; pool = {}
        qq = []
        for q in qs:
            b, x = q if isinstance(q, tuple) else (None, q)
            if x.num_vars() != 1: sat_ok = False; continue
            tr = triggers(x)
            if not tr: sat_ok = False; continue
            qq.append((b, x, tr))
        seen = {}
        for rd in range(rounds):
            for g in new:
                for kk, v in index_terms(g).items(): pool.setdefault(kk, {}).update(v)
            new = []
            for b, x, tr in qq:
                vs = x.var_sort(0)
                for kk in tr:
                    for t in pool.get(kk, {}).values():
                        if t.sort() != vs or hasvar(t): continue
                        key = (x.get_id(), b.get_id() if b is not None else 0, t.get_id())
                        if key in seen: continue
                        seen[key] = 1; new.append(instance(x, t, b))
            if not new: break
            gs = gs + new
            if len(gs) > cap: sat_ok = False; break
        else: sat_ok = False
    return gs, sat_ok
def solve_lia(conds, ms):
    """-> 'unsat' (sound), 'sat' (model exists; with quantifiers: after saturation of the triggers), 'unknown'; raises NoLia"""
    gs, sat_ok = ground(conds)
    acc = set()
    L = []; out = None
    for x in gs:
        try: L.append(T.top(x, acc))
        except NoLia as e: out = e      # outside the fragment: left out (sound for 'unsat' only)
    if out is not None and len(L) < len(gs) // 2: raise out
    s = z3.SimpleSolver(); s.set('timeout', ms if out is None else min(ms, 300))
    s.add(*L)
    for i in acc: s.add(*T.conds[i])
    r = str(s.check())
    if out is not None and r != 'unsat': raise out
    if r == 'sat' and not sat_ok: return 'unknown'
    return r

def snoc_split(e):
    """goal a == b over sequences built by snoc -> list of element equalities whose conjunction implies it"""
    if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_EQ): return [e]
    a, b = e.arg(0), e.arg(1); out = []
    while z3.is_app(a) and z3.is_app(b) and a.decl().name() == 'snoc' and b.decl().name() == 'snoc' and a.num_args() == 2:
        out.append(a.arg(1) == b.arg(1)); a, b = a.arg(0), b.arg(0)
    return [e] if not out else out + ([] if a.eq(b) else [a == b])
def solve_ground(conds, ms, defs=True):
    """bit-vector engine on the ground instances"""
    gs, sat_ok = ground(conds)
    s = z3.Solver(); s.set('timeout', ms)
    s.add(*gs)
    r = str(s.check())
    if r == 'sat' and not sat_ok: return 'unknown'
    return r
