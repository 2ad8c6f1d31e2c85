import z3, time, os
from .vals import *
from . import lia
class Stats:
    def __init__(s): s.q = 0; s.t = 0.0; s.by = {}
STATS = Stats()
_qc = {}
def has_q(e):
    """does the formula contain a quantifier (cached)"""
    k = e.get_id()
    r = _qc.get(k)
    if r is None or not r[0].eq(e):
        st = [e]; seen = set(); f = False
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): f = True; break
            st.extend(x.children())
        r = (e, f); _qc[k] = r
    return r[1]
def _run(cs, ms, mbqi):
    s = z3.Solver()
    s.set('timeout', ms)
    if not mbqi: s.set('mbqi', False)
    s.add(*cs)
    try: r = str(s.check())
    except z3.Z3Exception: r = 'unknown'
    return s, r
def _lia(cs, ms):
    try: r = lia.solve_lia(cs, ms)
    except (lia.NoLia, RecursionError):
        try: r = lia.solve_ground(cs, ms)
        except (lia.NoLia, RecursionError): r = 'nolia'
    except z3.Z3Exception: r = 'nolia'
    STATS.by['lia ' + r] = STATS.by.get('lia ' + r, 0) + 1
    return r
def _clean(conds):
    cs = []
    for c in conds:
        if isinstance(c, bool):
            if not c: return None
        elif z3.is_false(c): return None
        elif not z3.is_true(c): cs.append(c)
    return cs
def _note(t, r, conds):
    d = time.time() - t
    STATS.q += 1; STATS.t += d
    if TRACE and d > 0.3:
        import traceback
        print('SLOW %.2f %s' % (d, r), [(f.name, f.lineno) for f in traceback.extract_stack()[-4:-1]], str(conds[-1])[:150].replace('\n', ' '))
def feasible(conds):
    """may the conjunction hold?  (over-approximation: True unless shown unsatisfiable)"""
    cs = _clean(conds)
    if cs is None: return False
    t = time.time()
    r = _lia(cs, 400)
    if r in ('unsat', 'sat'):
        _note(t, r, conds); return r == 'sat'
    qf = [c for c in cs if not has_q(c)]
    _, r = _run(qf, 500, False)
    if r != 'unsat' and len(qf) < len(cs): _, r = _run(cs, 200, False)
    _note(t, r, conds)
    return r != 'unsat'
def seq_goal(cs):
    """the refuted goal (last conjunct) is an equation of sequences: -> element equations that imply it, or None"""
    g = cs[-1]
    if not z3.is_not(g): return None
    g = g.arg(0)
    if not (z3.is_app(g) and g.decl().kind() == z3.Z3_OP_EQ and g.arg(0).sort() == SEQ): return None
    a, b = g.arg(0), g.arg(1)
    def unfold(t):
        if t.decl().name() == 'snoc': return t
        for c in reversed(cs[:-1]):
            if z3.is_eq(c) and c.arg(0).sort() == SEQ:
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if x.eq(t) and y.decl().name() == 'snoc': return y
        return t
    ps = lia.snoc_split(unfold(a) == unfold(b))
    return ps if len(ps) > 1 else None
def check(conds, ms=4000, want_model=False, mbqi=False):
    """-> 'unsat' | 'sat' | 'unknown' (model).  First the exact integer translation (lia.py), then the bit-blasting solver."""
    cs = _clean(conds)
    if cs is None: return ('unsat', None) if want_model else 'unsat'
    t = time.time()
    r = 'unknown'; mdl = None
    q = any(has_q(c) for c in cs)
    ps = seq_goal(cs) if cs else None
    if ps and all(check(cs[:-1] + [z3.Not(p)], ms) == 'unsat' for p in ps): return ('unsat', None) if want_model else 'unsat'
    l = _lia(cs, min(ms, 1500))
    if l == 'unsat' or l == 'sat' and not want_model:
        _note(t, l, conds); return (l, None) if want_model else l
    s, r = _run(cs, min(ms, 2000) if q else ms, mbqi)
    if want_model and (r == 'sat' or r == 'unknown' and _hasmodel(s)): mdl = s.model()
    if r == 'unknown' and l == 'sat': r = 'sat'
    _note(t, r, conds)
    return (r, mdl) if want_model else r
def dump(conds, path):
    s = z3.Solver(); s.add(*[zb(c) for c in conds])
    with open(path, 'w') as f: f.write(s.to_smt2())
TRACE = bool(os.environ.get('IRV_TRACE'))
def _hasmodel(s):
    try: s.model(); return True
    except z3.Z3Exception: return False
def cvc5_check(conds, ms=8000):
    """second back end: cvc5 on the SMT-LIB text of the same query"""
    import subprocess, tempfile
    s = z3.Solver(); s.add(*[zb(c) for c in conds])
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True, timeout=ms / 1000 + 5).stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        r = 'unknown'
    finally:
        os.unlink(f.name)
    STATS.q += 1; STATS.t += time.time() - t
    return r if r in ('sat', 'unsat') else 'unknown'
NPROC = max(1, min(8, os.cpu_count() or 1))
def pmap(thunks, _retry=True):
    """run thunks (returning picklable values) in forked children; order preserved; a job whose child died is retried once"""
    import pickle, struct
    n = len(thunks)
    if n == 0: return []
    if (n == 1 or NPROC == 1 or os.environ.get('IRV_SERIAL')) and _retry: return [t() for t in thunks]
    k = min(NPROC, n); res = [None] * n; got = set(); kids = []
    jr, jw = os.pipe()   # dynamic distribution: one two-byte token per job
    os.write(jw, b''.join(struct.pack('<H', i) for i in range(n))); os.close(jw)
    for _ in range(k):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as f:
                    while True:
                        b = os.read(jr, 2)
                        if len(b) < 2: break
                        i = struct.unpack('<H', b)[0]; q0, t0 = STATS.q, STATS.t
                        try: v = (i, True, thunks[i]())
                        except Exception as e: v = (i, False, '%s: %s' % (type(e).__name__, e))
                        d = pickle.dumps((v, STATS.q - q0, STATS.t - t0)); f.write(struct.pack('<I', len(d)) + d); f.flush()
            finally: os._exit(0)
        os.close(w); kids.append((pid, r))
    os.close(jr)
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        o = 0
        while o + 4 <= len(data):
            ln = struct.unpack_from('<I', data, o)[0]; o += 4
            if o + ln > len(data): break
            (i, ok, v), q, t = pickle.loads(data[o:o + ln]); o += ln
            STATS.q += q; STATS.t += t; got.add(i); res[i] = v if ok else None
    lost = [i for i in range(n) if i not in got]
    if lost and _retry:
        for i, v in zip(lost, pmap([thunks[i] for i in lost], False)): res[i] = v
    return res
