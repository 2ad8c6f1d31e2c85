"""Runner for one property: build the unit from /repo, generate and discharge obligations, replay failures natively."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, importlib, traceback, re
import z3
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IRV_REPO', '/repo')
from . import ll, exec as X, lib, solve
from .vals import *

CLANG = ['clang++-18', '-std=c++23', '-O0', '-Xclang', '-disable-O0-optnone', '-D_GLIBCXX_ASSERTIONS', '-S', '-emit-llvm', '-w', '-fno-access-control']
INC = ['-I%s/stubs' % VERIF] + ['-I%s/src/%s/include' % (REPO, d) for d in ('core', 'disruptor', 'serialiser', 'majordomo', 'concepts', 'client', 'zmq', 'services')]
PASSES = 'sroa,simplifycfg,instsimplify,dce'

class BuildError(Unsupported): pass
DEADLINE = [float('inf')]   # wall clock at which proof search stops (remaining obligations are undecided)

def build_ir(unit, tmp, defs=(), passes=PASSES):
    src = os.path.join(VERIF, 'units', unit)
    base = '%s.%d.%d' % (unit, os.getpid(), abs(hash((tuple(defs), passes))))    # parts compile in parallel
    o1 = os.path.join(tmp, base + '.ll'); o2 = os.path.join(tmp, base + '.o.ll')
    r = subprocess.run(CLANG + list(defs) + INC + [src, '-o', o1], capture_output=True, text=True)
    if r.returncode: raise BuildError('unit %s does not compile:\n%s' % (unit, r.stderr[-3000:]))
    r = subprocess.run(['opt-18', '-S', '-passes=' + passes, o1, '-o', o2], capture_output=True, text=True)
    if r.returncode: raise BuildError('opt failed: ' + r.stderr[-500:])
    return o2

class Native:
    """the same headers compiled to machine code with an independent oracle: used for replay of counterexamples, as a cross-check, and as the bounded stand-in"""
    def __init__(s, src, tmp, flags=(), inc=(), std='c++23', cxx='g++-14'):
        s.src, s.tmp = src, tmp; s.bin = os.path.join(tmp, src + '.bin'); s.flags = list(flags); s.std = std; s.err = None; s.proc = None; s.inc = list(inc); s.cxx = cxx
    def start(s):
        cmd = [s.cxx, '-std=' + s.std, '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-fno-access-control'] + s.flags + ['-I' + os.path.join(VERIF, 'native')] + s.inc + INC + [os.path.join(VERIF, 'native', s.src), '-o', s.bin, '-lpthread']
        s.proc = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    def wait(s):
        if s.proc is None: s.start()
        if s.proc != 'done':
            out, _ = s.proc.communicate()
            if s.proc.returncode: s.err = out[-3000:]
            s.proc = 'done'
        return s.err is None
    def run(s, args, timeout):
        """-> (fails: list of (input, text), info)"""
        if not s.wait(): return None, 'native harness does not compile:\n' + (s.err or '')
        env = dict(os.environ); env['TMPDIR'] = s.tmp
        try:
            r = subprocess.run([s.bin] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, cwd=s.tmp, env=env, errors='replace')
        except subprocess.TimeoutExpired as e:
            return [], 'timeout'
        fails = []
        info = ''
        for l in r.stdout.split('\n'):
            if l.startswith('FAIL '):
                p = l.split(' ', 2); fails.append((p[1], p[2] if len(p) > 2 else ''))
            elif l.startswith('INFO '): info += l[5:] + '; '
        if not fails and r.returncode not in (0, 1):
            m = re.search(r'CUR (\S+)', r.stdout)
            fails.append((m.group(1) if m else '-', 'process ended by signal/exit %d: %s' % (r.returncode, r.stderr[-300:])))
        return fails, info

class Ctx:
    def __init__(c, pid, tier, seed, tmp):
        c.pid, c.tier, c.seed, c.tmp = pid, tier, seed, tmp
        c.obl = []; c.notes = []; c.functions = {}; c.contracts = {}; c.loops = []; c.undecided = []; c.vac = []; c.assumptions = []
        c.mods = {}; c.lemmas = []; c.inputs_from = None
    thorough = property(lambda c: c.tier == 'thorough')
    def module(c, unit, defs=(), passes=PASSES):
        k = (unit, tuple(defs), passes)
        if k not in c.mods: c.mods[k] = ll.Module(build_ir(unit, c.tmp, defs, passes))
        return c.mods[k]
    def executor(c, mod, libs=None, budget=200):
        ex = X.Executor(mod, (libs or []) + [lib.stdlib], budget_s=budget)
        ex.fact_hints = []; ex.deadline = min(ex.deadline, DEADLINE[0])
        return ex
    def collect(c, ex, tag=''):
        for o in ex.obl:
            o.tag = tag; c.obl.append(o)
        for k, v in ex.fn_seen.items():
            d = ex.mod.demangled.get(k, k)
            c.functions[d[:200]] = c.functions.get(d[:200], 0) + v
        c.contracts.update(ex.used_contracts); c.loops += [(f, h, [str(k)[:90] for k in ks]) for f, h, ks in ex.loops_cut]
        c.notes += ex.log
        ex.obl = []
    def attempt(c, tag, fn):
        """run one proof part; a construct outside the verifier's reach makes that part undecided (never a violation)"""
        t = time.time()
        try: fn()
        except Unsupported as e:
            c.undecided.append('%s: %s' % (tag, str(e)[:400]))
        except (z3.Z3Exception, NameError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, ll.IRError, RecursionError) as e:
            c.undecided.append('%s: internal %s: %s at %s' % (tag, type(e).__name__, str(e)[:200], traceback.format_exc().strip().split('\n')[-3].strip()))
            if os.environ.get('IRV_TRACE'): traceback.print_exc()
        if os.environ.get('IRV_TRACE'): print('PART', tag, '%.1fs' % (time.time() - t))
    # ---- parallel parts: each runs in a forked child, which generates and discharges its own obligations
    def _child(c, fn):
        d = Ctx(c.pid, c.tier, c.seed, c.tmp); d.mods = c.mods; d.inputs_from = c.inputs_from
        for k, v in c.__dict__.items():
            if k not in d.__dict__: setattr(d, k, v)
        fn(d)
        d.discharge()
        obs = []
        ni = 0
        for o in d.obl:
            inp = getattr(o, 'inputs', None) or []
            if o.status != 'proved' and not inp and d.inputs_from and ni < 4 and o.pc:
                ni += 1
                try: inp = d.inputs_from(d, o) or []
                except Exception as e: d.notes.append('no input extracted: %s' % str(e)[:100])
            try: goal = str(z3.simplify(o.goal))[:600] if o.status != 'proved' and z3.is_expr(o.goal) else getattr(o, 'goaltxt', '')
            except Exception: goal = ''
            obs.append((o.name, o.status, o.backend, o.time, sorted(map(str, o.taint)), o.kind, inp, str(o.model)[:1500] if o.model is not None else '', goal))
        return obs, d.functions, {k: None for k in d.contracts}, d.loops, d.notes[-20:], d.vac, d.undecided
    def _absorb(c, tag, r):
        if r is None: c.undecided.append('%s: worker ended without a result' % tag); return
        obs, fns, con, loops, notes, vac, und = r
        for nm, stt, be, tm, taint, kind, inp, mdl, goal in obs:
            o = X.Oblig(nm, [], z3.BoolVal(True), frozenset(taint), kind); o.status, o.backend, o.time = stt, be, tm; o.inputs = inp; o.tag = tag; o.model = mdl or None; o.goaltxt = goal
            c.obl.append(o)
        for k, v in fns.items(): c.functions[k] = c.functions.get(k, 0) + v
        for k in con: c.contracts[k] = None
        c.loops += loops; c.notes += notes; c.vac += vac; c.undecided += und
    def parallel(c, parts):
        """parts: (tag, fn(ctx))"""
        rs = solve.pmap([lambda t=t, f=f: c._child(lambda d: d.attempt(t, lambda: f(d))) for t, f in parts])
        for (t, f), r in zip(parts, rs): c._absorb(t, r)
    def explore_par(c, ex, st, fname, args, post, width=40, tag=''):
        """symbolically run fname; the pending paths are distributed over forked children; post(ctx, ex, done) states the postconditions"""
        depth = len(st.frames)
        ex.call_function(st, fname, args)
        ex.enter_block(st, st.frames[-1].f.entry, None, check_loop=False)
        done, work = [], [st]
        while work and len(work) < width:
            if time.time() > ex.deadline: raise X.Budget('time budget exhausted')
            s = work.pop(0)
            try: res = ex.run_one(s, depth, None, None, None)
            except X.PathEnd: continue
            for r in res:
                if r[0] == 'work': work.append(r[1])
                elif r[0] == 'done': done.append(r[2])
                else: raise Unsupported('unexpected path result')
        post(c, ex, done); c.collect(ex, tag)
        if not work: return
        ex.fn_seen = {}; ex.used_contracts = {}; ex.loops_cut = []; ex.log = []; ex.obl = []
        def one(d, s):
            dn, _, _ = ex.explore([s], depth)
            post(d, ex, dn); d.collect(ex, tag)
        rs = solve.pmap([lambda s=s: c._child(lambda d: d.attempt(tag or fname, lambda: one(d, s))) for s in work])
        for r in rs: c._absorb(tag or fname, r)
    def lemma(c, name, pc, goal, facts=()):
        o = X.Oblig(name, [zb(x) for x in pc] + [zb(f) for f in facts], zb(goal), frozenset(), 'lemma'); o.tag = 'lemma'; c.obl.append(o); return o
    def reach(c, name, st):
        """vacuity guard: the assumptions at this point must be satisfiable (not shown contradictory)"""
        ok = solve.check(st.pc, 4000) != 'unsat'
        c.vac.append((name, ok))
    def discharge(c):
        uniq = {}
        for o in c.obl:
            if o.status in ('proved', 'refuted', 'unknown') and hasattr(o, 'inputs'): continue
            key = (o.name, tuple(x.get_id() for x in o.pc), o.goal.get_id())
            uniq.setdefault(key, []).append(o)
        reps = [v[0] for v in uniq.values()]
        def one(o):
            t = time.time()
            if t > DEADLINE[0]: return 'unknown', 'deadline', 0
            q = o.pc + [z3.Not(o.goal)]
            r = solve.check(q, 10000 if not c.thorough else 30000)
            be = 'z3'
            if r == 'unknown':
                r2 = solve.cvc5_check(q, 20000 if not c.thorough else 60000)
                if r2 == 'unsat': r, be = 'unsat', 'cvc5'
            elif r == 'unsat' and c.thorough:
                r2 = solve.cvc5_check(q, 20000)
                if r2 == 'unsat': be = 'z3+cvc5'
                elif r2 == 'sat': r = 'unknown'; be = 'solvers disagree'
            if (r != 'unsat' or time.time() - t > 2) and os.environ.get('IRV_DUMP'): solve.dump(q, os.path.join(os.environ['IRV_DUMP'], '%s.%d.smt2' % (r, os.getpid())))
            return {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r], be, time.time() - t
        rs = solve.pmap([lambda o=o: one(o) for o in reps])
        for v, r in zip(uniq.values(), rs):
            for o in v: o.status, o.backend, o.time = r if r is not None else ('unknown', 'none', 0)
        for o in c.obl:
            if o.status == 'refuted' and not hasattr(o, 'inputs') and len([x for x in c.obl if x.model is not None]) < 8:
                _, o.model = solve.check(o.pc + [z3.Not(o.goal)], 5000, want_model=True)

def bytes_of(mdl, arr, n, cap=4096):
    """concrete bytes of a symbolic buffer in a model (None when the length is too large)"""
    ln = mdl.eval(bv(n, 64), model_completion=True).as_long()
    if ln > cap: return None
    return bytes(mdl.eval(arr[z3.BitVecVal(i, 64)], model_completion=True).as_long() for i in range(ln))

def small_model(o, n_terms, caps=(8, 24, 64, 512)):
    """counterexample with small sizes, if there is one"""
    for k in caps:
        q = o.pc + [z3.Not(o.goal)] + [z3.ULE(bv(t, 64), k) for t in n_terms]
        r, m = solve.check(q, 3000, want_model=True)
        if r == 'sat': return m
        if r == 'unknown' and m is not None: return m
    return None

def main(argv):
    pid = argv[0]; tier = 'quick'
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='irv-%s-' % pid)
    try:
        # supervised: the solver library may crash; a crash must not decide anything
        for attempt in range(3):
            sys.stdout.flush()
            k = os.fork()
            if k == 0:
                rc = 70
                try: rc = run(pid, tier, seed, tmp, t0, prove=attempt < 2)
                except BaseException: traceback.print_exc()
                finally:
                    sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
            _, st = os.waitpid(k, 0)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (0, 1): return os.WEXITSTATUS(st)
            print('verifier process ended abnormally (status %d), attempt %d' % (st, attempt + 1))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(pid, tier, seed, tmp, t0, prove=True):
    sys.path.insert(0, os.path.join(VERIF, 'props'))
    mod = importlib.import_module(pid)
    DEADLINE[0] = t0 + (480 if tier == 'quick' else 660)
    c = Ctx(pid, tier, seed, tmp); c.inputs_from = getattr(mod, 'inputs_from', None)
    natives = [Native(n[0], tmp, *(n[1:])) if isinstance(n, tuple) else Native(n, tmp) for n in getattr(mod, 'NATIVE', [])]
    for n in natives: n.start()
    try:
        if prove: mod.prove(c)
        else: c.undecided.append('the verifier process crashed twice; bounded search only')
    except Unsupported as e: c.undecided.append(str(e)[:600])
    except Exception as e:
        c.undecided.append('internal %s: %s' % (type(e).__name__, str(e)[:300]))
        if os.environ.get('IRV_TRACE'): traceback.print_exc()
    c.discharge()
    proved = [o for o in c.obl if o.status == 'proved']
    known = known_findings(pid)
    kobl = [o for o in c.obl if o.status == 'refuted' and not o.taint and any(k in o.name for k in known)]
    bad = [o for o in c.obl if o.status != 'proved' and not any(o is k for k in kobl)]
    vac_bad = [n for n, ok in c.vac if not ok]
    if len([o for o in c.obl if o.kind in ('post', 'lemma', 'inv')]) == 0: c.undecided.append('no property obligation was generated')
    for n in vac_bad: c.undecided.append('vacuous: ' + n)
    # ---- native: replay of counterexamples, cross-check / bounded stand-in
    fails = []; natinfo = []
    nb = getattr(mod, 'NATIVE_BUDGET', 6) * (6 if tier == 'thorough' else 1)
    if bad or c.undecided: nb = max(nb, getattr(mod, 'NATIVE_BUDGET_FAIL', 60))
    cand = []
    if hasattr(mod, 'inputs_from'):
        for o in bad[:12]:
            try: cand += (o.inputs if hasattr(o, 'inputs') else mod.inputs_from(c, o)) or []
            except Exception as e: c.notes.append('no input extracted: %s' % e)
    for n in natives:
        for h in list(dict.fromkeys(cand))[:12]:
            f, info = n.run(['replay', pid, h], 60)
            if f: fails += f
        if not fails:
            f, info = n.run(['search', pid, nb, seed], nb * 3 + 60)
            natinfo.append('%s: %s' % (n.src, info))
            if f is None: c.notes.append(info); 
            elif f: fails += f
        if fails: break
    new_fails = [f for f in fails if not any(k in f[1] or k == f[0] for k in known)]
    exact_bad = [o for o in bad if not o.taint and o.status == 'refuted'] if not c.undecided else [o for o in bad if not o.taint and o.status == 'refuted']
    viol = None
    rp = os.path.join(VERIF, 'evidence', pid + '.replay.txt')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if os.path.exists(rp): os.unlink(rp)
    if new_fails:
        viol = 'VIOLATION property=%s replay=%s' % (pid, rp)
        write_replay(rp, pid, new_fails, bad, natives, c)
    elif exact_bad:
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
        write_replay(rp, pid, [], exact_bad, natives, c)
    decided = not bad and not c.undecided
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'proof') if decided else 'other',
        'coverage': {
            'obligations': len(c.obl), 'discharged': len(proved),
            'checker_cmd': 'python3-vt -m irv %s --tier %s' % (pid, tier),
            'trusted_base': ['irv VC generator (/verif/irv)', 'clang-18 front end and opt-18 sroa/simplifycfg', 'z3 ' + z3.get_version_string(), 'cvc5 1.1.2 (second back end)'] + sorted('assumed contract: ' + k for k in c.contracts)[:60],
            'functions_under_contract': sorted(c.functions)[:120],
            'loop_invariants': c.loops[:40],
            'by_backend': {b: sum(1 for o in proved if o.backend == b) for b in {o.backend for o in proved}},
            'solver_queries': solve.STATS.q, 'solver_time_s': round(solve.STATS.t, 2),
            'not_discharged': [{'name': o.name, 'status': o.status, 'tainted': sorted(map(str, o.taint))} for o in bad][:20],
            'undecided_parts': c.undecided[:20],
            'reachability_guards': [{'point': n, 'reachable': ok} for n, ok in c.vac],
            'native_cross_check_bounded': natinfo,
            'known_findings': [o.name for o in kobl],
            'explanation': 'every obligation discharged' if decided else 'NOT fully proved on this tree: the parts under not_discharged / undecided_parts are covered only by the bounded native search (label: bounded)',
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + c.assumptions + BASE_ASSUMPTIONS,
        'violations': [{'input': f[0], 'what': f[1]} for f in new_fails][:10] + ([{'obligation': o.name} for o in exact_bad][:10] if viol and not new_fails else []),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    for t in list(dict.fromkeys([f[1] for f in fails if f not in new_fails] + [o.name for o in kobl])): print('KNOWN-FINDING: property=%s %s' % (pid, t))
    print('%s tier=%s obligations=%d discharged=%d undecided=%d native=[%s] %.1fs' % (pid, tier, len(c.obl), len(proved), len(c.undecided), ' '.join(natinfo), time.time() - t0))
    for u in c.undecided: print('UNDECIDED (bounded stand-in used):', u[:400])
    for o in bad[:10]: print('NOT DISCHARGED:', o.status, o.name[:200], 'tainted' if o.taint else '')
    if viol:
        for f in new_fails[:3]: print('failing input:', f[0][:300], f[1][:300])
        print(viol)
        return 1
    return 0

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) match=(\S+)', l)
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

def write_replay(p, pid, fails, bad, natives, c):
    with open(p, 'w') as fh:
        fh.write('property %s\n' % pid)
        for f in fails[:10]: fh.write('failing input (hex): %s\n  %s\n' % f)
        if fails: fh.write('replay: build /verif/native/%s and run  <bin> replay %s <input>\n' % (natives[0].src if natives else '?', pid))
        for o in bad[:20]:
            fh.write('obligation not discharged: %s [%s] backend=%s tainted=%s\n' % (o.name, o.status, o.backend, bool(o.taint)))
            if o.model is not None: fh.write('  verifier model: %s\n' % str(o.model)[:1500].replace('\n', ' '))
            try: fh.write('  goal: %s\n' % (getattr(o, 'goaltxt', '') or str(z3.simplify(o.goal)))[:600].replace('\n', ' '))
            except Exception: pass
        for u in c.undecided: fh.write('undecided: %s\n' % u)

BASE_ASSUMPTIONS = [
    'LLVM IR of clang-18 at -O0 (+sroa, simplifycfg, instsimplify, dce) has the behaviour of the source; the shipped binary is built by another compiler',
    'the standard library and C runtime satisfy the contracts in irv/lib.py (listed per run under trusted_base); allocation does not fail; no object exceeds 2^60 bytes; no loop runs 2^56 iterations',
    'unwinding/exceptions follow the Itanium ABI as modelled',
]
if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
