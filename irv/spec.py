"""Specification helpers: inductively defined spec sequences ("folds", "chains") and their use as loop-invariant candidates.

A definition is by recursion over a position; the verifier only ever uses ground instances of its defining equations.
The same definitions supply loop-invariant *candidates* (checked for initiation and consecution like any other; a candidate
that is not inductive is dropped, and if none of a group survives the loop's exits are marked as tainted)."""
import z3
from .vals import *
from .exec import Cand
BOOL = z3.BoolSort()
def rope_vars(lc): return [v for v in lc.vars if v[0] == 'rope' or (v[0] == 'lib' and v[2] == 'rope')]
def rope_at(st, r): return r_norm(st.mem[r[1]].rope if r[0] == 'rope' else list(st.mem[r[1][0]].cells[r[1][1]][1].rope))
def int_vars(lc): return [v for v in lc.vars if v[0] in ('phi', 'phip', 'cell', 'cellp', 'ghost') and v[2] == 64]
def snocs(t, bs):
    for b in bs: t = s_snoc(t, bv(b, 8))
    return t
class Fold:
    """F(0) = base ; F(k+1) = F(k) ++ step(k)   (step: index -> list of byte terms, or a function of (previous, index))"""
    def __init__(s, name, step, base=None, rec=None):
        s.F = z3.Function(name, BV64, SEQ); s.step = step; s.name = name; s.rec = rec
        s.base = s_empty if base is None else base
    def nxt(s, k):
        return s.rec(s.F(k), k) if s.rec else snocs(s.F(k), s.step(k))
    def inst(s, k):
        """ground instance of the defining equation at k"""
        k = bv(k, 64)
        return s.F(z3.simplify(k + 1)) == s.nxt(k)
    def zero(s): return s.F(z3.BitVecVal(0, 64)) == s.base
    def attach(s, ex, offs=(0,), ints=False, delta=()):
        def hint(lc, vars_):
            out = []
            for r in rope_vars(lc):
                for i in ([lc.it] + (int_vars(lc) if ints else [])):
                    for o in offs:
                        def at(lc, st, r=r, i=i, o=o):
                            return r_term(rope_at(st, r)) == s.F(bv(add(lc.get(st, i), o), 64))
                        out.append(Cand(('fold', s.name, r, i, o), at, True, group=('fold', s.name, r)))
            return out
        def facts(lc, st):
            out = [s.zero()]
            for iv in ([lc.it] + (int_vars(lc) if ints else [])):
                for t in (st, lc.S0):
                    if t is None: continue
                    try: it = lc.get(t, iv)
                    except Exception: continue
                    if it is None or is_c(it): continue
                    for o in offs: out.append(s.inst(add(it, o)))
            return out
        ex.hints.append(hint); ex.fact_hints.append(facts)
class Chain:
    """positions reachable from `start` by well-formed tokens (At), with the output produced so far (D).
    branches(i) -> list of (condition, next position, list of output bytes); conditions are mutually exclusive and no
    branch applies at or beyond the end: every reachable position has at most one successor, so (At, D) has a least model."""
    def __init__(s, name, branches, start=0):
        s.At = z3.Function(name + '.at', BV64, BOOL); s.D = z3.Function(name + '.out', BV64, SEQ); s.branches = branches; s.name = name; s.start = bv(start, 64)
    def init(s): return z3.And(s.At(s.start), s.D(s.start) == s_empty)
    def inst(s, i):
        i = bv(i, 64)
        return z3.And([z3.Implies(z3.And(s.At(i), c), z3.And(s.At(j), s.D(j) == snocs(s.D(i), bs))) for c, j, bs in s.branches(i)])
    def attach(s, ex):
        def hint(lc, vars_):
            out = []
            ivs = [lc.it] + int_vars(lc)
            for i in ivs:
                out.append(Cand(('at', s.name, i), lambda lc, st, i=i: s.At(bv(lc.get(st, i), 64)), True))
                for r in rope_vars(lc):
                    out.append(Cand(('out', s.name, r, i), lambda lc, st, r=r, i=i: z3.And(s.At(bv(lc.get(st, i), 64)), r_term(rope_at(st, r)) == s.D(bv(lc.get(st, i), 64))), True, group=('chain', s.name, r)))
            return out
        def facts(lc, st):
            out = [s.init()]
            for i in [lc.it] + int_vars(lc):
                for t in (st, lc.S0):
                    if t is None: continue
                    try: x = lc.get(t, i)
                    except Exception: continue
                    if x is not None and not is_c(x): out.append(s.inst(x))
            return out
        ex.hints.append(hint); ex.fact_hints.append(facts)
