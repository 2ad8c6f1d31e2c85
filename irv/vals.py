"""Value domain of the symbolic executor: ints are Python ints (concrete) or z3 bit-vectors."""
import z3, itertools

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
ARR = z3.ArraySort(BV64, BV8)
SEQ = z3.DeclareSort('Seq')
s_empty = z3.Const('empty', SEQ)
s_snoc = z3.Function('snoc', SEQ, BV8, SEQ)
s_cat = z3.Function('cat', SEQ, SEQ, SEQ)
s_sub = z3.Function('subseq', ARR, BV64, BV64, SEQ)

class Unsupported(Exception):
    """a construct outside the verifier's reach: the property becomes undecided, never a violation"""

_ctr = itertools.count()
def uid(): return next(_ctr)
def fresh(w, nm='f'): return z3.BitVec('%s!%d' % (nm, uid()), w)
def freshb(nm='b'): return z3.Bool('%s!%d' % (nm, uid()))
def fresh_arr(nm='A'): return z3.Const('%s!%d' % (nm, uid()), ARR)
def fresh_seq(nm='S'): return z3.Const('%s!%d' % (nm, uid()), SEQ)

def is_c(v): return isinstance(v, int)
def bv(v, w): return z3.BitVecVal(v, w) if isinstance(v, int) else v
def norm(v):
    """z3 constant -> python int"""
    if isinstance(v, int): return v
    if z3.is_bv_value(v): return v.as_long()
    return v
def simp(v):
    if isinstance(v, (int, bool)): return v
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return v
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
def add(a, b, w=64):
    if is_c(a) and is_c(b): return (a + b) & ((1 << w) - 1)
    if is_c(a) and a == 0: return b
    if is_c(b) and b == 0: return a
    return simp(bv(a, w) + bv(b, w))
def sub(a, b, w=64):
    if is_c(a) and is_c(b): return (a - b) & ((1 << w) - 1)
    if is_c(b) and b == 0: return a
    return simp(bv(a, w) - bv(b, w))
def mul(a, b, w=64):
    if is_c(a) and is_c(b): return (a * b) & ((1 << w) - 1)
    return simp(bv(a, w) * bv(b, w))
def eq(a, b, w=64):
    if is_c(a) and is_c(b): return a == b
    return simp(bv(a, w) == bv(b, w))
def ult(a, b, w=64):
    if is_c(a) and is_c(b): return a < b
    return simp(z3.ULT(bv(a, w), bv(b, w)))
def ule(a, b, w=64):
    if is_c(a) and is_c(b): return a <= b
    return simp(z3.ULE(bv(a, w), bv(b, w)))
def ite(c, a, b, w):
    if isinstance(c, bool): return a if c else b
    if is_c(a) and is_c(b) and a == b: return a
    return simp(z3.If(c, bv(a, w), bv(b, w)))
def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c
def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c: return False
        elif z3.is_false(c): return False
        elif not z3.is_true(c): out.append(c)
    if not out: return True
    return z3.And(*out) if len(out) > 1 else out[0]
def Or(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c: return True
        elif z3.is_true(c): return True
        elif not z3.is_false(c): out.append(c)
    if not out: return False
    return z3.Or(*out) if len(out) > 1 else out[0]
def Not(c):
    if isinstance(c, bool): return not c
    return z3.Not(c)
def Implies(a, b): return Or(Not(a), b)

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj, s.off = obj, off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.obj, s.off)
NULL = Ptr(None, 0)
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return 'Fn(%s)' % s.name
class _Junk:
    def __repr__(s): return 'JUNK'
JUNK = _Junk()
class FP:
    """opaque floating point value; t is a z3 bit-vector (bit pattern) or python float constant"""
    __slots__ = ('w', 'b')
    def __init__(s, w, b): s.w, s.b = w, b

# ------------------------------------------------------------- ropes
def r_len(r):
    n = 0
    for p in r: n = add(n, 1 if p[0] == 'c' else p[3] if p[0] == 's' else p[2])
    return n
def r_term(r):
    t = None
    for p in r:
        if p[0] == 'c':
            t = s_snoc(t if t is not None else s_empty, bv(p[1], 8))
        else:
            if p[0] == 's':
                if is_c(p[3]) and p[3] <= 16:
                    for k in range(p[3]):
                        t = s_snoc(t if t is not None else s_empty, bv(simp(p[1][bv(add(p[2], k), 64)]), 8))
                    continue
                x = s_sub(p[1], bv(p[2], 64), bv(p[3], 64))
            else: x = p[1]
            t = x if t is None else s_cat(t, x)
    return t if t is not None else s_empty
def r_norm(r):
    out = []
    for p in r:
        if p[0] == 's':
            if is_c(p[3]) and p[3] == 0: continue
            if out and out[-1][0] == 's' and out[-1][1].eq(p[1]):
                q = out[-1]
                d = simp(bv(add(q[2], q[3]), 64) - bv(p[2], 64))
                if d == 0 and is_c(d):
                    out[-1] = ('s', q[1], q[2], add(q[3], p[3])); continue
        if p[0] == 'o' and is_c(p[2]) and p[2] == 0: continue
        out.append(p)
    return out
def r_read(r, i):
    """byte at index i (int or BV); the caller has already checked i < len"""
    r = r_norm(r)
    if not r: return fresh(8, 'rd')
    if len(r) == 1 and r[0][0] == 's':
        return simp(r[0][1][bv(add(r[0][2], i), 64)])
    if is_c(i):
        pos = 0; known = True
        for p in r:
            l = 1 if p[0] == 'c' else p[3] if p[0] == 's' else p[2]
            if not is_c(l) or not is_c(pos):
                if is_c(pos) and p[0] == 's': break
                known = False; break
            if i < pos + l:
                if p[0] == 'c': return p[1]
                if p[0] == 's': return simp(p[1][bv(add(p[2], i - pos), 64)])
                return seq_at(p[1], i - pos)
            pos += l
    # general: nested ite over the pieces
    res = None; pos = 0; pieces = []
    for p in r:
        l = 1 if p[0] == 'c' else p[3] if p[0] == 's' else p[2]
        d = sub(i, pos)
        v = p[1] if p[0] == 'c' else simp(p[1][bv(add(p[2], d), 64)]) if p[0] == 's' else seq_at(p[1], d)
        pieces.append((ult(d, l), v)); pos = add(pos, l)
    res = pieces[-1][1]
    for c, v in reversed(pieces[:-1]): res = ite(c, v, res, 8)
    return res
f_seqat = z3.Function('seq_at', SEQ, BV64, BV8)
def seq_at(t, i): return f_seqat(t, bv(i, 64))
def r_sub(r, frm, n):
    """sub-rope [frm, frm+n) when it can be expressed, else None"""
    r = r_norm(r)
    if is_c(n) and n == 0: return []
    if is_c(frm) and frm == 0 and eq(n, r_len(r)) is True: return list(r)
    if len(r) == 1 and r[0][0] == 's':
        return [('s', r[0][1], add(r[0][2], frm), n)]
    if all(p[0] == 'c' for p in r) and is_c(frm) and is_c(n):
        return r[frm:frm + n]
    # try piece alignment
    pos = 0; i = 0
    for i, p in enumerate(r):
        if eq(pos, frm) is True: break
        l = 1 if p[0] == 'c' else p[3] if p[0] == 's' else p[2]
        if p[0] == 's' and is_c(pos) and is_c(frm) and is_c(l) and pos < frm < pos + l and is_c(n):
            if frm + n <= pos + l: return [('s', p[1], add(p[2], frm - pos), n)]
        pos = add(pos, l)
    else:
        return None
    out = []; left = n
    for p in r[i:]:
        l = 1 if p[0] == 'c' else p[3] if p[0] == 's' else p[2]
        if eq(left, 0) is True: return out
        if is_c(left) and is_c(l) and left < l:
            if p[0] == 's': out.append(('s', p[1], p[2], left)); return out
            return None
        out.append(p); left = sub(left, l)
    return out if eq(left, 0) is True else None
def r_eq(a, b):
    """a condition that implies (and for aligned ropes is equivalent to) equality of contents"""
    a, b = r_norm(a), r_norm(b)
    ca = expand(a); cb = expand(b)
    if ca is not None and cb is not None:
        if len(ca) != len(cb): return False
        return And(*[eq(x, y, 8) for x, y in zip(ca, cb)])
    if len(a) == len(b) == 1 and a[0][0] == b[0][0] == 's' and a[0][1].eq(b[0][1]):
        return Or(And(eq(a[0][2], b[0][2]), eq(a[0][3], b[0][3])), And(eq(a[0][3], 0), eq(b[0][3], 0)))
    if len(a) == len(b) and all(x[0] == y[0] for x, y in zip(a, b)):
        return And(*[r_eq1(x, y) for x, y in zip(a, b)])
    return r_term(a) == r_term(b)
def r_eq1(x, y):
    if x[0] == 'c': return eq(x[1], y[1], 8)
    if x[0] == 's':
        if x[1].eq(y[1]): return Or(And(eq(x[2], y[2]), eq(x[3], y[3])), And(eq(x[3], 0), eq(y[3], 0)))
        return Or(s_sub(x[1], bv(x[2], 64), bv(x[3], 64)) == s_sub(y[1], bv(y[2], 64), bv(y[3], 64)), And(eq(x[3], 0), eq(y[3], 0)))
    return x[1] == y[1]
def expand(r):
    out = []
    for p in r:
        if p[0] == 'c': out.append(p[1])
        elif p[0] == 's' and is_c(p[3]) and p[3] <= 64:
            out += [simp(p[1][bv(add(p[2], k), 64)]) for k in range(p[3])]
        else: return None
    return out
def r_lit(b): return [('c', x) for x in b]
