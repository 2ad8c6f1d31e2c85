"""role tokens: parse_rbac::role/hash/roleAndHash and the permission lookup (ConstExprMap::at)"""
from irv.prop import *
from irv.spec import *
from irv.lib import *
from irv.ll import IntTy
from seqspec import consts
I32 = IntTy(32)
NATIVE = [('rbac.cpp', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'], [], 'c++23', 'clang++-18')]
ASSUMPTIONS = ['tokens shorter than 2^56 bytes', 'the lookup is proved for tables of one, two and four roles with arbitrary names and rights (a table has a fixed size known at compile time)']
PREFIX = b'RBAC='
K = z3.BitVec('any_position', 64)
def fmt_lib(ex, name, dem):
    d = nrm(dem)
    if not (d.startswith('std::string std::format<') or d.startswith('std::format<')): return None
    def h(ex, st, a, ins, nm): mk(ex, st, a[0], [('s', fresh_arr('text'), 0, havoc_len(st))])     # the text of a message is not specified
    h.trust = 'std::format (text not specified)'; return h
def prove(c):
    def parse(c, fn):
        m = c.module('rbac.cpp'); ex = c.executor(m); st = X.State(); n = z3.BitVec('n', 64); st.assume(z3.And(z3.ULT(n, 1 << 56), z3.ULT(K, 1 << 56))); buf = ex.new_arr(st, n, 'token'); arr = st.mem[buf].arr; c.n, c.arr = n, arr
        out = ex.alloc(st, 32, 'cells', 'result'); at = lambda i: z3.Select(arr, bv(i, 64)); what = {'role': 'role', 'hash': 'hash', 'both': 'role and hash'}[fn]
        pre = z3.And(z3.UGE(n, 5), *[at(i) == b for i, b in enumerate(PREFIX)])
        p = z3.BitVec('comma', 64); q = z3.BitVec('q', 64)                       # position of the first comma, if any
        first = z3.And(z3.ULE(5, p), z3.ULT(p, n), at(p) == 44, z3.ForAll([q], z3.Implies(z3.And(z3.ULE(5, q), z3.ULT(q, p)), z3.Select(arr, q) != 44), patterns=[z3.Select(arr, q)]))
        none = z3.ForAll([q], z3.Implies(z3.And(z3.ULE(5, q), z3.ULT(q, n)), z3.Select(arr, q) != 44), patterns=[z3.Select(arr, q)])
        c.reach(what + ' precondition', st)
        for case, cond in (('a role and a hash', z3.And(pre, first)), ('no comma', z3.And(pre, none)), ('another prefix', z3.Not(pre))):
            s0 = st.fork() if hasattr(st, 'fork') else st.copy(); s0.assume(cond)
            for d in ex.run_function(s0, 'rb_' + fn, [Ptr(out, 0), Ptr(buf, 0), n]):
                s = d.st; ex.oblige(s, '%s (%s): does not fail' % (what, case), d.kind == 'ret')
                if d.kind != 'ret': continue
                def view(o, lo, ln, nm):
                    l, x = bv(ex.load(s, Ptr(out, o), I64), 64), ex.load(s, Ptr(out, o + 8), PTR)
                    if lo is None: ex.oblige(s, '%s (%s): %s is empty' % (what, case, nm), l == 0); return
                    ex.oblige(s, '%s (%s): %s has the length written in the token' % (what, case, nm), l == ln)
                    ex.oblige(s, '%s (%s): %s is the text written in the token' % (what, case, nm), z3.Implies(ln != 0, z3.And(z3.BoolVal(x.obj == buf), zb(eq(x.off, lo)))))
                ok = case == 'a role and a hash'; R = (z3.BitVecVal(5, 64), p - 5) if ok else (None, None); Hh = (p + 1, n - p - 1) if ok else (None, None)
                if fn in ('role', 'both'): view(0, *R, 'the role')
                if fn == 'hash': view(0, *Hh, 'the hash')
                if fn == 'both': view(16, *Hh, 'the hash')
                c.reach('%s (%s)' % (what, case), s)
        c.collect(ex, what)
    def lookup(c, size, fn):
        m = c.module('rbac.cpp'); consts(c, m, ['rb_sizeof%d' % size]); ex = c.executor(m, [fmt_lib]); st = X.State(); what = 'lookup' if fn == 'at' else 'lookup with default'
        tab = ex.alloc(st, c.const['rb_sizeof%d' % size], 'cells', 'table'); n = z3.BitVec('n', 64); st.assume(z3.ULT(n, 1 << 56)); key = ex.new_arr(st, n, 'name'); ka = st.mem[key].arr; vals, same = [], []; step = c.const['rb_sizeof%d' % size] // size
        for i in range(size):
            l = z3.BitVec('len%d' % i, 64); st.assume(z3.ULT(l, 1 << 56)); b = ex.new_arr(st, l, 'role%d' % i); v = z3.BitVec('rights%d' % i, 32); ex.store(st, Ptr(tab, step * i), I64, l); ex.store(st, Ptr(tab, step * i + 8), PTR, Ptr(b, 0)); ex.store(st, Ptr(tab, step * i + 16), I32, v)
            vals.append(v); same.append(z3.And(l == n, z3.Or(n == 0, zb(r_eq([('s', st.mem[b].arr, 0, l)], [('s', ka, 0, n)])))))
        dflt = z3.BitVec('default', 32); args = [Ptr(tab, 0), Ptr(key, 0), n] + ([dflt] if fn == 'at_or' else [])
        for d in ex.run_function(st, 'rb_%s%d' % (fn, size), args):
            s = d.st; unknown = z3.And([z3.Not(x) for x in same])
            if d.kind == 'ret':
                v = bv(d.val, 32)
                for i in range(size): ex.oblige(s, what + ': a known role gets the rights of its (first) entry', z3.Implies(z3.And([same[i]] + [z3.Not(x) for x in same[:i]]), v == vals[i]))
                ex.oblige(s, what + ': an unknown role gets ' + ('the default' if fn == 'at_or' else 'no rights'), z3.Implies(unknown, v == dflt if fn == 'at_or' else z3.BoolVal(False)))
            else:
                ex.oblige(s, what + ': refused only for an unknown role', z3.And(unknown, z3.BoolVal(fn == 'at'))); ex.oblige(s, what + ': refused as out of range', z3.BoolVal('out_of_range' in str(getattr(s.exc, 'ti', s.exc))))
            c.reach('%s %d %s' % (what, size, d.kind), s)
        c.collect(ex, what)
    def roles(c):
        m = c.module('rbac.cpp'); consts(c, m, ['rb_rw', 'rb_ro', 'rb_wo', 'rb_no']); k = c.const
        ex = c.executor(m); st = X.State(); ex.oblige(st, 'permissions are distinct', len({k['rb_rw'], k['rb_ro'], k['rb_wo'], k['rb_no']}) == 4)
        for f, nm, want in (('admin', b'ADMIN', 'rb_rw'), ('any', b'ANY', 'rb_rw'), ('any_ro', b'ANY', 'rb_ro'), ('none', b'NONE', 'rb_no')):
            for d in ex.run_function(st.fork() if hasattr(st, 'fork') else st, 'rb_rights_' + f, []): ex.oblige(d.st, 'role %s: documented rights' % f, eq(d.val, k[want]))
            out = ex.alloc(st, 16, 'cells', 'name')
            for d in ex.run_function(st, 'rb_name_' + f, [Ptr(out, 0)]):
                r = ex.bytes_rope(d.st, ex.load(d.st, Ptr(out, 8), PTR), ex.load(d.st, Ptr(out, 0), I64)); ex.oblige(d.st, 'role %s: its name' % f, z3.And(zb(eq(r_len(r), len(nm))), *[zb(eq(r_read(r, i), b, 8)) for i, b in enumerate(nm)])); st = d.st
        c.collect(ex, 'roles')
    c.parallel([('parse ' + f, lambda c, f=f: parse(c, f)) for f in ('role', 'hash', 'both')] + [('%s %d' % (f, n), lambda c, f=f, n=n: lookup(c, n, f)) for f in ('at', 'at_or') for n in (1, 2, 4)] + [('roles', roles)])
def inputs_from(c, o):
    out = []
    if not hasattr(c, 'n'): return out
    for mm in (small_model(o, [c.n]), o.model):
        if mm is None: continue
        b = bytes_of(mm, c.arr, c.n)
        if b is not None: out.append(b.hex() or '00len0')
    return out
