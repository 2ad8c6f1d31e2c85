"""contracts of the system interface used by core/ThreadAffinity.hpp: each call is recorded with the exact values passed; results are arbitrary"""
import re
from irv.prop import *
from irv.lib import *
from irv.ll import IntTy
NW = 16                    # words of a cpu_set_t
I32 = IntTy(32)
HW = z3.BitVec('hardware_concurrency', 32); SELF = z3.BitVec('pthread_self', 64)
prio_min = z3.Function('sched_get_priority_min', z3.BitVecSort(32), z3.BitVecSort(32)); prio_max = z3.Function('sched_get_priority_max', z3.BitVecSort(32), z3.BitVecSort(32))
def ev(st, *e): st.ghost['~ev'] = st.ghost.get('~ev', ()) + (e,)
def events(st, *names): return [e for e in st.ghost.get('~ev', ()) if e[0] in names]
def words(ex, st, p): return [bv(ex.load(st, Ptr(p.obj, add(p.off, 8 * i)), I64), 64) for i in range(NW)]
def rc(st, nm):
    r = fresh(32, 'rc_' + nm); return r
def setaff(nm):
    def h(ex, st, a, ins, name):
        ex.oblige(st, '%s: the whole cpu_set_t is passed' % nm, eq(a[1], 128)); r = rc(st, nm)
        ev(st, 'setaff', nm, a[0], words(ex, st, a[2]), r); return r
    return h
def getaff(nm):
    def h(ex, st, a, ins, name):
        ex.oblige(st, '%s: the whole cpu_set_t is asked for' % nm, eq(a[1], 128)); r = rc(st, nm)
        ws = [fresh(64, 'cpus') for i in range(NW)]
        for i, w in enumerate(ws): ex.store(st, Ptr(a[2].obj, add(a[2].off, 8 * i)), I64, w)
        ev(st, 'getaff', nm, a[0], ws, r); return r
    return h
def setname(ex, st, a, ins, name):
    r = rc(st, 'setname'); ev(st, 'setname', a[0], r_norm(cstr_rope(ex, st, a[1])), r); return r
def getname(ex, st, a, ins, name):
    """fills at most a[2] bytes with a NUL-terminated text"""
    r = rc(st, 'getname'); n = a[2]
    if not is_c(n) or n > 64: raise Unsupported('pthread_getname_np buffer size')
    ex.check_access(st, a[1], n, 'pthread_getname_np buffer')
    cs = [fresh(8, 'namechar') for i in range(n)]; ln = fresh(64, 'namelen'); st.assume(z3.ULT(ln, z3.BitVecVal(n, 64)))
    for i, c in enumerate(cs): st.assume(z3.And(z3.Implies(z3.ULT(i, ln), c != 0), z3.Implies(ln == i, c == 0))); ex.store(st, Ptr(a[1].obj, add(a[1].off, i)), I8, c)
    ex.store(st, Ptr(a[1].obj, a[1].off), I8, cs[0])
    ev(st, 'getname', a[0], cs, ln, r); return r
def schedset(nm):
    def h(ex, st, a, ins, name):
        r = rc(st, nm); ev(st, 'setsched', nm, a[0], a[1], ex.load(st, a[2], I32), r); return r
    return h
def schedget(ex, st, a, ins, name):
    r = rc(st, 'getschedparam'); p, q = fresh(32, 'policy'), fresh(32, 'priority'); ex.store(st, a[1], I32, p); ex.store(st, a[2], I32, q); ev(st, 'getsched', a[0], p, q, r); return r
def getscheduler(ex, st, a, ins, name):
    p = fresh(32, 'policy'); ev(st, 'getscheduler', a[0], p); return p
def getparam(ex, st, a, ins, name):
    r = rc(st, 'getparam'); q = fresh(32, 'priority'); ex.store(st, a[1], I32, q); ev(st, 'getparam', a[0], q, r); return r
def self_(ex, st, a, ins, name): st.assume(SELF != 0); return SELF
C = {'pthread_setaffinity_np': setaff('pthread_setaffinity_np'), 'sched_setaffinity': setaff('sched_setaffinity'), 'pthread_getaffinity_np': getaff('pthread_getaffinity_np'), 'sched_getaffinity': getaff('sched_getaffinity'),
     'pthread_setname_np': setname, 'pthread_getname_np': getname, 'pthread_setschedparam': schedset('pthread_setschedparam'), 'sched_setscheduler': schedset('sched_setscheduler'), 'pthread_getschedparam': schedget,
     'sched_getscheduler': getscheduler, 'sched_getparam': getparam, 'pthread_self': self_,
     'sched_get_priority_min': lambda ex, st, a, ins, n: prio_min(bv(a[0], 32)), 'sched_get_priority_max': lambda ex, st, a, ins, n: prio_max(bv(a[0], 32)),
     'std::thread::hardware_concurrency()': lambda ex, st, a, ins, n: HW}
# std::vector<bool>: one byte per flag
class VB(LibVal):
    size = 40
    def __init__(s, buf): s.buf = buf
    def same(s, o): return s.buf == o.buf
VBN = 'std::vector<bool, std::allocator<bool>>::'
def vb(st, p): return cell(st, p, VB).buf
def vb_new(ex, st, p, n, fill=0):
    b = ex.new_arr(st, n, 'flags', z3.K(BV64, z3.BitVecVal(fill, 8))); setcell(ex, st, p, VB(b)); return b
def vb_ref(ex, st, a, ins, nm):
    b = vb(st, a[0]); ok = ult(a[1], st.mem[b].size)
    ex.oblige(st, 'memory-safety: flag index inside the list', ok, 'safety'); st.assume(ok); return [Ptr(b, a[1]), 1]
def vb_put(ex, st, a, ins, nm):
    p = ex.load(st, a[0], PTR); v = bv(a[1], 1) if not is_c(a[1]) else a[1]
    ex.store(st, p, I8, v if is_c(v) else simp(z3.ZeroExt(7, v))); return a[0]
def vb_push(ex, st, a, ins, nm):
    b = vb(st, a[0]); o = st.w(b); v = a[1]; o.arr = z3.Store(o.arr, bv(o.size, 64), bv(v if is_c(v) else simp(z3.ZeroExt(7, v)), 8)); o.size = add(o.size, 1)
def vb_move(ex, st, a, ins, nm):
    b = vb(st, a[1]); setcell(ex, st, a[0], VB(b)); vb_new(ex, st, a[1], 0)
def vb_copy(ex, st, a, ins, nm):
    b = vb(st, a[1]); o = st.mem[b]; setcell(ex, st, a[0], VB(ex.new_arr(st, o.size, 'flags', o.arr)))
C.update({VBN + 'vector(unsigned long, std::allocator<bool> const&)': lambda ex, st, a, ins, n: vb_new(ex, st, a[0], a[1]) and None,
          VBN + 'vector()': lambda ex, st, a, ins, n: vb_new(ex, st, a[0], 0) and None, VBN + 'size() const': lambda ex, st, a, ins, n: st.mem[vb(st, a[0])].size,
          VBN + 'operator[](unsigned long)': vb_ref, 'std::_Bit_reference::operator=(bool)': vb_put, VBN + 'push_back(bool)': vb_push, VBN + '~vector()': lambda ex, st, a, ins, n: None,
          VBN + 'reserve(unsigned long)': lambda ex, st, a, ins, n: None, VBN + 'vector(std::vector<bool, std::allocator<bool>>&&)': vb_move, VBN + 'vector(std::vector<bool, std::allocator<bool>> const&)': vb_copy,
          'std::_Bit_reference::operator bool() const': lambda ex, st, a, ins, n: b2i(Not(eq(ex.load(st, ex.load(st, a[0], PTR), I8), 0, 8)))})
def sys_err(ex, st, a, ins, nm): ev(st, 'error', a[1] if not isinstance(a[1], Ptr) else None)
def anystr(ex, st, a, ins, nm):
    n = fresh(64, 'msglen'); st.assume(z3.ULT(n, z3.BitVecVal(MAXLEN, 64))); mk(ex, st, a[0], [('o', fresh_seq('msg'), n)])
def syslib(ex, name, dem):
    d = nrm(dem); h = C.get(d); why = 'system interface'
    if h is not None and ('vector' in d or '_Bit' in d): why = 'std::vector<bool>'
    if h is None and d.startswith('std::system_error::system_error('): h, why = sys_err, 'std::system_error keeps the code it is given'
    if h is None and d.startswith('std::system_error::~system_error('): h, why = (lambda ex, st, a, ins, n: None), 'std::system_error'
    if h is None and re.match(r'std::string (std::format<|opencmw::join<)', d): h, why = anystr, 'text of an error message (any text)'
    if h is None and re.match(r'opencmw::thread::thread_exception::(~)?thread_exception\(', d): h, why = (lambda ex, st, a, ins, n: None), 'error category object'
    if h is None: return None
    def g(*a): return h(*a)
    g.trust = why; return g
def bit(ws, k):
    """flag k (a 64-bit term) of a cpu set"""
    w = ws[-1]
    for i in range(NW - 2, -1, -1): w = z3.If(z3.LShR(k, 6) == i, ws[i], w)
    return z3.Extract(0, 0, z3.LShR(w, k & 63))
def sys_error(st):
    e = st.exc; return e is not None and 'system_error' in str(getattr(e, 'ti', None))
def error_codes(st): return [e[1] for e in events(st, 'error')]
