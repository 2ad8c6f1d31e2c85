"""contract of std::unordered_map<std::string, std::optional<std::string>>: a finite map value, changed by put(key, value)"""
import re
from irv.prop import *
from irv.lib import *
from irv.ll import IntTy
MAP = z3.DeclareSort('StrMap')
m_empty = z3.Const('map_empty', MAP)
m_put = z3.Function('map_put', MAP, SEQ, z3.BoolSort(), SEQ, MAP)
m_isempty = z3.Function('map_is_empty', MAP, z3.BoolSort())
m_has = z3.Function('map_engaged', MAP, SEQ, z3.BoolSort()); m_val = z3.Function('map_value', MAP, SEQ, SEQ); m_len = z3.Function('map_value_len', MAP, SEQ, BV64)
class Map(LibVal):
    size = 56
    def __init__(s, t, pend=None): s.t, s.pend = t, pend      # pend: (key, slot object) handed out by operator[]
    def same(s, o): return isinstance(o, Map) and s.t.eq(o.t) and s.pend == o.pend
    def check_same_shape(s, o):
        if not isinstance(o, Map): raise Unsupported('map replaced in loop')
    def havoc(s, ex, st, lc, loc):
        lc.vars.append(('lib', loc, 'map')); return Map(z3.Const('hm!%d' % uid(), MAP))
    def lcget(s, what): return s.t
def empty_cond(t):
    if t.eq(m_empty): return True
    if z3.is_app(t) and t.decl().eq(m_put): return False
    return m_isempty(t)
def get(ex, st, p):
    """the map at p with every handed-out slot written back"""
    m = cell(st, p, Map)
    if m.pend:
        key, so = m.pend; f = ex.load(st, Ptr(so, 32), IntTy(8)); has = ex.cond(simp(z3.Extract(0, 0, bv(f, 8))))
        if not isinstance(has, bool): has = ex.decide(st, has)
        v = r_term(r_norm(rope_of(ex, st, Ptr(so, 0)))) if has else s_empty
        m = Map(m_put(m.t, key, z3.BoolVal(has), v)); st.w(so).alive = False; st.w(so).name = 'map slot (reference kept across another map operation)'
        setcell(ex, st, p, m)
    return m
def norm_map(d): return re.sub(r'std::unordered_map<std::string, std::optional<std::string>, std::hash<std::string>, std::equal_to<std::string>, std::allocator<std::pair<std::string const, std::optional<std::string>>>>', 'QMap', d)
H = {}
def reg(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
@reg('QMap::unordered_map()')
def _(ex, st, a, ins, nm): setcell(ex, st, a[0], Map(m_empty))
@reg('QMap::unordered_map(QMap const&)')
def _(ex, st, a, ins, nm): setcell(ex, st, a[0], Map(get(ex, st, a[1]).t))
@reg('QMap::unordered_map(QMap&&)')
def _(ex, st, a, ins, nm): setcell(ex, st, a[0], Map(get(ex, st, a[1]).t)); setcell(ex, st, a[1], Map(m_empty))
@reg('QMap::operator=(QMap const&)')
def _(ex, st, a, ins, nm): get(ex, st, a[0]); setcell(ex, st, a[0], Map(get(ex, st, a[1]).t)); return a[0]
@reg('QMap::operator=(QMap&&)')
def _(ex, st, a, ins, nm):
    if a[0].obj == a[1].obj and same(a[0].off, a[1].off): return a[0]
    t = get(ex, st, a[1]).t; get(ex, st, a[0]); setcell(ex, st, a[1], Map(m_empty)); setcell(ex, st, a[0], Map(t)); return a[0]
@reg('QMap::clear()')
def _(ex, st, a, ins, nm): get(ex, st, a[0]); setcell(ex, st, a[0], Map(m_empty))
@reg('QMap::~unordered_map()')
def _(ex, st, a, ins, nm): cell(st, a[0], Map); st.w(a[0].obj).cells.pop(a[0].off, None)
@reg('QMap::empty() const')
def _(ex, st, a, ins, nm): return b2i(empty_cond(get(ex, st, a[0]).t))
@reg('QMap::swap(QMap&)')
def _(ex, st, a, ins, nm): swap(ex, st, a)
def swap(ex, st, a):
    x, y = get(ex, st, a[0]), get(ex, st, a[1]); setcell(ex, st, a[0], Map(y.t)); setcell(ex, st, a[1], Map(x.t))
def put(ex, st, p, key):
    m = get(ex, st, p); so = ex.alloc(st, 40, 'cells', 'map slot')
    # the previous value of the key, or a new disengaged one
    ex.store(st, Ptr(so, 32), IntTy(8), simp(z3.If(m_has(m.t, key), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))
    n = m_len(m.t, key); st.assume(z3.ULT(n, z3.BitVecVal(MAXLEN, 64))); mk(ex, st, Ptr(so, 0), [('o', m_val(m.t, key), n)])
    setcell(ex, st, p, Map(m.t, (key, so))); return Ptr(so, 0)
@reg('QMap::operator[](std::string const&)')
def _(ex, st, a, ins, nm): return put(ex, st, a[0], r_term(r_norm(rope_of(ex, st, a[1]))))
@reg('QMap::operator[](std::string&&)')
def _(ex, st, a, ins, nm):
    k = r_term(r_norm(rope_of(ex, st, a[1]))); set_rope(ex, st, a[1], []); return put(ex, st, a[0], k)
def maplib(ex, name, dem):
    d = norm_map(nrm(dem)); h = H.get(d)
    if h is None and re.match(r'void std::swap<std::string, std::optional<std::string>, .*>\(QMap&, QMap&\)$', d): h = lambda ex, st, a, ins, nm: swap(ex, st, a)
    if h is None and 'QMap' in d and ('QMap::' in d or d.startswith('std::operator')):
        def h(ex, st, a, ins, nm): raise Unsupported('map operation ' + d[:120])
    if h is not None: h.trust = 'std::unordered_map'
    return h
# ---- string storage with the small-buffer distinction (which buffer a view points into after a move or swap)
def sso(ex, st, p):
    """does the string at p keep its characters inside the object?  only strings of at most 15 characters may"""
    v = cell(st, p, Str); o = alive(ex, st, v, 'use')
    return ex.decide(st, And(ule(r_len(o.rope), 15), z3.Bool('small!%d' % v.buf)))
def s_swap(ex, st, a, ins=None, nm=None):
    if a[0].obj == a[1].obj and same(a[0].off, a[1].off): return None
    x, y = cell(st, a[0], Str), cell(st, a[1], Str); sx, sy = sso(ex, st, a[0]), sso(ex, st, a[1])
    if sx and sy:
        rx, ry = list(st.mem[x.buf].rope), list(st.mem[y.buf].rope); st.w(x.buf).rope = ry; st.w(y.buf).rope = rx; return None
    def take(dst, src, srcsso):
        if srcsso:                     # characters are copied into dst's own (new) local buffer
            b = ex.new_rope(st, list(st.mem[src.buf].rope), 'string content'); st.assume(z3.Bool('small!%d' % b)); return Str(b)
        return Str(src.buf)
    nx, ny = take(a[0], y, sy), take(a[1], x, sx)
    if sx: st.w(x.buf).alive = False
    if sy: st.w(y.buf).alive = False
    setcell(ex, st, a[0], nx); setcell(ex, st, a[1], ny)
def s_mctor(ex, st, a, ins, nm):
    v = cell(st, a[1], Str)
    if sso(ex, st, a[1]): b = mk(ex, st, a[0], rope_of(ex, st, a[1])); st.assume(z3.Bool('small!%d' % b)); st.w(v.buf).rope = []
    else: setcell(ex, st, a[0], Str(v.buf)); b = mk(ex, st, a[1], []); st.assume(z3.Bool('small!%d' % b))
def s_massign(ex, st, a, ins, nm):
    if a[0].obj == a[1].obj and same(a[0].off, a[1].off): return a[0]
    v = cell(st, a[1], Str); w = cell(st, a[0], Str)
    if sso(ex, st, a[1]): st.w(w.buf).rope = list(st.mem[v.buf].rope); st.w(v.buf).rope = []
    else: st.w(w.buf).alive = False; setcell(ex, st, a[0], Str(v.buf)); b = mk(ex, st, a[1], []); st.assume(z3.Bool('small!%d' % b))
    return a[0]
SSO = {STR + 'swap(std::string&)': s_swap, STR + 'basic_string(std::string&&)': s_mctor, STR + 'operator=(std::string&&)': s_massign}
def ssolib(ex, name, dem):
    d = nrm(dem); h = SSO.get(d)
    if h is None and re.match(r'void std::swap<char, std::char_traits<char>, std::allocator<char>>\(std::string&, std::string&\)$', d): h = s_swap
    if h is not None: h.trust = 'std::string small-buffer behaviour on move and swap'
    return h
