"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for /repo's sources.

Functions are parsed lazily (only those that are executed symbolically).
"""
import re, subprocess

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ()
class IntTy(Ty):
    __slots__ = ('w',)
    def __init__(s, w): s.w = w
    def __repr__(s): return 'i%d' % s.w
class PtrTy(Ty):
    def __repr__(s): return 'ptr'
class VoidTy(Ty):
    def __repr__(s): return 'void'
class FloatTy(Ty):
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return s.name
class ArrTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(s, n, el): s.n, s.el = n, el
    def __repr__(s): return '[%d x %r]' % (s.n, s.el)
class VecTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(s, n, el): s.n, s.el = n, el
class StructTy(Ty):
    __slots__ = ('els', 'packed')
    def __init__(s, els, packed=False): s.els, s.packed = els, packed
    def __repr__(s): return '{%s}' % ', '.join(map(repr, s.els))
class NamedTy(Ty):
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return '%' + s.name
class LabelTy(Ty):
    pass
class MetaTy(Ty):
    pass
class FnTy(Ty):
    pass
PTR, VOID, LABEL, META = PtrTy(), VoidTy(), LabelTy(), MetaTy()
FLOATS = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}

TOK = re.compile(r'''\s*(
  c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*"
 | [%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)
 | \#\d+ | ![-a-zA-Z$._0-9]*
 | 0x[0-9a-fA-FKLMHR]+ | -?\d+\.\d*(?:e[+-]?\d+)? | -?\d+
 | \.\.\. | [a-zA-Z_][-a-zA-Z0-9_.]* | [][(){}<>,=*|:]
)''', re.X)

def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('lex: ' + s[i:i + 60])
        out.append(m.group(1)); i = m.end()
    return out

def unq(name):
    """%"foo bar" -> foo bar ; %3 -> 3 ; @x -> x"""
    n = name[1:]
    if n.startswith('"'): n = n[1:-1]
    return n

# ---------------------------------------------------------------- operands
# ('int', v) ('null',) ('undef',) ('zero',) ('local', name) ('global', name) ('agg', [(ty,op)..]) ('str', bytes)
# ('cexpr', op, ...) ('fp', text)

class P:
    def __init__(s, toks, mod):
        s.t, s.i, s.mod = toks, 0, mod
    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def eat(s, x):
        if s.peek() == x:
            s.i += 1; return True
        return False
    def expect(s, x):
        if s.next() != x:
            raise IRError('expected %s in %s' % (x, ' '.join(s.t)[:300]))
    def ty(s):
        x = s.next()
        if x == 'ptr':
            r = PTR
            if s.peek() == 'addrspace': s.i += 4
        elif x == 'void': r = VOID
        elif x == 'label': r = LABEL
        elif x == 'metadata': r = META
        elif x in FLOATS: r = FloatTy(x)
        elif re.fullmatch(r'i\d+', x): r = IntTy(int(x[1:]))
        elif x == '[':
            n = int(s.next()); s.expect('x'); e = s.ty(); s.expect(']'); r = ArrTy(n, e)
        elif x == '<':
            if s.peek() == '{':
                s.next(); r = s.struct_body(); r.packed = True; s.expect('>')
            else:
                n = int(s.next()); s.expect('x'); e = s.ty(); s.expect('>'); r = VecTy(n, e)
        elif x == '{':
            r = s.struct_body()
        elif x[0] == '%':
            r = NamedTy(unq(x))
        elif x == 'opaque':
            r = StructTy([])
        else:
            raise IRError('type? %s in %s' % (x, ' '.join(s.t)[:200]))
        while s.peek() == '(':  # function type
            d = 0
            while True:
                y = s.next()
                if y == '(': d += 1
                if y == ')':
                    d -= 1
                    if d == 0: break
            r = FnTy() if False else r
        return r
    def struct_body(s):
        els = []
        while not s.eat('}'):
            els.append(s.ty()); s.eat(',')
        return StructTy(els)
    def val(s, ty):
        x = s.next()
        if x[0] == '%': return ('local', unq(x))
        if x[0] == '@': return ('global', unq(x))
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x == 'none': return ('zero',)
        if x[0] == 'c' and x[1:2] == '"':
            return ('str', unesc(x[2:-1]))
        if x in ('[', '{', '<'):
            if x == '<' and s.peek() == '{':
                s.next(); close = '}'; extra = '>'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[x]; extra = None
            els = []
            while not s.eat(close):
                t = s.ty(); els.append((t, s.val(t))); s.eat(',')
            if extra: s.expect(extra)
            return ('agg', els)
        if re.fullmatch(r'-?\d+', x):
            return ('int', int(x)) if isinstance(ty, IntTy) else ('fp', x)
        if re.match(r'0x|-?\d+\.', x): return ('fp', x)
        if x == 'getelementptr':
            s.eat('inbounds')
            if s.peek() == 'inrange': s.next()
            s.expect('('); bt = s.ty(); s.expect(',')
            t0 = s.ty(); base = s.val(t0); idx = []
            while s.eat(','):
                if s.peek() == 'inrange': s.next()
                t = s.ty(); idx.append((t, s.val(t)))
            s.expect(')')
            return ('cgep', bt, base, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.expect('('); t0 = s.ty(); v = s.val(t0); s.expect('to'); t1 = s.ty(); s.expect(')')
            return ('ccast', x, t0, v, t1)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while s.peek() in ('nsw', 'nuw'): s.next()
            s.expect('('); t0 = s.ty(); a = s.val(t0); s.expect(','); t1 = s.ty(); b = s.val(t1); s.expect(')')
            return ('cbin', x, t0, a, b)
        if x == 'dso_local_equivalent': return s.val(ty)
        if x == 'asm':
            while s.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): s.next()
            a = s.next(); s.expect(','); b = s.next(); return ('asm', a, b)
        if x.startswith('!'): return ('meta', x)
        raise IRError('value? %s in %s' % (x, ' '.join(s.t)[:300]))

def unesc(t):
    b = bytearray(); i = 0
    while i < len(t):
        if t[i] == '\\':
            if t[i + 1] == '\\': b.append(92); i += 2
            else: b.append(int(t[i + 1:i + 3], 16)); i += 3
        else:
            b.append(ord(t[i])); i += 1
    return bytes(b)

PARAM_ATTR_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'preallocated', 'inalloca', 'memory', 'allocsize', 'range', 'nofpclass', 'captures'}
PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext', 'inreg', 'returned', 'immarg', 'dead_on_unwind', 'writable', 'swiftself', 'nest', 'nofree', 'allocptr', 'allocalign', 'noext'} | PARAM_ATTR_PAREN

def skip_attrs(p):
    attrs = {}
    while p.peek() in PARAM_ATTRS:
        a = p.next()
        if a == 'align' and p.peek() != '(':
            attrs[a] = int(p.next()); continue
        if a in PARAM_ATTR_PAREN and p.peek() == '(':
            d = 0; start = p.i
            while True:
                y = p.next()
                if y == '(': d += 1
                elif y == ')':
                    d -= 1
                    if d == 0: break
            attrs[a] = p.t[start:p.i]
            if a in ('sret', 'byval'):
                attrs[a] = P(p.t[start + 1:p.i - 1], p.mod).ty()
        else:
            attrs[a] = True
    return attrs

class Inst:
    __slots__ = ('op', 'res', 'a', 'text', 'idx')
    def __init__(s, op, res, a, text):
        s.op, s.res, s.a, s.text = op, res, a, text
    def __repr__(s): return s.text.strip()[:160]

class Block:
    __slots__ = ('name', 'phis', 'insts', 'lines', 'succs')
    def __init__(s, name): s.name, s.phis, s.insts, s.lines = name, [], [], []

class Func:
    def __init__(s, name, header, lines, mod):
        s.name, s.header, s.lines, s.mod = name, header, lines, mod
        s.parsed = False
    def parse(s):
        if s.parsed: return s
        s.parsed = True
        m = s.mod
        toks = lex(s.header)
        k = toks.index('@' + s.name) if '@' + s.name in toks else toks.index('@"%s"' % s.name)
        p = P(toks, m); p.i = k + 1; p.expect('(')
        s.params = []; s.vararg = False
        cnt = 0
        while not p.eat(')'):
            if p.eat('...'): s.vararg = True; continue
            t = p.ty(); at = skip_attrs(p)
            nm = None
            if p.peek() and p.peek()[0] == '%': nm = unq(p.next())
            if nm is None: nm = str(cnt)
            if nm == str(cnt): cnt += 1
            s.params.append((t, nm, at)); p.eat(',')
        rest = toks[p.i:]
        # return type: tokens before name
        q = P(toks[:k], m)
        # the return type is last before name; scan for the position where ty parse reaches k
        s.rty = None
        for st in range(1, k):
            q.i = st
            try:
                t = q.ty()
            except Exception:
                continue
            if q.i == k:
                s.rty = t; break
        s.blocks = {}; s.order = []
        cur = None
        firstname = str(cnt)
        i = 0; L = s.lines
        while i < len(L):
            ln = L[i]
            if not ln.strip() or ln.lstrip().startswith(';'):
                i += 1; continue
            if ln[0] not in ' \t':
                nm = ln.split(':')[0].strip()
                if nm.startswith('"'): nm = nm[1:-1]
                cur = Block(nm); s.blocks[nm] = cur; s.order.append(nm); i += 1; continue
            if cur is None:
                cur = Block(firstname); s.blocks[firstname] = cur; s.order.append(firstname)
            txt = ln
            # continuation lines (switch, invoke, landingpad)
            st = ln.strip()
            if re.search(r'(^|= )invoke ', st):
                i += 1; txt += ' ' + L[i].strip()
            elif st.startswith('switch '):
                while ']' not in L[i].split(';')[0] or (L[i].strip().startswith('switch') and not L[i].rstrip().endswith(']')):
                    i += 1; txt += ' ' + L[i].strip()
                    if L[i].strip() == ']': break
            elif re.search(r'= landingpad ', st):
                while i + 1 < len(L) and re.match(r'\s+(cleanup|catch|filter)\b', L[i + 1]):
                    i += 1; txt += ' ' + L[i].strip()
            cur.lines.append(txt); i += 1
        for b in s.blocks.values():
            for txt in b.lines:
                ins = s.parse_inst(txt)
                if ins.op == 'phi': b.phis.append(ins)
                else: b.insts.append(ins)
            b.lines = None
            b.succs = succs(b.insts[-1])
        s.entry = s.order[0]
        s.lines = None
        s._loops = None
        return s

    def parse_inst(s, txt):
        # strip metadata suffix
        core = re.sub(r',\s*!(?:dbg|tbaa|srcloc|prof|llvm\.loop|noundef|range|heapallocsite|noalias|alias\.scope|nonnull|align|invariant\.group|dereferenceable|tbaa\.struct|nosanitize|unpredictable|annotation) ![-\w.]*|, !\w+ !\d+', '', txt)
        toks = lex(core)
        res = None
        if len(toks) > 1 and toks[1] == '=':
            res = unq(toks[0]); toks = toks[2:]
        p = P(toks, s.mod); op = p.next()
        I = lambda a, o=op: Inst(o, res, a, txt)
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.add(p.next())
            t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
            return I((op, fl, t, a, b), 'bin')
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
            return I((op, t, a, b), 'fbin')
        if op == 'fneg':
            t = p.ty(); a = p.val(t); return I((t, a))
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'): p.next()
            pr = p.next(); t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
            return I((pr, t, a, b))
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.ty(); v = p.val(t); p.expect('to'); t2 = p.ty()
            return I((op, t, v, t2), 'cast')
        if op == 'alloca':
            p.eat('inalloca'); t = p.ty(); n = ('int', 1)
            if p.eat(','):
                if p.peek() != 'align': t2 = p.ty(); n = p.val(t2)
            return I((t, n))
        if op == 'load':
            at = p.eat('atomic'); p.eat('volatile'); t = p.ty(); p.expect(','); p.ty(); v = p.val(PTR)
            order = next((x for x in toks[p.i:] if x in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst', 'unordered')), None)
            return I((t, v, order if at else None))
        if op == 'store':
            at = p.eat('atomic'); p.eat('volatile'); t = p.ty(); v = p.val(t); p.expect(','); p.ty(); q = p.val(PTR)
            order = next((x for x in toks[p.i:] if x in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst', 'unordered')), None)
            return I((t, v, q, order if at else None))
        if op == 'fence':
            return I((next((x for x in toks if x in ('acquire', 'release', 'acq_rel', 'seq_cst')), None),))
        if op == 'cmpxchg':
            weak = p.eat('weak'); p.eat('volatile'); p.ty(); q = p.val(PTR); p.expect(',')
            t = p.ty(); a = p.val(t); p.expect(','); t = p.ty(); b = p.val(t)
            ords = [x for x in toks[p.i:] if x in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')]
            return I((t, q, a, b, weak, ords[0] if ords else None))
        if op == 'atomicrmw':
            p.eat('volatile'); o = p.next(); p.ty(); q = p.val(PTR); p.expect(','); t = p.ty(); v = p.val(t)
            ords = [x for x in toks[p.i:] if x in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')]
            return I((o, t, q, v, ords[0] if ords else None))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            bt = p.ty(); p.expect(','); t = p.ty(); b = p.val(t); idx = []
            while p.eat(','):
                t = p.ty(); idx.append((t, p.val(t)))
            return I((bt, b, idx))
        if op == 'phi':
            t = p.ty(); inc = {}
            while True:
                p.expect('['); v = p.val(t); p.expect(','); b = unq(p.next()); p.expect(']')
                inc[b] = v
                if not p.eat(','): break
            return I((t, inc))
        if op == 'select':
            t = p.ty(); c = p.val(t); p.expect(','); t1 = p.ty(); a = p.val(t1); p.expect(','); t2 = p.ty(); b = p.val(t2)
            return I((c, t1, a, b))
        if op == 'extractvalue':
            t = p.ty(); v = p.val(t); ix = []
            while p.eat(','): ix.append(int(p.next()))
            return I((t, v, ix))
        if op == 'insertvalue':
            t = p.ty(); v = p.val(t); p.expect(','); t2 = p.ty(); w = p.val(t2); ix = []
            while p.eat(','): ix.append(int(p.next()))
            return I((t, v, t2, w, ix))
        if op == 'freeze':
            t = p.ty(); v = p.val(t); return I((t, v))
        if op == 'ret':
            t = p.ty()
            return I((t, None if t is VOID else p.val(t)))
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return I((unq(p.next()),), 'jmp')
            t = p.ty(); c = p.val(t); p.expect(','); p.expect('label'); a = unq(p.next()); p.expect(','); p.expect('label'); b = unq(p.next())
            return I((c, a, b))
        if op == 'switch':
            t = p.ty(); v = p.val(t); p.expect(','); p.expect('label'); d = unq(p.next()); p.expect('[')
            cases = []
            while not p.eat(']'):
                t2 = p.ty(); k = p.val(t2); p.expect(','); p.expect('label'); cases.append((k[1], unq(p.next())))
            return I((t, v, d, cases))
        if op in ('call', 'invoke'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc', 'coldcc'): p.next()
            rat = skip_attrs(p)
            t = p.ty()
            callee = p.val(PTR); p.expect('(')
            args = []
            while not p.eat(')'):
                ta = p.ty(); at = skip_attrs(p)
                if ta is META:
                    # metadata operand
                    d = 0
                    while p.peek() not in (',', ')') or d:
                        y = p.next()
                        if y in '({[': d += 1
                        if y in ')}]': d -= 1
                    args.append((ta, ('meta',), at))
                else:
                    args.append((ta, p.val(ta), at))
                p.eat(',')
            nd = ud = None
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.expect('label'); nd = unq(p.next()); p.expect('unwind'); p.expect('label'); ud = unq(p.next())
            return I((t, callee, args, nd, ud), op)
        if op == 'resume':
            t = p.ty(); v = p.val(t); return I((t, v))
        if op == 'unreachable':
            return I(())
        if op == 'landingpad':
            t = p.ty(); cl = []
            while p.peek():
                k = p.next()
                if k == 'cleanup': cl.append(('cleanup',))
                elif k == 'catch':
                    p.ty(); cl.append(('catch', p.val(PTR)))
                elif k == 'filter':
                    tt = p.ty(); cl.append(('filter', p.val(tt)))
                else: break
            return I((t, cl))
        if op == 'va_arg':
            return I(())
        return I((), 'unsupported')

def succs(i):
    if i.op == 'jmp': return [i.a[0]]
    if i.op == 'br': return [i.a[1], i.a[2]]
    if i.op == 'switch': return [i.a[2]] + [c[1] for c in i.a[3]]
    if i.op == 'invoke': return [i.a[3], i.a[4]]
    return []

class Module:
    def __init__(s, path):
        s.types, s.globals, s.funcs, s.decls, s.aliases = {}, {}, {}, {}, {}
        s._sz = {}
        lines = open(path).read().split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', ln)
                s.types[unq(m.group(1))] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', ln)
                nm = unq(m.group(1))
                if re.search(r'\balias\b', m.group(2).split('"')[0]):
                    mm = re.findall(r'@(?:"[^"]*"|[-\w.$]+)', m.group(2))
                    s.aliases[nm] = unq(mm[-1])
                else:
                    s.globals[nm] = m.group(2)
            elif ln.startswith('define '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}': j += 1
                s.funcs[nm] = Func(nm, ln, lines[i + 1:j], s)
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                s.decls[m.group(1).strip('"')] = ln
            i += 1
        s._ginit = {}
        names = [x for x in list(s.funcs) + list(s.decls) + list(s.globals)]
        s.demangled = demangle(names)
    def resolve(s, t):
        while isinstance(t, NamedTy):
            d = s.types[t.name]
            if isinstance(d, str):
                d = P(lex(d), s).ty(); s.types[t.name] = d
            t = d
        return t
    def size_align(s, t):
        k = id(t) if not isinstance(t, NamedTy) else t.name
        if k in s._sz: return s._sz[k][0]
        r = s._size_align(t)
        s._sz[k] = (r, t)
        return r
    def _size_align(s, t):
        t = s.resolve(t)
        if isinstance(t, IntTy):
            b = (t.w + 7) // 8
            p = 1
            while p < b: p *= 2
            return (p, min(p, 16))
        if isinstance(t, PtrTy): return (8, 8)
        if isinstance(t, FloatTy):
            z = FLOATS[t.name]; return (z, z)
        if isinstance(t, (ArrTy, VecTy)):
            z, a = s.size_align(t.el); return (z * t.n, a if isinstance(t, ArrTy) else z * t.n)
        if isinstance(t, StructTy):
            off, al = 0, 1
            for e in t.els:
                z, a = s.size_align(e)
                if t.packed: a = 1
                off = (off + a - 1) // a * a + z; al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise IRError('size of %r' % t)
    def size(s, t): return s.size_align(t)[0]
    def offsets(s, t):
        t = s.resolve(t); out = []; off = 0
        for e in t.els:
            z, a = s.size_align(e)
            if t.packed: a = 1
            off = (off + a - 1) // a * a; out.append(off); off += z
        return out
    def global_init(s, nm):
        """-> (ty, init operand or None, is_const)"""
        if nm in s._ginit: return s._ginit[nm]
        d = s.globals[nm]
        toks = lex(re.sub(r', (?:comdat|align \d+|section ".*?"|!\w+ !\d+).*$', '', d) if not 'c"' in d else d)
        k = next(i for i, x in enumerate(toks) if x in ('constant', 'global'))
        p = P(toks, s); p.i = k + 1
        t = p.ty(); v = None
        if 'external' not in toks[:k] and p.peek() not in (None, ','):
            v = p.val(t)
        s._ginit[nm] = (t, v, toks[k] == 'constant')
        return s._ginit[nm]

def demangle(names):
    if not names: return {}
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    out = {}
    miss = []
    for a, b in zip(names, r):
        out[a] = b
        if b == a and a.startswith('_Z'): miss.append(a)
    if miss:
        try:
            r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(miss), capture_output=True, text=True).stdout.split('\n')
            for a, b in zip(miss, r): out[a] = b
        except FileNotFoundError:
            pass
    return out

# ---------------------------------------------------------------- loops
def loops(f):
    """natural loops: header -> set of blocks; also nesting parent map"""
    if f._loops is not None: return f._loops
    # dominators
    order = []; seen = set()
    def dfs(b):
        st = [(b, iter(f.blocks[b].succs))]; seen.add(b)
        while st:
            n, it = st[-1]
            for c in it:
                if c not in seen:
                    seen.add(c); st.append((c, iter(f.blocks[c].succs))); break
            else:
                order.append(n); st.pop()
    dfs(f.entry); order.reverse()
    pos = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for c in f.blocks[b].succs: preds[c].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]: x = idom[x]
                            while pos[y] > pos[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    L = {}
    for b in order:
        for c in f.blocks[b].succs:
            if dom(c, b):
                body = L.setdefault(c, {c})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x); st.extend(preds[x])
    f._loops = L
    return L
