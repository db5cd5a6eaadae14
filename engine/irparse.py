"""Parser for textual LLVM IR (clang/LLVM 18, opaque pointers)."""
import re, struct
from fractions import Fraction

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'packed', 'name', '_size', '_align', '_offs', '_store')
    def __init__(s, k, n=0, el=None, els=None, packed=False, name=None):
        s.k = k; s.n = n; s.el = el; s.els = els; s.packed = packed; s.name = name
        s._size = None; s._align = None; s._offs = None
    def __repr__(s):
        if s.k == 'i': return 'i%d' % s.n
        if s.k == 'f': return {32: 'float', 64: 'double', 80: 'x86_fp80', 16: 'half', 128: 'fp128'}[s.n]
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'vec': return '<%d x %r>' % (s.n, s.el)
        if s.k == 'struct': return s.name or '{%s}' % ','.join(map(repr, s.els or []))
        return s.k

VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata'); TOKEN = Ty('token')
_ints = {}
def I(n):
    if n not in _ints: _ints[n] = Ty('i', n)
    return _ints[n]
F = {32: Ty('f', 32), 64: Ty('f', 64), 80: Ty('f', 80), 16: Ty('f', 16), 128: Ty('f', 128)}

def align_of(t):
    if t._align is None:
        k = t.k
        if k == 'i': a = 1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16
        elif k == 'ptr': a = 8
        elif k == 'f': a = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t.n]
        elif k == 'arr': a = align_of(t.el)
        elif k == 'vec': a = size_of(t)
        elif k == 'struct': a = 1 if t.packed else max([1] + [align_of(e) for e in t.els])
        else: raise Exception('align_of %r' % t)
        t._align = a
    return t._align

def size_of(t):
    if t._size is None:
        k = t.k
        if k == 'i':
            b = (t.n + 7) // 8; a = align_of(t); s = (b + a - 1) // a * a
        elif k == 'ptr': s = 8
        elif k == 'f': s = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t.n]
        elif k == 'arr': s = t.n * size_of(t.el)
        elif k == 'vec':
            b = t.n * size_of(t.el); s = 1
            while s < b: s *= 2
        elif k == 'struct':
            offs = []; o = 0
            for e in t.els:
                a = 1 if t.packed else align_of(e)
                o = (o + a - 1) // a * a
                offs.append(o); o += size_of(e)
            a = align_of(t); s = (o + a - 1) // a * a
            t._offs = offs
        else: raise Exception('size_of %r' % t)
        t._size = s
    return t._size

def offs_of(t):
    size_of(t); return t._offs

def store_size(t):
    return (t.n + 7) // 8 if t.k == 'i' else 10 if (t.k == 'f' and t.n == 80) else size_of(t)

# ---------------------------------------------------------------- constants (symbolic tree, evaluated by executor)
class Glob:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
class CExpr:
    __slots__ = ('op', 'a')
    def __init__(s, op, *a): s.op = op; s.a = a
class UndefT:
    def __repr__(s): return 'UNDEF'
UNDEF = UndefT()
class ZeroInit:
    pass
ZERO = ZeroInit()

# ---------------------------------------------------------------- tokenizer
TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<str>c?"(?:[^"])*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glo>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+|))
 | (?P<attr>\#\d+)
 | (?P<com>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_][-a-zA-Z0-9_.]*)
 | (?P<p>[\[\]{}()<>,=*|:])
''', re.X)

def tokenize(s):
    out = []; pos = 0; n = len(s); m = TOK.match
    while pos < n:
        mo = m(s, pos)
        if not mo: raise Exception('tokenize error at %r' % s[pos:pos + 60])
        k = mo.lastgroup
        if k != 'ws': out.append((k, mo.group()))
        pos = mo.end()
    out.append(('eof', ''))
    return out

def unq(s):
    s = s[1:]
    return s[1:-1] if s.startswith('"') else s

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'x', 'text', 'flags')
    def __init__(s, op): s.op = op; s.res = None; s.ty = None; s.a = s.b = s.c = s.x = None; s.text = ''; s.flags = ()

class Func:
    def __init__(s, name): s.name = name; s.params = []; s.ret = None; s.blocks = None; s.src = None; s.vararg = False; s.nslots = 0; s.byval = {}; s.linkage = ''
class GVar:
    def __init__(s, name): s.name = name; s.ty = None; s.init = None; s.const = False; s.ext = False; s.align = 1

PARAM_ATTRS = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','returned','signext','zeroext','inreg','nest','immarg','swiftself','swifterror','nofree','noreturn','allocptr','allocalign','writable','dead_on_unwind'}
FAST = {'nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'}

class P:
    """recursive descent over a token list"""
    def __init__(s, mod, text): s.m = mod; s.t = tokenize(text); s.i = 0
    def peek(s): return s.t[s.i]
    def pv(s): return s.t[s.i][1]
    def next(s): x = s.t[s.i]; s.i += 1; return x
    def acc(s, v):
        if s.t[s.i][1] == v and s.t[s.i][0] != 'str': s.i += 1; return True
        return False
    def exp(s, v):
        x = s.next()
        if x[1] != v: raise Exception('expected %r got %r near %r' % (v, x, ' '.join(a[1] for a in s.t[max(0, s.i - 12):s.i + 8])))
    def ty(s):
        k, v = s.next()
        if k == 'id':
            if v == 'ptr':
                if s.acc('addrspace'): s.exp('('); s.next(); s.exp(')')
                t = PTR
            elif v == 'void': t = VOID
            elif v[0] == 'i' and v[1:].isdigit(): t = I(int(v[1:]))
            elif v == 'double': t = F[64]
            elif v == 'float': t = F[32]
            elif v == 'x86_fp80': t = F[80]
            elif v == 'half': t = F[16]
            elif v == 'fp128': t = F[128]
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'token': t = TOKEN
            elif v == 'opaque': t = Ty('struct', els=[], name='opaque')
            else: raise Exception('type? %r' % v)
        elif k == 'loc':
            t = s.m.named(unq(v))
        elif v == '[':
            n = int(s.next()[1]); s.exp('x'); e = s.ty(); s.exp(']'); t = Ty('arr', n=n, el=e)
        elif v == '<':
            if s.acc('{'):
                els = s.tylist('}'); s.exp('>'); t = Ty('struct', els=els, packed=True)
            else:
                n = int(s.next()[1]); s.exp('x'); e = s.ty(); s.exp('>'); t = Ty('vec', n=n, el=e)
        elif v == '{':
            t = Ty('struct', els=s.tylist('}'))
        else: raise Exception('type? %r' % ((k, v),))
        # function type suffix
        while s.pv() == '(' and s.peek()[0] == 'p':
            s.next(); ps = []; va = False
            while not s.acc(')'):
                if s.acc('...'): va = True
                else: ps.append(s.ty())
                s.acc(',')
            t = Ty('fn', el=t, els=ps)
        return t
    def tylist(s, end):
        els = []
        if s.acc(end): return els
        while True:
            els.append(s.ty())
            if s.acc(end): return els
            s.exp(',')
    def skip_attrs(s, store=None):
        """param / return attributes"""
        while True:
            k, v = s.peek()
            if k == 'id' and v in PARAM_ATTRS: s.next()
            elif k == 'id' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'memory', 'range', 'nofpclass', 'captures'):
                s.next()
                if s.acc('('):
                    d = 1
                    while d:
                        x = s.next()[1]
                        d += (x == '(') - (x == ')')
                else: s.next()
            elif k == 'id' and v in ('sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                s.next(); s.exp('('); t = s.ty(); s.exp(')')
                if store is not None: store[v] = t
            elif k == 'str' : s.next(); (s.acc('=') and s.next())
            elif k == 'attr': s.next()
            else: return
    def const(s, ty):
        k, v = s.peek()
        if k == 'num':
            s.next()
            if ty.k == 'i': return int(v) & ((1 << ty.n) - 1)
            if ty.k == 'f':
                if v.startswith('0x'):
                    if v[2] == 'K':
                        bits = int(v[3:], 16); e = (bits >> 64) & 0x7fff; m = bits & ((1 << 64) - 1); sg = bits >> 79
                        x = Fraction(m) * (Fraction(2) ** (e - 16383 - 63)) if m else Fraction(0)
                        return float(-x if sg else x)
                    return struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]
                return float(v)
            raise Exception('num const for %r' % ty)
        if k == 'glo': s.next(); return Glob(unq(v))
        if k == 'str': s.next(); return s.cstr(v)
        if v == '<' :
            s.next()
            if s.acc('{'):
                r = s.caggr('}'); s.exp('>'); return r
            return s.caggr('>')
        if v == '{': s.next(); return s.caggr('}')
        if v == '[': s.next(); return s.caggr(']')
        if k == 'id':
            s.next()
            if v == 'null': return CExpr('null')
            if v in ('undef', 'poison'): return UNDEF
            if v == 'zeroinitializer': return ZERO
            if v == 'true': return True
            if v == 'false': return False
            if v == 'none': return None
            if v == 'getelementptr':
                while s.pv() in ('inbounds', 'nuw', 'nusw') or s.pv() == 'inrange':
                    s.next()
                    if s.pv() == '(' and s.t[s.i + 1][0] == 'num':
                        while not s.acc(')'): s.next()
                s.exp('('); t = s.ty(); s.exp(',')
                args = []
                while True:
                    s.acc('inrange')
                    at = s.ty(); args.append((at, s.const(at)))
                    if s.acc(')'): break
                    s.exp(',')
                return CExpr('gep', t, args)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                s.exp('('); t = s.ty(); x = s.const(t); s.exp('to'); t2 = s.ty(); s.exp(')')
                return CExpr('cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while s.pv() in ('nsw', 'nuw', 'exact'): s.next()
                s.exp('('); t = s.ty(); x = s.const(t); s.exp(','); t2 = s.ty(); y = s.const(t2); s.exp(')')
                return CExpr('bin', v, t, x, y)
            if v in ('icmp',):
                pr = s.next()[1]; s.exp('('); t = s.ty(); x = s.const(t); s.exp(','); t2 = s.ty(); y = s.const(t2); s.exp(')')
                return CExpr('icmp', pr, t, x, y)
            if v == 'dso_local_equivalent' or v == 'no_cfi': return s.const(ty)
        raise Exception('const? %r %r' % ((k, v), ty))
    def caggr(s, end):
        els = []
        if s.acc(end): return CExpr('agg', els)
        while True:
            t = s.ty(); els.append((t, s.const(t)))
            if s.acc(end): return CExpr('agg', els)
            s.exp(',')
    def cstr(s, v):
        body = v[2:-1]; out = bytearray(); i = 0
        while i < len(body):
            if body[i] == '\\':
                if body[i + 1] == '\\': out.append(92); i += 2
                else: out.append(int(body[i + 1:i + 3], 16)); i += 3
            else: out.append(ord(body[i])); i += 1
        return CExpr('bytes', bytes(out))

class FuncParser(P):
    def __init__(s, mod, fn, text):
        P.__init__(s, mod, text); s.fn = fn; s.slots = {}
    def slot(s, name):
        r = s.slots.get(name)
        if r is None: r = s.slots[name] = len(s.slots)
        return r
    def val(s, ty):
        """operand: ('r', slot) or ('k', const, ty)"""
        k, v = s.peek()
        if k == 'loc': s.next(); return (True, s.slot(unq(v)), ty)
        return (False, s.const(ty), ty)
    def tval(s):
        t = s.ty()
        if t is META:
            # metadata operand: skip until , or )
            d = 0
            while True:
                v = s.pv()
                if d == 0 and v in (',', ')'): break
                d += (v == '(') - (v == ')') ; s.next()
            return (False, None, t)
        return s.val(t)
    def lab(s):
        s.exp('label'); return unq(s.next()[1])

def parse_instr_line(p):
    """p: FuncParser positioned at one instruction's token list"""
    res = None
    if p.peek()[0] == 'loc' and p.t[p.i + 1][1] == '=':
        res = p.slot(unq(p.next()[1])); p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'): op = p.next()[1]
    I_ = Instr(op); I_.res = res
    if op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
        fl = []
        while p.pv() in ('nsw','nuw','exact','disjoint') or p.pv() in FAST: fl.append(p.next()[1])
        I_.flags = tuple(fl)
        I_.ty = p.ty(); I_.a = p.val(I_.ty); p.exp(','); I_.b = p.val(I_.ty)
    elif op == 'fneg':
        while p.pv() in FAST: p.next()
        I_.ty = p.ty(); I_.a = p.val(I_.ty)
    elif op in ('icmp','fcmp'):
        while p.pv() in FAST or p.pv() == 'samesign': p.next()
        I_.x = p.next()[1]; I_.ty = p.ty(); I_.a = p.val(I_.ty); p.exp(','); I_.b = p.val(I_.ty)
    elif op in ('trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'):
        while p.pv() in ('nneg','nuw','nsw') or p.pv() in FAST: p.next()
        t = p.ty(); I_.a = p.val(t); p.exp('to'); I_.ty = p.ty(); I_.x = t
    elif op == 'select':
        while p.pv() in FAST: p.next()
        I_.a = p.tval(); p.exp(','); I_.b = p.tval(); p.exp(','); I_.c = p.tval(); I_.ty = I_.b[2]
    elif op == 'freeze':
        I_.a = p.tval()
    elif op == 'phi':
        while p.pv() in FAST: p.next()
        I_.ty = p.ty(); I_.x = {}
        while True:
            p.exp('['); v = p.val(I_.ty); p.exp(','); b = unq(p.next()[1]); p.exp(']'); I_.x[b] = v
            if not p.acc(','): break
    elif op == 'alloca':
        p.acc('inalloca'); I_.ty = p.ty(); I_.a = None; I_.x = align_of(I_.ty)
        while p.acc(','):
            if p.acc('align'): I_.x = int(p.next()[1])
            elif p.peek()[0] == 'meta': break
            else: I_.a = p.tval()
    elif op == 'load':
        p.acc('atomic'); p.acc('volatile')
        I_.ty = p.ty(); p.exp(','); I_.a = p.tval()
    elif op == 'store':
        p.acc('atomic'); p.acc('volatile')
        I_.a = p.tval(); p.exp(','); I_.b = p.tval()
    elif op == 'getelementptr':
        while p.pv() in ('inbounds','nuw','nusw'): p.next()
        I_.ty = p.ty(); p.exp(','); I_.a = p.tval(); I_.x = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            I_.x.append(p.tval())
    elif op == 'br':
        if p.pv() == 'label': I_.x = (p.lab(),)
        else:
            I_.a = p.tval(); p.exp(','); t = p.lab(); p.exp(','); f = p.lab(); I_.x = (t, f)
    elif op == 'switch':
        I_.a = p.tval(); p.exp(','); I_.b = p.lab(); p.exp('['); I_.x = []
        while not p.acc(']'):
            v = p.tval(); p.exp(','); I_.x.append((v[1], p.lab()))
    elif op == 'ret':
        t = p.ty(); I_.ty = t
        I_.a = None if t is VOID else p.val(t)
    elif op in ('call', 'invoke'):
        while p.pv() in FAST or p.pv() in ('fastcc','coldcc','ccc'): p.next()
        p.skip_attrs()
        rt = p.ty()
        if rt.k == 'fn': rt = rt.el
        I_.ty = rt
        k, v = p.peek()
        if k == 'id' and v == 'asm': I_.op = 'asm'; return I_
        I_.a = p.val(PTR)
        p.exp('('); args = []
        while not p.acc(')'):
            t = p.ty(); st = {}
            if t is META:
                p.i -= 1; args.append(p.tval())
            else:
                p.skip_attrs(st); v = p.val(t)
                args.append(v)
                if 'byval' in st: I_.flags = I_.flags + ((len(args) - 1, st['byval']),)
            p.acc(',')
        I_.b = args
        while p.peek()[0] == 'attr': p.next()
        if p.pv() == '[':   # operand bundles
            while not p.acc(']'): p.next()
        if op == 'invoke':
            p.exp('to'); n = p.lab(); p.exp('unwind'); u = p.lab(); I_.x = (n, u)
    elif op == 'landingpad':
        I_.ty = p.ty(); I_.x = []; I_.a = False
        while p.peek()[0] == 'id':
            c = p.next()[1]
            if c == 'cleanup': I_.a = True
            elif c == 'catch': I_.x.append(('catch', p.tval()))
            elif c == 'filter': I_.x.append(('filter', p.tval()))
            else: raise Exception('landingpad ' + c)
    elif op == 'resume':
        I_.a = p.tval()
    elif op == 'unreachable': pass
    elif op == 'extractvalue':
        I_.a = p.tval(); I_.x = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            I_.x.append(int(p.next()[1]))
    elif op == 'insertvalue':
        I_.a = p.tval(); p.exp(','); I_.b = p.tval(); I_.x = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            I_.x.append(int(p.next()[1]))
    elif op == 'extractelement':
        I_.a = p.tval(); p.exp(','); I_.b = p.tval()
    elif op == 'insertelement':
        I_.a = p.tval(); p.exp(','); I_.b = p.tval(); p.exp(','); I_.c = p.tval()
    elif op == 'shufflevector':
        I_.a = p.tval(); p.exp(','); I_.b = p.tval(); p.exp(','); I_.c = p.tval()
    elif op == 'fence': pass
    elif op == 'atomicrmw':
        p.acc('volatile'); I_.x = p.next()[1]; I_.a = p.tval(); p.exp(','); I_.b = p.tval(); I_.ty = I_.b[2]
    elif op == 'cmpxchg':
        p.acc('weak'); p.acc('volatile'); I_.a = p.tval(); p.exp(','); I_.b = p.tval(); p.exp(','); I_.c = p.tval(); I_.ty = I_.b[2]
    else:
        raise Exception('unknown instruction ' + op)
    return I_

LINKAGE = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr','external','dso_local','dso_preemptable','default','hidden','protected','dllimport','dllexport','thread_local','local_unnamed_addr','unnamed_addr','externally_initialized'}

class Module:
    def __init__(s, text):
        s.types = {}; s.globals = {}; s.funcs = {}; s.aliases = {}
        s.parse(text)
        s.alias = {n[5:]: n for n, f in s.funcs.items() if n.startswith('vp_as') and f.src is not None}   # harness stand-ins for library functions
    def named(s, n):
        if n not in s.types: s.types[n] = Ty('struct', els=[], name='%' + n)
        return s.types[n]
    def parse(s, text):
        lines = text.split('\n'); i = 0
        typedefs = []
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                typedefs.append(l)
        for l in typedefs:
            nm, body = l.split(' = type ', 1); s.named(unq(nm))
        for l in typedefs:
            nm, body = l.split(' = type ', 1)
            if body.strip() == 'opaque': continue
            t = P(s, body).ty(); d = s.types[unq(nm)]
            d.els = t.els; d.packed = t.packed
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('@'): s.gvar(l)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                s.fhead(l, True, lines[i + 1:j]); i = j
            elif l.startswith('declare '): s.fhead(l, False, None)
            i += 1
    def gvar(s, l):
        p = P(s, l); nm = unq(p.next()[1]); p.exp('=')
        ext = False
        while True:
            k, v = p.peek()
            if k == 'id' and v in LINKAGE:
                if v in ('external', 'extern_weak'): ext = True
                p.next()
                if v == 'thread_local' and p.acc('('): p.next(); p.exp(')')
            elif k == 'id' and v == 'comdat': p.next()
            elif k == 'id' and v == 'addrspace': p.next(); p.exp('('); p.next(); p.exp(')')
            else: break
        k, v = p.next()
        if v in ('alias', 'ifunc'):
            p.ty(); p.exp(','); t = p.ty(); s.aliases[nm] = p.const(t); return
        g = GVar(nm); g.const = v == 'constant'; g.ty = p.ty(); g.ext = ext
        if not ext: g.init = p.const(g.ty)
        g.align = align_of(g.ty) if not (g.ty.k == 'struct' and g.ty.name == 'opaque') else 1
        while p.acc(','):
            if p.acc('align'): g.align = int(p.next()[1]); break
            if p.peek()[0] == 'eof': break
            p.next()
            while p.pv() not in (',', '') : p.next()
        s.globals[nm] = g
    def fhead(s, l, isdef, body):
        p = P(s, l.rstrip('{').rstrip()); p.next()
        while True:
            k, v = p.peek()
            if k == 'id' and (v in LINKAGE or v in ('fastcc', 'coldcc', 'ccc')): p.next()
            else: break
        p.skip_attrs()
        rt = p.ty(); nm = unq(p.next()[1]); f = Func(nm); f.ret = rt
        p.exp('(')
        while not p.acc(')'):
            if p.acc('...'): f.vararg = True
            else:
                t = p.ty(); st = {}; p.skip_attrs(st)
                if t is META: f.params.append((t, None)); p.acc(','); continue
                a = None
                if p.peek()[0] == 'loc': a = unq(p.next()[1])
                if 'byval' in st: f.byval[len(f.params)] = st['byval']
                f.params.append((t, a))
            p.acc(',')
        if isdef: f.src = body
        if isdef or nm not in s.funcs: s.funcs[nm] = f
    def body(s, f):
        """lazily parse the body of f"""
        if f.blocks is not None: return f
        blocks = {}; order = []; slots = {}
        fp = FuncParser.__new__(FuncParser); fp.m = s; fp.fn = f; fp.slots = slots
        for idx, (t, a) in enumerate(f.params):
            fp.slot(a if a is not None else str(idx))
        cur = None; curname = None; buf = []
        # unnamed entry label: number after params
        first = True
        def flush(txt):
            fp.t = tokenize(txt); fp.i = 0
            ins = parse_instr_line(fp); ins.text = txt.strip(); cur.append(ins)
        joined = None; depth = 0
        i = 0; src = f.src; n = len(src)
        while i < n:
            l = src[i]; i += 1
            st = l.strip()
            if not st or st.startswith(';'): continue
            m = None
            if l[0] not in ' \t':
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                nm = m.group(1)
                curname = nm[1:-1] if nm.startswith('"') else nm
                cur = []; blocks[curname] = cur; order.append(curname); first = False
                continue
            if first:
                curname = str(len([1 for t, a in f.params])) if all(a is None or a.isdigit() for t, a in f.params) else '0'
                cur = []; blocks[curname] = cur; order.append(curname); first = False
            # multi-line: switch, invoke, landingpad
            if st.startswith('switch ') and st.endswith('['):
                while not st.endswith(']'): st += ' ' + src[i].strip(); i += 1
            elif ' invoke ' in ' ' + st and 'unwind label' not in st:
                st += ' ' + src[i].strip(); i += 1
            elif ' landingpad ' in ' ' + st:
                while i < n and re.match(r'^\s+(cleanup|catch|filter)\b', src[i]): st += ' ' + src[i].strip(); i += 1
            flush(st)
        # entry label naming: phi nodes may refer to the unnamed entry by number; fix via predecessor search
        f.entry = order[0]; f.blocks = blocks; f.nslots = len(slots); f.slotnames = slots
        return f
