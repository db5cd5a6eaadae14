"""Models of harness intrinsics, libc/libstdc++/LLVM intrinsics and the C++ exception ABI."""
import math
from fractions import Fraction
import z3
import symex as S
import reals
from reals import R
from irparse import UNDEF

MODELS = {}
PREFIX = []
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def prefix(*names):
    def d(f):
        for n in names: PREFIX.append((n, f))
        return f
    return d

# ------------------------------------------------------------------ harness intrinsics
def mk_int(bits):
    def f(ex, st, fr, I, a, name):
        nm = ex.cstr(st, a[0]); v = z3.BitVec('%s!%d' % (nm, st.counter), bits); st.counter += 1
        st.inputs.append((nm, 'u%d' % bits, v)); return v
    return f
for b in (8, 16, 32, 64): MODELS['vp_u%d' % b] = mk_int(b)
@model('vp_bool')
def _(ex, st, fr, I, a, name):
    nm = ex.cstr(st, a[0]); v = z3.BitVec('%s!%d' % (nm, st.counter), 8); st.counter += 1
    ex.assume(st, z3.ULE(v, 1)); st.bmodel = None
    st.inputs.append((nm, 'u8', v)); return z3.Extract(0, 0, v) == 1
def real_input(ex, st, a):
    nm = ex.cstr(st, a[0])
    # one symbol per input position: the function tables of reals are shared between paths
    key = ('in', nm, st.rank); st.rank += 1
    v = reals.C.fac.get(key)
    if v is None:
        v = reals.C.fac[key] = reals.C.new(nm)
    lo, hi = a[1], a[2]
    fl = lambda x: z3.RealVal(Fraction(x))
    st.pcr.append(v.z >= fl(lo)); st.pcr.append(v.z <= fl(hi))
    st.inputs.append((nm, 'real', v.z)); 
    if lo > 0: st.signs[reals.pkey({1 << (reals.B * v.i): 1})] = 1
    return reals.var(v)
@model('vp_real')
def _(ex, st, fr, I, a, name): return real_input(ex, st, a)
def boolish(ex, st, c):
    if c is UNDEF: raise S.Violation('uninitialised', 'condition on an uninitialised value')
    if isinstance(c, (z3.BitVecRef,)): c = c != 0
    if isinstance(c, z3.BoolRef): c = S.simp(c); return True if z3.is_true(c) else False if z3.is_false(c) else c
    return bool(c)
@model('vp_assume')
def _(ex, st, fr, I, a, name):
    c = boolish(ex, st, a[0])
    if c is True: return None
    if c is False: raise S.PathEnd()
    e = ex.ev(st, c)
    if e is not True:
        ex._m = None
        if not ex.feasible(st, c): raise S.PathEnd()
        if not S.has_real(c): st.bmodel = ex._m
    ex.assume(st, c); return None
@model('vp_check', 'vp_guard')
def _(ex, st, fr, I, a, name):
    c = boolish(ex, st, a[0]); lab = ex.cstr(st, a[1])
    return do_check(ex, st, c, lab)
def do_check(ex, st, c, lab):
    s = ex.st; s.checks += 1; s.labels[lab] = s.labels.get(lab, 0) + 1
    if c is True: s.trivial += 1; s.discharged += 1; return None
    if c is False:
        ex.report(st, 'check', lab, None); raise S.PathEnd()
    nc = S.simp(z3.Not(c))
    if ex.ev(st, nc) is True:
        ex.report(st, 'check', lab, nc)
    else:
        r, m = ex.solver.check(st, nc)
        if r == 'unsat':
            s.discharged += 1
            if st.kv is not None: st.kv[c.get_id()] = (c, True)
            return None
        if r == 'unknown':
            ex.incon(st, 'undecided check: ' + lab); return None
        ex.report(st, 'check', lab, nc, m if S.has_real(nc) else None)
    # continue under the assumption that it holds
    if not ex.feasible(st, c): raise S.PathEnd()
    ex.assume(st, c); st.bmodel = None
    return None
@model('vp_near')
def _(ex, st, fr, I, a, name):
    x, y, tol = a[0], a[1], a[2]; lab = ex.cstr(st, a[3])
    if x is UNDEF or y is UNDEF: raise S.Violation('uninitialised', 'comparison of uninitialised value')
    if not isinstance(x, R) and not isinstance(y, R):
        return do_check(ex, st, bool(abs(x - y) <= tol), lab)
    if any(isinstance(v, float) and not math.isfinite(v) for v in (x, y)): return do_check(ex, st, False, lab)
    d = reals.sub(x, y); c = d.const()
    if c is not None:
        ok = bool(abs(c) <= Fraction(tol))
        if ok and isinstance(x, R) and isinstance(y, R) and len(x.num) + len(y.num) <= 300: return ex.crosscheck(st, x, y, c, lab)
        return do_check(ex, st, ok, lab)
    s = ex.st; s.checks += 1; s.labels[lab] = s.labels.get(lab, 0) + 1
    t = Fraction(tol); und = False; todo = []
    # both signs by linear bounds and sample points before any of them goes to the non-linear solvers
    for sgn in (1, -1):
        bad = ex.signed_num(st, reals.sub(d, t) if sgn > 0 else reals.sub(reals.neg(d), t)) > 0
        r, m = ex.solver.check(st, bad, cheap=True)
        if r == 'sat': todo = [(sgn, bad, True)]; break
        if r == 'unknown': todo.append((sgn, bad, False))
    for sgn, bad, _ in todo:
        r, m = ex.solver.check(st, bad)
        if r == 'unsat': continue
        if r == 'unknown': ex.incon(st, 'undecided check: ' + lab); und = True; continue
        point = ex.solver.point      # a true point: do not trade it for a model of the (incomplete) function axioms
        # ask for a clear violation first, so that it reproduces in floating point
        for k in (Fraction(1, 10), Fraction(1, 1000), t * 1000, t * 10):
            if k <= t: continue
            e2 = ex.signed_num(st, reals.sub(d, k) if sgn > 0 else reals.sub(reals.neg(d), k))
            r2, m2 = ex.solver.check(st, e2 > 0, only_point=point)
            if r2 == 'sat': bad, m = e2 > 0, m2; break
        ex.report(st, 'check', lab, bad, m); und = True
        return None
    if not und: s.discharged += 1
    return None
@model('vp_reach')
def _(ex, st, fr, I, a, name): st.reached.append(ex.cstr(st, a[0])); return None
@model('vp_pick')
def _(ex, st, fr, I, a, name):
    n, nm = a[0], ex.cstr(st, a[1])
    n = ex.concretize(st, n)
    k = (nm,)
    if nm in st.forced:
        x = st.forced[nm]
        if x >= n: raise S.PathEnd()
    elif n == 1: x = 0
    else:
        v = z3.BitVec('pick_%s!%d' % (nm, st.counter), 32)
        r = st.kv.get(v.get_id())
        if r is not None: x = r[1]
        else: raise S.ForkOn([(v == i, (v, i), None) for i in range(n)])
    st.counter += 1
    st.inputs.append((nm, 'pick', x)); st.picks.append('%s=%d' % (nm, x)); return x
@model('vp_sel')
def _(ex, st, fr, I, a, name):
    c = boolish(ex, st, a[0]); x, y = a[1], a[2]
    if not isinstance(c, z3.BoolRef): return x if c else y
    if x is UNDEF or y is UNDEF: raise S.Violation('uninitialised', 'selection of an uninitialised value')
    if isinstance(x, int) and isinstance(y, int) and x == y: return x
    # keep narrow values narrow: If over the unextended terms
    def narrow(v):
        if isinstance(v, z3.BitVecRef):
            if v.decl().kind() == z3.Z3_OP_ZERO_EXT: return v.arg(0)
            if v.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0 and v.num_args() == 2: return v.arg(1)
        return v
    nx, ny = narrow(x), narrow(y)
    w = max([v.size() for v in (nx, ny) if isinstance(v, z3.BitVecRef)] or [64])
    if all(v.size() == w if isinstance(v, z3.BitVecRef) else v < (1 << w) for v in (nx, ny)):
        r = z3.If(c, S.tobv(nx, w), S.tobv(ny, w))
        return S.cbv(z3.ZeroExt(64 - w, r) if w < 64 else r)
    return S.cbv(z3.If(c, S.tobv(x, 64), S.tobv(y, 64)))
@model('vp_and', 'vp_or')
def _(ex, st, fr, I, a, name):
    return ex.binop(st, name[3:], (), 1, boolish(ex, st, a[0]), boolish(ex, st, a[1]))
@model('vp_conc')
def _(ex, st, fr, I, a, name): return ex.concretize(st, a[0])
@model('vp_alloc')
def _(ex, st, fr, I, a, name):
    n = ex.concretize(st, a[0]); al = ex.concretize(st, a[1])
    o = ex.mkobj(st, n, 'alloc', 'harness storage', max(al, 1)); return S.Ptr(o.id, 0)
@model('vp_phantom')
def _(ex, st, fr, I, a, name):
    o = ex.mkobj(st, 1 << 46, 'phantom', 'unbounded storage', 16); return S.Ptr(o.id, 0)
@model('vp_retire')
def _(ex, st, fr, I, a, name):
    ex.wobj(st, a[0].o).alive = False; return None
@model('vp_heap_count')
def _(ex, st, fr, I, a, name): return st.heap
@model('vp_opaque', 'vp_use')
def _(ex, st, fr, I, a, name): return None

# ------------------------------------------------------------------ memory
@prefix('llvm.memcpy', 'llvm.memmove')
def _(ex, st, fr, I, a, name): ex.memcpy(st, a[0], a[1], a[2]); return None
@model('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def _(ex, st, fr, I, a, name): ex.memcpy(st, a[0], a[1], a[2]); return a[0]
@prefix('llvm.memset')
def _(ex, st, fr, I, a, name): ex.memset(st, a[0], a[1], a[2]); return None
@model('memset')
def _(ex, st, fr, I, a, name):
    v = a[1]; v = z3.Extract(7, 0, v) if isinstance(v, z3.BitVecRef) else v & 255
    ex.memset(st, a[0], v, a[2]); return a[0]
@model('memcmp', 'bcmp')
def _(ex, st, fr, I, a, name):
    n = ex.concretize(st, a[2])
    if n == 0: return 0
    r = z3.BitVecVal(0, 32); conc = None
    for i in reversed(range(n)):
        x = ex.load(st, S.Ptr(a[0].o, ex.addoff(st, a[0].f, 1, i, 64)), S.ir.I(8)); y = ex.load(st, S.Ptr(a[1].o, ex.addoff(st, a[1].f, 1, i, 64)), S.ir.I(8))
        x = S.tobv(x, 8); y = S.tobv(y, 8)
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    return S.cbv(r)
@model('strlen')
def _(ex, st, fr, I, a, name):
    n = 0
    while True:
        v = ex.load(st, S.Ptr(a[0].o, ex.addoff(st, a[0].f, 1, n, 64)), S.ir.I(8))
        if isinstance(v, z3.BitVecRef): v = 1 if not ex.branch(st, v == 0) else 0
        if v == 0: return n
        n += 1
@model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t')
def _(ex, st, fr, I, a, name):
    n = ex.concretize(st, a[0])
    o = ex.mkobj(st, n, 'heap', 'heap object', 16); st.heap += 1; return S.Ptr(o.id, 0)
@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(ex, st, fr, I, a, name):
    n = ex.concretize(st, a[0]); al = ex.concretize(st, a[1])
    o = ex.mkobj(st, n, 'heap', 'heap object', max(16, al)); st.heap += 1; return S.Ptr(o.id, 0)
@model('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(ex, st, fr, I, a, name):
    p = a[0]
    if p.o == 0: return None
    o = st.mem.get(p.o)
    if o is None or not o.alive or o.kind != 'heap' or p.f != 0: raise S.Violation('memory', 'invalid free')
    ex.wobj(st, p.o).alive = False; return None

# ------------------------------------------------------------------ termination
@model('__assert_fail')
def _(ex, st, fr, I, a, name): raise S.Violation('assert', 'library assertion failed: ' + ex.cstr(st, a[0]))
@model('abort', '_ZSt9terminatev', 'llvm.trap', '_ZSt21__glibcxx_assert_failPKciS0_S0_', 'exit', '__cxa_pure_virtual')
def _(ex, st, fr, I, a, name): raise S.Violation('terminate', 'program terminated (%s)' % name)
@model('__cxa_call_unexpected')
def _(ex, st, fr, I, a, name): raise S.Violation('terminate', 'unexpected exception')

# ------------------------------------------------------------------ exceptions
@model('__cxa_allocate_exception')
def _(ex, st, fr, I, a, name):
    o = ex.mkobj(st, max(1, ex.concretize(st, a[0])), 'exc', 'exception object', 16); return S.Ptr(o.id, 0)
@model('__cxa_free_exception')
def _(ex, st, fr, I, a, name): st.mem.pop(a[0].o, None); return None
@model('__cxa_throw')
def _(ex, st, fr, I, a, name): ex.throw(st, a[0], a[1], a[2]); return S.NORET
@model('__cxa_begin_catch')
def _(ex, st, fr, I, a, name):
    st.caught.append(st.exc if st.exc is not None and st.exc[0].o == a[0].o else next((c for c in reversed(st.caught) if c[0].o == a[0].o), (a[0], S.NULL, S.NULL)))
    st.exc = None
    return a[0]
@model('__cxa_get_exception_ptr')
def _(ex, st, fr, I, a, name): return a[0]
@model('__cxa_end_catch')
def _(ex, st, fr, I, a, name):
    p, ti, dt = st.caught.pop()
    if st.exc is not None and st.exc[0].o == p.o: return None      # rethrown
    if any(c[0].o == p.o for c in st.caught): return None
    if isinstance(dt, S.Ptr) and dt.o:
        n = ex.fnname.get(dt.o); f = ex.m.funcs.get(n)
        if f is not None and f.src is not None:
            def fin(st2, v, I=I, pid=p.o):
                st2.mem.pop(pid, None)
                cf = st2.frames[-1]
                if I.op == 'invoke': ex.goto(st2, cf, I.x[0])
            ex.push(st, f, [p], fin); return S.NORET
    st.mem.pop(p.o, None)
    return None
@model('__cxa_rethrow')
def _(ex, st, fr, I, a, name):
    if not st.caught: raise S.Violation('terminate', 'rethrow without exception')
    st.exc = st.caught[-1]; ex.unwind(st); return S.NORET
@prefix('llvm.eh.typeid.for')
def _(ex, st, fr, I, a, name): return ex.typeid(ex.tiname(st, a[0]))
@model('_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeC2EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorC2EPKc', '_ZNSt13runtime_errorC1EPKc',
       '_ZNSt12out_of_rangeD1Ev', '_ZNSt12out_of_rangeD2Ev', '_ZNSt17bad_function_callD1Ev', '_ZNSt17bad_function_callD2Ev', '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev',
       '_ZNSt11logic_errorD1Ev', '_ZNSt11logic_errorD2Ev', '_ZNSt13runtime_errorD1Ev')
def _(ex, st, fr, I, a, name): return None
def throw_std(ti):
    def f(ex, st, fr, I, a, name):
        o = ex.mkobj(st, 16, 'exc', 'exception object', 16)
        if ti not in ex.globobj: raise S.Violation('exception', 'uncaught ' + ti)
        ex.throw(st, S.Ptr(o.id, 0), S.Ptr(ex.globobj[ti], 0), S.NULL); return S.NORET
    return f
MODELS['_ZSt20__throw_length_errorPKc'] = throw_std('_ZTISt12length_error')
MODELS['_ZSt25__throw_bad_function_callv'] = throw_std('_ZTISt17bad_function_call')
MODELS['_ZSt20__throw_out_of_rangePKc'] = throw_std('_ZTISt12out_of_range')
MODELS['_ZSt24__throw_out_of_range_fmtPKcz'] = throw_std('_ZTISt12out_of_range')
MODELS['_ZSt17__throw_bad_allocv'] = throw_std('_ZTISt9bad_alloc')
MODELS['_ZSt28__throw_bad_array_new_lengthv'] = throw_std('_ZTISt20bad_array_new_length')
@model('__cxa_guard_acquire')
def _(ex, st, fr, I, a, name):
    v = ex.load(st, a[0], S.ir.I(8)); return 0 if v == 1 else 1
@model('__cxa_guard_release')
def _(ex, st, fr, I, a, name): ex.store(st, a[0], S.ir.I(8), 1); return None
@model('__cxa_atexit', '__cxa_guard_abort')
def _(ex, st, fr, I, a, name): return 0

# ------------------------------------------------------------------ LLVM intrinsics
@prefix('llvm.lifetime', 'llvm.dbg', 'llvm.donothing', 'llvm.invariant', 'llvm.experimental.noalias', 'llvm.prefetch')
def _(ex, st, fr, I, a, name): return None
@model('llvm.assume')
def _(ex, st, fr, I, a, name): return None
@prefix('llvm.expect')
def _(ex, st, fr, I, a, name): return a[0]
@prefix('llvm.is.constant')
def _(ex, st, fr, I, a, name): return False
@prefix('llvm.objectsize')
def _(ex, st, fr, I, a, name): return S.M64
@prefix('llvm.stacksave', 'llvm.stackrestore')
def _(ex, st, fr, I, a, name): return S.NULL
def minmax(op):
    def f(ex, st, fr, I, a, name):
        n = I.ty.n; c = ex.icmp(st, op, I.ty, a[0], a[1])
        if isinstance(c, z3.BoolRef): return S.cbv(z3.If(c, S.tobv(a[0], n), S.tobv(a[1], n)))
        return a[0] if c else a[1]
    return f
PREFIX += [('llvm.umax', minmax('ugt')), ('llvm.umin', minmax('ult')), ('llvm.smax', minmax('sgt')), ('llvm.smin', minmax('slt'))]
def ovf(op, sg):
    def f(ex, st, fr, I, a, name):
        n = I.b[0][2].n; A = S.tobv(a[0], n); B = S.tobv(a[1], n)
        k = {'add': 1, 'sub': 1, 'mul': n}[op]
        X = z3.SignExt(k, A) if sg else z3.ZeroExt(k, A); Y = z3.SignExt(k, B) if sg else z3.ZeroExt(k, B)
        W = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
        r = z3.Extract(n - 1, 0, W); o = W != (z3.SignExt(k, r) if sg else z3.ZeroExt(k, r))
        return (S.cbv(r), S.cbool(o))
    return f
for op in ('add', 'sub', 'mul'):
    PREFIX.append(('llvm.u%s.with.overflow' % op, ovf(op, False))); PREFIX.append(('llvm.s%s.with.overflow' % op, ovf(op, True)))
@prefix('llvm.abs')
def _(ex, st, fr, I, a, name):
    n = I.ty.n; v = a[0]
    if isinstance(v, z3.BitVecRef): return z3.If(v < 0, -v, v)
    return abs(S.signed(v, n)) & ((1 << n) - 1)
def bitcount(kind):
    def f(ex, st, fr, I, a, name):
        n = I.ty.n; v = a[0]
        if not isinstance(v, z3.BitVecRef):
            if kind == 'ctlz': return n - v.bit_length()
            if kind == 'cttz': return n if v == 0 else (v & -v).bit_length() - 1
            return bin(v).count('1')
        r = z3.BitVecVal(n if kind != 'ctpop' else 0, n)
        if kind == 'ctpop':
            for i in range(n): r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, v))
            return r
        rng = range(n) if kind == 'ctlz' else reversed(range(n))
        for i in rng: r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(n - 1 - i if kind == 'ctlz' else i, n), r)
        return S.cbv(r)
    return f
for k in ('ctlz', 'cttz', 'ctpop'): PREFIX.append(('llvm.%s.' % k, bitcount(k)))
def fsh(left):
    def f(ex, st, fr, I, a, name):
        n = I.ty.n; x, y, c = (S.tobv(v, n) for v in a)
        c = z3.URem(c, z3.BitVecVal(n, n)); w = z3.Concat(x, y); c2 = z3.ZeroExt(n, c)
        return S.cbv(z3.Extract(2 * n - 1, n, w << c2) if left else z3.Extract(n - 1, 0, z3.LShR(w, c2)))
    return f
PREFIX += [('llvm.fshl', fsh(True)), ('llvm.fshr', fsh(False))]
@prefix('llvm.bswap')
def _(ex, st, fr, I, a, name):
    n = I.ty.n; v = S.tobv(a[0], n); return S.cbv(z3.Concat([z3.Extract(8 * i + 7, 8 * i, v) for i in range(n // 8)]))

# ------------------------------------------------------------------ mathematics
def fin(ex, r, I):
    if isinstance(r, R):
        c = r.const()
        if c is not None and Fraction(float(c)) == c: return float(c)
        return r
    return S.f32(r) if I.ty.n == 32 else r
def m1(conc, sym):
    def f(ex, st, fr, I, a, name):
        x = a[0]
        if x is UNDEF: raise S.Violation('uninitialised', 'uninitialised argument of ' + name)
        if not isinstance(x, R):
            try: return fin(ex, conc(x), I)
            except ValueError: return float('nan')
            except OverflowError: return float('inf')
        if sym is None: raise reals.Unsupported(name + ' of a symbolic real')
        return fin(ex, sym(ex, st, x), I)
    return f
def sym_abs(ex, st, x):
    c = ex.fcmp(st, 'olt', x, 0.0)
    return reals.neg(x) if ex.branch(st, c) else x
def sym_sqrt(ex, st, x):
    # the argument must not be negative
    c = ex.fcmp(st, 'olt', x, 0.0)
    if c is True or (isinstance(c, z3.BoolRef) and ex.feasible(st, c)):
        if c is True: raise S.Violation('fp', 'square root of a negative number')
        r, m = ex.solver.check(st, c)
        if r == 'sat':
            ex.report(st, 'fp', 'square root of a negative number', c, m)
            raise S.PathEnd()
    q = reals.perfect_square(reals.of(x))
    if q is not None:
        for op, g in (('olt', 1), ('ogt', -1)):
            c = ex.fcmp(st, op, q, 0.0)
            if c is False or (isinstance(c, z3.BoolRef) and ex.solver.check(st, c)[0] == 'unsat'): return q if g > 0 else reals.neg(q)
    return reals.f_root(x, 2)
def sym_log(fn):
    def f(ex, st, x):
        c = ex.fcmp(st, 'ole', x, 0.0)
        if c is True: raise S.Violation('fp', 'logarithm of a non-positive number')
        if isinstance(c, z3.BoolRef):
            r, m = ex.solver.check(st, c)
            if r == 'sat': ex.report(st, 'fp', 'logarithm of a non-positive number', c, m); raise S.PathEnd()
        return fn(x)
    return f
def sym_tan(ex, st, x):
    n = len(reals.C.vars); r = reals.f_tan(x); return r
MATH = {
 'sqrt': (math.sqrt, sym_sqrt), 'fabs': (abs, sym_abs), 'tan': (math.tan, sym_tan), 'atan': (math.atan, lambda e, s, x: reals.f_atan(x)),
 'sinh': (math.sinh, lambda e, s, x: reals.f_sinh(x)), 'cosh': (math.cosh, lambda e, s, x: reals.f_cosh(x)), 'asinh': (math.asinh, lambda e, s, x: reals.f_asinh(x)),
 'exp': (math.exp, lambda e, s, x: reals.f_exp(x)), 'log': (math.log, sym_log(reals.f_log)), 'log10': (math.log10, sym_log(reals.f_log10)),
 'cos': (math.cos, lambda e, s, x: reals.f_cossin(x)[0]), 'sin': (math.sin, lambda e, s, x: reals.f_cossin(x)[1]),
 'tanh': (math.tanh, None), 'acosh': (math.acosh, None), 'atanh': (math.atanh, None), 'acos': (math.acos, None), 'asin': (math.asin, None),
 'floor': (math.floor, None), 'ceil': (math.ceil, None), 'trunc': (math.trunc, None), 'log2': (math.log2, None), 'log1p': (math.log1p, None), 'expm1': (math.expm1, None), 'cbrt': (math.cbrt, None),
}
for k, (c, sy) in MATH.items():
    MODELS[k] = m1(c, sy); MODELS[k + 'f'] = m1(c, sy)
    PREFIX.append(('llvm.%s.f' % k, m1(c, sy)))
def do_pow(ex, st, fr, I, a, name):
    x, y = a[0], a[1]
    if x is UNDEF or y is UNDEF: raise S.Violation('uninitialised', 'uninitialised argument of pow')
    if not isinstance(x, R) and not isinstance(y, R):
        try:
            r = math.pow(x, y)
        except ValueError: r = float('nan') if x != 0 else float('inf')
        except OverflowError: r = float('inf')
        return fin(ex, r, I)
    if isinstance(x, R):
        yc = y if not isinstance(y, R) else None
        if yc is None or abs(yc - round(yc)) > 1e-12:
            # the base must be positive
            c = ex.fcmp(st, 'olt', x, 0.0)
            if c is True: raise S.Violation('fp', 'non-integer power of a negative number')
            if isinstance(c, z3.BoolRef):
                r, m = ex.solver.check(st, c)
                if r == 'sat': ex.report(st, 'fp', 'non-integer power of a negative number', c, m); raise S.PathEnd()
        elif yc < 0: ex.nonzero(st, x)
    return fin(ex, reals.f_pow(x, y), I)
MODELS['pow'] = MODELS['powf'] = do_pow; PREFIX.append(('llvm.pow.f', do_pow))
def do_powi(ex, st, fr, I, a, name):
    n = S.signed(a[1], 32); x = a[0]
    if not isinstance(x, R): return fin(ex, math.pow(x, n), I)
    if n < 0: ex.nonzero(st, x)
    return fin(ex, reals.powi(x, n), I)
PREFIX.append(('llvm.powi.', do_powi))
@prefix('llvm.copysign')
def _(ex, st, fr, I, a, name):
    if isinstance(a[0], R) or isinstance(a[1], R): raise reals.Unsupported('copysign')
    return math.copysign(a[0], a[1])
@prefix('llvm.fmuladd', 'llvm.fma')
def _(ex, st, fr, I, a, name):
    return ex.fop(st, 'fadd', I.ty, ex.fop(st, 'fmul', I.ty, a[0], a[1]), a[2])
def fminmax(op):
    def f(ex, st, fr, I, a, name):
        return a[0] if ex.branch(st, ex.fcmp(st, op, a[0], a[1])) else a[1]
    return f
for n in ('fmin', 'fminf'): MODELS[n] = fminmax('olt')
for n in ('fmax', 'fmaxf'): MODELS[n] = fminmax('ogt')
PREFIX += [('llvm.minnum', fminmax('olt')), ('llvm.maxnum', fminmax('ogt'))]
