"""Symbolic executor for LLVM IR (C++), integers as bit-vectors, pointers as (object, offset)."""
import struct, math, random, time, sys
from fractions import Fraction
import z3, mpmath
import irparse as ir
from irparse import size_of, store_size, offs_of, UNDEF, ZERO, Glob, CExpr, PTR
import reals
from reals import R

BV = z3.BitVecRef; BO = z3.BoolRef
M64 = (1 << 64) - 1

class EngineError(Exception): pass
class PathEnd(Exception): pass
class Violation(Exception):
    def __init__(s, kind, label): s.kind = kind; s.label = label
class ForkOn(Exception):
    """re-execute the current instruction under each of the given (constraint, setup) alternatives"""
    def __init__(s, alts): s.alts = alts

class Ptr:
    __slots__ = ('o', 'f')
    def __init__(s, o, f): s.o = o; s.f = f
    def __repr__(s): return 'Ptr(%d,%s)' % (s.o, s.f)
NULL = Ptr(0, 0)
class SOff:
    """symbolic offset c + g*k (k 64-bit bit-vector)"""
    __slots__ = ('c', 'g', 'k')
    def __init__(s, c, g, k): s.c = c; s.g = g; s.k = k
    def expr(s): return z3.BitVecVal(s.c & M64, 64) + (s.k if s.g == 1 else z3.BitVecVal(s.g, 64) * s.k)
    def __repr__(s): return 'SOff(%d+%d*%s)' % (s.c, s.g, str(s.k)[:40])
class Frag:
    """byte i of an n-byte opaque value (pointer, float, symbolic real)"""
    __slots__ = ('v', 'i', 'n')
    def __init__(s, v, i, n): s.v = v; s.i = i; s.n = n
class Obj:
    __slots__ = ('id', 'base', 'size', 'kind', 'name', 'alive', 'cells', 'fill', 'ro', 'freed')
    def copy(s):
        o = Obj.__new__(Obj)
        o.id = s.id; o.base = s.base; o.size = s.size; o.kind = s.kind; o.name = s.name; o.alive = s.alive
        o.cells = dict(s.cells); o.fill = s.fill; o.ro = s.ro
        return o

def isb(v): return isinstance(v, (BV,))
def tobv(v, n): return v if isinstance(v, BV) else z3.BitVecVal(v, n)
def tobool(v): return v if isinstance(v, BO) else z3.BoolVal(bool(v))
def signed(v, n): return v - (1 << n) if v >> (n - 1) else v
def f32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(float('inf'), x)
def simp(e):
    return z3.simplify(e)
def cbv(e):
    """simplify a bit-vector; python int if constant"""
    if isinstance(e, BV):
        s = z3.simplify(e)
        if z3.is_bv_value(s): return s.as_long()
        return s
    return e
def cbool(e):
    if isinstance(e, BO):
        s = z3.simplify(e)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        return s
    return bool(e)

_realcache = {}
def has_real(e):
    k = e.get_id(); r = _realcache.get(k)
    if r is not None: return r[1]
    seen = set(); st = [e]; res = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_arith(x): res = True; break
        st.extend(x.children())
    _realcache[k] = (e, res)
    return res

def debv(e):
    """boolean conditions over real atoms that were widened to integers and compared, back to plain conditions"""
    if z3.is_true(e) or z3.is_false(e): return e
    k = e.decl().kind()
    if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES): return e.decl()(*[debv(x) for x in e.children()])
    if e.num_args() == 0: return e
    if k == z3.Z3_OP_ITE:
        c = debv(e.arg(0)); return z3.Or(z3.And(c, debv(e.arg(1))), z3.And(z3.Not(c), debv(e.arg(2))))
    if any(z3.is_bool(x) for x in e.children()): return e
    if any(z3.is_bv(x) for x in e.children()) and has_real(e):
        st = list(e.children()); n = 0
        while st and n < 64:
            x = st.pop(); n += 1
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c = debv(x.arg(0))
                a, b = (z3.simplify(z3.substitute(e, (x, x.arg(i)))) for i in (1, 2))
                return z3.Or(z3.And(c, debv(a)), z3.And(z3.Not(c), debv(b)))
            st.extend(x.children())
    return e
class Stats:
    def __init__(s):
        s.queries = 0; s.sat = 0; s.unsat = 0; s.unknown = 0; s.time = 0.0; s.checks = 0; s.discharged = 0; s.trivial = 0
        s.paths = 0; s.instrs = 0; s.forks = 0; s.funcs = set(); s.labels = {}; s.reach = {}; s.incon = []; s.samples = []; s.maxq = 0.0

class Solver:
    """decides path-condition queries.  bit-vector part: incremental z3; real part: nlsat."""
    def __init__(s, stats, timeout_ms=20000):
        s.st = stats; s.timeout = timeout_ms
        s.inc = z3.Solver(); s.inc.set('timeout', min(timeout_ms, 4000)); s.stack = []
        s.rcache = {}; s.points = []; s.point = False; s.rpoints = set(); s.nlin = 0; s.lia = None
    def use_lia(s):
        import lia
        s.lia = lia.Lia(); s.linc = z3.Solver(); s.linc.set('timeout', s.timeout); s.lstack = []
    def check_lia(s, pcb, extra):
        import lia
        try:
            cs = [s.lia.bool(c) for c in pcb]; ex = s.lia.bool(extra)
        except lia.NotLinear: return None
        sv = s.linc
        i = 0; n = min(len(cs), len(s.lstack))
        while i < n and s.lstack[i][0] is cs[i]: i += 1
        if len(s.lstack) > i: sv.pop(len(s.lstack) - i); del s.lstack[i:]
        have = s.lstack[-1][1] if s.lstack else frozenset()
        def add(c):
            nonlocal have
            new = s.lia.sides(c) - have
            for nm in new: sv.add(s.lia.side[nm])
            sv.add(c)
            if new: have = have | new
        for c in cs[i:]: sv.push(); add(c); s.lstack.append((c, have))
        sv.push(); add(ex)
        r = sv.check(); m = sv.model() if r == z3.sat else None
        sv.pop()
        if r == z3.unknown: return None
        if r == z3.unsat: return r, None
        # lift to a bit-vector model
        b = z3.Solver(); b.set('timeout', s.timeout)
        for nm in have:
            if nm[-2:] != '#i': continue
            iv, e = s.lia.vars[nm[:-2]]
            x = m.eval(iv)
            if z3.is_int_value(x): b.add(e == x.as_long())
        for c in pcb: b.add(c)
        b.add(extra)
        if b.check() != z3.sat: raise EngineError('integer translation disagrees with bit-vectors')
        return r, b.model()
    def sync(s, pc):
        i = 0; n = min(len(pc), len(s.stack))
        while i < n and s.stack[i] is pc[i]: i += 1
        if len(s.stack) > i: s.inc.pop(len(s.stack) - i); del s.stack[i:]
        for c in pc[i:]:
            s.inc.push(); s.inc.add(c); s.stack.append(c)
    def check(s, state, extra, quick=False, only_point=False, cheap=False):
        """-> 'sat'/'unsat'/'unknown', model"""
        t = time.time(); s.st.queries += 1
        if has_real(extra): r, m = s.check_real(state, extra, quick, only_point, cheap)
        elif s.lia is not None and (q := s.check_lia(state.pcb, extra)) is not None: r, m = q
        else:
            if s.lia is not None: s.st.nonlin = getattr(s.st, 'nonlin', 0) + 1
            s.sync(state.pcb)
            s.inc.push(); s.inc.add(extra)
            r = s.inc.check(); m = s.inc.model() if r == z3.sat else None
            s.inc.pop()
            if r == z3.unknown:
                for sv in (z3.SolverFor('QF_BV'), z3.Solver()):
                    sv.set('timeout', s.timeout)
                    for c in state.pcb: sv.add(c)
                    sv.add(extra)
                    r = sv.check()
                    if r == z3.sat: m = sv.model()
                    if r != z3.unknown: break
        dt = time.time() - t; s.st.time += dt; s.st.maxq = max(s.st.maxq, dt)
        if r == z3.sat: s.st.sat += 1; return 'sat', m
        if r == z3.unsat: s.st.unsat += 1; return 'unsat', None
        s.st.unknown += 1; return 'unknown', None
    def real_constraints(s, state, extra):
        """relevant part of the real path condition: connected component of extra's variables"""
        vs = set(reals.vars_of(extra)); cs = [(c, reals.vars_of(c)) for c in state.pcr]
        allax = []
        def closure(v):
            seen = set(); todo = list(v)
            while todo:
                i = todo.pop()
                if i in seen: continue
                seen.add(i); todo += list(reals.C.vars[i].deps)
                for a in reals.C.vars[i].axioms: todo += [j for j in reals.vars_of(a) if j not in seen]
            return seen
        vs = closure(vs); used = []; rest = cs; ch = True
        while ch:
            ch = False; nr = []
            for c, v in rest:
                if v & vs or not v or closure(v) & vs:
                    used.append(c); 
                    if not v <= vs: vs |= closure(v); ch = True
                else: nr.append((c, v))
            rest = nr
        ax = []
        for i in sorted(vs): ax += reals.C.vars[i].axioms
        return used, ax
    def linearised(s, cons, extra):
        """sound over-approximation: every non-linear monomial becomes a fresh variable ranging over its interval"""
        lo, hi = {}, {}
        for c in cons: bound_atom(c, lo, hi)
        sv = z3.SolverFor('QF_LRA'); sv.set('timeout', min(s.timeout, 5000)); mv = {}
        def lin(e):
            k = e.decl().kind()
            if z3.is_true(e) or z3.is_false(e): return e
            if k == z3.Z3_OP_NOT: return z3.Not(lin(e.arg(0)))
            if k == z3.Z3_OP_AND: return z3.And([lin(x) for x in e.children()])
            if k == z3.Z3_OP_OR: return z3.Or([lin(x) for x in e.children()])
            if k == z3.Z3_OP_IMPLIES: return z3.Implies(lin(e.arg(0)), lin(e.arg(1)))
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                if e.num_args() != 2 or not z3.is_arith(e.arg(0)): raise NotPoly()
                p = padd_f(poly_of(e.arg(0)), poly_of(e.arg(1)), -1); ts = []
                if p: # scale to moderate size
                    big = max(abs(c) for c in p.values())
                    for m, c in p.items():
                        c = c / big
                        if not m: ts.append(z3.RealVal(c)); continue
                        if m not in mv: mv[m] = z3.Real('m!%d' % len(mv))
                        ts.append(z3.RealVal(c) * mv[m])
                t = z3.Sum(ts) if ts else z3.RealVal(0)
                return {z3.Z3_OP_LE: lambda: t <= 0, z3.Z3_OP_LT: lambda: t < 0, z3.Z3_OP_GE: lambda: t >= 0, z3.Z3_OP_GT: lambda: t > 0, z3.Z3_OP_EQ: lambda: t == 0, z3.Z3_OP_DISTINCT: lambda: t != 0}[k]()
            raise NotPoly()
        sv.add(lin(extra))
        for c in cons:
            try: sv.add(lin(c))
            except NotPoly: pass
        for m, v in mv.items():
            l, h = Fraction(1), Fraction(1); 
            for nm, e in m:
                a, b = lo.get(nm), hi.get(nm)
                if a is None or b is None:
                    if e % 2 == 0 and a is None: a2, b2 = Fraction(0), None
                    elif a is not None and (a >= 0 or e % 2): a2, b2 = a ** e, None
                    else: l = h = None; break
                else:
                    c = [a ** e, b ** e]; a2, b2 = min(c), max(c)
                    if e % 2 == 0 and a < 0 < b: a2 = Fraction(0)
                # [l,h] * [a2,b2]; None = infinite upper bound (only for non-negative intervals)
                if h is None or b2 is None:
                    if l >= 0 and a2 >= 0: l, h = l * a2, None
                    else: l = h = None; break
                else:
                    q = [l * a2, l * b2, h * a2, h * b2]; l, h = min(q), max(q)
            if l is not None: sv.add(v >= z3.RealVal(l))
            if l is not None and h is not None: sv.add(v <= z3.RealVal(h))
        s.nlin += 1
        if len(mv) > 200:   # often the bounds of the monomials suffice
            sv1 = z3.SolverFor('QF_LRA'); sv1.set('timeout', min(s.timeout, 5000)); sv1.add(lin(extra)); sv1.add([a for a in sv.assertions() if a.num_args() == 2 and a.arg(0).num_args() == 0])
            if sv1.check() == z3.unsat: return 'unsat'
        # v^e <= 1 + v^k for 0 <= e <= k (times a common non-negative factor)
        if len(mv) <= 3000:
            top = {}
            for m in mv:
                for nm, e in m:
                    if lo.get(nm, -1) >= 0:
                        k = (nm, tuple(x for x in m if x[0] != nm)); top[k] = max(top.get(k, 0), e)
            for m, v in mv.items():
                if any(lo.get(nm, -1) < 0 for nm, e in m): continue
                for nm, e in m:
                    rest = tuple(x for x in m if x[0] != nm); K = top[(nm, rest)]
                    if e < K and (not rest or rest in mv): sv.add(v <= (mv[rest] if rest else 1) + mv[tuple(sorted(rest + ((nm, K),)))])
        r = sv.check()
        return 'unsat' if r == z3.unsat else 'unknown'
    def witness(s, used, ax, extra, more=(), limit=2.0):
        """a point of a fixed pseudo-random sample that satisfies everything, or None: {variable: Fraction}.
        Functions (atan, log, roots, ...) are evaluated to 40 digits at the sampled inputs; then everything must hold with a margin."""
        lo, hi = {}, {}; ids = {i for c in used + [extra] for i in reals.vars_of(c)} | set(more)
        for c in used: bound_atom(c, lo, hi)
        todo = list(ids)
        while todo:
            for j in reals.C.vars[todo.pop()].deps:
                if j not in ids: ids.add(j); todo.append(j)
        V = [reals.C.vars[i] for i in sorted(ids)]; names = [v.z.decl().name() for v in V if v.info is None]; funs = any(v.info is not None for v in V)
        if any(n not in lo or n not in hi for n in names): return None
        names = set(names); rnd = random.Random(len(names)); t0 = time.time()
        def draw():
            p = {}
            for n in sorted(names):
                a, b = lo[n], hi[n]; x = float(a), float(b)
                if x[0] > 0 and rnd.random() < .8: # mostly of moderate size
                    if rnd.random() < .5: x = max(x[0], min(x[1], .05)), min(x[1], max(x[0], 20))
                    v = math.exp(rnd.uniform(math.log(x[0]), math.log(x[1])))
                else: v = rnd.uniform(*x)
                m, e = math.frexp(v); v = Fraction(round(m * 32), 32) * Fraction(2) ** e
                p[n] = min(max(v, a), b)
            return p
        def val(e, p):
            r = Fraction(0); tot = Fraction(0)
            for m, c in poly_of(e).items():
                for n, k in m: c = c * p[n] ** k
                r += c
            return r
        def fval(e, p):
            r = mpmath.mpf(0); tot = mpmath.mpf(0)
            for m, c in poly_of(e).items():
                c = mpmath.mpf(c.numerator) / c.denominator
                for n, k in m:
                    q = p.get((n, k))
                    if q is None: q = p[(n, k)] = p[n] ** k
                    c = c * q
                r += c; tot += abs(c)
            return r, tot
        def holds(e, p):
            k = e.decl().kind()
            if z3.is_true(e): return True
            if z3.is_false(e): return False
            if k == z3.Z3_OP_NOT: return not holds(e.arg(0), p)
            if k == z3.Z3_OP_AND: return all(holds(x, p) for x in e.children())
            if k == z3.Z3_OP_OR: return any(holds(x, p) for x in e.children())
            if k == z3.Z3_OP_IMPLIES: return not holds(e.arg(0), p) or holds(e.arg(1), p)
            if k == z3.Z3_OP_ITE: return holds(e.arg(1) if holds(e.arg(0), p) else e.arg(2), p)
            if k not in CMPS or not z3.is_arith(e.arg(0)) or e.num_args() != 2: raise NotPoly()
            if not funs: return CMPS[k](val(e.arg(0), p), val(e.arg(1), p))
            (x, tx), (y, ty) = fval(e.arg(0), p), fval(e.arg(1), p)
            if abs(x - y) <= mpmath.mpf(10) ** -25 * (tx + ty): raise NoMargin()
            return CMPS[k](x, y)
        def extend(p):
            """values of the functions; all of it in 40 digits"""
            q = {n: mpmath.mpf(x.numerator) / x.denominator for n, x in p.items()}
            def poly(a):
                r = mpmath.mpf(0)
                for m, c in a.items():
                    t = mpmath.mpf(c); i = 0
                    while m:
                        if m & reals.MASK: t = t * q[reals.C.vars[i].z.decl().name()] ** (m & reals.MASK)
                        m >>= reals.B; i += 1
                    r += t
                return r
            for v in V:
                if v.info is None: continue
                r = v.info[1]; x = poly(r.num) / r.cden
                for k, n in r.den.items(): x = x / poly(dict(k)) ** n
                q[v.z.decl().name()] = FUNCS[v.info[0]](x, *v.info[2:])
            return q
        with mpmath.workdps(40):
            try:
                for p in [q for q in reversed(s.points) if names <= q.keys()] + [None] * (48 if funs else 24):
                    if time.time() - t0 > limit: return None
                    p = draw() if p is None else {n: p[n] for n in names}
                    try:
                        q = extend(p) if funs else p
                        ok = holds(extra, q) and all(holds(c, q) for c in used)
                    except (NoMargin, ValueError, ZeroDivisionError, OverflowError): continue
                    if ok:
                        if p not in s.points: s.points = s.points[-7:] + [p]
                        if funs: p = {v.z.decl().name(): p[v.z.decl().name()] if v.info is None else mpf_fraction(q[v.z.decl().name()]) for v in V}
                        return p
            except (NotPoly, KeyError): pass
        return None
    def check_real(s, state, extra, quick=False, only_point=False, cheap=False):
        used, ax = s.real_constraints(state, extra); s.point = False
        key = (extra.get_id(), tuple(c.get_id() for c in used), len(ax))
        if key in s.rcache: s.point = key in s.rpoints; return s.rcache[key][:2]
        if only_point and not (ax and all(only_real(c) for c in used + [extra])): only_point = False
        r = z3.unknown; m = None
        mixed = any(not only_real(c) for c in used + [extra])
        def attempt(mk, to, at=None, withax=True):
            sv = mk(); sv.set('timeout', to)
            for c in used + (ax if withax else []) + [extra]:
                sv.add(c if at is None else z3.simplify(z3.substitute(c, [(z3.Real(n), z3.RealVal(v)) for n, v in at.items()])))
            if at is not None:
                for n, v in at.items(): sv.add(z3.Real(n) == z3.RealVal(v))
            if mixed:
                for c in state.pcb: sv.add(c)
            r = sv.check()
            return r, (sv.model() if r == z3.sat else None)
        if not mixed:
            try:
                if not only_point and s.linearised(used + ax, extra) == 'unsat':
                    s.rcache[key] = (z3.unsat, None, extra, used); return z3.unsat, None
            except NotPoly: pass
            w = s.witness(used, ax, extra)
            if w is not None:
                # the solver confirms the point (function values: 40-digit approximations, so their defining axioms are left out)
                r, m = attempt(lambda: z3.Solver(), s.timeout, w, not ax)
                if r == z3.sat:
                    s.point = True; s.rpoints.add(key); s.rcache[key] = (r, m, extra, used); return r, m
                if not ax: raise EngineError('the solver rejects a satisfying point')
        if only_point or cheap and not mixed: return r, None
        plans = [(lambda: z3.Tactic('qfnra-nlsat').solver(), s.timeout // 2), (lambda: z3.SolverFor('QF_NRA'), s.timeout // 2), (lambda: z3.Solver(), s.timeout)]
        if quick and not mixed: plans = [(plans[0][0], min(2000, s.timeout))]   # deciding a branch: unknown just follows both sides
        if mixed: plans = [(lambda: z3.Solver(), s.timeout)]
        for mk, to in plans:
            try: r, m = attempt(mk, to)
            except z3.Z3Exception: r = z3.unknown
            if r != z3.unknown: break
        if r != z3.unknown or not quick: s.rcache[key] = (r, m, extra, used)
        return r, m

class NotPoly(Exception): pass
class NoMargin(Exception): pass
def mpf_fraction(x):
    sg, m, e, _ = x._mpf_
    r = Fraction(int(m)) * Fraction(2) ** int(e)
    return -r if sg else r
def pos(x):
    if x <= 0: raise ValueError
    return x
FUNCS = {'log': lambda x: mpmath.log(pos(x)), 'exp': mpmath.exp, 'easinh': lambda x: x + mpmath.sqrt(x * x + 1), 'log10': lambda x: mpmath.log10(pos(x)), 'root': lambda x, n: mpmath.root(pos(x), n),
         'pow10': lambda x: mpmath.mpf(10) ** x, 'atan': mpmath.atan, 'tanhalf': lambda t: mpmath.tan(mpmath.atan(t) / 2), 'tan': mpmath.tan, 'cos': mpmath.cos, 'sin': mpmath.sin}
CMPS = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_DISTINCT: lambda a, b: a != b}
_poly = {}
def padd_f(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def mmul(a, b):
    d = dict(a)
    for n, e in b: d[n] = d.get(n, 0) + e
    return tuple(sorted(d.items()))
def poly_of(e):
    """z3 real term -> {monomial: Fraction}, monomial = sorted tuple of (name, exponent)"""
    k = e.get_id()
    if k in _poly: return _poly[k][1]
    if z3.is_rational_value(e): r = {(): Fraction(e.numerator_as_long(), e.denominator_as_long())} if e.numerator_as_long() else {}
    else:
        o = e.decl().kind()
        if o == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0: r = {((e.decl().name(), 1),): Fraction(1)}
        elif o == z3.Z3_OP_ADD:
            r = {}
            for x in e.children():
                for m, c in poly_of(x).items():
                    y = r.get(m, 0) + c
                    if y: r[m] = y
                    else: r.pop(m, None)
        elif o == z3.Z3_OP_SUB: r = padd_f(poly_of(e.arg(0)), poly_of(e.arg(1)), -1)
        elif o == z3.Z3_OP_UMINUS: r = {m: -c for m, c in poly_of(e.arg(0)).items()}
        elif o in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
            if o == z3.Z3_OP_POWER:
                n = e.arg(1)
                if not z3.is_rational_value(n) or n.denominator_as_long() != 1 or n.numerator_as_long() < 0: raise NotPoly()
                if z3.is_const(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r = {((e.arg(0).decl().name(), n.numerator_as_long()),): Fraction(1)} if n.numerator_as_long() else {(): Fraction(1)}
                    _poly[k] = (e, r); return r
                fs = [e.arg(0)] * n.numerator_as_long()
            else: fs = e.children()
            r = {(): Fraction(1)}
            for f in fs:
                p = poly_of(f); q = {}
                if len(p) * len(r) > 20000: raise NotPoly()
                for m1, c1 in r.items():
                    for m2, c2 in p.items():
                        m = mmul(m1, m2); y = q.get(m, 0) + c1 * c2
                        if y: q[m] = y
                        else: q.pop(m, None)
                r = q
        else: raise NotPoly()
    if len(_poly) > 200000: _poly.clear()
    _poly[k] = (e, r)
    return r
def bound_atom(c, lo, hi):
    """collect  v >= c, v <= c, v > c, v < c"""
    k = c.decl().kind()
    if k == z3.Z3_OP_AND:
        for x in c.children(): bound_atom(x, lo, hi)
        return
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT): return
    a, b = c.arg(0), c.arg(1); up = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
    if z3.is_rational_value(a): a, b = b, a; up = not up
    if not z3.is_rational_value(b) or not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED): return
    n = a.decl().name(); v = Fraction(b.numerator_as_long(), b.denominator_as_long())
    if up: hi[n] = min(hi.get(n, v), v)
    else: lo[n] = max(lo.get(n, v), v)
def common_monomial(p):
    r = None
    for m in p:
        if r is None: r = m; continue
        if not r: return 0
        q = 0; i = 0; a = r; b = m
        while a and b:
            q |= min(a & reals.MASK, b & reals.MASK) << (reals.B * i); a >>= reals.B; b >>= reals.B; i += 1
        r = q
    return r
def only_real(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_bv(x): return False
        if z3.is_bool(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: return False
        st.extend(x.children())
    return True

class Frame:
    __slots__ = ('fn', 'blk', 'bname', 'ip', 'regs', 'prev', 'allocas', 'ret', 'call')
    def copy(s):
        f = Frame.__new__(Frame)
        f.fn = s.fn; f.blk = s.blk; f.bname = s.bname; f.ip = s.ip; f.regs = list(s.regs); f.prev = s.prev
        f.allocas = list(s.allocas); f.ret = s.ret; f.call = s.call
        return f

class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.own = set(); s.pcb = []; s.pcr = []; s.bmodel = None; s.inputs = []
        s.kv = {}; s.exc = None; s.caught = []; s.steps = 0; s.nextbase = 0x200000000; s.heap = 0; s.live = 0; s.forced = {}
        s.counter = 0; s.picks = []; s.reached = []; s.eflags = {}; s.signs = {}; s.last_check = None; s.rmodel = None; s.rank = 0
    def copy(s):
        n = State.__new__(State)
        n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.own = set(); s.own = set()
        n.pcb = list(s.pcb); n.pcr = list(s.pcr); n.bmodel = s.bmodel; n.inputs = list(s.inputs); n.kv = dict(s.kv)
        n.exc = s.exc; n.caught = list(s.caught); n.steps = s.steps; n.nextbase = s.nextbase; n.heap = s.heap; n.live = s.live
        n.forced = s.forced; n.counter = s.counter; n.picks = list(s.picks); n.reached = list(s.reached); n.eflags = dict(s.eflags)
        n.signs = dict(s.signs); n.last_check = s.last_check; n.rmodel = s.rmodel; n.rank = s.rank
        return n

STD_BASE = {'_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception',
            '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt12length_error': '_ZTISt11logic_error',
            '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt9exception': None}

class Exec:
    def __init__(s, module, stats=None, timeout_ms=20000, max_steps=3000000, check_nsw=True, deadline=None):
        s.bases = {}; s.m = module; s.st = stats or Stats(); s.solver = Solver(s.st, timeout_ms); s.max_steps = max_steps
        s.check_nsw = check_nsw; s.violations = []; s.deadline = deadline
        s.addr = []       # (base, size, objid) for inttoptr
        s.fnobj = {}; s.fnname = {}; s.globobj = {}; s.initmem = {}
        s.nextid = 1; s.gbase = 0x10000000
        s.tinfo = {}
        s.viol_labels = {}
        s.max_viol = 3
        s.ops = {k[3:]: getattr(s, k) for k in dir(s) if k.startswith('op_')}
        s.ccache = {}
        s.setup_globals()
    # ------------------------------------------------------------ objects
    def mkobj(s, st, size, kind, name, align=16, fill=None):
        o = Obj.__new__(Obj)
        o.id = s.nextid; s.nextid += 1
        a = max(align, 1)
        if st is None:
            b = (s.gbase + a - 1) // a * a; s.gbase = b + size + 64 + (16 - size % 16)
        else:
            # bases are only as aligned as requested: base % (2*align) == align
            b = (st.nextbase + 2 * a - 1) // (2 * a) * (2 * a) + a; st.nextbase = b + size + 64
        s.bases[o.id] = b; o.base = b; o.size = size; o.kind = kind; o.name = name; o.alive = True; o.cells = {}; o.fill = fill; o.ro = False
        if st is None: s.initmem[o.id] = o
        else: st.mem[o.id] = o; st.own.add(o.id)
        return o
    def wobj(s, st, oid):
        o = st.mem[oid]
        if oid not in st.own:
            o = o.copy(); st.mem[oid] = o; st.own.add(oid)
        return o
    def setup_globals(s):
        for n in s.m.funcs:
            o = s.mkobj(None, 1, 'fn', n); s.fnobj[n] = o.id; s.fnname[o.id] = n
        for n, g in s.m.globals.items():
            try: sz = size_of(g.ty)
            except Exception: sz = 64
            if g.ext and sz < 64: sz = 64
            o = s.mkobj(None, sz, 'global', n, max(g.align, 8), fill=0 if g.ext else None)
            o.ro = g.const; s.globobj[n] = o.id
        st = State(); st.mem = s.initmem; st.own = set(s.initmem)
        for n, g in s.m.globals.items():
            if not g.ext: s.init_store(st, s.initmem[s.globobj[n]], 0, g.ty, g.init)
    def init_store(s, st, o, off, ty, c):
        if c is UNDEF: return
        if c is ZERO:
            if off == 0 and size_of(ty) == o.size: o.fill = 0
            else:
                for i in range(size_of(ty)): o.cells[off + i] = (1, 0)
            return
        if isinstance(c, CExpr) and c.op == 'bytes':
            for i, b in enumerate(c.a[0]): o.cells[off + i] = (1, b)
            return
        if isinstance(c, CExpr) and c.op == 'agg':
            if ty.k == 'struct': offs = offs_of(ty)
            else: offs = [i * size_of(ty.el) for i in range(ty.n)]
            for (t, x), f in zip(c.a[0], offs): s.init_store(st, o, off + f, t, x)
            return
        v = s.cval(c, ty)
        s.store_cell(o, off, store_size(ty), int(v) if isinstance(v, bool) else v)
    def cval(s, c, ty):
        """evaluate a constant"""
        if isinstance(c, (int, float)) and not isinstance(c, bool):
            if ty.k == 'i' and ty.n == 1: return bool(c & 1)
            if ty.k == 'f' and ty.n == 32: return f32(float(c))
            return c
        if isinstance(c, bool): return c
        if c is UNDEF:
            if ty.k in ('struct', 'arr', 'vec'): return s.undef(ty)
            return UNDEF
        if c is ZERO or c is None: return s.zero(ty)
        if isinstance(c, Glob):
            n = c.name
            while n in s.m.aliases: 
                a = s.m.aliases[n]
                if isinstance(a, Glob): n = a.name
                else: return s.cval(a, PTR)
            if n in s.fnobj: return Ptr(s.fnobj[n], 0)
            return Ptr(s.globobj[n], 0)
        if isinstance(c, CExpr):
            if c.op == 'null': return NULL
            if c.op == 'agg':
                return tuple(s.cval(x, t) for t, x in c.a[0])
            if c.op == 'bytes': return tuple(c.a[0])
            if c.op == 'gep':
                t, args = c.a
                p = s.cval(args[0][1], args[0][0])
                return s.gep(None, t, p, [(s.cval(x, tt), tt) for tt, x in args[1:]])
            if c.op == 'cast':
                k, t, x, t2 = c.a; v = s.cval(x, t)
                if k == 'ptrtoint': return s.ptrint(None, v) & ((1 << t2.n) - 1)
                if k == 'inttoptr': return s.intptr(None, v)
                if k in ('bitcast', 'addrspacecast'): return v
                if k == 'trunc': return v & ((1 << t2.n) - 1)
                if k == 'zext': return v
                if k == 'sext': return signed(v, t.n) & ((1 << t2.n) - 1)
            if c.op == 'bin':
                k, t, x, y = c.a; return s.binop(None, k, (), t.n, s.cval(x, t), s.cval(y, t))
            if c.op == 'icmp':
                k, t, x, y = c.a; return s.icmp(None, k, t, s.cval(x, t), s.cval(y, t))
        raise EngineError('constant %r' % (c,))
    def zero(s, ty):
        k = ty.k
        if k == 'i': return False if ty.n == 1 else 0
        if k == 'ptr': return NULL
        if k == 'f': return 0.0
        if k == 'struct': return tuple(s.zero(e) for e in ty.els)
        if k in ('arr', 'vec'): return tuple(s.zero(ty.el) for _ in range(ty.n))
        raise EngineError('zero %r' % ty)
    def undef(s, ty):
        k = ty.k
        if k == 'struct': return tuple(s.undef(e) for e in ty.els)
        if k in ('arr', 'vec'): return tuple(s.undef(ty.el) for _ in range(ty.n))
        return UNDEF
    # ------------------------------------------------------------ pointers
    def offexpr(s, f): return f.expr() if isinstance(f, SOff) else z3.BitVecVal(f & M64, 64)
    def resolve(s, st, f):
        if isinstance(f, SOff):
            r = st.kv.get(f.k.get_id()) if st else None
            if r is not None and r[1] is not None: return (f.c + f.g * r[1]) & M64
        return f
    def ptrint(s, st, p):
        if isinstance(p, (int, BV)): return p
        base = 0 if p.o == 0 else s.bases[p.o]
        f = s.resolve(st, p.f)
        if isinstance(f, SOff): return z3.BitVecVal((base + f.c) & M64, 64) + (f.k if f.g == 1 else z3.BitVecVal(f.g, 64) * f.k)
        return (base + f) & M64
    def intptr(s, st, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, BV):
            v = cbv(v)
            if isinstance(v, BV):
                # base + symbolic offset, from a pointer round trip
                raise EngineError('inttoptr of symbolic integer')
        if v == 0: return NULL
        mem = st.mem if st else s.initmem
        for o in mem.values():
            if o.base <= v <= o.base + o.size: return Ptr(o.id, v - o.base)
        return Ptr(0, v)
    def addoff(s, st, f, stride, idx, n):
        """f + stride*idx (idx is int or n-bit bv, sign-extended)"""
        if not isinstance(idx, BV):
            d = signed(idx, n) * stride
            if isinstance(f, SOff): return SOff((f.c + d), f.g, f.k)
            return f + d
        if idx.size() < 64: idx = z3.SignExt(64 - idx.size(), idx)
        elif idx.size() > 64: raise EngineError('gep index width')
        if stride == 0: return f
        r = st.kv.get(idx.get_id())
        if r is not None and r[1] is not None: return s.addoff(st, f, stride, r[1], 64)
        f = s.resolve(st, f)
        if not isinstance(f, SOff): 
            k = simp(idx)
            if z3.is_bv_value(k): return f + signed(k.as_long(), 64) * stride
            # pull a constant summand out of the index
            c0 = 0
            if z3.is_app_of(k, z3.Z3_OP_BADD) and z3.is_bv_value(k.arg(0)):
                c0 = signed(k.arg(0).as_long(), 64); k = simp(k - k.arg(0))
            return SOff(f + c0 * stride, stride, k)
        g = math.gcd(f.g, stride)
        k = simp((f.k if f.g == g else f.k * (f.g // g)) + (idx if stride == g else idx * (stride // g)))
        if z3.is_bv_value(k): return f.c + g * signed(k.as_long(), 64)
        c = f.c
        if z3.is_app_of(k, z3.Z3_OP_BADD) and z3.is_bv_value(k.arg(0)):
            c += g * signed(k.arg(0).as_long(), 64); k = simp(k - k.arg(0))
        return SOff(c, g, k)
    def gep(s, st, ty, p, idxs):
        if p is UNDEF: raise Violation('uninitialised', 'pointer arithmetic on an uninitialised pointer')
        if not isinstance(p, Ptr): p = s.intptr(st, p)
        f = p.f; t = ty
        for i, (v, vt) in enumerate(idxs):
            n = vt.n
            if v is UNDEF: raise Violation('uninitialised', 'uninitialised index')
            if i == 0: f = s.addoff(st, f, size_of(t), v, n)
            elif t.k == 'struct':
                f = s.addoff(st, f, 1, offs_of(t)[v], 64); t = t.els[v]
            elif t.k in ('arr', 'vec'):
                f = s.addoff(st, f, size_of(t.el), v, n); t = t.el
            else: raise EngineError('gep into %r' % t)
        return Ptr(p.o, f)
    # ------------------------------------------------------------ feasibility
    def assume(s, st, c):
        """add constraint (z3 Bool); caller has established feasibility"""
        if has_real(c): st.pcr.append(c); st.rmodel = None
        else: st.pcb.append(c)
    def ev(s, st, c):
        """value of c under the cached model (True/False/None)"""
        if has_real(c): return None
        if st.bmodel is None: return None
        v = st.bmodel.eval(c, model_completion=True)
        return True if z3.is_true(v) else False if z3.is_false(v) else None
    def feasible(s, st, c):
        """(maybe) satisfiable? returns True/False; unknown counts as feasible and is recorded"""
        if s.ev(st, c) is True: return True
        r, m = s.solver.check(st, c, True)
        if r == 'sat':
            s._m = m; return True
        s._m = None
        if r == 'unknown': return True
        return False
    def branch(s, st, c):
        """decide a symbolic condition: returns True/False or forks"""
        if not isinstance(c, BO): return bool(c)
        c = simp(c)
        if has_real(c): c = simp(debv(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        nc = simp(z3.Not(c))
        kid = c.get_id()
        r = st.kv.get(kid)
        if r is not None: return r[1]
        e = s.ev(st, c)
        mt = mf = None
        if e is True: t = True; mt = st.bmodel
        else: s._m = None; t = s.feasible(st, c); mt = s._m
        if e is False: f = True; mf = st.bmodel
        else: 
            if not t: f = True
            else: s._m = None; f = s.feasible(st, nc); mf = s._m
        if t and f:
            raise ForkOn([(c, (c, True), mt), (nc, (c, False), mf)])
        if t: s.note(st, c, c, True); return True
        if f: s.note(st, nc, c, False); return False
        raise PathEnd()
    def note(s, st, cons, c, v):
        st.kv[c.get_id()] = (c, v)
    def concretize(s, st, v, limit=80):
        """int value of a bit-vector, forking over its feasible values"""
        if not isinstance(v, BV): return v
        v = cbv(v)
        if not isinstance(v, BV): return v
        r = st.kv.get(v.get_id())
        if r is not None and r[1] is not None: return r[1]
        if s.solver.lia is not None:
            vals = []; ne = []
            while True:
                q, m = s.solver.check(st, z3.And(ne) if ne else z3.BoolVal(True))
                if q == 'unsat': break
                if q == 'unknown': raise EngineError('unknown while enumerating values')
                x = m.eval(v, model_completion=True).as_long(); vals.append((x, m)); ne.append(v != x)
                if len(vals) > limit: raise EngineError('too many values for %s' % str(v)[:80])
            return s.concretized(st, v, vals)
        vals = []; s.solver.sync(st.pcb); sv = s.solver.inc; sv.push()
        t0 = time.time()
        while True:
            s.st.queries += 1
            q = sv.check()
            if q == z3.unsat: s.st.unsat += 1; break
            if q == z3.unknown: sv.pop(); raise EngineError('unknown while enumerating values')
            s.st.sat += 1
            m = sv.model(); x = m.eval(v, model_completion=True).as_long(); vals.append((x, m)); sv.add(v != x)
            if len(vals) > limit: sv.pop(); raise EngineError('too many values for %s' % str(v)[:80])
        sv.pop(); s.st.time += time.time() - t0
        return s.concretized(st, v, vals)
    def concretized(s, st, v, vals):
        if not vals: raise PathEnd()
        if len(vals) == 1:
            st.kv[v.get_id()] = (v, vals[0][0]); return vals[0][0]
        raise ForkOn([(v == x, (v, x), m) for x, m in sorted(vals, key=lambda p: p[0])])
    # ------------------------------------------------------------ memory
    def access(s, st, p, n, write, what='access'):
        """check an access of n bytes (int) at p; returns (obj, offset int or SOff)"""
        if p is UNDEF: raise Violation('uninitialised', 'use of an uninitialised pointer')
        if not isinstance(p, Ptr): p = s.intptr(st, p)
        if p.o == 0:
            f = s.resolve(st, p.f)
            if isinstance(f, int) and f < 4096 or isinstance(f, SOff): raise Violation('memory', 'null pointer dereference')
            raise Violation('memory', 'wild pointer dereference')
        o = st.mem.get(p.o)
        if o is None or not o.alive: raise Violation('memory', 'use of a dead object (%s)' % (o.name if o else '?'))
        if o.kind == 'fn': raise Violation('memory', 'data access to a function')
        if write and o.ro: raise Violation('memory', 'write to read-only object %s' % o.name)
        f = s.resolve(st, p.f)
        if isinstance(f, SOff):
            e = f.expr()
            if n > o.size:
                raise Violation('memory', 'out-of-bounds %s of %s' % ('write' if write else 'read', o.name))
            bad = z3.UGT(e, z3.BitVecVal(o.size - n, 64))
            key = simp(bad)
            if z3.is_true(key): raise Violation('memory', 'out-of-bounds %s of %s' % ('write' if write else 'read', o.name))
            if not z3.is_false(key):
                k2 = st.kv.get(key.get_id())
                if k2 is None:
                    if s.feasible(st, key):
                        s._m2 = s._m
                        s.report(st, 'memory', 'out-of-bounds %s of %s' % ('write' if write else 'read', o.name), key)
                        ok = simp(z3.Not(key))
                        if not s.feasible(st, ok): raise PathEnd()
                        s.assume(st, ok); st.bmodel = s._m or st.bmodel
                        if s._m is None and s.ev(st, ok) is not True: st.bmodel = None
                    st.kv[key.get_id()] = (key, False)
            return o, f
        f &= M64
        if f + n > o.size:
            raise Violation('memory', 'out-of-bounds %s of %s (offset %d, size %d)' % ('write' if write else 'read', o.name, signed(f, 64), o.size))
        return o, f
    def cands(s, st, o, f, n):
        """candidate concrete offsets of a symbolic in-bounds access, narrowed by the path condition"""
        g = f.g; r = f.c % g
        cs = list(range(r, o.size - n + 1, g))
        if len(cs) <= 4: return cs
        key = ('rng', f.k.get_id(), f.c, f.g)
        kv = st.kv.get(key)
        if kv is None:
            e = f.expr(); lo, hi = 0, len(cs) - 1
            # largest lo / smallest hi such that every feasible offset lies in cs[lo..hi]
            b = bool(st.bmodel)
            w = None
            if st.bmodel is not None:
                v = st.bmodel.eval(e, model_completion=True).as_long()
                if v in cs: w = cs.index(v)
            a, z = 0, w if w is not None else len(cs) - 1
            while a < z:      # smallest feasible index is in [a, z]
                m = (a + z) // 2
                if s.solver.check(st, z3.ULE(e, cs[m]))[0] == 'unsat': a = m + 1
                else: z = m
            lo = a
            a, z = w if w is not None else lo, len(cs) - 1
            while a < z:
                m = (a + z + 1) // 2
                if s.solver.check(st, z3.UGE(e, cs[m]))[0] == 'unsat': z = m - 1
                else: a = m
            hi = a
            kv = st.kv[key] = (f.k, (lo, hi))
        lo, hi = kv[1]
        return cs[lo:hi + 1]
    def getbyte(s, o, off):
        """byte cell value at off: int/BV(8)/Frag/UNDEF"""
        for d in range(0, 17):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    v = c[1]
                    if c[0] == 1: return v
                    if isinstance(v, int): return (v >> (8 * d)) & 255
                    if isinstance(v, BV): return z3.Extract(8 * d + 7, 8 * d, v)
                    if v is UNDEF: return UNDEF
                    return Frag(v, d, c[0])
                break
        if o.fill is None: return UNDEF
        return o.fill
    def store_cell(s, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n: cells[off] = (n, v); return
        # split overlapping cells
        for d in range(off - 16, off + n):
            c = cells.get(d)
            if c is None or d + c[0] <= off: continue
            if d >= off and d + c[0] <= off + n: del cells[d]; continue
            bs = [s.getbyte(o, d + i) for i in range(c[0])]
            del cells[d]
            for i, b in enumerate(bs):
                if not (off <= d + i < off + n): cells[d + i] = (1, b)
        cells[off] = (n, v)
    # an object of unbounded size ("phantom"): a log of writes over arbitrary initial contents
    def ph_load(s, st, o, f, n):
        e = s.offexpr(f); o = s.wobj(st, o.id)
        log = o.cells.get('log', ()); base = o.cells.get('base', ()); gran = o.cells.setdefault('n', n)
        if gran != n: raise EngineError('mixed access sizes in unbounded storage')
        r = None; conds = []
        for w, v in reversed(log):
            c = simp(e == w)
            if z3.is_true(c): r = v; break
            if not z3.is_false(c): conds.append((c, v))
        if r is None:
            r = z3.BitVec('ph!%d' % s.fresh(), 8 * n); fr = r
            for w, v in base:
                c = simp(e == w)
                if z3.is_true(c): r = v; fr = None; break
                if not z3.is_false(c): r = z3.If(c, v, r)
            if fr is not None: o.cells['base'] = base + ((e, r),)
        for c, v in reversed(conds): r = z3.If(c, v, r)
        return r
    def ph_store(s, st, o, f, n, v):
        e = simp(s.offexpr(f)); o = s.wobj(st, o.id)
        if o.cells.setdefault('n', n) != n: raise EngineError('mixed access sizes in unbounded storage')
        if v is UNDEF or not isinstance(v, (int, BV)): raise EngineError('unsupported value in unbounded storage')
        o.cells['log'] = o.cells.get('log', ()) + ((e, tobv(v, 8 * n)),)
    def load_raw(s, o, off, n):
        """raw n-byte value at off: int/BV/Ptr/float/R/UNDEF"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            return v if not isinstance(v, Frag) else s.unfrag([v], n)
        bs = [s.getbyte(o, off + i) for i in range(n)]
        if all(b is UNDEF for b in bs): return UNDEF
        if any(isinstance(b, Frag) for b in bs): return s.unfrag(bs, n)
        if any(b is UNDEF for b in bs):
            bs = [z3.BitVec('pad!%d' % s.fresh(), 8) if b is UNDEF else b for b in bs]
        if all(isinstance(b, int) for b in bs):
            r = 0
            for i, b in enumerate(bs): r |= b << (8 * i)
            return r
        return simp(z3.Concat([tobv(b, 8) for b in reversed(bs)]) if n > 1 else bs[0])
    def fresh(s):
        s._fresh = getattr(s, '_fresh', 0) + 1; return s._fresh
    def unfrag(s, bs, n):
        f = bs[0]
        if isinstance(f, Frag) and f.n == n and f.i == 0 and all(isinstance(b, Frag) and b.v is f.v and b.i == i for i, b in enumerate(bs)): return f.v
        # concrete floats / pointers decompose into bytes
        out = []
        for b in bs:
            if isinstance(b, Frag):
                v = b.v
                if isinstance(v, float): out.append(s.fbytes(v, b.n)[b.i])
                elif isinstance(v, Ptr):
                    if n == 1: return b      # carried along by byte-wise copies
                    raise EngineError('partial pointer read')
                else: return Frag(b.v, b.i, b.n) if n == 1 else s._opq()
            elif b is UNDEF: out.append(0)
            else: out.append(b)
        if all(isinstance(b, int) for b in out): return sum(b << (8 * i) for i, b in enumerate(out))
        return simp(z3.Concat([tobv(b, 8) for b in reversed(out)]) if n > 1 else out[0])
    def _opq(s): raise EngineError('partial read of a symbolic real')
    def fbytes(s, v, n):
        return struct.pack('<f', v) if n == 4 else struct.pack('<d', v)
    def conv(s, st, v, ty):
        """raw memory value -> register value of scalar type ty"""
        k = ty.k
        if v is UNDEF: return UNDEF
        if k == 'i':
            if isinstance(v, Ptr): v = s.ptrint(st, v)
            elif isinstance(v, float):
                n = 4 if ty.n == 32 else 8; v = int.from_bytes(s.fbytes(v, n), 'little')
            elif isinstance(v, R): return v      # opaque transport
            if ty.n == 1:
                if isinstance(v, BV): return cbool(z3.Extract(0, 0, v) == 1)
                return bool(v & 1)
            if isinstance(v, BV) and v.size() != ty.n: v = z3.Extract(ty.n - 1, 0, v)
            return v
        if k == 'ptr':
            if isinstance(v, Ptr): return v
            return s.intptr(st, v)
        if k == 'f':
            if isinstance(v, (float, R)): return v
            if isinstance(v, int):
                if ty.n == 64: return struct.unpack('<d', struct.pack('<Q', v))[0]
                if ty.n == 32: return struct.unpack('<f', struct.pack('<I', v))[0]
            raise EngineError('symbolic bits read as floating point')
        raise EngineError('conv %r' % ty)
    def ite(s, c, a, b, n):
        """If over raw values of n bytes, or None if not mergeable"""
        if a is UNDEF and b is UNDEF: return UNDEF
        if isinstance(a, (int, BV)) and isinstance(b, (int, BV)):
            if isinstance(a, int) and isinstance(b, int) and a == b: return a
            return z3.If(c, tobv(a, 8 * n), tobv(b, 8 * n))
        if a is b: return a
        if a is UNDEF and isinstance(b, (int, BV)): return z3.If(c, z3.BitVec('und!%d' % s.fresh(), 8 * n), tobv(b, 8 * n))
        if b is UNDEF and isinstance(a, (int, BV)): return z3.If(c, tobv(a, 8 * n), z3.BitVec('und!%d' % s.fresh(), 8 * n))
        return None
    def load(s, st, p, ty):
        k = ty.k
        if k == 'struct':
            return tuple(s.load(st, Ptr(p.o, s.addoff(st, p.f, 1, f, 64)), t) for f, t in zip(offs_of(ty), ty.els))
        if k in ('arr', 'vec'):
            z = size_of(ty.el)
            return tuple(s.load(st, Ptr(p.o, s.addoff(st, p.f, 1, z * i, 64)), ty.el) for i in range(ty.n))
        n = store_size(ty)
        o, f = s.access(st, p, n, False)
        if o.kind == 'phantom': v = s.ph_load(st, o, f, n)
        elif isinstance(f, SOff):
            v = s.load_sym(st, o, f, n)
        else: v = s.load_raw(o, f, n)
        return s.conv(st, v, ty)
    def load_sym(s, st, o, f, n):
        cs = s.cands(st, o, f, n)
        if not cs: raise PathEnd()
        if len(cs) > 300: raise EngineError('symbolic access into large object %s' % o.name)
        try: vs = [s.load_raw(o, c, n) for c in cs]
        except EngineError:
            s.concretize(st, f.k); return s.load_raw(o, s.resolve(st, f), n)
        if len(cs) == 1: return vs[0]
        e = f.expr(); r = vs[-1]
        for c, v in zip(reversed(cs[:-1]), reversed(vs[:-1])):
            r = s.ite(e == c, v, r, n)
            if r is None: break
        if r is None or any(v is UNDEF for v in vs) and any(v is not UNDEF for v in vs) and not all(isinstance(v, (int, BV)) or v is UNDEF for v in vs):
            s.concretize(st, f.k); return s.load_raw(o, s.resolve(st, f), n)
        return r
    def store(s, st, p, ty, v):
        k = ty.k
        if k == 'struct':
            for f, t, x in zip(offs_of(ty), ty.els, v): s.store(st, Ptr(p.o, s.addoff(st, p.f, 1, f, 64)), t, x)
            return
        if k in ('arr', 'vec'):
            z = size_of(ty.el)
            for i, x in enumerate(v): s.store(st, Ptr(p.o, s.addoff(st, p.f, 1, z * i, 64)), ty.el, x)
            return
        n = store_size(ty)
        if k == 'i':
            if isinstance(v, BO): v = simp(z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n)))
            elif isinstance(v, bool): v = int(v)
            elif isinstance(v, BV) and v.size() != 8 * n: v = z3.ZeroExt(8 * n - v.size(), v)
        s.store_raw(st, p, n, v)
    def store_raw(s, st, p, n, v):
        o, f = s.access(st, p, n, True)
        if o.kind == 'phantom': s.ph_store(st, o, f, n, v); return
        if isinstance(f, SOff):
            cs = s.cands(st, o, f, n)
            if not cs: raise PathEnd()
            if len(cs) == 1: f = cs[0]
            else:
                old = [s.load_raw(o, c, n) for c in cs]
                if v is UNDEF or not isinstance(v, (int, BV)) or not all(isinstance(x, (int, BV)) or x is UNDEF for x in old) or len(cs) > 64:
                    s.concretize(st, f.k); f = s.resolve(st, f)
                else:
                    o = s.wobj(st, o.id); e = f.expr()
                    for c, x in zip(cs, old):
                        nv = s.ite(e == c, v, x, n)
                        s.store_cell(o, c, n, nv)
                    return
        o = s.wobj(st, o.id)
        s.store_cell(o, f, n, v)
    def memcpy(s, st, d, src, n):
        n = s.concretize(st, n)
        if n == 0: return
        if n > (1 << 50): raise Violation('memory', 'copy of a huge byte count')
        so, sf = s.access(st, src, n, False); do, df = s.access(st, d, n, True)
        if isinstance(sf, SOff) or isinstance(df, SOff) or so.kind == 'phantom' or do.kind == 'phantom':
            g = n
            for f in (sf, df):
                if isinstance(f, SOff): g = math.gcd(g, f.g); g = math.gcd(g, f.c)
                else: g = math.gcd(g, f)
            w = 8 if g % 8 == 0 else 4 if g % 4 == 0 else 2 if g % 2 == 0 else 1
            for x in (so, do):
                if x.kind == 'phantom': w = x.cells.get('n', 1)
            vals = []
            for i in range(0, n, w):
                f = s.addoff(st, sf, 1, i, 64)
                vals.append(s.ph_load(st, so, f, w) if so.kind == 'phantom' else s.load_sym(st, so, f, w) if isinstance(f, SOff) else s.load_raw(so, f, w))
            for i, v in zip(range(0, n, w), vals):
                s.store_raw(st, Ptr(do.id, s.addoff(st, df, 1, i, 64)), w, v)
            return
        # concrete: copy cells
        items = []; i = 0
        while i < n:
            c = so.cells.get(sf + i)
            if c is not None and i + c[0] <= n: items.append((i, c[0], c[1])); i += c[0]
            else: items.append((i, 1, s.getbyte(so, sf + i))); i += 1
        do = s.wobj(st, do.id)
        for i, sz, v in items: s.store_cell(do, df + i, sz, v)
    def memset(s, st, d, v, n):
        n = s.concretize(st, n)
        if n == 0: return
        o, f = s.access(st, d, n, True)
        if isinstance(f, SOff): s.concretize(st, f.k); f = s.resolve(st, f)
        o = s.wobj(st, o.id)
        for i in range(n): s.store_cell(o, f + i, 1, v)
    def cstr(s, st, p):
        o = st.mem[p.o]; r = b''; f = p.f
        while True:
            b = s.getbyte(o, f)
            if not isinstance(b, int): return '?'
            if b == 0: return r.decode()
            r += bytes([b]); f += 1
    # ------------------------------------------------------------ scalar ops
    def near_division(s, st, op, a, b, n):
        """a/b or a%b as a case split where the quotient is known to be -1, 0 or 1 (wrapping by a symbolic capacity)"""
        no = lambda c: s.solver.check(st, simp(c))[0] == 'unsat'
        zero, one = z3.BitVecVal(0, n), z3.BitVecVal(1, n)
        if op in ('sdiv', 'srem'):
            if not no(z3.Or(b <= 0, b > (1 << (n - 2)))): return None
            if not no(a < 0):
                if not no(z3.Or(a >= b + b, a <= -(b + b))): return None
                q = z3.If(a >= b, one, z3.If(a <= -b, -one, zero))
                return cbv(q if op == 'sdiv' else z3.If(a >= b, a - b, z3.If(a <= -b, a + b, a)))
        elif not no(z3.Or(b == 0, z3.UGT(b, 1 << (n - 2)))): return None
        if no(z3.UGE(a, b)): return cbv(zero) if op[1:] == 'div' else a
        if not no(z3.UGE(a, b + b)): return None
        return cbv(z3.If(z3.UGE(a, b), one, zero) if op[1:] == 'div' else z3.If(z3.UGE(a, b), a - b, a))
    def binop(s, st, op, fl, n, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, R) or isinstance(b, R): raise EngineError('integer operation on symbolic real bits')
        if isinstance(a, Ptr): a = s.ptrint(st, a)
        if isinstance(b, Ptr): b = s.ptrint(st, b)
        if n == 1:
            if op in ('xor', 'add', 'sub'):
                if not isinstance(a, BO) and not isinstance(b, BO): return bool(a) != bool(b)
                return cbool(z3.Xor(tobool(a), tobool(b)))
            if op in ('and', 'mul'):
                if a is False or b is False: return False
                if not isinstance(a, BO) and not isinstance(b, BO): return bool(a and b)
                return cbool(z3.And(tobool(a), tobool(b)))
            if op == 'or':
                if a is True or b is True: return True
                if not isinstance(a, BO) and not isinstance(b, BO): return bool(a or b)
                return cbool(z3.Or(tobool(a), tobool(b)))
            raise EngineError('i1 ' + op)
        M = (1 << n) - 1
        if not isinstance(a, BV) and not isinstance(b, BV):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': return a & b
            elif op == 'or': return a | b
            elif op == 'xor': return a ^ b
            elif op in ('shl', 'lshr', 'ashr'):
                if b >= n:
                    if st is not None: raise Violation('ub', 'shift by %d of a %d-bit value' % (b, n))
                    return 0
                r = a << b if op == 'shl' else a >> b if op == 'lshr' else signed(a, n) >> b
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: raise Violation('ub', 'division by zero')
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = signed(a, n), signed(b, n); q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                if op == 'sdiv' and q == 1 << (n - 1): raise Violation('ub', 'signed division overflow')
                r = q if op == 'sdiv' else x - q * y
            else: raise EngineError(op)
            if 'nsw' in fl and s.check_nsw and st is not None and op in ('add', 'sub', 'mul'):
                x, y = signed(a, n), signed(b, n); t = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if not -(1 << (n - 1)) <= t < (1 << (n - 1)): raise Violation('ub', 'signed overflow in ' + op)
            return r & M
        if op in ('add', 'or', 'xor', 'sub', 'shl', 'lshr', 'ashr') and not isinstance(b, BV) and b == 0: return a
        if op in ('add', 'or', 'xor') and not isinstance(a, BV) and a == 0: return b
        A = tobv(a, n); Bv = tobv(b, n)
        if 'nsw' in fl and s.check_nsw and op in ('add', 'sub', 'mul'):
            if op == 'add': ov = z3.Not(z3.And(z3.BVAddNoOverflow(A, Bv, True), z3.BVAddNoUnderflow(A, Bv)))
            elif op == 'sub': ov = z3.Not(z3.And(z3.BVSubNoOverflow(A, Bv), z3.BVSubNoUnderflow(A, Bv, True)))
            else: ov = z3.Not(z3.And(z3.BVMulNoOverflow(A, Bv, True), z3.BVMulNoUnderflow(A, Bv)))
            s.ubcheck(st, ov, 'signed overflow in ' + op)
        if op == 'add': return A + Bv
        if op == 'sub':
            r = A - Bv
            return cbv(r)
        if op == 'mul': return A * Bv
        if op == 'and': return A & Bv
        if op == 'or': return A | Bv
        if op == 'xor': return A ^ Bv
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, BV): s.ubcheck(st, z3.UGE(Bv, n), 'oversized shift')
            elif b >= n: raise Violation('ub', 'shift by %d of a %d-bit value' % (b, n))
            return A << Bv if op == 'shl' else z3.LShR(A, Bv) if op == 'lshr' else A >> Bv
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isinstance(b, BV): s.ubcheck(st, Bv == 0, 'division by zero')
            elif b == 0: raise Violation('ub', 'division by zero')
            if 'exact' in fl and not isinstance(b, BV) and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return cbv(A >> k if op == 'sdiv' else z3.LShR(A, k))
            if 'exact' in fl and op == 'sdiv' and not isinstance(b, BV):
                # exact division by a constant: multiply by the inverse of the odd part
                x = b; k = 0
                while x % 2 == 0: x //= 2; k += 1
                inv = pow(x, -1, 1 << n)
                return cbv((A >> k) * z3.BitVecVal(inv, n))
            if st is not None and s.solver.lia is not None:
                r = s.near_division(st, op, A, Bv, n)
                if r is not None: return r
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](A, Bv)
        raise EngineError(op)
    def ubcheck(s, st, bad, what):
        bad = simp(bad)
        if z3.is_false(bad): return
        if z3.is_true(bad): raise Violation('ub', what)
        k = st.kv.get(bad.get_id())
        if k is not None: return
        if s.feasible(st, bad):
            s.report(st, 'ub', what, bad)
            ok = simp(z3.Not(bad))
            if not s.feasible(st, ok): raise PathEnd()
            s.assume(st, ok); st.bmodel = None
        st.kv[bad.get_id()] = (bad, False)
    def icmp(s, st, pr, ty, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        n = 64 if ty.k == 'ptr' else ty.n
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                fa = s.resolve(st, a.f); fb = s.resolve(st, b.f)
                if pr in ('eq', 'ne') and isinstance(fa, SOff) and isinstance(fb, SOff) and fa.g == fb.g and (fb.c - fa.c) % fa.g == 0 and fa.g & (fa.g - 1) != 0 and False:
                    pass
                if isinstance(fa, int) and isinstance(fb, int):
                    a = fa & M64; b = fb & M64
                    if a >> 63 != b >> 63 or True:
                        base = 0 if a is None or True and st is None else 0
                    # compare as addresses
                    bs = 0 if ty.k != 'ptr' else (st.mem[0].base if False else 0)
                    a = signed(a, 64) + (1 << 50); b = signed(b, 64) + (1 << 50)
                else:
                    # offsets may be negative: compare as addresses (base + offset)
                    base = 1 << 50
                    a = z3.BitVecVal(base, 64) + s.offexpr(fa); b = z3.BitVecVal(base, 64) + s.offexpr(fb)
            elif pr in ('eq', 'ne') and (a.o == 0 or b.o == 0):
                # object pointer against null: in-bounds pointers are never null
                z, p = (a, b) if a.o == 0 else (b, a)
                f = s.resolve(st, z.f)
                if f == 0:
                    if p.o in s.fnname or True: return pr == 'ne'
                a = s.ptrint(st, a); b = s.ptrint(st, b)
            else:
                a = s.ptrint(st, a); b = s.ptrint(st, b)
        else:
            if isinstance(a, Ptr): a = s.ptrint(st, a)
            if isinstance(b, Ptr): b = s.ptrint(st, b)
        if n == 1:
            if pr in ('eq', 'ne'):
                r = cbool(tobool(a) == tobool(b)) if isinstance(a, BO) or isinstance(b, BO) else bool(a) == bool(b)
                return r if pr == 'eq' else (cbool(z3.Not(r)) if isinstance(r, BO) else not r)
            a = z3.If(tobool(a), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)); b = z3.If(tobool(b), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if not isinstance(a, BV) and not isinstance(b, BV):
            if pr == 'eq': return a == b
            if pr == 'ne': return a != b
            if pr[0] == 's': a = signed(a, n); b = signed(b, n)
            return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[1:]]
        A = tobv(a, n); Bv = tobv(b, n)
        r = {'eq': lambda: A == Bv, 'ne': lambda: A != Bv, 'ugt': lambda: z3.UGT(A, Bv), 'uge': lambda: z3.UGE(A, Bv), 'ult': lambda: z3.ULT(A, Bv),
             'ule': lambda: z3.ULE(A, Bv), 'sgt': lambda: A > Bv, 'sge': lambda: A >= Bv, 'slt': lambda: A < Bv, 'sle': lambda: A <= Bv}[pr]()
        return cbool(r)
    # ------------------------------------------------------------ floats
    def fop(s, st, op, ty, a, b):
        if a is UNDEF or b is UNDEF: raise Violation('uninitialised', 'arithmetic on an uninitialised floating-point value')
        if isinstance(a, (int, BV)) or isinstance(b, (int, BV)): raise EngineError('fp op on bits')
        if not isinstance(a, R) and not isinstance(b, R):
            try:
                if op == 'fadd': r = a + b
                elif op == 'fsub': r = a - b
                elif op == 'fmul': r = a * b
                elif op == 'fdiv':
                    if b == 0: r = float('nan') if a == 0 or a != a else math.copysign(float('inf'), a) * math.copysign(1, b)
                    else: r = a / b
                elif op == 'frem': r = math.fmod(a, b)
            except OverflowError: r = float('inf')
            return f32(r) if ty.n == 32 else r
        if op == 'fadd': r = reals.add(a, b)
        elif op == 'fsub': r = reals.sub(a, b)
        elif op == 'fmul': r = reals.mul(a, b)
        elif op == 'fdiv':
            s.nonzero(st, b); r = reals.div(a, b)
        else: raise EngineError(op + ' on symbolic reals')
        c = r.const()
        if c is not None:
            f = float(c)
            if Fraction(f) == c: return f
        return r
    def nonzero(s, st, b):
        """b must not vanish on this path"""
        b = reals.of(b)
        c = b.const()
        if c is not None:
            if c == 0: raise Violation('fp', 'division by zero')
            return
        k, p = reals.pprim(b.num); key = reals.pkey(p)
        if len(p) == 1: ps = [{1 << (reals.B * i): 1} for i in reals.pvars(p)]
        else: ps = [p]
        for q in ps:
            s.sign(st, q, True)
    def sign(s, st, p, report=False):
        """sign of polynomial p (primitive) on this path: 1, -1 or None (non-zero but unknown)"""
        key = reals.pkey(p)
        if key in st.signs: return st.signs[key]
        e = reals.poly_z3(p)
        r = None
        f1, m = s.solver.check(st, e <= 0)
        if f1 == 'unsat': r = 1
        else:
            f2, m = s.solver.check(st, e >= 0)
            if f2 == 'unsat': r = -1
            else:
                f3, m = s.solver.check(st, e == 0)
                if f3 == 'sat':
                    s.report(st, 'fp', 'division by zero', e == 0, m)
                    s.assume(st, e != 0)
                    if not s.feasible(st, e != 0): raise PathEnd()
                elif f3 == 'unknown':
                    s.incon(st, 'division-by-zero test undecided'); s.assume(st, e != 0)
        st.signs[key] = r
        return r
    def sign_var(s, st, i):
        k = ('v', i)
        if k not in st.signs:
            z = reals.C.vars[i].z
            st.signs[k] = 1 if s.solver.check(st, z <= 0)[0] == 'unsat' else -1 if s.solver.check(st, z >= 0)[0] == 'unsat' else None
        return st.signs[k]
    def signed_num(s, st, r):
        """polynomial with the same sign as r (denominators resolved by known signs where possible)"""
        num = r.num; extra = []
        sg = 1
        for k, n in r.den.items():
            if n % 2:
                g = s.sign(st, dict(k))
                if g == -1: sg = -sg
                elif g is None: extra.append(dict(k))
        if len(num) > 1:
            m0 = common_monomial(num); i = 0; x = m0
            while x: # variables that divide everything
                if x & reals.MASK:
                    g = s.sign_var(st, i); n = x & reals.MASK
                    if g is None: m0 -= n << (reals.B * i)
                    elif g < 0 and n % 2: sg = -sg
                x >>= reals.B; i += 1
            if m0: num = {m - m0: c for m, c in num.items()}
            for k, q in reals.C.pool: # factors of known sign
                g = st.signs.get(k)
                if g is None or max(q) > max(num) or len(num) == 1: continue
                while (x := reals.pdivexact(num, q)) is not None: num = x; sg *= g
        if sg < 0: num = reals.pscale(num, -1)
        e = reals.poly_z3(num)
        for f in extra: e = e * reals.poly_z3(f)
        return e
    def fcmp(s, st, pr, a, b):
        if a is UNDEF or b is UNDEF: raise Violation('uninitialised', 'comparison of an uninitialised floating-point value')
        if not isinstance(a, R) and not isinstance(b, R):
            un = a != a or b != b
            if pr == 'ord': return not un
            if pr == 'uno': return un
            if pr == 'true': return True
            if pr == 'false': return False
            if un: return pr[0] == 'u'
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[1:]]
        if pr == 'ord': return True
        if pr == 'uno': return False
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, float) and not math.isfinite(x):
                if x != x: return pr[0] == 'u'
                p2 = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}.get(pr[1:], pr[1:]) if sw else pr[1:]
                return {'eq': False, 'ne': True, 'gt': x > 0, 'ge': x > 0, 'lt': x < 0, 'le': x < 0}[p2]
        d = reals.sub(a, b); c = d.const()
        if c is not None:
            return {'eq': c == 0, 'ne': c != 0, 'gt': c > 0, 'ge': c >= 0, 'lt': c < 0, 'le': c <= 0}[pr[1:]]
        reals.thresholds(d)
        if pr[1:] in ('eq', 'ne'): e = reals.poly_z3(d.num)
        else: e = s.signed_num(st, d)
        return {'eq': e == 0, 'ne': e != 0, 'gt': e > 0, 'ge': e >= 0, 'lt': e < 0, 'le': e <= 0}[pr[1:]]
    def crosscheck(s, st, x, y, c, lab):
        """x - y normalised to the constant c: let the solver confirm x != y + c impossible from the two un-subtracted forms"""
        t = s.st; t.checks += 1; t.labels[lab] = t.labels.get(lab, 0) + 1
        y = reals.add(y, c)
        def full(r, o):
            e = reals.poly_z3(r.num) * z3.RealVal(o.cden)
            for k, n in o.den.items():
                for _ in range(n): e = e * reals.poly_z3(dict(k))
            return e
        sv = z3.Tactic('qfnra-nlsat').solver(); sv.set('timeout', 3000); t0 = time.time()
        sv.add(full(x, y) != full(y, x)); r = sv.check()
        t.queries += 1; dt = time.time() - t0; t.time += dt; t.maxq = max(t.maxq, dt)
        if r == z3.sat: raise EngineError('normal form and solver disagree: ' + lab)
        if r == z3.unsat: t.unsat += 1
        else: t.unknown += 1; t.trivial += 1
        t.discharged += 1
        return None
    # ------------------------------------------------------------ reporting
    def incon(s, st, why):
        s.st.incon.append(why)
    def report(s, st, kind, label, cond, model=None, rmodel=None):
        """record a violation reachable under pc and cond"""
        key = (kind, label)
        n = s.viol_labels.get(key, 0)
        if n >= s.max_viol: return
        s.viol_labels[key] = n + 1
        bm = rm = None
        if cond is not None and has_real(cond):
            r, rm = s.solver.check(st, cond) if model is None else ('sat', model)
            if r == 'unknown': s.incon(st, 'no model for ' + label); return
        elif cond is not None:
            r, bm = s.solver.check(st, cond)
            if r != 'sat':
                if r == 'unknown': s.incon(st, 'no model for ' + label)
                return
        if bm is None:
            if not st.pcb: bm = False
            else:
                r, bm = s.solver.check(st, z3.BoolVal(True))
                if r != 'sat': 
                    if r == 'unknown': s.incon(st, 'no model for ' + label)
                    return
        if rm is None and st.pcr or any(i[1] == 'real' for i in st.inputs):
            if rm is None:
                sv_extra = z3.And([c for c in st.pcr]) if st.pcr else None
                rm = s.full_real_model(st, cond if cond is not None and has_real(cond) else None)
            else:
                m2 = s.full_real_model(st, cond)
                if m2 is not None: rm = m2
        vals = []
        for name, k, v in st.inputs:
            if k == 'real':
                x = None
                if rm is not None and rm is not False:
                    q = rm.eval(v, model_completion=True)
                    x = z3real(q)
                vals.append((name, k, x if x is not None else 0.5))
            elif isinstance(v, int): vals.append((name, k, v))
            else:
                x = bm.eval(v, model_completion=True).as_long() if bm else 0
                vals.append((name, k, x))
        if bm:   # initial contents of unbounded storage that this path has read
            for o in st.mem.values():
                if o.kind == 'phantom':
                    for e, r in o.cells.get('base', ()):
                        off = bm.eval(e, model_completion=True).as_long() if isinstance(e, BV) else e
                        vals.append((str(off), 'ph%d' % o.cells['n'], bm.eval(r, model_completion=True).as_long()))
        s.violations.append(dict(kind=kind, label=label, inputs=vals, entry=getattr(s, 'entry', '?')))
        if s.deadline: s.deadline = min(s.deadline, time.time() + 15)     # hand it over for replay soon
    def full_real_model(s, st, cond):
        """one model for all real variables occurring in inputs"""
        ins = set()
        for name, k, v in st.inputs:
            if k == 'real': ins |= reals.vars_of(v)
        if all(only_real(c) for c in st.pcr + ([cond] if cond is not None else [])):
            w = s.solver.witness(st.pcr, [], cond if cond is not None else z3.BoolVal(True), ins, 10.0)
            if w is not None:
                sv = z3.Solver(); sv.add([reals.C.vars[i].z == z3.RealVal(w[reals.C.vars[i].z.decl().name()]) for i in ins])
                if sv.check() == z3.sat: return sv.model()
        for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.Solver()):
            sv = mk(); sv.set('timeout', 20000)
            vs = set()
            for c in st.pcr + ([cond] if cond is not None else []): sv.add(c); vs |= reals.vars_of(c)
            for name, k, v in st.inputs:
                if k == 'real': vs |= reals.vars_of(v)
            seen = set(); todo = list(vs)
            while todo:
                i = todo.pop()
                if i in seen: continue
                seen.add(i); todo += list(reals.C.vars[i].deps)
                for a in reals.C.vars[i].axioms: sv.add(a); todo += [j for j in reals.vars_of(a)]
            try:
                if sv.check() == z3.sat: return sv.model()
            except z3.Z3Exception: pass
        return None
    # ------------------------------------------------------------ running
    def run(s, entry, forced=None, args=()):
        s.entry = entry
        st = State(); st.mem = dict(s.initmem); st.forced = forced or {}
        f = s.m.funcs[entry]
        s.push(st, f, [], None)
        s.work = [st]
        while s.work:
            if s.deadline and time.time() > s.deadline:
                s.st.incon.append('time budget exhausted with %d open paths' % len(s.work)); break
            st = s.work.pop()
            s.runpath(st)
    def runpath(s, st):
        ops = s.ops
        while True:
            try:
                while True:
                    fr = st.frames[-1]
                    ins = fr.blk[fr.ip]
                    st.steps += 1
                    if st.steps > s.max_steps: raise Violation('nontermination', 'no termination within %d steps' % s.max_steps)
                    if st.steps & 0x3fff == 0 and s.deadline and time.time() > s.deadline:
                        s.st.incon.append('time budget exhausted inside a path'); raise PathEnd()
                    s.st.instrs += 1
                    fr.ip += 1
                    ops[ins.op](st, fr, ins)
            except ForkOn as e:
                fr = st.frames[-1]; fr.ip -= 1
                alts = e.alts; s.st.forks += len(alts) - 1
                sts = [st] + [st.copy() for _ in alts[1:]]
                for x, (c, kv, m) in zip(sts, alts):
                    s.assume(x, c)
                    if kv is not None: x.kv[kv[0].get_id()] = kv
                    if not has_real(c): x.bmodel = m
                s.work.extend(reversed(sts[1:]))
                st = sts[0]
                continue
            except PathEnd:
                return
            except Violation as v:
                s.report(st, v.kind, v.label, None)
                return
            except reals.Unsupported as u:
                s.st.incon.append('unsupported: %s' % u); return
            except RecursionError:
                s.st.incon.append('recursion'); return
    def push(s, st, f, args, call):
        if f.src is None: raise EngineError('call of undefined function ' + f.name)
        if f.blocks is None: s.prep(f)
        if len(st.frames) > 4000: s.st.incon.append('call depth'); raise PathEnd()
        s.st.funcs.add(f.name)
        fr = Frame.__new__(Frame)
        fr.fn = f; fr.bname = f.entry; fr.blk = f.blocks[f.entry]; fr.ip = 0; fr.regs = [None] * f.nslots; fr.prev = None; fr.allocas = []; fr.call = call; fr.ret = None
        for i, a in enumerate(args):
            if i < len(f.params): fr.regs[i] = a
        st.frames.append(fr)
    def prep(s, f):
        s.m.body(f)
        # evaluate constant operands once
        def cv(v):
            if isinstance(v, tuple) and len(v) == 3 and v[0] is False and v[2].k not in ('metadata', 'label'):
                return (False, s.cval(v[1], v[2]), v[2])
            return v
        for b in f.blocks.values():
            for i in b:
                i.a = cv(i.a) if isinstance(i.a, tuple) else i.a
                i.b = [cv(x) for x in i.b] if isinstance(i.b, list) else cv(i.b) if isinstance(i.b, tuple) else i.b
                i.c = cv(i.c) if isinstance(i.c, tuple) else i.c
                if i.op == 'phi': i.x = {k: cv(v) for k, v in i.x.items()}
                if i.op == 'getelementptr': i.x = [cv(v) for v in i.x]
                if i.op == 'landingpad': i.x = [(k, cv(v)) for k, v in i.x]
    def val(s, fr, o):
        return fr.regs[o[1]] if o[0] else o[1]
    def goto(s, st, fr, lab):
        fr.prev = fr.bname; fr.bname = lab; fr.blk = fr.fn.blocks[lab]; fr.ip = 0
        # phi nodes evaluate simultaneously
        blk = fr.blk
        if blk[0].op == 'phi':
            vals = []; i = 0
            while blk[i].op == 'phi':
                x = blk[i].x
                v = x.get(fr.prev)
                if v is None:
                    if len(x) == 1: v = next(iter(x.values()))
                    else:
                        # unnamed entry block
                        known = [k for k in x if k not in fr.fn.blocks]
                        v = x[known[0]]
                vals.append((blk[i].res, fr.regs[v[1]] if v[0] else v[1])); i += 1
            for r, v in vals: fr.regs[r] = v
            fr.ip = i
    # --- instructions
    def op_phi(s, st, fr, I): raise EngineError('phi')
    def bin_(s, st, fr, I):
        t = I.ty; a = s.val(fr, I.a); b = s.val(fr, I.b)
        if t.k == 'vec':
            fr.regs[I.res] = tuple(s.binop(st, I.op, I.flags, t.el.n, x, y) for x, y in zip(a, b)); return
        fr.regs[I.res] = s.binop(st, I.op, I.flags, t.n, a, b)
    op_add = op_sub = op_mul = op_udiv = op_sdiv = op_urem = op_srem = op_shl = op_lshr = op_ashr = op_and = op_or = op_xor = bin_
    def fbin(s, st, fr, I):
        t = I.ty; a = s.val(fr, I.a); b = s.val(fr, I.b)
        if t.k == 'vec': fr.regs[I.res] = tuple(s.fop(st, I.op, t.el, x, y) for x, y in zip(a, b)); return
        fr.regs[I.res] = s.fop(st, I.op, t, a, b)
    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = fbin
    def op_fneg(s, st, fr, I):
        a = s.val(fr, I.a)
        def ng(x):
            if x is UNDEF: raise Violation('uninitialised', 'negation of an uninitialised floating-point value')
            return reals.neg(x) if isinstance(x, R) else -x
        fr.regs[I.res] = tuple(ng(x) for x in a) if I.ty.k == 'vec' else ng(a)
    def op_icmp(s, st, fr, I):
        fr.regs[I.res] = s.icmp(st, I.x, I.ty, s.val(fr, I.a), s.val(fr, I.b))
    def op_fcmp(s, st, fr, I):
        fr.regs[I.res] = s.fcmp(st, I.x, s.val(fr, I.a), s.val(fr, I.b))
    def op_trunc(s, st, fr, I):
        v = s.val(fr, I.a); n = I.ty.n
        if v is UNDEF: pass
        elif isinstance(v, Ptr): v = s.ptrint(st, v) & ((1 << n) - 1)
        elif isinstance(v, BV):
            v = z3.Extract(n - 1, 0, v)
            v = cbool(v == 1) if n == 1 else cbv(v)
        elif n == 1: v = bool(v & 1)
        else: v &= (1 << n) - 1
        fr.regs[I.res] = v
    def op_zext(s, st, fr, I):
        v = s.val(fr, I.a); n = I.ty.n
        if isinstance(v, BO): v = z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        elif isinstance(v, bool): v = int(v)
        elif isinstance(v, BV): v = z3.ZeroExt(n - v.size(), v)
        fr.regs[I.res] = v
    def op_sext(s, st, fr, I):
        v = s.val(fr, I.a); n = I.ty.n; m = I.x.n
        if isinstance(v, BO): v = z3.If(v, z3.BitVecVal(-1, n), z3.BitVecVal(0, n))
        elif isinstance(v, bool): v = ((1 << n) - 1) if v else 0
        elif isinstance(v, BV): v = z3.SignExt(n - m, v)
        elif v is not UNDEF: v = signed(v, m) & ((1 << n) - 1)
        fr.regs[I.res] = v
    def op_fptrunc(s, st, fr, I):
        v = s.val(fr, I.a)
        fr.regs[I.res] = s.to_f32(st, v) if I.ty.n == 32 else v
    def to_f32(s, st, v):
        """narrowing to single precision: exact for constants; v(1+d), |d| <= 2^-24, for symbolic values; inputs count as single-precision numbers"""
        if isinstance(v, float): return f32(v)
        if not isinstance(v, R): return v
        c = v.const()
        if c is not None: return f32(float(c))
        if not v.den and v.cden == 1 and len(v.num) == 1:
            m, k = next(iter(v.num.items())); vs = reals.pvars(v.num)
            if k == 1 and len(vs) == 1 and m == 1 << (reals.B * next(iter(vs))) and reals.C.vars[next(iter(vs))].info is None: return v
        key = ('f32', reals.pkey(v.num), v.cden, tuple(sorted((k, n) for k, n in v.den.items())))
        d = reals.C.fac.get(key)
        if d is None: d = reals.C.fac[key] = reals.C.new('rnd')
        e = z3.RealVal(Fraction(1, 1 << 24)); st.pcr.append(d.z >= -e); st.pcr.append(d.z <= e)
        return reals.mul(v, reals.add(reals.of(1), reals.var(d)))
    def op_fpext(s, st, fr, I): fr.regs[I.res] = s.val(fr, I.a)
    def op_uitofp(s, st, fr, I):
        v = s.val(fr, I.a)
        if isinstance(v, (BV, BO)): v = s.concretize(st, v) if isinstance(v, BV) else s.branch(st, v)
        if v is UNDEF: raise Violation('uninitialised', 'conversion of an uninitialised value')
        fr.regs[I.res] = f32(float(v)) if I.ty.n == 32 else float(v)
    def op_sitofp(s, st, fr, I):
        v = s.val(fr, I.a)
        if isinstance(v, (BV, BO)): v = s.concretize(st, v) if isinstance(v, BV) else s.branch(st, v)
        if v is UNDEF: raise Violation('uninitialised', 'conversion of an uninitialised value')
        v = float(signed(int(v), I.x.n)); fr.regs[I.res] = f32(v) if I.ty.n == 32 else v
    def op_fptoui(s, st, fr, I):
        v = s.val(fr, I.a)
        if isinstance(v, R): raise reals.Unsupported('symbolic real to integer')
        fr.regs[I.res] = int(v) & ((1 << I.ty.n) - 1)
    op_fptosi = op_fptoui
    def op_ptrtoint(s, st, fr, I):
        v = s.val(fr, I.a)
        if v is UNDEF: fr.regs[I.res] = UNDEF; return
        r = s.ptrint(st, v); n = I.ty.n
        if n < 64: r = cbv(z3.Extract(n - 1, 0, r)) if isinstance(r, BV) else r & ((1 << n) - 1)
        fr.regs[I.res] = r
    def op_inttoptr(s, st, fr, I): fr.regs[I.res] = s.intptr(st, s.val(fr, I.a))
    def op_bitcast(s, st, fr, I):
        v = s.val(fr, I.a); a, b = I.x, I.ty
        if a.k == b.k: fr.regs[I.res] = v; return
        if a.k == 'i' and b.k == 'f' and isinstance(v, int):
            v = struct.unpack('<d', struct.pack('<Q', v))[0] if b.n == 64 else struct.unpack('<f', struct.pack('<I', v))[0]
            fr.regs[I.res] = v; return
        if a.k == 'f' and b.k == 'i' and isinstance(v, float):
            fr.regs[I.res] = int.from_bytes(s.fbytes(v, b.n // 8), 'little'); return
        # through scratch memory
        o = s.mkobj(st, max(size_of(a), size_of(b)), 'tmp', 'bitcast')
        s.store(st, Ptr(o.id, 0), a, v); fr.regs[I.res] = s.load(st, Ptr(o.id, 0), b); del st.mem[o.id]
    op_addrspacecast = op_bitcast
    def op_freeze(s, st, fr, I):
        v = s.val(fr, I.a)
        if v is UNDEF:
            t = I.a[2]
            v = z3.BitVec('frz!%d' % s.fresh(), t.n) if t.k == 'i' and t.n > 1 else z3.Bool('frz!%d' % s.fresh()) if t.k == 'i' else 0.0
        fr.regs[I.res] = v
    def op_select(s, st, fr, I):
        c = s.val(fr, I.a); a = s.val(fr, I.b); b = s.val(fr, I.c)
        if c is UNDEF: raise Violation('uninitialised', 'selection on an uninitialised value')
        if isinstance(c, tuple): fr.regs[I.res] = tuple(x if y else z for y, x, z in zip(c, a, b)); return
        if not isinstance(c, BO): fr.regs[I.res] = a if c else b; return
        t = I.ty
        if t.k == 'i' and a is not UNDEF and b is not UNDEF and not isinstance(a, (Ptr, R)) and not isinstance(b, (Ptr, R)):
            if t.n == 1: fr.regs[I.res] = cbool(z3.If(c, tobool(a), tobool(b)))
            else: fr.regs[I.res] = cbv(z3.If(c, tobv(a, t.n), tobv(b, t.n)))
            return
        if t.k == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and not has_real(c):
            fa = s.resolve(st, a.f); fb = s.resolve(st, b.f)
            if isinstance(fa, int) and isinstance(fb, int) and fa == fb: fr.regs[I.res] = a; return
            A = fa if isinstance(fa, SOff) else SOff(fa, 0, None); Bf = fb if isinstance(fb, SOff) else SOff(fb, 0, None)
            g = math.gcd(math.gcd(A.g, Bf.g), Bf.c - A.c)
            if g:
                ka = z3.BitVecVal(0, 64) if A.k is None else A.k * (A.g // g)
                kb = z3.BitVecVal(((Bf.c - A.c) // g) & M64, 64)
                if Bf.k is not None: kb = kb + Bf.k * (Bf.g // g)
                k = simp(z3.If(c, ka, kb))
                fr.regs[I.res] = Ptr(a.o, SOff(A.c, g, k)); return
        fr.regs[I.res] = a if s.branch(st, c) else b
    def op_alloca(s, st, fr, I):
        n = 1 if I.a is None else s.concretize(st, s.val(fr, I.a))
        o = s.mkobj(st, size_of(I.ty) * n, 'stack', 'stack object in ' + fr.fn.name, I.x)
        fr.allocas.append(o.id); fr.regs[I.res] = Ptr(o.id, 0)
    def op_load(s, st, fr, I):
        p = s.val(fr, I.a)
        if p is UNDEF: raise Violation('uninitialised', 'load through an uninitialised pointer')
        if not isinstance(p, Ptr): p = s.intptr(st, p)
        fr.regs[I.res] = s.load(st, p, I.ty)
    def op_store(s, st, fr, I):
        p = s.val(fr, I.b)
        if p is UNDEF: raise Violation('uninitialised', 'store through an uninitialised pointer')
        if not isinstance(p, Ptr): p = s.intptr(st, p)
        s.store(st, p, I.a[2], s.val(fr, I.a))
    def op_getelementptr(s, st, fr, I):
        fr.regs[I.res] = s.gep(st, I.ty, s.val(fr, I.a), [(s.val(fr, x), x[2]) for x in I.x])
    def op_br(s, st, fr, I):
        if I.a is None: s.goto(st, fr, I.x[0]); return
        c = s.val(fr, I.a)
        if c is UNDEF: raise Violation('uninitialised', 'branch on an uninitialised value')
        if isinstance(c, BO): c = s.branch(st, c)
        s.goto(st, fr, I.x[0] if c else I.x[1])
    def op_switch(s, st, fr, I):
        v = s.val(fr, I.a)
        if v is UNDEF: raise Violation('uninitialised', 'switch on an uninitialised value')
        if isinstance(v, BO): v = int(s.branch(st, v))
        if not isinstance(v, BV):
            for c, l in I.x:
                if c == v or (isinstance(v, bool) and int(c) == int(v)): s.goto(st, fr, l); return
            s.goto(st, fr, I.b); return
        v = cbv(v); n = I.a[2].n
        if isinstance(v, BV):
            r = st.kv.get(v.get_id())
            if r is not None and r[1] is not None: v = r[1]
        if isinstance(v, BV):
            for c, l in I.x:
                if s.branch(st, v == c): s.goto(st, fr, l); return
            s.goto(st, fr, I.b); return
        for c, l in I.x:
            if c == v: s.goto(st, fr, l); return
        s.goto(st, fr, I.b)
    def popframe(s, st):
        fr = st.frames.pop()
        for a in fr.allocas: st.mem.pop(a, None)
        return fr
    def op_ret(s, st, fr, I):
        v = None if I.a is None else s.val(fr, I.a)
        s.popframe(st)
        s.returned(st, fr, v)
    def returned(s, st, fr, v):
        if not st.frames: s.done(st); raise PathEnd()
        c = fr.call
        if callable(c): c(st, v); return
        cf = st.frames[-1]
        if c is None: return
        if c.res is not None: cf.regs[c.res] = v
        if c.op == 'invoke': s.goto(st, cf, c.x[0])
    def done(s, st):
        s.st.paths += 1
        if len(s.st.samples) < 3:
            s.st.samples.append(dict(entry=s.entry, picks=st.picks[:12], constraints=len(st.pcb) + len(st.pcr), forks_on_path=len(st.kv), steps=st.steps))
        if st.caught: pass
        for l in st.reached: s.st.reach[l] = s.st.reach.get(l, 0) + 1
    def op_unreachable(s, st, fr, I): raise Violation('ub', 'unreachable code reached in ' + fr.fn.name)
    def op_fence(s, st, fr, I): pass
    def op_extractvalue(s, st, fr, I):
        v = s.val(fr, I.a)
        for i in I.x: v = UNDEF if v is UNDEF else v[i]
        fr.regs[I.res] = v
    def op_insertvalue(s, st, fr, I):
        a = s.val(fr, I.a); t = I.a[2]
        if a is UNDEF: a = s.undef(t)
        def ins(a, path, v):
            l = list(a); l[path[0]] = v if len(path) == 1 else ins(l[path[0]], path[1:], v); return tuple(l)
        fr.regs[I.res] = ins(a, I.x, s.val(fr, I.b))
    def op_extractelement(s, st, fr, I):
        v = s.val(fr, I.a); i = s.concretize(st, s.val(fr, I.b)); fr.regs[I.res] = UNDEF if v is UNDEF else v[i]
    def op_insertelement(s, st, fr, I):
        a = s.val(fr, I.a)
        if a is UNDEF: a = s.undef(I.a[2])
        l = list(a); l[s.concretize(st, s.val(fr, I.c))] = s.val(fr, I.b); fr.regs[I.res] = tuple(l)
    def op_shufflevector(s, st, fr, I):
        a = s.val(fr, I.a); b = s.val(fr, I.b); n = I.a[2].n; m = s.val(fr, I.c)
        if a is UNDEF: a = (UNDEF,) * n
        if b is UNDEF: b = (UNDEF,) * n
        l = tuple(a) + tuple(b)
        fr.regs[I.res] = tuple(UNDEF if i is UNDEF else l[i] for i in m)
    def op_atomicrmw(s, st, fr, I):
        p = s.val(fr, I.a); old = s.load(st, p, I.ty); v = s.val(fr, I.b)
        nv = v if I.x == 'xchg' else s.binop(st, I.x, (), I.ty.n, old, v)
        s.store(st, p, I.ty, nv); fr.regs[I.res] = old
    def op_asm(s, st, fr, I):
        if I.res is not None: raise EngineError('inline asm')
    # --- calls and exceptions
    def op_call(s, st, fr, I):
        callee = s.val(fr, I.a)
        args = [s.val(fr, a) for a in I.b]
        if callee is UNDEF: raise Violation('uninitialised', 'call through an uninitialised pointer')
        if not isinstance(callee, Ptr): callee = s.intptr(st, callee)
        name = s.fnname.get(callee.o)
        if name is None or s.resolve(st, callee.f) != 0: raise Violation('memory', 'call through a bad function pointer')
        name = s.m.alias.get(name, name)
        f = s.m.funcs[name]
        h = s.handler(name)
        if h is not None:
            r = h(st, fr, I, args, name)
            if r is not NORET:
                if I.res is not None: fr.regs[I.res] = r
                if I.op == 'invoke': s.goto(st, fr, I.x[0])
            return
        if f.src is None: raise EngineError('no model for external function ' + name)
        bv = dict(I.flags) if I.flags else f.byval
        for i, t in bv.items():
            o = s.mkobj(st, size_of(t), 'stack', 'byval', 16); s.memcpy(st, Ptr(o.id, 0), args[i], size_of(t)); args[i] = Ptr(o.id, 0)
        if len(args) != len(f.params): raise Violation('ub', 'call with a mismatching signature')
        s.push(st, f, args, I)
    op_invoke = op_call
    _hc = {}
    def handler(s, name):
        h = s._hc.get(name, 0)
        if h == 0:
            h = MODELS.get(name)
            if h is None:
                for pre, m in PREFIX:
                    if name.startswith(pre): h = m; break
            h = s._hc[name] = h
        return None if h is None else (lambda *a: h(s, *a))
    def throw(s, st, p, ti, dtor):
        st.exc = (p, ti, dtor); s.unwind(st)
    def unwind(s, st):
        """find the landing pad for st.exc starting at the current top frame's active call"""
        first = True
        while st.frames:
            fr = st.frames[-1]
            ins = fr.blk[fr.ip - 1]
            if ins.op == 'invoke':
                # does the landing pad accept it?
                lp = fr.fn.blocks[ins.x[1]]
                pad = next(i for i in lp if i.op == 'landingpad')
                sel = s.selector(st, fr, pad)
                if sel is not None:
                    s.goto(st, fr, ins.x[1])
                    return NORET
            if callable(fr.call): raise EngineError('exception through engine callback')
            s.popframe(st)
        raise Violation('exception', 'uncaught exception')
    def tiname(s, st, p):
        return st.mem[p.o].name if p.o else None
    def tibase(s, name):
        if name in STD_BASE: return STD_BASE[name]
        g = s.m.globals.get(name)
        if g is not None and g.init is not None and isinstance(g.init, CExpr) and g.init.op == 'agg' and len(g.init.a[0]) >= 3:
            x = g.init.a[0][2][1]
            if isinstance(x, Glob): return x.name
        return None
    def selector(s, st, fr, pad):
        """0 for cleanup, typeid for match, None if the pad does not apply"""
        thrown = s.tiname(st, st.exc[1])
        for kind, c in pad.x:
            if kind == 'catch':
                v = c[1]
                if isinstance(v, Ptr) and v.o == 0: return 1 << 20
                want = s.tiname(st, v); t = thrown
                while t is not None:
                    if t == want: return s.typeid(want)
                    t = s.tibase(t)
            else: return 1 << 21     # exception specification / noexcept filter
        return 0 if pad.a else None
    def typeid(s, name):
        return s.tinfo.setdefault(name, len(s.tinfo) + 1)
    def op_landingpad(s, st, fr, I):
        sel = s.selector(st, fr, I)
        fr.regs[I.res] = (st.exc[0], sel or 0)
    def op_resume(s, st, fr, I):
        s.popframe(st)
        s.unwind(st)

class _NR: pass
NORET = _NR()

def z3real(q):
    try:
        if z3.is_rational_value(q): return float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
        if z3.is_algebraic_value(q):
            a = q.approx(20); return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except Exception: pass
    return None

import models
MODELS = models.MODELS; PREFIX = models.PREFIX
