"""Exact rational functions over real symbols, used for symbolic floating-point values.

R = num / (cden * prod(den_i^k_i));  num, den_i are integer polynomials (dict packed-monomial -> int),
cden a positive integer.  Monomials are packed: exponent of variable i occupies bits [B*i, B*i+B).
All transcendental functions are introduced as fresh variables with (sound) axioms and the
exact inverse laws (tan(atan t) = t, pow(10, log10 x) = x, asinh(sinh x) = x, exp(k*log g) = g^k).
"""
import heapq, math
from fractions import Fraction
import z3

B = 12
MASK = (1 << B) - 1

class Unsupported(Exception): pass

class Var:
    __slots__ = ('i', 'name', 'z', 'axioms', 'rule', 'deps', 'info', 'ths')
    def __init__(s, i, name):
        s.i = i; s.name = name; s.z = z3.Real(name); s.axioms = []; s.rule = None; s.deps = set(); s.info = None; s.ths = []

class Ctx:
    """one per run: variables and function tables"""
    def __init__(s):
        s.vars = []; s.tan = []; s.inv = {}; s.exps = []; s.logs = []; s.asinh = []; s.roots = []; s.trig = []
        s.log10s = []; s.pool = []; s.fac = {}; s.hints = []; s.pow10 = []
    def new(s, name):
        v = Var(len(s.vars), '%s!%d' % (name, len(s.vars))); s.vars.append(v); return v

C = Ctx()
def reset():
    global C
    C = Ctx()

# ------------------------------------------------------------ integer polynomials
def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def pscale(a, k):
    if k == 1: return a
    return {m: c * k for m, c in a.items()} if k else {}
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}
def ppow(a, n):
    r = {0: 1}
    for _ in range(n): r = pmul(r, a)
    return r
def pcontent(a):
    g = 0
    for c in a.values():
        g = math.gcd(g, c)
        if g == 1: break
    return g
def pprim(a):
    """(content with sign, primitive poly with positive leading coefficient)"""
    g = pcontent(a)
    if a[max(a)] < 0: g = -g
    if g == 1: return 1, a
    return g, {m: c // g for m, c in a.items()}
def pkey(a): return tuple(sorted(a.items()))
def pvars(a):
    s = set()
    for m in a:
        i = 0
        while m:
            if m & MASK: s.add(i)
            m >>= B; i += 1
    return s
def pdivexact(a, b):
    """a / b if it divides exactly (over Z), else None"""
    lb = max(b); cb = b[lb]; rb = [(m, c) for m, c in b.items() if m != lb]
    # cheap rejections: content of the trailing monomial and the values at a point
    if min(a) < min(b): return None
    if cb != 1 and a[max(a)] % cb: return None
    a = dict(a); q = {}; steps = 0; h = [-m for m in a]; heapq.heapify(h)
    while h:
        la = -heapq.heappop(h)
        ca = a.pop(la, 0)
        if not ca: continue
        m = la - lb
        if m < 0: return None
        x = la; y = lb
        while y:
            if (x & MASK) < (y & MASK): return None
            x >>= B; y >>= B
        if ca % cb: return None
        k = ca // cb
        q[m] = k
        for mb, c in rb:
            t = m + mb; o = a.get(t)
            if o is None: a[t] = -k * c; heapq.heappush(h, -t)
            else: a[t] = o - k * c
        steps += 1
        if steps > 20000: return None
    return q

def mono_z3(m):
    fs = []; i = 0
    while m:
        e = m & MASK
        if e:
            z = C.vars[i].z
            fs.append(z if e == 1 else z ** e)
        m >>= B; i += 1
    return fs
def poly_z3(a):
    # scale down: huge integer coefficients are kept exact
    ts = []
    for m, c in a.items():
        fs = mono_z3(m)
        if not fs: ts.append(z3.RealVal(c)); continue
        t = fs[0]
        for f in fs[1:]: t = t * f
        ts.append(t if c == 1 else z3.RealVal(c) * t)
    if not ts: return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)

def peval(a, env):
    r = 0.0
    for m, c in a.items():
        t = 1.0; i = 0
        while m:
            e = m & MASK
            if e: t *= env(i) ** e
            m >>= B; i += 1
        try: r += float(c) * t
        except OverflowError: r += float(Fraction(c)) * t
    return r

class R:
    __slots__ = ('num', 'cden', 'den')
    def __init__(s, num, cden=1, den=None):
        s.num = num; s.cden = cden; s.den = den or {}
    def __repr__(s):
        return 'R(%d terms/%s)' % (len(s.num), {len(k): p for k, p in s.den.items()})
    def norm(s):
        if not s.num: return R({})
        if s.cden != 1:
            g = math.gcd(pcontent(s.num), s.cden)
            if g > 1: s.num = {m: c // g for m, c in s.num.items()}; s.cden //= g
        return s
    def const(s):
        """Fraction if constant else None"""
        if not s.num: return Fraction(0)
        if len(s.num) == 1 and 0 in s.num and not s.den: return Fraction(s.num[0], s.cden)
        return None
    def vars(s):
        v = pvars(s.num)
        for k in s.den: v |= pvars(dict(k))
        return v

def of(x):
    if isinstance(x, R): return x
    if isinstance(x, Fraction): f = x
    else:
        if isinstance(x, float) and not math.isfinite(x): raise Unsupported('non-finite float meets symbolic real')
        f = Fraction(x)
    return R({0: f.numerator} if f.numerator else {}, f.denominator)
def var(v): return R({1 << (B * v.i): 1})

def reduce_rules(r):
    """apply var^n -> rule for algebraic variables occurring in the numerator"""
    changed = True
    while changed:
        changed = False
        for i in pvars(r.num):
            v = C.vars[i]
            if v.rule is None: continue
            n, rhs = v.rule
            groups = {}
            for m, c in r.num.items():
                e = (m >> (B * i)) & MASK
                groups.setdefault(e // n, {})[m - ((e - e % n) << (B * i))] = c
            if max(groups) == 0: continue
            tot = R({})
            p = of(1)
            for k in range(max(groups) + 1):
                if k in groups: tot = _add(tot, _mul(R(groups[k], r.cden, dict(r.den)), p))
                if k < max(groups): p = _mul(p, rhs)
            r = tot; changed = True
            break
    return r

def _dkeymul(d1, d2):
    d = dict(d1)
    for k, p in d2.items(): d[k] = d.get(k, 0) + p
    return d
def _add(a, b):
    if not a.num: return b
    if not b.num: return a
    if a.den == b.den:
        if a.cden == b.cden: return R(padd(a.num, b.num), a.cden, a.den).norm()
        l = a.cden * b.cden // math.gcd(a.cden, b.cden)
        return R(padd(pscale(a.num, l // a.cden), pscale(b.num, l // b.cden)), l, a.den).norm()
    l = a.cden * b.cden // math.gcd(a.cden, b.cden)
    na = pscale(a.num, l // a.cden); nb = pscale(b.num, l // b.cden)
    den = dict(a.den)
    for k, p in b.den.items():
        if p > den.get(k, 0): den[k] = p
    for k, p in den.items():
        x = p - a.den.get(k, 0)
        if x: na = pmul(na, ppow(dict(k), x))
        x = p - b.den.get(k, 0)
        if x: nb = pmul(nb, ppow(dict(k), x))
    r = R(padd(na, nb), l, den).norm()
    return cancel(r) if r.den else r
def cancel(r):
    """divide common factors out of the numerator"""
    if not r.num: return R({})
    for k in list(r.den):
        while r.den.get(k):
            if len(r.num) > 8000: break
            q = pdivexact(r.num, dict(k))
            if q is None: break
            den = dict(r.den)
            den[k] -= 1
            if not den[k]: del den[k]
            r = R(q, r.cden, den)
    return r
def _mul(a, b):
    if not a.num or not b.num: return R({})
    na, nb, da, db = a.num, b.num, a.den, b.den
    if da and len(nb) > 1 or da and 0 not in nb:
        q = cancel(R(nb, 1, da)); nb, da = q.num, q.den
    if db and len(na) > 1 or db and 0 not in na:
        q = cancel(R(na, 1, db)); na, db = q.num, q.den
    return R(pmul(na, nb), a.cden * b.cden, _dkeymul(da, db) if db else da).norm()
def add(a, b): return _add(of(a), of(b))
def neg(a): a = of(a); return R(pscale(a.num, -1), a.cden, a.den)
def sub(a, b): return add(a, neg(b))
def mul(a, b):
    r = _mul(of(a), of(b))
    if any(v.rule for v in C.vars): r = reduce_rules(r)
    return r
def inv(a):
    """1/a; caller has checked that the numerator cannot vanish"""
    a = of(a)
    c, p = pprim(a.num)
    num = {0: a.cden}
    for k, n in a.den.items(): num = pmul(num, ppow(dict(k), n))
    if c < 0: num = pscale(num, -1); c = -c
    if len(p) == 1 and 0 in p: return R(num, c * p[0]).norm()
    # a single monomial factors into variables
    if len(p) == 1:
        m, cc = next(iter(p.items())); den = {}
        i = 0
        while m:
            e = m & MASK
            if e: den[pkey({1 << (B * i): 1})] = e
            m >>= B; i += 1
        return cancel(R(num, c * cc, den).norm())
    # split off known denominator factors, so that equal factors meet again
    den = {}
    for k, q in C.pool:
        if len(q) > len(p) * 3 or max(q) > max(p): continue
        while len(p) > 1:
            x = pdivexact(p, q)
            if x is None: break
            den[k] = den.get(k, 0) + 1; p = x
    if len(p) == 1 and 0 in p: c *= p[0]
    else:
        k = pkey(p); den[k] = den.get(k, 0) + 1
        if den[k] == 1 and len(p) < 200 and len(C.pool) < 64: C.pool.append((k, p))
    return cancel(R(num, c, den).norm())
def div(a, b): return mul(a, inv(b))
def powi(a, n):
    a = of(a)
    if n < 0: return powi(inv(a), -n)
    r = of(1)
    for _ in range(n): r = mul(r, a)
    return r

def near_zero(d, ref):
    """all coefficients of d negligible against ref's (identity up to rounding of constants)"""
    if not d.num: return True
    md = max(abs(c) for c in d.num.values()); 
    if not ref.num: return False
    # compare on common denominator by evaluating at sample points
    import random
    rnd = random.Random(7)
    for _ in range(6):
        vals = {}
        def env(i):
            if i not in vals: vals[i] = rnd.uniform(0.3, 1.7)
            return vals[i]
        x = reval(d, env); y = reval(ref, env)
        if not abs(x) <= 1e-11 * abs(y): return False
    return True
def reval(r, env):
    try:
        n = peval(r.num, env) / r.cden; d = 1.0
        for k, p in r.den.items(): d *= peval(dict(k), env) ** p
        if math.isfinite(n) and math.isfinite(d) and d: return n / d
    except OverflowError: pass
    def ex(a):  # exactly
        t = Fraction(0)
        for m, c in a.items():
            i = 0; x = Fraction(c)
            while m:
                if m & MASK: x *= Fraction(env(i)) ** (m & MASK)
                m >>= B; i += 1
            t += x
        return t
    n = ex(r.num) / r.cden
    for k, p in r.den.items():
        d = ex(dict(k))
        if not d: return float('nan')
        n /= d ** p
    try: return float(n)
    except OverflowError: return math.inf if n > 0 else -math.inf
def close(a, b):
    a = of(a); b = of(b)
    return near_zero(sub(a, b), a if a.num else b)

def den_poly_odd(r):
    """list of denominator factors with odd power"""
    return [dict(k) for k, p in r.den.items() if p % 2]

# ------------------------------------------------------------ transcendental functions
def lin_ratio(a, b):
    """constant c with a == c*b (up to rounding) or None"""
    try:
        q = div(a, b)
    except ZeroDivisionError: return None
    c = q.const()
    if c is not None: return float(c)
    import random
    rnd = random.Random(3); rs = []
    for _ in range(4):
        vals = {}
        def env(i):
            if i not in vals: vals[i] = rnd.uniform(0.3, 1.7)
            return vals[i]
        y = reval(of(b), env)
        if y == 0: return None
        rs.append(reval(of(a), env) / y)
    if all(abs(x - rs[0]) <= 1e-11 * abs(rs[0]) for x in rs): return rs[0]
    return None

def cmp0z(r, op):
    """z3 constraint  r op 0  (denominators assumed non-zero)"""
    e = poly_z3(r.num)
    for f in den_poly_odd(r): e = e * poly_z3(f)
    return {'>': e > 0, '<': e < 0, '>=': e >= 0, '<=': e <= 0, '==': poly_z3(r.num) == 0, '!=': poly_z3(r.num) != 0}[op]

def deps(v, r):
    v.deps |= r.vars()

def f_log(x):
    x = of(x)
    for (a, L) in C.logs:
        if close(a, x): return var(L)
    for (a, E) in C.exps:      # log(exp(a)) = a
        if close(var(E), x): return a
    v = C.new('log'); C.logs.append((x, v)); deps(v, x)
    d = sub(x, 1)
    v.axioms += [z3.Implies(cmp0z(d, '>'), v.z > 0), z3.Implies(cmp0z(d, '<'), v.z < 0), z3.Implies(cmp0z(d, '=='), v.z == 0)]
    v.info = ('log', x)
    return var(v)
def f_exp(x):
    x = of(x)
    for (a, L) in C.logs:
        c = lin_ratio(x, var(L))
        if c is not None and abs(c - round(c)) < 1e-9 and abs(c) > 0.5: return powi(a, round(c))
    for (a, E) in C.exps:
        c = lin_ratio(x, a)
        if c is not None and abs(c - round(c)) < 1e-9 and abs(c) > 0.5: return powi(var(E), round(c))
    v = C.new('exp'); C.exps.append((x, v)); deps(v, x)
    v.axioms += [v.z > 0, z3.Implies(cmp0z(x, '>'), v.z > 1), z3.Implies(cmp0z(x, '<'), v.z < 1), z3.Implies(cmp0z(x, '=='), v.z == 1)]
    v.info = ('exp', x)
    return var(v)
def f_sinh(x):
    e = f_exp(x); r = mul(sub(e, inv(e)), Fraction(1, 2)); C.asinh.append((r, of(x))); return r
def f_cosh(x):
    e = f_exp(x); return mul(add(e, inv(e)), Fraction(1, 2))
def f_asinh(x):
    x = of(x)
    for (a, y) in C.asinh:
        if close(a, x): return y
    v = C.new('easinh'); deps(v, x)      # v = exp(asinh x) > 0,  v^2 - 1 = 2 x v
    d = sub(sub(powi(var(v), 2), 1), mul(mul(2, x), var(v)))
    v.axioms += [v.z > 0, cmp0z(d, '==')]
    v.info = ('easinh', x)
    y = f_log(var(v))
    C.asinh.append((x, y))
    return y
def f_log10(x):
    x = of(x)
    for (a, L) in C.log10s:
        if close(a, x): return var(L)
    v = C.new('log10'); C.log10s.append((x, v)); deps(v, x)
    d = sub(x, 1)
    v.axioms += [z3.Implies(cmp0z(d, '>'), v.z > 0), z3.Implies(cmp0z(d, '<'), v.z < 0)]
    v.info = ('log10', x)
    return var(v)
def f_root(x, n):
    """x^(1/n) for x >= 0"""
    x = of(x)
    for (a, k, v) in C.roots:
        if k == n and close(a, x): return var(v)
    # root of a perfect power of a single product of variables is left to the solver
    if n == 2:
        s = perfect_square(x)
        if s is not None:
            v = C.new('abs'); deps(v, s); v.rule = None
            # |s|
            v.axioms += [v.z >= 0]
            d1 = sub(var(v), s); d2 = add(var(v), s)
            v.axioms += [z3.Or(cmp0z(d1, '=='), cmp0z(d2, '=='))]
            v.rule = (2, x); v.info = ('root', x, 2)
            C.roots.append((x, n, v))
            return var(v)
    v = C.new('root%d' % n); deps(v, x); v.rule = (n, x)
    d = sub(powi_raw(v, n), x)
    v.axioms += [v.z >= 0, cmp0z(d, '==')]
    v.info = ('root', x, n)
    C.roots.append((x, n, v))
    return var(v)
def powi_raw(v, n):
    return R({n << (B * v.i): 1})
def psqrt(p):
    """square root polynomial (with Z coefficients) or None"""
    if not p: return {}
    lm = max(p); 
    x = lm; i = 0
    while x:
        if (x & MASK) % 2: return None
        x >>= B
    def half(m):
        r = 0; i = 0
        while m:
            if (m & MASK) % 2: return None
            r |= ((m & MASK) // 2) << (B * i); m >>= B; i += 1
        return r
    if p[lm] < 0: return None
    c = math.isqrt(p[lm])
    if c * c != p[lm]: return None
    s = {half(lm): c}
    ls = half(lm)
    rem = padd(p, pscale(pmul(s, s), -1))
    for _ in range(200):
        if not rem: return s
        m = max(rem); k = rem[m]
        q = m - ls
        if q < 0: return None
        x, y = m, ls
        while y:
            if (x & MASK) < (y & MASK): return None
            x >>= B; y >>= B
        if k % (2 * c): return None
        if q >= ls and q in s: return None
        t = {q: k // (2 * c)}
        rem = padd(rem, pscale(padd(pscale(pmul(s, t), 2), pmul(t, t)), -1))
        s = padd(s, t)
    return None
def perfect_square(x):
    if x.const() is not None: return None
    for p in x.den.values():
        if p % 2: return None
    c = math.isqrt(x.cden)
    num, cd = x.num, x.cden
    if c * c != cd:
        num = pscale(num, cd); cd = cd * cd; c = x.cden
    s = psqrt(num)
    if s is None: return None
    return R(s, c, {k: p // 2 for k, p in x.den.items()}).norm()
def f_pow(x, y):
    """x symbolic or concrete, y symbolic or concrete (at least one symbolic)"""
    if not isinstance(y, R) or y.const() is not None:
        c = float(y if not isinstance(y, R) else y.const())
        if abs(c - round(c)) < 1e-12 and abs(c) <= 64: return powi(x, round(c))
        if c > 0:
            n = 1 / c
            if abs(n - round(n)) < 1e-9 and round(n) <= 64: return f_root(x, round(n))
        return f_exp(mul(c, f_log(x)))
    if not isinstance(x, R):
        if x == 10.0:
            for (a, L) in C.log10s:
                c = lin_ratio(y, var(L))
                if c is not None and abs(c - round(c)) < 1e-9 and abs(c) > 0.5: return powi(a, round(c))
            for (a, v) in C.pow10:
                c = lin_ratio(y, a)
                if c is not None and abs(c - round(c)) < 1e-9 and abs(c) > 0.5: return powi(var(v), round(c))
            v = C.new('pow10'); C.pow10.append((of(y), v)); deps(v, of(y))
            v.axioms += [v.z > 0, z3.Implies(cmp0z(of(y), '>'), v.z > 1), z3.Implies(cmp0z(of(y), '<'), v.z < 1)]
            v.info = ('pow10', of(y))
            return var(v)
        return f_exp(mul(y, math.log(x)))
    return f_exp(mul(y, f_log(x)))
def f_atan(t):
    t = of(t)
    v = C.new('atan'); deps(v, t)
    v.axioms += [z3.Implies(cmp0z(t, '>'), z3.And(v.z > 0, v.z < z3.RealVal('1.5707964'), cmp0z(sub(t, var(v)), '>'), cmp0z(sub(mul(var(v), add(1, mul(t, t))), t), '>'))),
                 z3.Implies(cmp0z(t, '<'), z3.And(v.z < 0, v.z > z3.RealVal('-1.5707964')))]
    v.info = ('atan', t)
    C.tan.append((var(v), t))
    return var(v)
def f_tan(x):
    x = of(x)
    for (a, t) in C.tan:
        if close(a, x): return t
        if close(neg(a), x): return neg(t)
        c = lin_ratio(x, a)
        if c is not None and abs(c - 2) < 1e-9:      # tan 2a = 2t/(1-t^2)
            d = sub(1, mul(t, t)); return div(mul(2, t), d)
        if c is not None and abs(c - 0.5) < 1e-9:    # tan(a/2) = u, 2u/(1-u^2) = t ; pick u with |u|<1 for |a|<pi/2
            v = C.new('tanh_'); deps(v, t)
            d = sub(mul(t, sub(1, powi_raw(v, 2))), mul(2, var(v)))
            v.axioms += [v.z > -1, v.z < 1, cmp0z(d, '==')]; v.info = ('tanhalf', t)
            C.tan.append((x, var(v))); return var(v)
    v = C.new('tan'); deps(v, x)
    v.axioms += [z3.Implies(z3.And(cmp0z(x, '>'), cmp0z(sub(x, Fraction(157, 100)), '<')), cmp0z(sub(var(v), x), '>'))]
    v.info = ('tan', x)
    C.tan.append((x, var(v)))
    return var(v)
def f_cossin(x):
    x = of(x)
    for (a, c, s) in C.trig:
        if close(a, x): return var(c), var(s)
        if close(neg(a), x): return var(c), neg(var(s))
        k = lin_ratio(x, a)
        if k is not None and abs(k - 2) < 1e-9:
            return sub(mul(2, mul(var(c), var(c))), 1), mul(2, mul(var(c), var(s)))
    c = C.new('cos'); s = C.new('sin'); deps(c, x); deps(s, x); c.deps.add(s.i); s.deps.add(c.i)
    s.rule = (2, R({0: 1, 2 << (B * c.i): -1}))
    c.axioms += [c.z * c.z + s.z * s.z == 1, c.z <= 1, c.z >= -1, s.z <= 1, s.z >= -1]
    c.info = ('cos', x); s.info = ('sin', x)
    C.trig.append((x, c, s))
    return var(c), var(s)

_INV = {'log10': lambda c: 10.0 ** c, 'log': math.exp, 'exp': lambda c: math.log(c) if c > 0 else None, 'pow10': lambda c: math.log10(c) if c > 0 else None, 'atan': lambda c: math.tan(c) if abs(c) < 1.57 else None}
def thresholds(d):
    """d is compared with 0: where that compares a monotone function of x with a constant, state what it means for x"""
    for i in pvars(d.num):
        v = C.vars[i]
        if v.info is None or v.info[0] not in _INV: continue
        A = {}; B0 = {}; sh = B * i; mask = ((1 << B) - 1) << sh; ok = True
        for m, k in d.num.items():
            e = (m & mask) >> sh
            if e == 1: A[m & ~mask] = k
            elif e == 0: B0[m] = k
            else: ok = False; break
        if not ok or not A or set(A) != set(B0): continue
        m0 = next(iter(A)); q = Fraction(B0[m0]) / A[m0]
        if any(Fraction(B0[m]) != q * A[m] for m in A): continue
        c = -q
        if not abs(c) < 300: continue
        if any(c == x for x in v.ths): continue
        g = _INV[v.info[0]](float(c))
        if g is None or not math.isfinite(g): continue
        v.ths.append(c); x = v.info[1]; w = Fraction(abs(g)) / 10 ** 9 + Fraction(1, 10 ** 12); th = z3.RealVal(c)
        v.axioms += [z3.Implies(v.z <= th, cmp0z(sub(x, of(Fraction(g) + w)), '<')), z3.Implies(v.z >= th, cmp0z(sub(x, of(Fraction(g) - w)), '>'))]
def axioms_for(varset):
    """axioms of the variables and everything they depend on"""
    seen = set(); todo = list(varset); out = []
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i); v = C.vars[i]; out += v.axioms
        todo += list(v.deps)
        for a in v.axioms:
            todo += vars_of(a)
    return out
_vcache = {}
def vars_of(e):
    """indices of C.vars occurring in z3 expr e"""
    k = e.get_id()
    r = _vcache.get(k)
    if r is not None: return r[1]
    s = set(); seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.RealSort():
                nm = x.decl().name()
                try: s.add(int(nm.rsplit('!', 1)[1]))
                except Exception: pass
        else: st.extend(x.children())
    _vcache[k] = (e, s)
    return s
