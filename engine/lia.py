"""Exact translation of linear bit-vector constraints to integer arithmetic.

A bit-vector term of n bits is represented by an integer term v with v = bits (mod 2^n) and a known
interval [lo, hi].  Wrap-around is kept by normalising case splits wherever an interval can leave the
window the operation needs, so the translation is exact; terms outside the fragment raise NotLinear.
"""
import z3
class NotLinear(Exception): pass
class Lia:
    def __init__(s): s.cache = {}; s.vars = {}; s.side = {}; s.needs = {}
    def bv(s, e):
        k = e.get_id(); r = s.cache.get(k)
        if r is None: r = s.cache[k] = (e, s._bv(e))
        return r[1]
    def norm(s, t, n, signed):
        """shift t into [0, 2^n) or [-2^(n-1), 2^(n-1))"""
        v, lo, hi = t; M = 1 << n; a = -(M >> 1) if signed else 0; b = a + M - 1
        k0 = (lo - a) // M; k1 = (hi - a) // M
        if k0 == k1: return (v - k0 * M if k0 else v, lo - k0 * M, hi - k0 * M)
        if k1 - k0 > 4: raise NotLinear()
        r = v - k1 * M
        for k in range(k1 - 1, k0 - 1, -1): r = z3.If(v < a + (k + 1) * M, v - k * M if k else v, r)
        return (r, a, b)
    def small(s, t, n):
        """keep the interval from growing without bound"""
        v, lo, hi = t; M = 1 << n
        if -M <= lo and hi < 2 * M: return t
        return s.norm(t, n, False)
    def _bv(s, e):
        n = e.size(); k = e.decl().kind(); ch = e.children()
        if z3.is_bv_value(e):
            c = e.as_signed_long(); return (z3.IntVal(c), c, c)
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            nm = e.decl().name(); v = s.vars.get(nm)
            if v is None:
                v = s.vars[nm] = (z3.Int(nm + '#i'), e); s.side[nm + '#i'] = z3.And(v[0] >= 0, v[0] < (1 << n))
            return (v[0], 0, (1 << n) - 1)
        if k == z3.Z3_OP_BADD:
            ts = [s.bv(c) for c in ch]
            return s.small((z3.Sum([t[0] for t in ts]), sum(t[1] for t in ts), sum(t[2] for t in ts)), n)
        if k == z3.Z3_OP_BSUB:
            a, b = s.bv(ch[0]), s.bv(ch[1]); return s.small((a[0] - b[0], a[1] - b[2], a[2] - b[1]), n)
        if k == z3.Z3_OP_BNEG:
            a = s.bv(ch[0]); return s.small((-a[0], -a[2], -a[1]), n)
        if k == z3.Z3_OP_BNOT:
            a = s.bv(ch[0]); return s.small((-a[0] - 1, -a[2] - 1, -a[1] - 1), n)
        if k == z3.Z3_OP_BMUL:
            cs = [c for c in ch if z3.is_bv_value(c)]; xs = [c for c in ch if not z3.is_bv_value(c)]
            if len(xs) != 1: raise NotLinear()
            c = 1
            for q in cs: c *= q.as_signed_long()
            a = s.bv(xs[0]); lo, hi = sorted((c * a[1], c * a[2]))
            return s.small((c * a[0], lo, hi), n)
        if k == z3.Z3_OP_ITE:
            a, b = s.bv(ch[1]), s.bv(ch[2]); return (z3.If(s.bool(ch[0]), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]))
        if k == z3.Z3_OP_CONCAT:
            sh = 0; v = None; lo = hi = 0
            for c in reversed(ch):
                a = s.norm(s.bv(c), c.size(), False); x = a[0] * (1 << sh) if sh else a[0]
                v = x if v is None else v + x; lo += a[1] << sh; hi += a[2] << sh; sh += c.size()
            return (v, lo, hi)
        if k == z3.Z3_OP_ZERO_EXT: return s.norm(s.bv(ch[0]), ch[0].size(), False)
        if k == z3.Z3_OP_SIGN_EXT: return s.norm(s.bv(ch[0]), ch[0].size(), True)
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = e.params()
            a = s.bv(ch[0])
            if lo_ == 0:
                M = 1 << n
                if 0 <= a[1] and a[2] < M: return a
                a = s.norm(a, ch[0].size(), False)
                if a[2] < M: return a
                if n == 1 and a[2] < 4: pass
                return s.small(a, n) if a[2] < 4 * M else s.mod(a, n)
            if hi_ == ch[0].size() - 1 and n == 1:
                a = s.norm(a, ch[0].size(), True); return (z3.If(a[0] < 0, z3.IntVal(1), z3.IntVal(0)), 0, 1)
            a = s.norm(a, ch[0].size(), False)
            q = s.quot(a, lo_)
            return q if hi_ == ch[0].size() - 1 or q[2] < (1 << n) else s.mod(q, n)
        raise NotLinear()
    def quot(s, a, sh):
        """floor(a / 2^sh) for a >= 0"""
        v, lo, hi = a; k0, k1 = lo >> sh, hi >> sh
        if k1 - k0 <= 4:
            r = z3.IntVal(k1)
            for k in range(k1 - 1, k0 - 1, -1): r = z3.If(v < ((k + 1) << sh), z3.IntVal(k), r)
            return (r, k0, k1)
        q, r = s.divmod(v, sh); return (q, k0, k1)
    def mod(s, a, n):
        q, r = s.divmod(a[0], n); return (r, 0, (1 << n) - 1)
    def divmod(s, v, sh):
        key = ('dm', v.get_id(), sh); t = s.cache.get(key)
        if t is None:
            q, r = z3.Int('q!%d' % len(s.cache)), z3.Int('r!%d' % len(s.cache))
            s.side[str(q)] = s.side[str(r)] = z3.And(v == q * (1 << sh) + r, r >= 0, r < (1 << sh)); t = s.cache[key] = (v, (q, r))
        return t[1]
    def sides(s, t):
        """names of the integer variables whose defining constraints t depends on"""
        k = t.get_id(); r = s.needs.get(k)
        if r is not None: return r[1]
        out = set(); seen = set(); todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); ch = x.children()
            if ch: todo += ch
            elif z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm not in out:
                    out.add(nm); todo.append(s.side[nm])
        s.needs[k] = (t, out); return out
    def bool(s, e):
        k = e.get_id(); r = s.cache.get(k)
        if r is None: r = s.cache[k] = (e, s._bool(e))
        return r[1]
    def _bool(s, e):
        if z3.is_true(e) or z3.is_false(e): return e
        k = e.decl().kind(); ch = e.children()
        if k == z3.Z3_OP_AND: return z3.And([s.bool(c) for c in ch])
        if k == z3.Z3_OP_OR: return z3.Or([s.bool(c) for c in ch])
        if k == z3.Z3_OP_NOT: return z3.Not(s.bool(ch[0]))
        if k == z3.Z3_OP_XOR: return z3.Xor(s.bool(ch[0]), s.bool(ch[1]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.bool(ch[0]), s.bool(ch[1]))
        if k == z3.Z3_OP_ITE: return z3.If(s.bool(ch[0]), s.bool(ch[1]), s.bool(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if z3.is_bool(ch[0]):
                r = s.bool(ch[0]) == s.bool(ch[1])
            else:
                n = ch[0].size(); a, b = s.bv(ch[0]), s.bv(ch[1]); M = 1 << n
                if a[2] - b[1] >= M or b[2] - a[1] >= M: a, b = s.norm(a, n, False), s.norm(b, n, False)
                r = a[0] == b[0]
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        ops = {z3.Z3_OP_ULEQ: (False, '<='), z3.Z3_OP_ULT: (False, '<'), z3.Z3_OP_UGEQ: (False, '>='), z3.Z3_OP_UGT: (False, '>'),
               z3.Z3_OP_SLEQ: (True, '<='), z3.Z3_OP_SLT: (True, '<'), z3.Z3_OP_SGEQ: (True, '>='), z3.Z3_OP_SGT: (True, '>')}
        if k in ops:
            sg, o = ops[k]; n = ch[0].size(); a, b = s.norm(s.bv(ch[0]), n, sg), s.norm(s.bv(ch[1]), n, sg)
            x, y = a[0], b[0]
            return x <= y if o == '<=' else x < y if o == '<' else x >= y if o == '>=' else x > y
        if k == z3.Z3_OP_UNINTERPRETED and not ch: return e
        raise NotLinear()
