"""Integer (LIA/NIA) encoding of bit-vector verification conditions.

Each bit-vector term is denoted by its mathematical value; wrap-around becomes an explicit quotient
variable; division introduces quotient and remainder; products of variables become fresh integers
constrained by true lemmas (sign, monotonicity, bounds).  Everything not understood is a fresh
integer of the right range, so 'unsat' is a proof; 'sat' is not reported."""
import z3
from terms import *
import terms as tm

class L:
    """linear form with an interval"""
    __slots__ = ('c', 'd', 'lo', 'hi')
    def __init__(self, c, d, lo, hi): self.c = c; self.d = d; self.lo = lo; self.hi = hi

class IntEnc:
    def __init__(self, nonlin=False):
        self.ctx = z3.Context()
        self.cs = []
        self.atoms = {}      # name -> (z3 const, lo, hi)
        self.itedef = {}     # atom name -> (z3 cond, La, Lb)
        self.U = {}; self.S = {}; self.B = {}
        self.prods = {}      # (a, b) -> atom name
        self.n = 0
        self.signed = set()
        self.nonlin = nonlin
        self.divs = {}
        self.euc = []
    # --- linear forms
    def const(self, v): return L(v, {}, v, v)
    def atom(self, lo, hi, pre='a'):
        self.n += 1
        nm = '%s%d' % (pre, self.n)
        z = z3.Int(nm, self.ctx)
        self.atoms[nm] = (z, lo, hi)
        if lo is not None: self.cs.append(z >= z3.IntVal(lo, self.ctx))
        if hi is not None: self.cs.append(z <= z3.IntVal(hi, self.ctx))
        return L(0, {nm: 1}, lo, hi)
    def addl(self, x, y, k=1):
        d = dict(x.d)
        for a, q in y.d.items():
            v = d.get(a, 0) + k * q
            if v: d[a] = v
            else: d.pop(a, None)
        c = x.c + k * y.c
        lo = x.lo + (k * y.lo if k > 0 else k * y.hi); hi = x.hi + (k * y.hi if k > 0 else k * y.lo)
        l = h = c
        for a, q in d.items():
            z, al, ah = self.atoms[a]
            l += q * al if q > 0 else q * ah; h += q * ah if q > 0 else q * al
        return L(c, d, max(lo, l), min(hi, h))
    def scale(self, x, k):
        if k == 0: return self.const(0)
        return L(x.c * k, {a: q * k for a, q in x.d.items()}, *( (x.lo * k, x.hi * k) if k > 0 else (x.hi * k, x.lo * k)))
    def z(self, x):
        r = []
        for a, q in x.d.items():
            v = self.atoms[a][0]
            r.append(v if q == 1 else z3.IntVal(q, self.ctx) * v)
        if x.c or not r: r.append(z3.IntVal(x.c, self.ctx))
        return z3.Sum(r) if len(r) > 1 else r[0]
    def ite(self, c, a, b):
        if a.c == b.c and a.d == b.d: return a
        r = self.atom(min(a.lo, b.lo), max(a.hi, b.hi), 'i')
        nm = next(iter(r.d))
        self.itedef[nm] = (c, a, b)
        self.cs.append(z3.If(c, self.z(r) == self.z(a), self.z(r) == self.z(b)))
        return r
    def restrict(self, x, lo, hi): return L(x.c, x.d, max(x.lo, lo), min(x.hi, hi))
    # --- products
    def prod(self, x, y, depth=0):
        if not x.d: return self.scale(y, x.c)
        if not y.d: return self.scale(x, y.c)
        for p, q in ((x, y), (y, x)):
            if len(p.d) == 1:
                a = next(iter(p.d))
                if a in self.itedef and depth < 6:
                    c, u, v = self.itedef[a]
                    k = p.d[a]
                    r = self.ite(c, self.prod(self.scale(u, k), q, depth + 1), self.prod(self.scale(v, k), q, depth + 1))
                    if p.c: r = self.addl(r, self.scale(q, p.c))
                    return self.tight(r, x, y)
        if len(x.d) * len(y.d) <= 9:
            r = self.const(x.c * y.c)
            for a, q in x.d.items():
                for b, k in y.d.items(): r = self.addl(r, self.mono(a, b), q * k)
            if y.c: r = self.addl(r, L(0, x.d, *self.span(x.d)), y.c)
            if x.c: r = self.addl(r, L(0, y.d, *self.span(y.d)), x.c)
            return self.tight(r, x, y)
        a = self.name(x); b = self.name(y)
        return self.tight(self.mono(next(iter(a.d)), next(iter(b.d))), x, y)
    def span(self, d):
        l = h = 0
        for a, q in d.items():
            z, al, ah = self.atoms[a]
            l += q * al if q > 0 else q * ah; h += q * ah if q > 0 else q * al
        return l, h
    def name(self, x):
        if len(x.d) == 1 and x.c == 0 and next(iter(x.d.values())) == 1: return x
        r = self.atom(x.lo, x.hi, 'n')
        self.cs.append(self.z(r) == self.z(x))
        return r
    def tight(self, r, x, y):
        v = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
        return self.restrict(r, min(v), max(v))
    def mono(self, a, b):
        if a > b: a, b = b, a
        p = self.prods.get((a, b))
        if p is None:
            za, al, ah = self.atoms[a]; zb, bl, bh = self.atoms[b]
            v = [al * bl, al * bh, ah * bl, ah * bh]
            p = self.atom(min(v) if a != b or True else 0, max(v), 'p')
            self.prods[(a, b)] = p
        return p
    def lemmas(self):
        cs = []
        I = lambda v: z3.IntVal(v, self.ctx)
        Im = z3.Implies
        ps = [(a, b, self.z(p)) for (a, b), p in self.prods.items()]
        for a, b, p in ps:
            x, xl, xh = self.atoms[a]; y, yl, yh = self.atoms[b]
            if self.nonlin: cs.append(p == x * y); continue
            cs += [Im(z3.And(x >= 0, y >= 0), p >= 0), Im(z3.And(x <= 0, y <= 0), p >= 0), Im(z3.And(x >= 0, y <= 0), p <= 0), Im(z3.And(x <= 0, y >= 0), p <= 0)]
            cs += [Im(x == 0, p == 0), Im(y == 0, p == 0), Im(x == 1, p == y), Im(y == 1, p == x), Im(x == -1, p == -y), Im(y == -1, p == -x)]
            for u, v in ((x, y), (y, x)):
                cs += [Im(z3.And(u >= 1, v >= 0), p >= v), Im(z3.And(u >= 1, v <= 0), p <= v), Im(z3.And(u <= -1, v >= 0), p <= -v), Im(z3.And(u <= -1, v <= 0), p >= -v)]
                cs += [Im(z3.And(u >= 2, v >= 0), p >= 2 * v), Im(z3.And(u >= 2, v <= 0), p <= 2 * v), Im(z3.And(u <= -2, v >= 0), p <= -2 * v), Im(z3.And(u <= -2, v <= 0), p >= -2 * v)]
            # McCormick
            cs += [p >= I(xl) * y + I(yl) * x - I(xl * yl), p >= I(xh) * y + I(yh) * x - I(xh * yh), p <= I(xh) * y + I(yl) * x - I(xh * yl), p <= I(xl) * y + I(yh) * x - I(xl * yh)]
        if self.nonlin: return cs
        if len(ps) <= 24:
            for i, (a, b, p) in enumerate(ps):
                for (c, d, q) in ps[i + 1:]:
                    for s, u, v in ((a, b, d) if a == c else None, (b, a, d) if b == c else None, (a, b, c) if a == d else None, (b, a, c) if b == d else None) if False else self.shared(a, b, c, d):
                        y = self.atoms[s][0]; u = self.atoms[u][0]; v = self.atoms[v][0]
                        for w, r in ((v, q), (-v, -q)):
                            cs += [Im(z3.And(y >= 0, u <= w), p <= r), Im(z3.And(y >= 0, u >= w), p >= r), Im(z3.And(y <= 0, u <= w), p >= r), Im(z3.And(y <= 0, u >= w), p <= r)]
                            cs += [Im(z3.And(y >= 0, u >= w + 1), p >= r + y), Im(z3.And(y >= 0, u <= w - 1), p <= r - y), Im(z3.And(y <= 0, u >= w + 1), p <= r + y), Im(z3.And(y <= 0, u <= w - 1), p >= r - y)]
        return cs
    def shared(self, a, b, c, d):
        r = []
        if a == c: r.append((a, b, d))
        if b == c: r.append((b, a, d))
        if a == d: r.append((a, b, c))
        if b == d: r.append((b, a, c))
        return r
    # --- bit-vector values
    def wrapU(self, s, w):
        M = 1 << w
        if s.lo >= 0 and s.hi < M: return s
        # drop multiples of the modulus, and share the quotient with divisions of the same form
        d = {a: tm.sgn(k % M, w) for a, k in s.d.items() if k % M}
        if d != s.d:
            l = h = s.c % M
            for a, q in d.items():
                z, al, ah = self.atoms[a]
                l += q * al if q > 0 else q * ah; h += q * ah if q > 0 else q * al
            s = L(s.c % M, d, l, h)
            if s.lo >= 0 and s.hi < M: return s
        return self.divc(s, M)[1]
    def u2s(self, x, w):
        H = 1 << (w - 1)
        if x.hi < H: return x
        if x.lo >= H: return self.addl(x, self.const(2 * H), -1)
        r = self.ite(self.z(x) >= z3.IntVal(H, self.ctx), self.addl(x, self.const(-2 * H)), x)
        return self.restrict(r, -H, H - 1)
    def s2u(self, x, w):
        M = 1 << w
        if x.lo >= 0: return x
        if x.hi < 0: return self.addl(x, self.const(M))
        return self.restrict(self.ite(self.z(x) < 0, self.addl(x, self.const(M)), x), 0, M - 1)
    def u(self, t):
        r = self.U.get(t.id)
        if r is None:
            r = self.val(t)
            if r[0] == 'u': r = r[1]
            else: r = self.s2u(r[1], t.w)
            lo, hi = tm.rng(t)
            r = self.restrict(r, lo, hi)
            self.U[t.id] = r
        return r
    def s(self, t):
        r = self.S.get(t.id)
        if r is None:
            r = self.val(t)
            if r[0] == 's': r = r[1]
            else: r = self.u2s(r[1], t.w)
            self.S[t.id] = r
        return r
    def val(self, t):
        k = ('val', t.id)
        r = self.U.get(k)
        if r is None:
            r = self._val(t)
            self.U[k] = r
        return r
    def best(self, t):
        """representation (mod 2^w) with the smaller magnitude"""
        v = self.val(t)
        if isc(t): return self.const(scv(t)) if scv(t) >= -(1 << 16) else self.const(cv(t))
        return v[1]
    def opaque(self, t):
        lo, hi = tm.rng(t)
        if t in self.signed and lo == 0 and hi == (1 << t.w) - 1:
            H = 1 << (t.w - 1)
            return ('s', self.atom(-H, H - 1, 'v'))
        return ('u', self.atom(lo, hi, 'v'))
    def norm(self, s, w):
        """value s (exact integer) reduced into a w-bit term"""
        M = 1 << w
        if s.lo >= 0 and s.hi < M: return ('u', s)
        if s.lo >= -(M >> 1) and s.hi < (M >> 1): return ('s', s)
        return ('u', self.wrapU(s, w))
    def _val(self, t):
        o = t.op; a = t.args; w = t.w
        if o == 'c': return ('u', self.const(a[0]))
        if o == 'lin':
            c, ts = a
            s = self.const(tm.sgn(c, w))
            for x, k in ts: s = self.addl(s, self.best(x), tm.sgn(k, w))
            return self.norm(s, w)
        if o == 'mul': return self.norm(self.prod(self.best(a[0]), self.best(a[1])), w)
        if o == 'zext':
            if a[0].w == 1: return ('u', self.ite(self.b(a[0]), self.const(1), self.const(0)))
            return ('u', self.u(a[0]))
        if o == 'sext':
            if a[0].w == 1: return ('s', self.ite(self.b(a[0]), self.const(-1), self.const(0)))
            return ('s', self.s(a[0]))
        if o == 'ite':
            c = self.b(a[0])
            x = self.val(a[1]); y = self.val(a[2])
            if isc(a[1]): x = (y[0], self.const(cv(a[1]) if y[0] == 'u' else scv(a[1])))
            if isc(a[2]): y = (x[0], self.const(cv(a[2]) if x[0] == 'u' else scv(a[2])))
            if x[0] == y[0]: return (x[0], self.ite(c, x[1], y[1]))
            return ('s', self.ite(c, self.s(a[1]), self.s(a[2])))
        if o == 'ext' and w > 1:
            x = a[0]; hi, lo = a[1], a[2]
            if lo == 0:
                v = self.best(x)
                return self.norm(v, w)
            v = self.u(x)
            q, r = self.divc(v, 1 << lo)
            return ('u', self.wrapU(q, w))
        if o == 'concat' and w > 1 and a[1].w > 1 and a[0].w > 1:
            return ('u', self.addl(self.u(a[1]), self.u(a[0]), 1 << a[1].w))
        if o == 'lshr' and isc(a[1]): return ('u', self.divc(self.u(a[0]), 1 << cv(a[1]))[0]) if cv(a[1]) < w else ('u', self.const(0))
        if o == 'ashr' and isc(a[1]) and cv(a[1]) < w: return ('s', self.divc(self.s(a[0]), 1 << cv(a[1]))[0])
        if o == 'shl' and isc(a[1]) and cv(a[1]) < w: return self.norm(self.scale(self.best(a[0]), 1 << cv(a[1])), w)
        if o in ('udiv', 'urem'):
            q, r = self.div(a[0], a[1])
            return ('u', q if o == 'udiv' else r)
        if o in ('sdiv', 'srem'):
            q, r = self.sdiv(a[0], a[1])
            return self.norm(q if o == 'sdiv' else r, w)
        if o == 'and' and w > 1 and isc(a[1]) and (cv(a[1]) & (cv(a[1]) + 1)) == 0:
            return ('u', self.divc(self.u(a[0]), cv(a[1]) + 1)[1])
        if o == 'and' and w > 1 and isc(a[0]) and (cv(a[0]) & (cv(a[0]) + 1)) == 0:
            return ('u', self.divc(self.u(a[1]), cv(a[0]) + 1)[1])
        if o in ('or', 'and') and w > 1 and len(a) == 2:
            x = self.u(a[0]); y = self.u(a[1])
            r = self.opaque(t)[1] if t not in self.signed else None
            if r is None:
                lo, hi = tm.rng(t); r = self.atom(lo, hi, 'v')
            zr, zx, zy = self.z(r), self.z(x), self.z(y)
            if o == 'and': self.cs += [zr <= zx, zr <= zy]
            else:
                self.cs += [zr >= zx, zr >= zy, zr <= zx + zy]
                for p, q in ((a[0], y), (a[1], x)):
                    k = tm._tz(p)
                    if 0 < k < w: self.cs.append(z3.Implies(self.z(q) <= z3.IntVal((1 << k) - 1, self.ctx), zr == zx + zy))
            return ('u', r)
        return self.opaque(t)
    def divc(self, v, k):
        if not v.d: return self.const(v.c // k), self.const(v.c % k)
        if v.lo >= 0 and v.hi < k: return self.const(0), v
        key = (tuple(sorted(v.d.items())), v.c, k)
        r = self.divs.get(key)
        if r is None:
            whole = {a: q // k for a, q in v.d.items() if q % k == 0}
            if whole:
                # multiples of the divisor move out of the quotient
                l = h = v.c
                d = {a: q for a, q in v.d.items() if q % k}
                for a, q in d.items():
                    z, al, ah = self.atoms[a]
                    l += q * al if q > 0 else q * ah; h += q * ah if q > 0 else q * al
                q, m = self.divc(L(v.c, d, l, h), k)
                r = (self.restrict(self.addl(q, L(0, whole, sum(c * self.atoms[a][1 if c > 0 else 2] for a, c in whole.items()), sum(c * self.atoms[a][2 if c > 0 else 1] for a, c in whole.items()))), v.lo // k, v.hi // k), m)
            else:
                q = self.atom(v.lo // k, v.hi // k, 'd'); m = self.addl(v, q, -k)
                m = L(m.c, m.d, 0, k - 1)
                self.cs += [self.z(m) >= 0, self.z(m) <= z3.IntVal(k - 1, self.ctx)]
                r = (q, m)
            self.divs[key] = r
        return r
    def div(self, ta, tb):
        key = ('u', ta.id, tb.id)
        r = self.divs.get(key)
        if r is None:
            w = ta.w
            a = self.u(ta); b = self.u(tb)
            if not b.d and b.c: r = self.divc(a, b.c)
            else:
                q0, r0 = self.euclid(a, b)
                zb = self.z(b) == 0
                r = (self.ite(zb, self.const((1 << w) - 1), q0), self.ite(zb, a, r0)) if b.lo <= 0 else (q0, r0)
            self.divs[key] = r
        return r
    def euclid(self, a, b):
        """a >= 0, b > 0 (unconstrained when b == 0)"""
        b1 = self.name(self.restrict(b, b.lo, b.hi)) if len(b.d) > 1 or b.c else b
        q = self.atom(0, max(a.hi, 0), 'e')
        p = self.prod(q, b1)
        m = self.atom(0, max(b.hi - 1, 0), 'm')
        zb = self.z(b1)
        self.cs.append(z3.Implies(zb > 0, z3.And(self.z(a) == self.z(p) + self.z(m), self.z(m) < zb, self.z(q) <= self.z(a))))
        if len(self.euc) < 12:  # quotient and remainder are functions of dividend and divisor
            for a2, b2, q2, m2 in self.euc:
                self.cs.append(z3.Implies(z3.And(zb > 0, self.z(a) == a2, zb == b2), z3.And(self.z(q) == q2, self.z(m) == m2)))
            self.euc.append((self.z(a), zb, self.z(q), self.z(m)))
        return q, m
    def absl(self, x):
        if x.lo >= 0: return x
        if x.hi <= 0: return self.scale(x, -1)
        return self.restrict(self.ite(self.z(x) < 0, self.scale(x, -1), x), 0, max(-x.lo, x.hi))
    def sdiv(self, ta, tb):
        key = ('s', ta.id, tb.id)
        r = self.divs.get(key)
        if r is None:
            w = ta.w
            a = self.s(ta); b = self.s(tb)
            A = self.absl(a); B = self.absl(b)
            if not B.d and B.c: Q, R = self.divc(A, B.c)
            else: Q, R = self.euclid(A, B)
            za = self.z(a) < 0; zb = self.z(b) < 0
            q = self.ite(z3.Xor(za, zb, self.ctx) if False else (za != zb), self.scale(Q, -1), Q)
            m = self.ite(za, self.scale(R, -1), R)
            z0 = self.z(b) == 0
            if b.lo <= 0 <= b.hi:
                q = self.ite(z0, self.ite(za, self.const(1), self.const(-1)), q); m = self.ite(z0, a, m)
            r = self.divs[key] = (q, m)
        return r
    # --- booleans
    def b(self, t):
        r = self.B.get(t.id)
        if r is None: r = self.B[t.id] = self._b(t)
        return r
    def _b(self, t):
        o = t.op; a = t.args
        if o == 'c': return z3.BoolVal(bool(a[0]), self.ctx)
        if o == 'not': return z3.Not(self.b(a[0]))
        if o == 'and': return z3.And(*[self.b(x) for x in a])
        if o == 'or': return z3.Or(*[self.b(x) for x in a])
        if o == 'xor': return self.b(a[0]) != self.b(a[1])
        if o == 'ite': return z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        if o in ('eq', 'ult', 'ule', 'slt', 'sle') and isinstance(a[0].w, int):
            if a[0].w == 1:
                if o == 'eq': return self.b(a[0]) == self.b(a[1])
            else:
                if o == 'eq':
                    x, y = self.val(a[0]), self.val(a[1])
                    if x[0] == 's' or y[0] == 's': return self.z(self.s(a[0])) == self.z(self.s(a[1]))
                    return self.z(self.u(a[0])) == self.z(self.u(a[1]))
                f = self.u if o[0] == 'u' else self.s
                x, y = self.z(f(a[0])), self.z(f(a[1]))
                return x < y if o in ('ult', 'slt') else x <= y
        if o == 'ext' and t.w == 1 and a[1] == a[0].w - 1: return self.z(self.s(a[0])) < 0
        if o == 'ext' and t.w == 1:
            q, r = self.divc(self.u(a[0]), 1 << a[1])
            return self.z(self.divc(q, 2)[1]) == 1
        self.n += 1
        return z3.Bool('ob%d' % self.n, self.ctx)
    def scan(self, ts):
        seen = set(); st = list(ts); sg = set()
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op in ('sext', 'slt', 'sle', 'sdiv', 'srem'):
                for y in x.args:
                    if isinstance(y, T): sg.add(y)
            st.extend(kids(x))
        self.signed = sg

def useful(ts):
    seen = set(); st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if isinstance(x.w, str): return False
        if x.op == 'lin' and x.w >= 32 and len(x.args[1]) >= 2: return True
        if x.op == 'mul' or x.op in ('udiv', 'urem', 'sdiv', 'srem'): return True
        if x.op == 'lin' and any(3 <= abs(tm.sgn(k, x.w)) and (abs(tm.sgn(k, x.w)) & (abs(tm.sgn(k, x.w)) - 1)) for _, k in x.args[1]): return True
        st.extend(kids(x))
    return False

def encode(terms, goal, nonlin=False):
    e = IntEnc(nonlin)
    e.scan(list(terms) + [goal])
    bs = [e.b(t) for t in terms] + [e.b(goal)]
    s = z3.Solver(ctx=e.ctx)
    for c in e.cs: s.add(c)
    for c in e.lemmas(): s.add(c)
    for b in bs: s.add(b)
    return '\n'.join(l for l in s.to_smt2().split('\n') if not l.startswith('(set-info'))
