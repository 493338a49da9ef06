"""Hash-consed bit-vector / boolean / float terms with light simplification.

Sorts: w == 1 is Bool (LLVM i1), w == n > 1 is BitVec(n), 'f32'/'f64' are IEEE floats.
"""
import z3

class T:
    __slots__ = ('op', 'args', 'w', 'id', 'hi', 'lo', 'fv')
    def __repr__(self):
        return pp(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_tab = {}
_n = 0

def mk(op, args, w):
    global _n
    key = (op, w) + args
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.w = w
        _n += 1
        t.id = _n
        t.hi = None; t.lo = None; t.fv = None
        _tab[key] = t
    return t

def pp(t, d=0):
    if d > 6: return '..'
    o = t.op
    if o == 'c': return str(t.args[0]) if t.w != 1 else ('T' if t.args[0] else 'F')
    if o == 'v': return t.args[0]
    if o == 'lin':
        c, ts = t.args
        s = []
        m = 1 << t.w
        for x, k in ts:
            if k > m // 2: k -= m
            s.append(pp(x, d+1) if k == 1 else '%d*%s' % (k, pp(x, d+1)))
        if c:
            if c > m // 2: c -= m
            s.append(str(c))
        return '(' + ' + '.join(s) + ')'
    if o == 'rd': return '%s[%s]' % (t.args[0], pp(t.args[1], d+1))
    return '%s%s(%s)' % (o, '' if o not in ('zext','sext','ext','trunc') else str(t.w), ', '.join(pp(a, d+1) if isinstance(a, T) else str(a) for a in t.args))

def C(v, w):
    if w == 1: return mk('c', (v & 1,), 1)
    return mk('c', (v & ((1 << w) - 1),), w)

TRUE = C(1, 1)
FALSE = C(0, 1)

def var(name, w):
    return mk('v', (name,), w)

def isc(t): return t.op == 'c'
def cv(t): return t.args[0]
def scv(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

# unsigned range
def rng(t):
    if t.hi is not None: return t.lo, t.hi
    w = t.w
    M = (1 << w) - 1 if isinstance(w, int) else 0
    lo, hi = 0, M
    o = t.op; a = t.args
    if o == 'c': lo = hi = a[0]
    elif o == 'zext': lo, hi = rng(a[0])
    elif o == 'ite':
        l1, h1 = rng(a[1]); l2, h2 = rng(a[2])
        lo, hi = min(l1, l2), max(h1, h2)
    elif o == 'and':
        h = M
        for x in a: h = min(h, rng(x)[1])
        hi = h
    elif o == 'or':
        l1, h1 = rng(a[0]); l2, h2 = rng(a[1])
        lo = max(l1, l2); hi = (1 << max(h1.bit_length(), h2.bit_length())) - 1
    elif o == 'xor':
        h1 = rng(a[0])[1]; h2 = rng(a[1])[1]
        hi = (1 << max(h1.bit_length(), h2.bit_length())) - 1
    elif o == 'lshr' and isc(a[1]):
        l1, h1 = rng(a[0]); s = cv(a[1])
        if s < w: lo, hi = l1 >> s, h1 >> s
    elif o == 'udiv' and isc(a[1]) and cv(a[1]):
        l1, h1 = rng(a[0]); lo, hi = l1 // cv(a[1]), h1 // cv(a[1])
    elif o == 'urem' and isc(a[1]) and cv(a[1]):
        hi = min(cv(a[1]) - 1, rng(a[0])[1])
    elif o == 'lin':
        c, ts = a
        l = h = c
        ok = True
        for x, k in ts:
            lx, hx = rng(x)
            if k > M // 2:   # negative coefficient
                k2 = k - (M + 1)
                l += k2 * hx; h += k2 * lx
            else:
                l += k * lx; h += k * hx
        if (l >= 0 and h <= M): lo, hi = l, h
        elif l // (M + 1) == h // (M + 1): lo, hi = l & M, h & M
    elif o == 'mul':
        l1, h1 = rng(a[0]); l2, h2 = rng(a[1])
        if h1 * h2 <= M: lo, hi = l1 * l2, h1 * h2
    elif o == 'concat':
        l1, h1 = rng(a[0]); l2, h2 = rng(a[1])
        s = a[1].w
        lo, hi = (l1 << s) + (l2 if l1 == h1 else 0), (h1 << s) + (h2 if l1 == h1 else ((1 << s) - 1))
        if l1 != h1: hi = (h1 << s) | ((1 << s) - 1)
    elif o == 'ext' and a[2] == 0:
        l1, h1 = rng(a[0])
        if h1 <= M: lo, hi = l1, h1
    t.lo, t.hi = lo, hi
    return lo, hi

def fvars(t):
    """Set of free variables / array names."""
    if t.fv is not None: return t.fv
    st = [t]
    while st:
        x = st[-1]
        if x.fv is not None:
            st.pop(); continue
        ch = kids(x)
        todo = [c for c in ch if c.fv is None]
        if todo:
            st.extend(todo); continue
        s = frozenset()
        if x.op == 'v': s = frozenset((x,))
        elif x.op == 'rd': s = frozenset((x.args[0],)) | x.args[1].fv
        else:
            sets = [c.fv for c in ch if c.fv]
            if len(sets) == 1: s = sets[0]
            elif sets: s = frozenset().union(*sets)
        x.fv = s
        st.pop()
    return t.fv

def kids(t):
    o = t.op
    if o in ('c', 'v', 'fc'): return ()
    if o == 'lin': return tuple(x for x, _ in t.args[1])
    if o == 'rd': return (t.args[1],)
    return tuple(a for a in t.args if isinstance(a, T))

# ---------- linear arithmetic
def _lin(w, c, d):
    M = (1 << w) - 1
    c &= M
    ts = tuple(sorted(((x, k & M) for x, k in d.items() if k & M), key=lambda p: p[0].id))
    if not ts: return C(c, w)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1: return ts[0][0]
    # normalise  (x ^ allones)?  keep simple
    return mk('lin', (c, ts), w)

def _parts(t):
    if t.op == 'c': return t.args[0], ()
    if t.op == 'lin': return t.args
    return 0, ((t, 1),)

def add(a, b):
    w = a.w
    assert b.w == w and w != 1
    if a.op == 'c' and b.op == 'c': return C(a.args[0] + b.args[0], w)
    c1, p1 = _parts(a); c2, p2 = _parts(b)
    d = {}
    for x, k in p1: d[x] = d.get(x, 0) + k
    for x, k in p2: d[x] = d.get(x, 0) + k
    return _lin(w, c1 + c2, d)

def mulk(a, k):
    w = a.w
    c, p = _parts(a)
    return _lin(w, c * k, {x: kk * k for x, kk in p})

def neg(a): return mulk(a, -1)
def sub(a, b): return add(a, mulk(b, -1))

def mul(a, b):
    if isc(a): return mulk(b, cv(a))
    if isc(b): return mulk(a, cv(b))
    if a.op == 'lin' and a.args[0] == 0 and len(a.args[1]) == 1:
        x, k = a.args[1][0]
        return mulk(mul(x, b), k)
    if b.op == 'lin' and b.args[0] == 0 and len(b.args[1]) == 1:
        x, k = b.args[1][0]
        return mulk(mul(a, x), k)
    if a.id > b.id: a, b = b, a
    return mk('mul', (a, b), a.w)

def udiv(a, b):
    if isc(b):
        d = cv(b)
        if d == 0: return C(-1, a.w)
        if isc(a): return C(cv(a) // d, a.w)
        if d == 1: return a
        if d & (d - 1) == 0: return lshr(a, C(d.bit_length() - 1, a.w))
        if rng(a)[1] < d: return C(0, a.w)
        # exact division of c*d*x when no overflow
        if a.op == 'lin':
            q = lin_div(a, d)
            if q is not None: return q
    return mk('udiv', (a, b), a.w)

def lin_div(a, d):
    """a / d when a is a linear term whose coefficients are all nonnegative multiples of d and which provably does not wrap."""
    if a.op != 'lin': return None
    c, ts = a.args
    M = 1 << a.w
    if c % d: return None
    tot = c
    for x, k in ts:
        if k % d or k > M // 2: return None
        tot += k * rng(x)[1]
    if tot >= M: return None
    return _lin(a.w, c // d, {x: k // d for x, k in ts})

def urem(a, b):
    if isc(b) and cv(b):
        d = cv(b)
        if isc(a): return C(cv(a) % d, a.w)
        if d == 1: return C(0, a.w)
        if d & (d - 1) == 0: return and_(a, C(d - 1, a.w))
        if rng(a)[1] < d: return a
    return mk('urem', (a, b), a.w)

def sdiv(a, b):
    w = a.w
    if isc(b) and isc(a) and cv(b):
        x, y = scv(a), scv(b)
        q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q, w)
    if isc(b) and cv(b) == 1: return a
    if isc(b) and 0 < scv(b) and rng(a)[1] < 1 << (w - 1): return udiv(a, b)
    return mk('sdiv', (a, b), w)

def srem(a, b):
    w = a.w
    if isc(b) and isc(a) and cv(b):
        x, y = scv(a), scv(b)
        r = abs(x) % abs(y)
        return C(-r if x < 0 else r, w)
    if isc(b) and 0 < scv(b) and rng(a)[1] < 1 << (w - 1): return urem(a, b)
    return mk('srem', (a, b), w)

def not_(a):
    if a.w == 1:
        if isc(a): return C(1 - cv(a), 1)
        if a.op == 'not': return a.args[0]
        if a.op == 'ult': return ule(a.args[1], a.args[0])
        if a.op == 'ule': return ult(a.args[1], a.args[0])
        if a.op == 'slt': return sle(a.args[1], a.args[0])
        if a.op == 'sle': return slt(a.args[1], a.args[0])
        return mk('not', (a,), 1)
    return sub(C(-1, a.w), a)

def and_(a, b):
    w = a.w
    if a is b: return a
    if isc(b): a, b = b, a
    if isc(a):
        v = cv(a)
        if isc(b): return C(v & cv(b), w)
        M = (1 << w) - 1
        if v == 0: return a
        if v == M: return b
        if w == 1: return b if v else FALSE
        h = rng(b)[1]
        if h and (((1 << h.bit_length()) - 1) & ~v) == 0: return b
        if b.op == 'and' and isc(b.args[0]): return and_(C(v & cv(b.args[0]), w), b.args[1])
        if v & (v + 1) == 0:  # low mask
            k = v.bit_length()
            return zext(ext(b, k - 1, 0), w)
        if b.op == 'zext':
            x = b.args[0]
            return zext(and_(C(v, x.w), x), w)
        return mk('and', (a, b), w)
    if w == 1:
        if a is not_(b): return FALSE
    if a.id > b.id: a, b = b, a
    return mk('and', (a, b), w)

def or_(a, b):
    w = a.w
    if a is b: return a
    if isc(b): a, b = b, a
    if isc(a):
        v = cv(a)
        if isc(b): return C(v | cv(b), w)
        if v == 0: return b
        if v == (1 << w) - 1: return a
    if w == 1:
        if a is not_(b): return TRUE
    else:
        # or of disjoint pieces -> concat when shapes are known
        r = _disj_or(a, b)
        if r is not None: return r
    if a.id > b.id: a, b = b, a
    return mk('or', (a, b), w)

def _tz(t):
    """number of known trailing zero bits"""
    if isc(t):
        v = cv(t)
        return t.w if v == 0 else (v & -v).bit_length() - 1
    if t.op == 'concat':
        n = _tz(t.args[1])
        return n if n < t.args[1].w else n + _tz(t.args[0])
    if t.op == 'zext': 
        n = _tz(t.args[0]); return n if n < t.args[0].w else t.w
    if t.op == 'shl' and isc(t.args[1]): return min(t.w, cv(t.args[1]) + _tz(t.args[0]))
    if t.op == 'lin':
        c, ts = t.args
        n = t.w if c == 0 else (c & -c).bit_length() - 1
        for x, k in ts: n = min(n, (k & -k).bit_length() - 1 + _tz(x))
        return min(n, t.w)
    return 0

def _disj_or(a, b):
    for x, y in ((a, b), (b, a)):
        n = _tz(x)
        if n and rng(y)[1] < (1 << n):
            if n >= x.w: return y
            return concat(ext(x, x.w - 1, n), ext(y, n - 1, 0))
    return None

def xor(a, b):
    w = a.w
    if a is b: return C(0, w)
    if isc(b): a, b = b, a
    if isc(a):
        v = cv(a)
        if isc(b): return C(v ^ cv(b), w)
        if v == 0: return b
        if w == 1: return not_(b)
        if v == (1 << w) - 1: return not_(b)
        if v == 1 << (w - 1): return add(a, b)
    if w == 1:
        return not_(eq(a, b))
    if a.id > b.id: a, b = b, a
    return mk('xor', (a, b), w)

def shl(a, b):
    w = a.w
    if isc(b):
        s = cv(b)
        if s >= w: return C(0, w)
        return mulk(a, 1 << s)
    return mk('shl', (a, b), w)

def lshr(a, b):
    w = a.w
    if isc(b):
        s = cv(b)
        if s >= w: return C(0, w)
        if s == 0: return a
        if isc(a): return C(cv(a) >> s, w)
        q = lin_div(a, 1 << s)
        if q is not None: return q
        return zext(ext(a, w - 1, s), w)
    if isc(a) and cv(a) == 0: return a
    return mk('lshr', (a, b), w)

def ashr(a, b):
    w = a.w
    if isc(b):
        s = cv(b)
        if s >= w: s = w - 1
        if s == 0: return a
        if isc(a): return C(scv(a) >> s, w)
        if rng(a)[1] < 1 << (w - 1): return lshr(a, C(s, w))
        return sext(ext(a, w - 1, s), w)
    return mk('ashr', (a, b), w)

def zext(a, w):
    if a.w == w: return a
    if isc(a): return C(cv(a), w)
    if a.w == 1: return ite(a, C(1, w), C(0, w))
    if a.op == 'zext': return zext(a.args[0], w)
    if a.op == 'lin':
        # push through when no wrap possible with nonnegative coefficients
        c, ts = a.args
        M = 1 << a.w
        tot = c
        ok = True
        for x, k in ts:
            if k > M // 2: ok = False; break
            tot += k * rng(x)[1]
        if ok and tot < M:
            return _lin(w, c, {zext(x, w): k for x, k in ts}) if len(set(zext(x, w) for x, _ in ts)) == len(ts) and all(zext(x, w).op not in ('lin', 'c') for x, _ in ts) else mk('zext', (a,), w)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mk('zext', (a,), w)

def sext(a, w):
    if a.w == w: return a
    if a.w == 1: return ite(a, C(-1, w), C(0, w))
    if isc(a): return C(scv(a), w)
    if rng(a)[1] < 1 << (a.w - 1): return zext(a, w)
    if a.op == 'sext': return sext(a.args[0], w)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mk('sext', (a,), w)

def ext(a, hi, lo):
    """extract bits hi..lo; result width hi-lo+1 (width 1 results become Bool)"""
    n = hi - lo + 1
    w = a.w
    if n == w: return a
    if isc(a): return C(cv(a) >> lo, n)
    o = a.op
    if o == 'zext':
        x = a.args[0]
        if lo >= x.w: return C(0, n)
        if hi < x.w: return ext(x, hi, lo)
        return zext(ext(x, x.w - 1, lo), n) if n > 1 else ext(x, hi, lo)
    if o == 'sext':
        x = a.args[0]
        if hi < x.w: return ext(x, hi, lo)
        if lo < x.w and lo == 0 and n > 1: return sext(x, n)
    if o == 'concat':
        h, l = a.args
        lw = l.w
        if hi < lw: return ext(l, hi, lo) if l.w > 1 else l
        if lo >= lw: return ext(h, hi - lw, lo - lw)
        if n > 1: return concat(_x(h, hi - lw, 0), _x(l, lw - 1, lo))
    if o == 'ext' :
        return ext(a.args[0], hi + a.args[2], lo + a.args[2])
    if o == 'lin' and lo == 0 and n > 1:
        c, ts = a.args
        d = {}
        r = C(c, n)
        for x, k in ts: r = add(r, mulk(ext(x, n - 1, 0), k))
        return r
    if o == 'lin' and n > 1 and lo > 0:
        # all parts multiples of 2^lo?
        z = _tz(a)
        if z >= lo:
            c, ts = a.args
            # (k*x) >> lo with k multiple of 2^lo  (modular: keeps low w-lo bits exact)
            if all((k & ((1 << lo) - 1)) == 0 for _, k in ts) and (c & ((1 << lo) - 1)) == 0:
                r = C(c >> lo, n)
                for x, k in ts: r = add(r, mulk(ext(x, n - 1, 0), k >> lo))
                return r
    if o in ('and', 'or', 'xor') and w != 1 and n > 1:
        f = {'and': and_, 'or': or_, 'xor': xor}[o]
        return f(ext(a.args[0], hi, lo), ext(a.args[1], hi, lo))
    if o == 'mul' and lo == 0 and n > 1:
        return mul(ext(a.args[0], n - 1, 0), ext(a.args[1], n - 1, 0))
    if o == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], ext(a.args[1], hi, lo), ext(a.args[2], hi, lo))
    if rng(a)[1] < (1 << lo): return C(0, n)
    return mk('ext', (a, hi, lo), n)

def _x(a, hi, lo):
    if a.w == 1: return a
    return ext(a, hi, lo)

def trunc(a, w):
    return ext(a, w - 1, 0)

def concat(h, l):
    if h.w == 1: h = b2bv1(h)
    if isinstance(h, T) and isc(h) and cv(h) == 0 and l.w != 1: return zext(l, h.w + l.w)
    hw = bw(h); lw = bw(l)
    w = hw + lw
    if isc(h) and isc(l): return C((cv(h) << lw) | cv(l), w)
    if h.op == 'ext' and l.op == 'ext' and h.args[0] is l.args[0] and h.args[2] == l.args[1] + 1:
        return ext(h.args[0], h.args[1], l.args[2])
    if l.op == 'ext' and l.args[2] == 0 and h.op == 'ext' and h.args[0] is l.args[0] and h.args[2] == l.w: return ext(h.args[0], h.args[1], 0)
    if l.op == 'concat' and h.op == 'ext' and l.args[0].op == 'ext' and l.args[0].args[0] is h.args[0] and h.args[2] == l.args[0].args[1] + 1:
        return concat(concat(h, l.args[0]), l.args[1])
    return mk('concat', (h, l), w)

def bw(t): return t.w
def b2bv1(t): return t  # width-1 pieces are handled at translation time

def ite(c, a, b):
    if isc(c): return a if cv(c) else b
    if a is b: return a
    if a.w == 1:
        if isc(a): return or_(c, b) if cv(a) else and_(not_(c), b)
        if isc(b): return or_(not_(c), a) if cv(b) else and_(c, a)
    if c.op == 'not': return ite(c.args[0], b, a)
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if a is b: return a
    return mk('ite', (c, a, b), a.w)

def eq(a, b):
    if a is b: return TRUE
    w = a.w
    if w == 1:
        if isc(a): return b if cv(a) else not_(b)
        if isc(b): return a if cv(b) else not_(a)
        if a is not_(b): return FALSE
        if a.id > b.id: a, b = b, a
        return mk('eq', (a, b), 1)
    if isinstance(w, str):
        return mk('eq', (a, b), 1)   # structural float equality
    if isc(a) and isc(b): return C(cv(a) == cv(b), 1)
    if isc(a): a, b = b, a
    l1, h1 = rng(a); l2, h2 = rng(b)
    if h1 < l2 or h2 < l1: return FALSE
    if isc(b):
        v = cv(b)
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if isc(x) or isc(y):
                return ite(a.args[0], eq(x, b), eq(y, b))
        if a.op == 'zext':
            x = a.args[0]
            return eq(x, C(v, x.w)) if v < (1 << x.w) else FALSE
        if a.op == 'lin':
            c, ts = a.args
            if c: return eq(_lin(w, 0, dict(ts)), C(v - c, w))
            if len(ts) == 1:
                x, k = ts[0]
                if k == (1 << w) - 1: return eq(x, C(-v, w))
                if k & 1:
                    return eq(x, C(v * pow(k, -1, 1 << w), w))
    else:
        if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w: return eq(a.args[0], b.args[0])
        if a.op == 'lin' or b.op == 'lin':
            d = sub(a, b)
            if isc(d): return C(cv(d) == 0, 1)
            c, ts = _parts(d)
            # canonical: move to form  lhs == rhs with first coefficient positive
            k0 = ts[0][1]
            M = 1 << w
            if k0 > M // 2:
                d = neg(d); c, ts = _parts(d)
            if c and len(ts) >= 1:
                l = _lin(w, 0, dict(ts)); r = C(-c, w)
                if len(ts) == 1: return eq(l, r)
                # split negatives to the right for readability/propagation
            pos = {}; ng = {}
            for x, k in ts:
                if k > M // 2: ng[x] = -k
                else: pos[x] = k
            l = _lin(w, 0, pos); r = _lin(w, -c, ng)
            if l.id > r.id: l, r = r, l
            if isc(l): l, r = r, l
            return mk('eq', (l, r), 1)
    if a.id > b.id and not isc(b): a, b = b, a
    return mk('eq', (a, b), 1)

def ult(a, b):
    if a is b: return FALSE
    l1, h1 = rng(a); l2, h2 = rng(b)
    if h1 < l2: return TRUE
    if l1 >= h2: return FALSE
    if isc(b) and cv(b) == 1: return eq(a, C(0, a.w))
    if isc(a) and cv(a) == 0: return not_(eq(b, C(0, a.w)))
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w: return ult(a.args[0], b.args[0])
    if isc(b) and a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    return mk('ult', (a, b), 1)

def ule(a, b):
    if a is b: return TRUE
    l1, h1 = rng(a); l2, h2 = rng(b)
    if h1 <= l2: return TRUE
    if l1 > h2: return FALSE
    if isc(b) and cv(b) == 0: return eq(a, b)
    if isc(a) and cv(a) == 1: return not_(eq(b, C(0, a.w)))
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w: return ule(a.args[0], b.args[0])
    return mk('ule', (a, b), 1)

def _srng(t):
    lo, hi = rng(t)
    H = 1 << (t.w - 1)
    if hi < H: return lo, hi
    if lo >= H: return lo - 2 * H, hi - 2 * H
    if t.op == 'sext':
        x = t.args[0]
        return _srng(x)
    return -H, H - 1

def slt(a, b):
    if a is b: return FALSE
    l1, h1 = _srng(a); l2, h2 = _srng(b)
    if h1 < l2: return TRUE
    if l1 >= h2: return FALSE
    if l1 >= 0 and l2 >= 0: return ult(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w: return slt(a.args[0], b.args[0])
    return mk('slt', (a, b), 1)

def sle(a, b):
    if a is b: return TRUE
    l1, h1 = _srng(a); l2, h2 = _srng(b)
    if h1 <= l2: return TRUE
    if l1 > h2: return FALSE
    if l1 >= 0 and l2 >= 0: return ule(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w: return sle(a.args[0], b.args[0])
    return mk('sle', (a, b), 1)

def rd(arr, off, w):
    return mk('rd', (arr, off), w)

def app(name, args, w):
    """uninterpreted function application"""
    return mk('app', (name,) + tuple(args), w)

def all_(xs):
    r = TRUE
    for x in xs: r = and_(r, x)
    return r

# ---------- substitution
def subst(t, m, memo=None):
    """substitute variables (dict T->T)"""
    if memo is None: memo = {}
    keys = m.keys()
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if not (fvars(x) & ks):
            memo[x] = x
            return x
        if x in m:
            memo[x] = m[x]; return m[x]
        o = x.op
        a = x.args
        if o == 'lin':
            r = C(a[0], x.w)
            for y, k in a[1]: r = add(r, mulk(go(y), k))
        elif o == 'rd': r = rd(a[0], go(a[1]), x.w)
        elif o == 'app': r = app(a[0], [go(y) for y in a[1:]], x.w)
        elif o == 'ext': r = ext(go(a[0]), a[1], a[2])
        elif o == 'zext': r = zext(go(a[0]), x.w)
        elif o == 'sext': r = sext(go(a[0]), x.w)
        else:
            f = _FN.get(o)
            if f: r = f(*[go(y) for y in a])
            else: r = mk(o, tuple(go(y) if isinstance(y, T) else y for y in a), x.w)
        memo[x] = r
        return r
    ks = frozenset(keys)
    return go(t)

_FN = dict(mul=mul, udiv=udiv, sdiv=sdiv, urem=urem, srem=srem, and_=and_, shl=shl, lshr=lshr, ashr=ashr,
           concat=concat, ite=ite, eq=eq, ult=ult, ule=ule, slt=slt, sle=sle, xor=xor)
_FN['and'] = and_; _FN['or'] = or_; _FN['not'] = not_

# ---------- z3 translation
class Z3Ctx:
    def __init__(self, ctx=None):
        self.ctx = ctx
        self.memo = {}
        self.arrs = {}
    def sort(self, w):
        if w == 1: return z3.BoolSort(self.ctx)
        if w == 'f32': return z3.Float32(self.ctx)
        if w == 'f64': return z3.Float64(self.ctx)
        return z3.BitVecSort(w, self.ctx)
    def bv(self, t):
        x = self.tr(t)
        if t.w == 1:
            return z3.If(x, z3.BitVecVal(1, 1, self.ctx), z3.BitVecVal(0, 1, self.ctx))
        return x
    def tr(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None: return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop(); continue
            todo = [k for k in kids(x) if k.id not in memo]
            if todo:
                st.extend(todo); continue
            memo[x.id] = self._tr(x)
            st.pop()
        return memo[t.id]
    def _tr(self, t):
        o = t.op; a = t.args; w = t.w; ctx = self.ctx; m = self.memo
        g = lambda x: m[x.id]
        if o == 'c':
            if w == 1: return z3.BoolVal(bool(a[0]), ctx)
            return z3.BitVecVal(a[0], w, ctx)
        if o == 'v': return z3.Const(a[0], self.sort(w))
        if o == 'lin':
            c, ts = a
            M = 1 << w
            r = None
            for x, k in ts:
                e = g(x)
                if k == 1: pass
                elif k & (k - 1) == 0: e = e << (k.bit_length() - 1)
                elif k == M - 1: e = None
                else: e = z3.BitVecVal(k, w, ctx) * e
                if e is None:
                    r = (-g(x)) if r is None else r - g(x)
                else:
                    r = e if r is None else r + e
            if c: r = r + z3.BitVecVal(c, w, ctx)
            return r
        if o == 'mul': return g(a[0]) * g(a[1])
        if o == 'udiv': return z3.UDiv(g(a[0]), g(a[1]))
        if o == 'urem': return z3.URem(g(a[0]), g(a[1]))
        if o == 'sdiv': return g(a[0]) / g(a[1])
        if o == 'srem': return z3.SRem(g(a[0]), g(a[1]))
        if o == 'and': return z3.And(g(a[0]), g(a[1])) if w == 1 else g(a[0]) & g(a[1])
        if o == 'or': return z3.Or(g(a[0]), g(a[1])) if w == 1 else g(a[0]) | g(a[1])
        if o == 'xor': return g(a[0]) ^ g(a[1])
        if o == 'not': return z3.Not(g(a[0]))
        if o == 'shl': return g(a[0]) << g(a[1])
        if o == 'lshr': return z3.LShR(g(a[0]), g(a[1]))
        if o == 'ashr': return g(a[0]) >> g(a[1])
        if o == 'zext': return z3.ZeroExt(w - a[0].w, g(a[0]))
        if o == 'sext': return z3.SignExt(w - a[0].w, g(a[0]))
        if o == 'ext':
            e = z3.Extract(a[1], a[2], g(a[0]))
            return e == z3.BitVecVal(1, 1, ctx) if w == 1 else e
        if o == 'concat': return z3.Concat(self.bv(a[0]), self.bv(a[1]))
        if o == 'ite': return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if o == 'eq':
            return g(a[0]) == g(a[1])
        if o == 'ult': return z3.ULT(g(a[0]), g(a[1]))
        if o == 'ule': return z3.ULE(g(a[0]), g(a[1]))
        if o == 'slt': return g(a[0]) < g(a[1])
        if o == 'sle': return g(a[0]) <= g(a[1])
        if o == 'rd':
            f = self.arrs.get(a[0])
            if f is None:
                f = z3.Function(a[0], z3.BitVecSort(64, ctx), self.sort(w))
                self.arrs[a[0]] = f
            return f(g(a[1]))
        if o == 'app':
            key = a[0]
            f = self.arrs.get(key)
            if f is None:
                f = z3.Function(key, *([self.sort(x.w) for x in a[1:]] + [self.sort(w)]))
                self.arrs[key] = f
            return f(*[g(x) for x in a[1:]])
        # floats
        rne = z3.RoundNearestTiesToEven(ctx)
        if o == 'fc':
            bits = z3.BitVecVal(a[0], 32 if w == 'f32' else 64, ctx)
            return z3.fpBVToFP(bits, self.sort(w), ctx=ctx)
        if o == 'fbits': return z3.fpToIEEEBV(g(a[0]), ctx=ctx)
        if o == 'ffrom': return z3.fpBVToFP(g(a[0]), self.sort(w), ctx=ctx)
        if o == 'fadd': return z3.fpAdd(rne, g(a[0]), g(a[1]), ctx=ctx)
        if o == 'fsub': return z3.fpSub(rne, g(a[0]), g(a[1]), ctx=ctx)
        if o == 'fmul': return z3.fpMul(rne, g(a[0]), g(a[1]), ctx=ctx)
        if o == 'fdiv': return z3.fpDiv(rne, g(a[0]), g(a[1]), ctx=ctx)
        if o == 'fneg': return z3.fpNeg(g(a[0]), ctx=ctx)
        if o == 'fabs': return z3.fpAbs(g(a[0]), ctx=ctx)
        if o == 'fsqrt': return z3.fpSqrt(rne, g(a[0]), ctx=ctx)
        if o == 'ffloor': return z3.fpRoundToIntegral(z3.RTN(ctx), g(a[0]), ctx=ctx)
        if o == 'fceil': return z3.fpRoundToIntegral(z3.RTP(ctx), g(a[0]), ctx=ctx)
        if o == 'ftruncr': return z3.fpRoundToIntegral(z3.RTZ(ctx), g(a[0]), ctx=ctx)
        if o == 'feq': return z3.fpEQ(g(a[0]), g(a[1]), ctx=ctx)
        if o == 'flt': return z3.fpLT(g(a[0]), g(a[1]), ctx=ctx)
        if o == 'fle': return z3.fpLEQ(g(a[0]), g(a[1]), ctx=ctx)
        if o == 'fnan': return z3.fpIsNaN(g(a[0]), ctx=ctx)
        if o == 'ui2f': return z3.fpUnsignedToFP(rne, g(a[0]), self.sort(w), ctx=ctx)
        if o == 'si2f': return z3.fpSignedToFP(rne, g(a[0]), self.sort(w), ctx=ctx)
        if o == 'f2ui': return z3.fpToUBV(z3.RTZ(ctx), g(a[0]), z3.BitVecSort(w, ctx), ctx=ctx)
        if o == 'f2si': return z3.fpToSBV(z3.RTZ(ctx), g(a[0]), z3.BitVecSort(w, ctx), ctx=ctx)
        if o == 'f2f': return z3.fpFPToFP(rne, g(a[0]), self.sort(w), ctx=ctx)
        raise NotImplementedError('tr ' + o)

_hard = {}
def hard(t):
    """contains a product or division of non-constants (bit-blasting is slow)"""
    r = _hard.get(t.id)
    if r is not None: return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _hard: st.pop(); continue
        todo = [k for k in kids(x) if k.id not in _hard]
        if todo: st.extend(todo); continue
        h = (x.op == 'mul' and isinstance(x.w, int) and x.w >= 12) or (x.op in ('udiv', 'urem', 'sdiv', 'srem') and x.w >= 12)
        _hard[x.id] = h or any(_hard[k.id] for k in kids(x))
        st.pop()
    return _hard[t.id]
