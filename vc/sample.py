"""Concrete samples used to answer feasibility queries without a solver.

A sample that satisfies the path condition and the query shows that the query is satisfiable.  Only
'feasible' / 'not implied' answers come from here (they keep a path or a non-simplified term alive), never
the discharge of an obligation."""
import random, struct, z3
try: import numpy as np; np.seterr(all='ignore')
except ImportError: np = None
from terms import *

class Unsup(Exception): pass

def sx(v, w): return v - (1 << w) if v >> (w - 1) else v

FOPS = frozenset(('fbits', 'feq', 'flt', 'fle', 'fnan', 'f2ui', 'f2si'))
def frombits(v, w): return np.frombuffer(struct.pack('<I', v), np.float32)[0] if w == 'f32' else np.frombuffer(struct.pack('<Q', v), np.float64)[0]

class Env:
    def __init__(self, rnd=None, model=None, tr=None):
        self.rnd = rnd; self.model = model; self.tr = tr
        self.memo = {}; self.fun = {}; self.vals = {}
        self.bad = set()
    def draw(self, w):
        r = self.rnd
        if w == 1: return r.getrandbits(1)
        k = r.randrange(12)
        if k < 3: return r.randrange(0, min(1 << w, 9))
        if k == 3: return (1 << w) - 1 - r.randrange(0, 3)
        if k == 4: return (1 << (w - 1)) - r.randrange(0, 3)
        if k == 5: return (1 << (w - 1)) + r.randrange(0, min(3, 1 << (w - 1)))
        if k < 8: return r.getrandbits(r.randrange(1, w + 1))
        if k == 8: return (-r.getrandbits(r.randrange(1, w + 1))) % (1 << w)
        return r.getrandbits(w)
    def ask(self, z, w):
        v = self.model.eval(z, model_completion=True)
        if w == 1: return 1 if z3.is_true(v) else 0
        if z3.is_bv_value(v): return v.as_long()
        raise Unsup()
    def ev(self, t):
        memo = self.memo
        if t.id in memo: return memo[t.id]
        if len(memo) > 400000: memo.clear()
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo: st.pop(); continue
            if x.id in self.bad: raise Unsup()
            if x.op == 'ite' and x.args[0].id in memo:
                k = x.args[1] if memo[x.args[0].id] else x.args[2]
                if k.id in memo: memo[x.id] = memo[k.id]; st.pop()
                else: st.append(k)
                continue
            todo = (x.args[0],) if x.op == 'ite' else [k for k in kids(x) if k.id not in memo]
            if todo: st.extend(todo); continue
            try: memo[x.id] = self.ev1(x, memo)
            except Unsup:
                for y in st: self.bad.add(y.id)
                raise
            st.pop()
        return memo[t.id]
    def fev(self, t, m):
        if np is None: raise Unsup()
        o = t.op; a = t.args; w = t.w
        if o == 'fc': return frombits(a[0], w)
        if o == 'v': return frombits(self.draw(32 if w == 'f32' else 64), w) if self.model is None else self.fmod(t)
        g = [m[x.id] for x in a if isinstance(x, T)]
        ty = np.float32 if w == 'f32' else np.float64
        if o == 'ffrom': return frombits(g[0], w)
        if o == 'fbits':
            if g[0] != g[0]: raise Unsup()
            return struct.unpack('<I' if w == 32 else '<Q', g[0].tobytes())[0]
        if o == 'fadd': return g[0] + g[1]
        if o == 'fsub': return g[0] - g[1]
        if o == 'fmul': return g[0] * g[1]
        if o == 'fdiv': return g[0] / g[1]
        if o == 'fneg': return -g[0]
        if o == 'fabs': return abs(g[0])
        if o == 'ite': return g[1] if g[0] else g[2]
        if o == 'ffloor': return np.floor(g[0])
        if o == 'fceil': return np.ceil(g[0])
        if o == 'ftruncr': return np.trunc(g[0])
        if o == 'fsqrt': return np.sqrt(g[0])
        if o == 'feq': return int(g[0] == g[1])
        if o == 'flt': return int(g[0] < g[1])
        if o == 'fle': return int(g[0] <= g[1])
        if o == 'fnan': return int(g[0] != g[0])
        if o == 'f2f': return ty(g[0])
        if o in ('ui2f', 'si2f'):
            v = g[0] if o == 'ui2f' else sx(g[0], a[0].w)
            if w == 'f32' and abs(v) >= 1 << 53: raise Unsup()
            return ty(v)
        if o in ('f2ui', 'f2si'):
            if not np.isfinite(g[0]): raise Unsup()
            v = int(g[0])
            lo, hi = (0, (1 << w) - 1) if o == 'f2ui' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if v < lo or v > hi: raise Unsup()
            return v & ((1 << w) - 1)
        raise Unsup()
    def fmod(self, t): raise Unsup()
    def ev1(self, t, m):
        o = t.op; a = t.args; w = t.w
        if o in FOPS or not isinstance(w, int): return self.fev(t, m)
        M = (1 << w) - 1
        if o == 'c': return a[0]
        if o == 'v':
            v = self.vals.get(a[0])
            if v is None:
                v = self.ask(z3.Const(a[0], self.tr.sort(w)), w) if self.model is not None else self.draw(w)
                self.vals[a[0]] = v
            return v
        if o == 'lin':
            s = a[0]
            for x, k in a[1]: s += m[x.id] * k
            return s & M
        if o == 'rd' or o == 'app':
            xs = a[1:] 
            key = (a[0],) + tuple(m[x.id] for x in xs)
            v = self.fun.get(key)
            if v is None:
                if self.model is not None:
                    f = self.tr.arrs.get(a[0])
                    if f is None: raise Unsup()
                    zs = []
                    for x in xs:
                        if not isinstance(x.w, int): raise Unsup()
                        zs.append(z3.BoolVal(bool(m[x.id])) if x.w == 1 else z3.BitVecVal(m[x.id], x.w))
                    v = self.ask(f(*zs), w)
                else: v = self.draw(w)
                self.fun[key] = v
            return v
        g = [m[x.id] for x in a if isinstance(x, T)]
        if o == 'mul': return (g[0] * g[1]) & M
        if o in ('udiv', 'urem', 'sdiv', 'srem'):
            x, y = g
            if y == 0: raise Unsup()
            if o == 'udiv': return x // y
            if o == 'urem': return x % y
            x = sx(x, w); y = sx(y, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return q & M if o == 'sdiv' else (x - q * y) & M
        if o == 'and': return g[0] & g[1]
        if o == 'or': return g[0] | g[1]
        if o == 'xor': return g[0] ^ g[1]
        if o == 'not': return 1 - g[0] if w == 1 else ~g[0] & M
        if o == 'shl': return (g[0] << g[1]) & M if g[1] < w else 0
        if o == 'lshr': return g[0] >> g[1] if g[1] < w else 0
        if o == 'ashr': return (sx(g[0], w) >> min(g[1], w)) & M
        if o == 'zext': return g[0]
        if o == 'sext': return sx(g[0], a[0].w) & M
        if o == 'ext': return (g[0] >> a[2]) & ((1 << (a[1] - a[2] + 1)) - 1)
        if o == 'concat': return (g[0] << a[1].w) | g[1]
        if o == 'eq':
            if not isinstance(a[0].w, int): raise Unsup()
            return int(g[0] == g[1])
        if o == 'ult': return int(g[0] < g[1])
        if o == 'ule': return int(g[0] <= g[1])
        if o == 'slt': return int(sx(g[0], a[0].w) < sx(g[1], a[1].w))
        if o == 'sle': return int(sx(g[0], a[0].w) <= sx(g[1], a[1].w))
        raise Unsup()

class Pool:
    def __init__(self, tr, n=0):
        self.tr = tr; self.envs = []
        rnd = random.Random(7)
        for i in range(n): self.envs.append(Env(rnd=random.Random(rnd.getrandbits(32))))
        self.live = {}       # pc id -> [count of parent's live list seen, live list, version]
        self.max = 400
        self.hits = 0
    def add(self, model):
        if len(self.envs) < self.max: self.envs.append(Env(model=model, tr=self.tr))
    def of(self, pc):
        n = len(self.envs)
        chain = []
        p = pc
        while p is not None:
            r = p.live
            if r is not None and r[2] == n: break
            chain.append(p); p = p.parent
        for q in reversed(chain):
            if q.parent is None: q.live = [0, self.envs, n]; continue
            src = q.parent.live[1]
            r = q.live
            if r is None: r = q.live = [0, [], n]
            for e in src[r[0]:]:
                try:
                    if e.ev(q.term): r[1].append(e)
                except Unsup: pass
            r[0] = len(src); r[2] = n
        return pc.live[1]
    def sat(self, pc, extra):
        for e in reversed(self.of(pc)):
            try:
                if e.ev(extra): self.hits += 1; return True
            except Unsup: pass
        return False
