"""Verification-condition generator: symbolic execution of LLVM IR with loop cut points.

Every path from the entry of a contract (harness) function to a cut point, a loop back edge
or a return is explored; obligations are discharged by SMT.  See DESIGN.md.
"""
import json, time, os, sys, itertools, re
import z3
from terms import *
import terms as tm

sys.setrecursionlimit(20000)

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj = obj; self.off = off
    def __repr__(self): return 'P(%s+%r)' % (self.obj, self.off)

Z64 = C(0, 64)
NULL = Ptr(0, Z64)

class Limit(Exception):
    """Engine limitation (not a property violation)."""
class Fork(Exception):
    def __init__(self, cond): self.cond = cond
class Dead(Exception):
    pass
class ForkN(Exception):
    """Fork into several guarded alternatives by adding each condition."""
    def __init__(self, conds): self.conds = conds

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class PC:
    __slots__ = ('parent', 'term', 'depth', 'id', 'cache', 'set', 'hard', 'live')
    _n = 0
    def __init__(self, parent, term):
        self.parent = parent; self.term = term
        self.depth = parent.depth + 1 if parent else 0
        self.hard = tm.hard(term) or (parent is not None and parent.hard)
        PC._n += 1
        self.id = PC._n
        self.live = None
        self.cache = {}
    def terms(self):
        r = []
        p = self
        while p.parent is not None:
            r.append(p.term); p = p.parent
        r.reverse()
        return r

class AnyObj: size = var('anysize', 64)
ANYOBJ = AnyObj()     # stands for an unknown object: no static size
class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'ew', 'const', 'fn', 'base', 'fresh')

class Frame:
    __slots__ = ('fn', 'regs', 'bb', 'prev', 'ip', 'call', 'allocas', 'caller_exc', 'unroll')
    def clone(self):
        f = Frame()
        f.fn = self.fn; f.regs = dict(self.regs); f.bb = self.bb; f.prev = self.prev; f.ip = self.ip
        f.call = self.call; f.allocas = list(self.allocas); f.caller_exc = self.caller_exc
        f.unroll = dict(self.unroll)
        return f

class State:
    __slots__ = ('frames', 'pc', 'mem', 'dead', 'anys', 'exc', 'caught', 'watch', 'pending', 'tag', 'trace', 'steps', 'facts', 'ghost')
    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.pc = self.pc; s.mem = dict(self.mem); s.dead = self.dead; s.anys = self.anys
        s.exc = self.exc; s.caught = self.caught; s.watch = self.watch; s.pending = None; s.tag = None
        s.trace = self.trace; s.steps = self.steps; s.facts = self.facts; s.ghost = self.ghost
        return s

# memory nodes ------------------------------------------------------------------------
class MN:
    __slots__ = ('k', 'prev', 'a', 'id')
    _n = 0
    def __init__(self, k, prev, *a):
        self.k = k; self.prev = prev; self.a = a
        MN._n += 1
        self.id = MN._n

def tysize(t):
    if isinstance(t, str):
        if t == 'p': return 8
        if t == 'float': return 4
        if t == 'double': return 8
        if t == 'x86_fp80': return 16
        if t[0] == 'i': return (int(t[1:]) + 7) // 8
        raise Limit('size of type ' + t)
    if 's' in t: return t['z']
    return t['n'] * t['e']

def tyw(t):
    if t == 'float': return 'f32'
    if t == 'double': return 'f64'
    if t[0] == 'i': return int(t[1:])
    raise Limit('width of type %r' % (t,))

class Failure:
    def __init__(self, kind, loc, status, model, trace, proof):
        self.kind = kind; self.loc = loc; self.status = status; self.model = model; self.trace = trace; self.proof = proof
    def __repr__(self): return '%s at %s: %s' % (self.kind, self.loc, self.status)

class Module:
    def __init__(self, path):
        with open(path) as f: d = json.load(f)
        self.funcs = {}
        for f in d['funcs']:
            f['hdr'] = {}
            loops = f['loops']
            for h, bl in ((l[0], l[1]) for l in loops):
                f['hdr'][h] = frozenset(bl)
            f['max'] = {l[0]: (l[2] if len(l) > 2 else 0) for l in loops}
            for b in f['blocks']:
                for i in b:
                    if 'd' in i:
                        i['d'] = i['d'].replace('/repo/src/archon/', '').replace('/verif/contracts/', '')
            self.funcs[f['n']] = f
        self.globals = {g['n']: g for g in d['globals']}

STD_BASES = {
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception',
}

class Solver:
    def __init__(self, eng):
        self.eng = eng
        self.tr = Z3Ctx()
        self.s = z3.Solver()
        self.s.set('timeout', 4000)
        self.stack = []
        self.nq = 0; self.t = 0.0
        self.backend = {}
        self.cur_to = 4000
        self.slow = []
        self.hrate = {True: 1.0, False: 1.0}
        self.usecore = bool(eng.o.get('core')); self.cores = {}
        import sample
        self.pool = sample.Pool(self.tr, 96)
    def sync(self, pc):
        st = self.stack
        while len(st) > pc.depth:
            self.s.pop(); st.pop()
        todo = []
        p = pc
        while p.depth > len(st):
            todo.append(p); p = p.parent
        # now p.depth == len(st)
        while len(st) and st[-1] is not p:
            self.s.pop(); st.pop()
            todo.append(p); p = p.parent
        for p in reversed(todo):
            self.s.push(); self.s.add(self.tr.tr(p.term)); st.append(p)
    def check(self, pc, extra, to=4000, feas=True):
        """sat status of pc & extra"""
        if isc(extra) and not cv(extra): return 'unsat'
        key = extra.id
        p = pc
        r = p.cache.get(key)
        if r is not None and (r != 'unknown'): return r
        t0 = time.time()
        if feas and self.pool.sat(pc, extra):
            self.t += time.time() - t0
            pc.cache[key] = 'sat'
            return 'sat'
        if self.usecore:
            cs = self.cores.get(key)
            if cs:
                ids = set(); q = pc
                while q is not None and q.parent is not None: ids.add(q.term.id); q = q.parent
                if any(c <= ids for c in cs):
                    self.backend['core'] = self.backend.get('core', 0) + 1
                    pc.cache[key] = 'unsat'
                    return 'unsat'
        self.sync(pc)
        hd = pc.hard or tm.hard(extra)
        lim = (100 if feas else 300) if hd else (400 if feas else 600)
        x = self.tr.tr(extra)
        def go(to):
            if to != self.cur_to:
                self.s.set('timeout', to); self.cur_to = to
            self.s.push()
            self.s.add(x)
            r = str(self.s.check())
            if r == 'sat' and feas: self.pool.add(self.s.model())
            self.s.pop()
            return r
        # on hard queries the incremental solver is skipped while it keeps failing (every fifth query tries again)
        hk = feas
        if hd and self.hrate[hk] < 0.35 and self.nq % 5: r = 'unknown'
        else:
            r = go(min(lim, to))
            if hd: self.hrate[hk] = 0.75 * self.hrate[hk] + (0.25 if r != 'unknown' else 0)
        self.nq += 1
        if r == 'unknown' and feas:
            import solve
            r, _ = solve.portfolio(pc.terms(), extra, 0.6, quick=True)
            if r == 'unknown' and not hd and to > lim: r = go(to)
        dt = time.time() - t0
        self.t += dt
        if dt > 1: self.slow.append((round(dt, 2), r))
        pc.cache[key] = r
        if self.usecore and r == 'unsat' and dt > 0.03: self.learn(pc, extra)
        return r
    def learn(self, pc, extra):
        """which conditions make extra impossible?  (the answer is reused on other paths with those conditions)"""
        s = z3.Solver(); s.set('timeout', 2000); s.set('core.minimize', True)
        lits = {}; q = pc; ids = set()
        while q is not None and q.parent is not None:
            if q.term.id not in ids:
                ids.add(q.term.id); l = z3.Bool('c!%d' % q.term.id); lits[str(l)] = q.term.id
                s.assert_and_track(self.tr.tr(q.term), l)
            q = q.parent
        s.add(self.tr.tr(extra))
        if s.check() == z3.unsat:
            self.cores.setdefault(extra.id, []).append(frozenset(lits[str(l)] for l in s.unsat_core()))
    def model(self, pc, extra):
        self.sync(pc)
        self.s.push()
        self.s.add(self.tr.tr(extra))
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        return m

class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = dict(unroll=300, loops='auto', maxpaths=200000, timeout=60, maxobj=0, time=600)
        if opts: self.o.update(opts)
        self.objs = {}
        self.nobj = 0
        self.gobj = {}
        self.fnobj = {}
        self.fresh_n = 0
        self.quiet = 0
        self.sol = Solver(self)
        self.fail = []
        self.nob = 0; self.ntriv = 0; self.kinds = {}
        self.paths = 0
        self.covers = {}
        self.loopinfo = {}
        self.deadline = time.time() + self.o['time']
        self.funcs_seen = {}
        self.bounded = self.o.get('bounded', 0)
        self.pow2 = None
        self.basevars = {}
        self.cand_hook = self.o.get('cand_hook')
        self.universals = []
        self.checks = {}
        self.ended = 0
        self.blocks_seen = set()
        self.ext_used = set()
        self.hints = []

    # -------- helpers
    def fresh(self, name, w):
        self.fresh_n += 1
        return var('%s!%d' % (name, self.fresh_n), w)
    def newobj(self, st, name, size, kind, base, ew=0, const=False):
        self.nobj += 1
        o = Obj()
        o.id = self.nobj; o.name = name; o.size = size; o.kind = kind; o.ew = ew; o.const = const; o.fn = None; o.base = None; o.fresh = None
        self.objs[o.id] = o
        if st is not None: st.mem[o.id] = base
        return o
    def cellsnode(self): return MN('cells', None, {})
    def uninit(self, oid):
        return MN('cells', MN('base', None, 'uninit', 'un%d' % oid), {})
    def getglobal(self, st, name):
        oid = self.gobj.get(name)
        if oid is None:
            g = self.m.globals.get(name)
            if g is None:
                o = self.newobj(None, name, C(64, 64), 'global', None, const=True)
                self.gobj[name] = o.id
                o.fn = None
                o.base = None
                self.objs[o.id].ew = 0
                self._ginit = getattr(self, '_ginit', {})
                self._ginit[o.id] = MN('base', None, 'uninit', 'ext_' + name)
            else:
                o = self.newobj(None, name, C(g['z'], 64), 'global', None, const=bool(g['k']))
                self.gobj[name] = o.id
                self._ginit = getattr(self, '_ginit', {})
                self._ginit[o.id] = None
            oid = o.id
        if oid not in st.mem:
            if self._ginit[oid] is None:
                g = self.m.globals[name]
                cells = {}
                for e in g['i']:
                    if e[1] == 'z':
                        pass
                    elif e[1] == 'd':
                        b = bytes.fromhex(e[2])
                        for k, x in enumerate(b): cells[e[0] + k] = (1, C(x, 8))
                    else:
                        v = self.const_val(st, e[3])
                        if v is not UNDEF: self.cells_put(cells, e[0], v)
                # re-pack byte data into natural elements lazily: keep bytes
                base = MN('base', None, 'zero')
                if not g['h']: base = MN('base', None, 'uninit', 'ext_' + name)
                self._ginit[oid] = MN('cells', base, cells)
            st.mem[oid] = self._ginit[oid]
        return oid
    def cells_put(self, cells, off, v):
        if isinstance(v, tuple):
            for o2, x in v: self.cells_put(cells, off + o2, x)
            return
        cells[off] = (self.vsize(v), v)
    def vsize(self, v):
        if isinstance(v, Ptr): return 8
        if v.w == 'f32': return 4
        if v.w == 'f64': return 8
        return (v.w + 7) // 8

    def getfn(self, name):
        oid = self.fnobj.get(name)
        if oid is None:
            o = self.newobj(None, name, C(0, 64), 'fn', None)
            o.fn = name
            self.fnobj[name] = o.id
            oid = o.id
        return oid

    def const_val(self, st, a):
        k = a[0]
        if k == 'c': return C(a[2], a[1])
        if k == 'n': return NULL
        if k == 'u': return self.undef_of(a[1])
        if k == 'g':
            return Ptr(self.getglobal(st, a[1]), C(a[2], 64))
        if k == 'f': return Ptr(self.getfn(a[1]), Z64)
        if k == 'fp':
            if a[1] == 'x86_fp80': raise Limit('x86_fp80')
            return mk('fc', (a[2],), 'f32' if a[1] == 'float' else 'f64')
        if k == 'z': return self.zero_of(a[1])
        if k == 'agg':
            return [self.const_val(st, x) for x in a[2]]
        if k == 'ce':
            if a[1] == 'gep':
                p = self.const_val(st, a[3][0])
                return Ptr(p.obj, add(p.off, self.const_val(st, a[3][1])))
            if a[1] == 'ptrtoint':
                return self.ptrtoint(st, self.const_val(st, a[3][0]), tyw(a[2]))
            if a[1] in ('bitcast', 'addrspacecast'): return self.const_val(st, a[3][0])
            if a[1] == 'sub':
                return sub(self.const_val(st, a[3][0]), self.const_val(st, a[3][1]))
            if a[1] == 'add':
                return add(self.const_val(st, a[3][0]), self.const_val(st, a[3][1]))
            if a[1] == 'inttoptr':
                return self.inttoptr(st, self.const_val(st, a[3][0]))
        raise Limit('constant %r' % (a,))
    def undef_of(self, t):
        if isinstance(t, str):
            if t == 'p': return UNDEF
            return self.fresh('undef', tyw(t))
        if 's' in t: return [self.undef_of(x) for x in t['s']]
        e = t.get('a', t.get('v'))
        return [self.undef_of(e) for _ in range(t['n'])]
    def zero_of(self, t):
        if isinstance(t, str):
            if t == 'p': return NULL
            w = tyw(t)
            if isinstance(w, str): return mk('fc', (0,), w)
            return C(0, w)
        if 's' in t: return [self.zero_of(x) for x in t['s']]
        e = t.get('a', t.get('v'))
        return [self.zero_of(e) for _ in range(t['n'])]

    def val(self, st, a):
        if a[0] == 'l':
            v = st.frames[-1].regs.get(a[1])
            if v is None: raise Limit('use of undefined register %d in %s' % (a[1], st.frames[-1].fn['n']))
            return v
        return self.const_val(st, a)
    def assume(self, st, c):
        if isc(c):
            if not cv(c): raise Dead()
            return
        if c.op == 'and':
            for x in c.args: self.assume(st, x)
            return
        st.pc = PC(st.pc, c)
    def basevar(self, st, oid):
        if oid == 0: return Z64
        o = self.objs[oid]
        if o.base is None:
            o.base = var('addr%d' % oid, 64)
            self.basevars[o.base] = oid
        return o.base
    def ptrtoint(self, st, p, w):
        if p is UNDEF: return self.fresh('undef', w)
        v = add(self.basevar(st, p.obj), p.off)
        if p.obj:
            o = self.objs[p.obj]
            key = ('bv', p.obj)
            if key not in st.ghost:
                st.ghost = dict(st.ghost); st.ghost[key] = 1
                self.assume(st, and_(ule(C(4096, 64), o.base), ule(o.base, sub(C(1 << 47, 64), o.size))))
                if o.kind != 'fn': self.assume(st, eq(ext(o.base, 3, 0), C(0, 4)))
        return v if w == 64 else (trunc(v, w) if w < 64 else zext(v, w))
    def inttoptr(self, st, t):
        if isc(t): return Ptr(0, t)
        if t.op == 'v' and t in self.basevars: return Ptr(self.basevars[t], Z64)
        if t.op == 'lin':
            for x, k in t.args[1]:
                if k == 1 and x in self.basevars:
                    return Ptr(self.basevars[x], sub(t, x))
        if t.op == 'ite':
            d = self.decide(st, t.args[0])
            if d is not None: return self.inttoptr(st, t.args[1] if d else t.args[2])
            raise Fork(t.args[0])
        raise Limit('inttoptr of %r' % t)

    # -------- decisions
    def feasible(self, st, c):
        if isc(c): return bool(cv(c))
        return self.sol.check(st.pc, c) != 'unsat'
    def must(self, st, c):
        """c is implied by the path condition (True) or not known to be"""
        if isc(c): return bool(cv(c))
        return self.sol.check(st.pc, not_(c)) == 'unsat'
    def decide(self, st, c):
        """True / False / None"""
        if isc(c): return bool(cv(c))
        if self.sol.check(st.pc, c) == 'unsat': return False
        if self.sol.check(st.pc, not_(c)) == 'unsat': return True
        return None

    # -------- obligations
    def oblige(self, st, c, kind, loc):
        if self.quiet:
            self.assume(st, c)
            return
        self.nob += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if isc(c) and cv(c):
            self.ntriv += 1
            return
        r, model = self.prove(st, c)
        if r != 'ok':
            self.fail.append(Failure(kind, loc, r, self.extract(st, model) if model is not None else None, self.describe(st), None))
            if len(self.fail) >= self.o.get('maxfail', 3): raise Stop()
        self.assume(st, c)
    def prove(self, st, c):
        nc = not_(c)
        parts = None
        if c.op == 'and':
            # prove conjuncts separately
            for x in (c.args):
                r, m = self.prove(st, x)
                if r != 'ok': return r, m
            return 'ok', None
        r = self.sol.check(st.pc, nc, to=self.o.get('t1', 3000), feas=False)
        if r == 'unsat':
            self.count('z3-inc'); return 'ok', None
        if r == 'sat':
            return 'refuted', (st.pc, nc)
        # portfolio (obligation)
        r = self.portfolio(st.pc, nc)
        if r == 'unsat': return 'ok', None
        if r == 'sat': return 'refuted', (st.pc, nc)
        return 'unknown', None
    def count(self, b):
        self.sol.backend[b] = self.sol.backend.get(b, 0) + 1
    def portfolio(self, pc, nc):
        import solve
        t0 = time.time()
        r, who = solve.portfolio(pc.terms(), nc, self.o['timeout'])
        self.sol.t += time.time() - t0
        self.sol.nq += 1
        self.sol.slow.append((round(time.time() - t0, 2), r + ' ' + str(who)))
        if who: self.count(who)
        return r
    def describe(self, st):
        r = []
        for f in reversed(st.frames):
            b = f.fn['blocks'][f.bb]
            i = b[min(f.ip, len(b) - 1)]
            r.append('%s (%s)' % (f.fn['n'], i.get('d', '?')))
        return r
    def extract(self, st, pm):
        """model -> replay values for st.anys"""
        pc, nc = pm
        s = z3.Solver()
        s.set('timeout', 20000)
        tr = self.sol.tr
        for t in pc.terms(): s.add(tr.tr(t))
        s.add(tr.tr(nc))
        # prefer small sizes
        sizes = []
        for a in self.anylist(st):
            if a[0] == 'arr': sizes.append(a[2])
            elif a[0] == 's': sizes.append(a[1])
        m = None
        if s.check() == z3.sat: m = s.model()
        for lim in (4096, 300, 64, 16):
            s.push()
            for z in sizes: s.add(tr.tr(ule(z, C(lim, 64))))
            r = s.check()
            if r == z3.sat: m = s.model()
            s.pop()
            if r != z3.sat: break
        if m is None: return None
        out = []
        for a in self.anylist(st):
            if a[0] in 'vs':
                v = m.eval(tr.tr(a[1]), model_completion=True)
                out.append(('v', self.zint(v), self.vsize(a[1])))
            else:
                n = self.zint(m.eval(tr.tr(a[2]), model_completion=True))
                ew = a[3]
                if n > 100000: return None
                data = bytearray()
                for o in range(0, n, ew):
                    v = m.eval(tr.tr(rd(a[1], C(o, 64), ew * 8)), model_completion=True)
                    data += self.zint(v).to_bytes(ew, 'little')
                out.append(('a', bytes(data[:n]).hex(), n))
        return out
    def zint(self, v):
        if z3.is_bool(v): return 1 if z3.is_true(v) else 0
        if z3.is_fp(v):
            v = z3.simplify(z3.fpToIEEEBV(v))
            try: return v.as_long()
            except Exception: return 0x7fc00000 if v.size() == 32 else 0x7ff8000000000000
        return v.as_long()
    def anylist(self, st):
        r = []
        a = st.anys
        while a is not None:
            r.append(a[1]); a = a[0]
        r.reverse()
        return r

    # -------- memory
    def objof(self, st, p, loc):
        if p is UNDEF: raise Limit('undef pointer used')
        return self.objs.get(p.obj)
    def access(self, st, p, size, loc, what):
        """bounds obligation; size is a T64"""
        if p is UNDEF:
            self.oblige(st, FALSE, what + ' through undefined pointer', loc); raise Dead()
        o = self.objs.get(p.obj)
        if o is None or o.kind == 'fn':
            self.oblige(st, eq(size, Z64) if o is None else FALSE, what + ' through null/invalid pointer', loc)
            raise Dead()
        if p.obj in st.dead:
            self.oblige(st, FALSE, what + ' after lifetime end of ' + o.name, loc); raise Dead()
        if isc(p.off) and isc(o.size) and isc(size):
            ok = scv(p.off) >= 0 and cv(p.off) + cv(size) <= cv(o.size)
            if not ok:
                self.oblige(st, FALSE, what + ' out of bounds of ' + o.name, loc); raise Dead()
            if not self.quiet:
                self.nob += 1; self.ntriv += 1
                self.kinds['memory-bounds'] = self.kinds.get('memory-bounds', 0) + 1
            return o
        end = add(p.off, size)
        if isc(size):
            k = cv(size)
            c = and_(ule(C(k, 64), o.size), ule(p.off, sub(o.size, C(k, 64)))) if not (isc(o.size) and cv(o.size) < k) else FALSE
        else:
            c = and_(ule(size, o.size), ule(p.off, sub(o.size, size)))
        self.oblige(st, c, 'memory-bounds', loc + ' (%s of %s)' % (what, o.name))
        return o

    def load(self, st, p, t, loc):
        if not isinstance(t, str):
            if 's' in t: return [self.load(st, Ptr(p.obj, add(p.off, C(o, 64))), x, loc) for x, o in zip(t['s'], t['o'])]
            e = t.get('a', t.get('v'))
            return [self.load(st, Ptr(p.obj, add(p.off, C(t['e'] * k, 64))), e, loc) for k in range(t['n'])]
        n = tysize(t)
        o = self.access(st, p, C(n, 64), loc, 'read')
        v = self.mread(st, st.mem[p.obj], p.off, n, o)
        return self.coerce(st, v, t)
    def coerce(self, st, v, t):
        if t == 'p':
            if isinstance(v, Ptr) or v is UNDEF: return v
            return self.inttoptr(st, v)
        w = tyw(t)
        if isinstance(v, Ptr): v = self.ptrtoint(st, v, 64)
        if v is UNDEF: return self.fresh('undef', w)
        if v.w == w: return v
        if isinstance(w, str):
            if isinstance(v.w, int):
                if isc(v): return mk('fc', (cv(v),), w)
                if v.op == 'fbits': return v.args[0]
                return mk('ffrom', (v,), w)
            raise Limit('float width mismatch')
        if isinstance(v.w, str): v = self.fbits(v)
        if v.w == w: return v
        if w < v.w: return trunc(v, w)
        raise Limit('coerce %r to %r' % (v.w, w))
    def fbits(self, v):
        if v.op == 'fc': return C(v.args[0], 32 if v.w == 'f32' else 64)
        if v.op == 'ffrom': return v.args[0]
        return mk('fbits', (v,), 32 if v.w == 'f32' else 64)
    def tobits(self, st, v):
        if isinstance(v, Ptr): return self.ptrtoint(st, v, 64)
        if isinstance(v.w, str): return self.fbits(v)
        if v.w % 8: return zext(v, (v.w + 7) // 8 * 8)
        return v
    def byteof(self, st, v, k):
        v = self.tobits(st, v)
        return ext(v, 8 * k + 7, 8 * k)

    def merge(self, st, c, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return Ptr(a.obj, ite(c, a.off, b.off))
            d = self.decide(st, c)
            if d is not None: return a if d else b
            raise Fork(c)
        if a is UNDEF: return b
        if b is UNDEF: return a
        if a.w != b.w:
            a = self.tobits(st, a); b = self.tobits(st, b)
            if a.w != b.w: raise Limit('merge widths')
        return ite(c, a, b)

    def mread(self, st, n, off, sz, o):
        """read sz bytes at off from node n"""
        while True:
            k = n.k
            if k == 'cells':
                cells = n.a[0]
                if isc(off):
                    c = cv(off)
                    e = cells.get(c)
                    if e is not None and e[0] == sz: return e[1]
                    # overlapping?
                    hit = False
                    for q in range(c - 15, c + sz):
                        e = cells.get(q)
                        if e is not None and q + e[0] > c: hit = True; break
                    if not hit:
                        if n.prev is None: return self.fresh('uninit', 8 * sz)
                        n = n.prev; continue
                    t = self.tiles(st, cells, c, sz)
                    if t is not None: return t
                    bs = []
                    for j in range(sz):
                        bs.append(self.cellbyte(st, cells, n, c + j, o))
                    return self.joinbytes(bs)
                else:
                    if not cells:
                        n = n.prev
                        if n is None: return self.fresh('uninit', 8 * sz)
                        continue
                    return self.table_read(st, n, off, sz, o)
            if k == 'w':
                woff, wsz, wv = n.a
                d = sub(off, woff)
                if isc(d):
                    dd = sgn(cv(d), 64)
                    if dd == 0 and sz == wsz: return wv
                    if dd >= wsz or dd <= -sz: n = n.prev; continue
                    if dd >= 0 and dd + sz <= wsz:
                        v = self.tobits(st, wv)
                        return ext(v, 8 * (dd + sz) - 1, 8 * dd)
                    return self.joinbytes([self.mread(st, n, add(off, C(j, 64)), 1, o) for j in range(sz)])
                if sz == wsz:
                    c = eq(off, woff)
                    r = self.decide(st, c)
                    if r is True: return wv
                    # disjointness: require |d| >= sz unless equal (same alignment)
                    if sz > 1 and not self.aligned(st, d, sz):
                        if not self.must(st, or_(c, and_(ule(C(sz, 64), d), ule(C(sz, 64), neg(d))))):
                            return self.joinbytes([self.mread(st, n, add(off, C(j, 64)), 1, o) for j in range(sz)])
                    if r is False: n = n.prev; continue
                    rest = self.mread(st, n.prev, off, sz, o)
                    return self.merge(st, c, wv, rest)
                # different sizes
                c = and_(ule(C(wsz, 64), d), ule(C(sz, 64), neg(d)))   # disjoint
                if self.must(st, c): n = n.prev; continue
                if sz > 1:
                    return self.joinbytes([self.mread(st, n, add(off, C(j, 64)), 1, o) for j in range(sz)])
                # sz == 1, wsz > 1
                inside = ult(d, C(wsz, 64))
                r = self.decide(st, inside)
                v = None
                if r is not False:
                    bits = self.tobits(st, wv)
                    v = C(0, 8)
                    for j in range(wsz): v = ite(eq(d, C(j, 64)), ext(bits, 8*j+7, 8*j), v)
                    if r is True: return v
                rest = self.mread(st, n.prev, off, 1, o)
                return rest if v is None else self.merge(st, inside, v, rest)
            if k in ('copy', 'fill', 'havoc', 'map'):
                if k == 'copy': lo, ln = n.a[0], n.a[1]
                elif k == 'fill': lo, ln = n.a[0], n.a[1]
                elif k == 'havoc': lo, ln = n.a[0], n.a[1]
                else: lo, ln = n.a[0], n.a[1]
                d = sub(off, lo)
                # element straddling check
                if sz > 1 and not (self.aligned(st, d, sz) and self.aligned(st, ln, sz)):
                    inside = and_(ule(C(sz, 64), ln), ule(d, sub(ln, C(sz, 64))))
                    if not self.must(st, inside):
                        outside = and_(ule(ln, d), or_(eq(ln, Z64), ule(C(sz, 64), neg(d))))
                        if self.must(st, outside): n = n.prev; continue
                        raise Limit('unaligned region read')
                    r = True
                else:
                    inside = ult(d, ln)
                    r = self.decide(st, inside)
                if r is False: n = n.prev; continue
                if k == 'copy':
                    v = self.mread(st, n.a[2], add(n.a[3], d), sz, ANYOBJ)
                elif k == 'fill':
                    b = n.a[2]
                    v = b
                    for _ in range(sz - 1): v = concat(v, b)
                elif k == 'havoc':
                    v = self.symread(st, n.a[2], n.a[3], off, sz)
                else:
                    s, wb, kv, g = n.a[2], n.a[3], n.a[4], n.a[5]
                    v = self.mapread(st, n, off, d, sz)
                if r is True: return v
                rest = self.mread(st, n.prev, off, sz, o)
                return self.merge(st, inside, v, rest)
            if k == 'base':
                kind = n.a[0]
                if kind == 'zero': return C(0, 8 * sz)
                if kind == 'sym': return self.symread(st, n.a[1], n.a[2], off, sz)
                if kind == 'uninit':
                    return rd('%s_%d' % (n.a[1], sz), off, 8 * sz)
            raise Limit('mread ' + k)
    def tiles(self, st, cells, c, sz):
        """value made of whole cells, or a piece of one cell"""
        v = None; q = c
        while q < c + sz:
            e = cells.get(q)
            if e is None: break
            if isinstance(e[1], Ptr) or e[1] is UNDEF: return None
            b = self.tobits(st, e[1])
            k = e[0]
            if q + k > c + sz: k = c + sz - q; b = ext(b, 8 * k - 1, 0)
            v = b if v is None else concat(b, v)
            q += k
        else:
            return v
        if v is not None: return None
        for q in range(c - 15, c):
            e = cells.get(q)
            if e is not None and q + e[0] >= c + sz:
                if isinstance(e[1], Ptr) or e[1] is UNDEF: return None
                return ext(self.tobits(st, e[1]), 8 * (c + sz - q) - 1, 8 * (c - q))
        return None
    def mapread(self, st, n, off, d, sz):
        lo, ln, s, wb, kv, g = n.a
        # writes of wb bytes at lo + s*j (s == wb > 0)
        if sz == wb and s == wb:
            j = None
            if s & (s - 1) == 0:
                z = tm._tz(d)
                if z >= s.bit_length() - 1: j = lshr(d, C(s.bit_length() - 1, 64)) if s > 1 else d
            if j is None:
                j = udiv(d, C(s, 64))
            # prefer exact syntactic division
            q = self.exactdiv(d, s)
            if q is not None: j = q
            return subst(g, {kv: j})
        raise Limit('mapread size')
    def exactdiv(self, d, s):
        if s == 1: return d
        c, ts = tm._parts(d)
        M = 1 << 64
        def dv(k):
            k = sgn(k, 64)
            return None if k % s else k // s
        cc = dv(c)
        if cc is None: return None
        r = {}
        for x, k in ts:
            q = dv(k)
            if q is None: return None
            r[x] = q
        return tm._lin(64, cc, r)
    def aligned(self, st, d, sz):
        if sz == 1: return True
        if isc(d): return cv(d) % sz == 0
        if sz & (sz - 1) == 0 and tm._tz(d) >= sz.bit_length() - 1: return True
        if self.exactdiv(d, sz) is not None: return True
        if sz & (sz - 1) == 0:
            return self.must(st, eq(ext(d, sz.bit_length() - 2, 0), C(0, sz.bit_length() - 1)) if sz > 2 else not_(ext(d, 0, 0)))
        return self.must(st, eq(urem(d, C(sz, 64)), Z64))
    def symread(self, st, name, ew, off, sz):
        if sz == ew: return rd(name, off, 8 * ew)
        if sz > ew and sz % ew == 0:
            return self.joinbytes([rd(name, add(off, C(j, 64)), 8 * ew) for j in range(0, sz, ew)])
        # narrower than element: need offset modulo element
        if isc(off):
            b = cv(off) // ew * ew
            k = cv(off) - b
            if k + sz <= ew: return ext(rd(name, C(b, 64), 8 * ew), 8 * (k + sz) - 1, 8 * k)
        else:
            c, ts = tm._parts(off)
            if all(k % ew == 0 for _, k in ts):
                k = c % ew
                if k + sz <= ew: return ext(rd(name, sub(off, C(k, 64)), 8 * ew), 8 * (k + sz) - 1, 8 * k)
        raise Limit('symread %d of elem %d at %r' % (sz, ew, off))
    def cellbyte(self, st, cells, n, c, o):
        for q in range(c, c - 16, -1):
            e = cells.get(q)
            if e is not None and q + e[0] > c:
                return self.byteof(st, e[1], c - q)
        if n.prev is None: return self.fresh('uninit', 8)
        return self.mread(st, n.prev, C(c, 64), 1, o)
    def joinbytes(self, bs):
        v = bs[0]
        for b in bs[1:]: v = concat(b, v)
        return v
    def table_read(self, st, n, off, sz, o):
        r = self.table_read_1(st, n, off, sz, o)
        if not isc(o.size) and n.prev is not None and not isinstance(r, Ptr):
            # the table only covers the cells; beyond them lies whatever was there before
            c = ule(off, C(max(n.a[0]) + 16 - sz, 64))
            if not self.must(st, c): r = self.merge(st, c, r, self.mread(st, n.prev, off, sz, o))
        return r
    def table_read_1(self, st, n, off, sz, o):
        cells = n.a[0]
        lo, hi = rng(off)
        stride = 1
        # candidates: positions p such that p..p+sz covered
        size = cv(o.size) if isc(o.size) else None
        c, ts = tm._parts(off)
        g = 0
        import math
        for x, k in ts:
            k = sgn(k, 64)
            g = math.gcd(g, abs(k) << 0)
            z = tm._tz(x)
            if z: g = math.gcd(g, abs(k) << z) if g == 0 else math.gcd(g, abs(k) << z)
        g = g & -g      # arithmetic wraps around, so only powers of two are preserved
        if g == 0: g = 1
        if size is None: size = max(cells) + 16
        start = c % g
        pos = [p for p in range(start, size - sz + 1, g) if lo <= p <= hi]
        if len(pos) > 1200: raise Limit('large table read (%d)' % len(pos))
        res = None
        defs = []
        groups = {}
        order = []
        for p in pos:
            e = cells.get(p)
            if e is not None and e[0] == sz: v = e[1]
            else: v = self.mread(st, n, C(p, 64), sz, o)
            if isinstance(v, Ptr):
                # pointer table: fork on position
                ok = [C(pp, 64) for pp in pos]
                conds = [eq(off, x) for x in ok]
                conds = [x for x in conds if self.feasible(st, x)]
                if len(conds) == 1:
                    for pp in pos:
                        if eq(off, C(pp, 64)) is conds[0]: return self.mread(st, n, C(pp, 64), sz, o)
                raise ForkN(conds)
            if v in groups: groups[v].append(p)
            else:
                groups[v] = [p]; order.append(v)
        if not order: return self.fresh('oob', 8 * sz)
        if len(pos) > 24 and all(isc(v) for v in order):
            # affine runs: try to express as piecewise  off -> const tables with range tests
            runs = []
            for p in pos:
                e = cells.get(p)
                v = e[1] if (e is not None and e[0] == sz) else self.mread(st, n, C(p, 64), sz, o)
                val = cv(v)
                if runs:
                    a, b, va, dlt = runs[-1]
                    if dlt is None or True:
                        step = (val - (va + ((b - a) // g) * (dlt or 0))) if dlt is not None else val - va
                        if dlt is None: runs[-1] = (a, p, va, step); continue
                        if val == va + ((p - a) // g) * dlt: runs[-1] = (a, p, va, dlt); continue
                runs.append((p, p, val, None))
            if len(runs) <= 40:
                w = 8 * sz
                r = None
                sh = g.bit_length() - 1
                for a, b, va, dlt in reversed(runs):
                    dlt = dlt or 0
                    if dlt == 0: v = C(va, w)
                    else:
                        idx = sub(off, C(a, 64))
                        q = self.exactdiv(idx, g)
                        if q is None: q = udiv(idx, C(g, 64))
                        q = trunc(q, w) if w < 64 else zext(q, w)
                        v = add(C(va, w), mulk(q, dlt))
                    r = v if r is None else ite(ule(off, C(b, 64)), v, r)
                return r
        # build ite chain; most frequent value as default
        order.sort(key=lambda v: -len(groups[v]))
        res = order[0]
        for v in order[1:]:
            cond = FALSE
            for p in groups[v]: cond = or_(cond, eq(off, C(p, 64)))
            res = self.merge(st, cond, v, res)
        return res

    def store(self, st, p, v, t, loc):
        if not isinstance(t, str):
            if 's' in t:
                for x, o, y in zip(t['s'], t['o'], v): self.store(st, Ptr(p.obj, add(p.off, C(o, 64))), y, x, loc)
                return
            e = t.get('a', t.get('v'))
            for k in range(t['n']): self.store(st, Ptr(p.obj, add(p.off, C(t['e'] * k, 64))), v[k], e, loc)
            return
        n = tysize(t)
        o = self.access(st, p, C(n, 64), loc, 'write')
        if o.const:
            self.oblige(st, FALSE, 'write to constant ' + o.name, loc)
        if v is UNDEF: v = self.fresh('undef', 64)
        if isinstance(v, T) and v.w == 1: v = zext(v, 8)
        elif isinstance(v, T) and isinstance(v.w, int) and v.w % 8: v = zext(v, n * 8)
        st.mem[p.obj] = self.mwrite(st.mem[p.obj], p.off, n, v)
    def mwrite(self, node, off, n, v):
        if isc(off) and node.k == 'cells':
            c = cv(off)
            cells = dict(node.a[0])
            for q in range(c - 15, c + n):
                e = cells.get(q)
                if e is not None and q + e[0] > c:
                    if q >= c and q + e[0] <= c + n: del cells[q]
                    else:
                        # partial overlap: split
                        del cells[q]
                        for j in range(e[0]):
                            if not (c <= q + j < c + n): cells[q + j] = (1, self.byteof(None, e[1], j))
            cells[c] = (n, v)
            return MN('cells', node.prev, cells)
        return MN('w', node, off, n, v)

    def memcpy(self, st, d, s, ln, loc, what='memcpy'):
        if isc(ln) and cv(ln) == 0: return
        if not isc(ln):
            r = self.decide(st, eq(ln, Z64))
            if r is True: return
            if r is None and (d is UNDEF or s is UNDEF or d.obj == 0 or s.obj == 0): raise Fork(eq(ln, Z64))
        so = self.access(st, s, ln, loc, 'read')
        do = self.access(st, d, ln, loc, 'write')
        if do.const: self.oblige(st, FALSE, 'write to constant ' + do.name, loc)
        if what == 'memcpy' and d.obj == s.obj:
            x = sub(d.off, s.off)
            self.oblige(st, or_(eq(x, Z64), and_(ule(ln, x), ule(ln, neg(x)))), 'memcpy overlap', loc)
        sn = st.mem[s.obj]; dn = st.mem[d.obj]
        if isc(ln) and cv(ln) <= 4096 and isc(s.off) and isc(d.off) and sn.k == 'cells' and dn.k == 'cells':
            n = cv(ln); a = cv(s.off); b = cv(d.off)
            out = []
            j = 0
            cells = sn.a[0]
            while j < n:
                e = cells.get(a + j)
                if e is not None and j + e[0] <= n:
                    out.append((b + j, e[0], e[1])); j += e[0]; continue
                cov = any((cells.get(q) is not None and q + cells[q][0] > a + j) for q in range(a + j - 15, a + j + 1))
                if not cov and sn.prev is not None and sn.prev.k == 'base' and sn.prev.a[0] == 'uninit':
                    # skip uninitialised gap: leave destination fresh
                    nx = [q for q in cells if q > a + j]
                    j2 = min(nx) - a if nx else n
                    j2 = min(j2, n)
                    for q in range(j, j2): out.append((b + q, 1, None))
                    j = j2
                    continue
                w = 1
                out.append((b + j, w, self.mread(st, sn, C(a + j, 64), w, so))); j += w
            for off, w, v in out:
                if v is None: v = self.fresh('un', 8)
                dn = self.mwrite(dn, C(off, 64), w, v)
            st.mem[d.obj] = dn
            return
        st.mem[d.obj] = MN('copy', dn, d.off, ln, sn, s.off)
    def memset(self, st, d, b, ln, loc):
        if isc(ln) and cv(ln) == 0: return
        if not isc(ln):
            r = self.decide(st, eq(ln, Z64))
            if r is True: return
            if r is None and (d is UNDEF or d.obj == 0): raise Fork(eq(ln, Z64))
        o = self.access(st, d, ln, loc, 'write')
        dn = st.mem[d.obj]
        if isc(ln) and cv(ln) <= 512 and isc(d.off) and dn.k == 'cells':
            n = cv(ln); k = cv(d.off)
            cells = dict(dn.a[0])
            dn2 = dn
            if isc(b) and cv(b) == 0:
                # word-wise zero
                j = 0
                while j < n:
                    w = 8 if n - j >= 8 and (k + j) % 8 == 0 else (4 if n - j >= 4 and (k + j) % 4 == 0 else 1)
                    dn2 = self.mwrite(dn2, C(k + j, 64), w, C(0, 8 * w)); j += w
            else:
                for j in range(n): dn2 = self.mwrite(dn2, C(k + j, 64), 1, b)
            st.mem[d.obj] = dn2
            return
        st.mem[d.obj] = MN('fill', dn, d.off, ln, b)

    # -------- execution
    def start(self, fname):
        st = State()
        st.frames = []; st.pc = PC(None, TRUE); st.mem = {}; st.dead = frozenset(); st.anys = None
        st.exc = None; st.caught = (); st.watch = (); st.pending = None; st.tag = None; st.trace = (); st.steps = 0
        st.facts = (); st.ghost = {}
        self.push_frame(st, self.m.funcs[fname], [], None)
        return st
    def push_frame(self, st, fn, args, call):
        f = Frame()
        f.fn = fn; f.regs = {}; f.bb = 0; f.prev = -1; f.ip = 0; f.call = call; f.allocas = []; f.caller_exc = None; f.unroll = {}
        for k, a in enumerate(args[:len(fn['args'])]):
            bv = fn['args'][k][1]
            if bv and call is not None and call.get('bv'):
                o = self.newobj(st, 'byval', C(bv, 64), 'stack', None)
                st.mem[o.id] = self.uninit(o.id)
                self.memcpy(st, Ptr(o.id, Z64), a, C(bv, 64), '?')
                f.allocas.append(o.id)
                a = Ptr(o.id, Z64)
            f.regs[k] = a
        self.blocks_seen.add((fn['n'], 0))
        self.funcs_seen[fn['n']] = self.funcs_seen.get(fn['n'], 0) + 1
        if len(st.frames) > 60: raise Limit('recursion depth in ' + fn['n'])
        st.frames.append(f)

    def run(self, states, stop=None):
        """explore; returns list of states intercepted by stop"""
        out = []
        work = list(states)
        while work:
            st = work.pop()
            try:
                if st.pending is not None:
                    tgt = st.pending; st.pending = None
                    if st.tag == 'resume-jump':
                        st.tag = None
                    r = self.jump(st, tgt, stop, out, work)
                    if not r: continue
                self.exec(st, stop, out, work)
            except Dead:
                pass
        return out

    def exec(self, st, stop, out, work):
        tick = 0
        while True:
            tick += 1
            if tick & 255 == 0 and time.time() > self.deadline: raise Limit('time budget exhausted')
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.bb][fr.ip]
            try:
                r = self.step(st, fr, ins, stop, out, work)
            except Fork as f:
                c = f.cond
                a = self.feasible(st, c)
                b = self.feasible(st, not_(c))
                if a and b:
                    s2 = st.clone()
                    self.assume(s2, not_(c))
                    work.append(s2)
                    self.newpath()
                    self.assume(st, c)
                elif a: self.assume(st, c)
                elif b: self.assume(st, not_(c))
                else: return
                continue
            except ForkN as f:
                for c in f.conds[1:]:
                    s2 = st.clone(); self.assume(s2, c); work.append(s2); self.newpath()
                if not f.conds: return
                self.assume(st, f.conds[0])
                continue
            if r == 'next':
                fr.ip += 1
            elif r == 'end':
                return
            # 'jumped' / 'called': continue
    def newpath(self):
        self.paths += 1
        if self.paths > self.o['maxpaths']: raise Limit('too many paths')

    def jump(self, st, target, stop, out, work):
        """returns True if execution continues in st"""
        fr = st.frames[-1]
        if stop is not None:
            tag = stop(st, target)
            if tag is not None:
                st.pending = target; st.tag = tag
                out.append(st)
                return False
        fn = fr.fn
        hdr = fn['hdr'].get(target)
        if hdr is not None:
            if fr.bb not in hdr:
                pol = self.loop_policy(st, fn, target)
                fr.unroll[target] = 0
                if pol == 'inv':
                    exits = self.loop_cut(st, fn, target, hdr)
                    work.extend(exits)
                    return False
            else:
                n = fr.unroll.get(target, 0) + 1
                fr.unroll[target] = n
                if n > self.o['unroll']:
                    if self.bounded: raise Dead()
                    raise Limit('unroll limit %d at %s' % (self.o['unroll'], self.locof(fn, target)))
        self.enter(st, fr, target)
        return True
    def locof(self, fn, bb):
        for i in fn['blocks'][bb]:
            if 'd' in i: return fn['n'] + ' ' + i['d']
        return fn['n']
    def enter(self, st, fr, target):
        blk = fr.fn['blocks'][target]
        prev = fr.bb
        vals = []
        k = 0
        for ins in blk:
            if ins['o'] != 'phi': break
            for a, b in ins['a']:
                if b == prev:
                    vals.append((ins['i'], self.val(st, a)))
                    break
            k += 1
        for i, v in vals: fr.regs[i] = v
        fr.prev = prev; fr.bb = target; fr.ip = k
        self.blocks_seen.add((fr.fn['n'], target))
    def loop_policy(self, st, fn, target):
        l = self.o['loops']
        if l == 'unroll' or self.bounded: return 'unroll'
        mx = fn['max'].get(target, 0)
        if 0 < mx <= self.o.get('unroll_max', 256): return 'unroll'
        if l == 'inv': return 'inv'
        return 'unroll' if l == 'auto' else 'inv'

    def step(self, st, fr, ins, stop, out, work):
        o = ins['o']
        h = OPS.get(o)
        if h is None: raise Limit('opcode ' + o)
        return h(self, st, fr, ins, stop, out, work)

    # --- unwinding
    def throw(self, st, exc, stop, out, work):
        st.exc = exc
        # current frame's instruction may be an invoke
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.bb][fr.ip]
            if ins['o'] == 'invoke':
                tgt = ins['b'][1]
                lp = None
                for i in fr.fn['blocks'][tgt]:
                    if i['o'] == 'landingpad': lp = i; break
                if lp is not None and (lp['cl'] or self.lp_match(st, lp, exc) is not None):
                    if self.jump(st, tgt, stop, out, work): return 'jumped'
                    return 'end'
            self.pop_frame(st)
        # uncaught
        self.frames_dummy(st)
        self.oblige(st, FALSE, 'uncaught exception ' + str(exc[1]), 'contract')
        raise Dead()
    def frames_dummy(self, st): pass
    def pop_frame(self, st):
        fr = st.frames.pop()
        if fr.allocas:
            st.dead = st.dead | frozenset(fr.allocas)
            for a in fr.allocas: st.mem.pop(a, None)
    def isa(self, t, want):
        while t is not None:
            if t == want: return True
            g = self.m.globals.get(t)
            nt = None
            if g is not None and g['h']:
                ptrs = [e for e in g['i'] if e[1] == 'v' and e[3][0] in ('g',)]
                # third slot = base class type info (single inheritance)
                for e in ptrs:
                    if e[0] == 16: nt = e[3][1]
            if nt is None: nt = STD_BASES.get(t)
            t = nt
        return False
    def lp_match(self, st, lp, exc):
        for isc_, cl in lp['cs']:
            if isc_:
                if cl[0] == 'n': return ('all', 1)
                if cl[0] == 'g' and self.isa(exc[1], cl[1]): return (cl[1], 1)
        return None
    def typeid(self, name):
        t = self.__dict__.setdefault('_tids', {})
        if name not in t: t[name] = len(t) + 2
        return t[name]

from ops import OPS, Stop  # noqa: E402,F401  (instruction semantics)
import loops  # noqa: E402
Engine.loop_cut = loops.loop_cut
