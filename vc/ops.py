"""Instruction and library-call semantics for the VC generator."""
import re
from terms import *
import terms as tm
import engine as E
from engine import Limit, Fork, ForkN, Dead, Ptr, NULL, UNDEF, Z64, MN, tysize, tyw

class Stop(Exception):
    """enough failures collected"""

OPS = {}
def op(*names):
    def d(f):
        for n in names: OPS[n] = f
        return f
    return d

def loc(ins): return ins.get('d', '?')

def ival(e, st, a, w):
    v = e.val(st, a)
    if v is UNDEF: return e.fresh('undef', w)
    if isinstance(v, Ptr): return e.ptrtoint(st, v, w)
    return v

BIN = {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
       'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}

@op(*BIN)
def _bin(e, st, fr, ins, *_):
    t = ins['t']
    if not isinstance(t, str):
        n = t['n']; el = t['v']
        a = e.val(st, ins['a'][0]); b = e.val(st, ins['a'][1])
        fr.regs[ins['i']] = [BIN[ins['o']](x, y) for x, y in zip(a, b)]
        return 'next'
    w = tyw(t)
    a = ival(e, st, ins['a'][0], w); b = ival(e, st, ins['a'][1], w)
    o = ins['o']
    if w == 1:
        if o in ('add', 'sub', 'xor'): r = xor(a, b)
        elif o in ('mul', 'and'): r = and_(a, b)
        elif o == 'or': r = or_(a, b)
        else: r = a
    else:
        if o in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isc(b) or cv(b) == 0: e.oblige(st, not_(eq(b, C(0, w))), 'division-by-zero', loc(ins))
        r = BIN[o](a, b)
    fr.regs[ins['i']] = r
    return 'next'

FB = {'fadd': 'fadd', 'fsub': 'fsub', 'fmul': 'fmul', 'fdiv': 'fdiv'}
@op(*FB)
def _fbin(e, st, fr, ins, *_):
    if not isinstance(ins['t'], str): raise Limit('vector float')
    w = tyw(ins['t'])
    a = e.val(st, ins['a'][0]); b = e.val(st, ins['a'][1])
    fr.regs[ins['i']] = mk(FB[ins['o']], (a, b), w)
    return 'next'
@op('fneg')
def _fneg(e, st, fr, ins, *_):
    fr.regs[ins['i']] = mk('fneg', (e.val(st, ins['a'][0]),), tyw(ins['t'])); return 'next'

@op('fcmp')
def _fcmp(e, st, fr, ins, *_):
    a = e.val(st, ins['a'][0]); b = e.val(st, ins['a'][1])
    p = ins['p']
    fr.regs[ins['i']] = fcmp(p, a, b)
    return 'next'
def fcmp(p, a, b):
    feq = lambda: mk('feq', (a, b), 1); flt = lambda: mk('flt', (a, b), 1); fle = lambda: mk('fle', (a, b), 1)
    fgt = lambda: mk('flt', (b, a), 1); fge = lambda: mk('fle', (b, a), 1)
    uno = lambda: or_(mk('fnan', (a,), 1), mk('fnan', (b,), 1))
    if p == 'oeq': return feq()
    if p == 'olt': return flt()
    if p == 'ole': return fle()
    if p == 'ogt': return fgt()
    if p == 'oge': return fge()
    if p == 'uno': return uno()
    if p == 'ord': return not_(uno())
    if p == 'une': return not_(feq())
    if p == 'ult': return not_(fge())
    if p == 'ule': return not_(fgt())
    if p == 'ugt': return not_(fle())
    if p == 'uge': return not_(flt())
    if p == 'ueq': return or_(feq(), uno())
    if p == 'one': return and_(not_(feq()), not_(uno()))
    raise Limit('fcmp ' + p)

@op('icmp')
def _icmp(e, st, fr, ins, *_):
    a = e.val(st, ins['a'][0]); b = e.val(st, ins['a'][1])
    p = ins['p']
    if isinstance(a, list):
        fr.regs[ins['i']] = [icmp(e, st, p, x, y) for x, y in zip(a, b)]
    else:
        fr.regs[ins['i']] = icmp(e, st, p, a, b)
    return 'next'
def icmp(e, st, p, a, b):
    if a is UNDEF: a = E.Ptr(0, e.fresh('undef', 64)) if isinstance(b, Ptr) or b is UNDEF else e.fresh('undef', b.w)
    if b is UNDEF: b = E.Ptr(0, e.fresh('undef', 64)) if isinstance(a, Ptr) else e.fresh('undef', a.w)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj == b.obj:
            x, y = a.off, b.off
            if p in ('ult', 'ule', 'ugt', 'uge') and a.obj:
                # offsets of valid pointers into one object do not wrap; compare as signed to treat before-begin pointers
                x, y = a.off, b.off
        else:
            # distinct objects (or null): never equal for valid pointers
            if p == 'eq': return FALSE
            if p == 'ne': return TRUE
            x = e.ptrtoint(st, a, 64); y = e.ptrtoint(st, b, 64)
    else:
        if isinstance(a, Ptr): a = e.ptrtoint(st, a, 64)
        if isinstance(b, Ptr): b = e.ptrtoint(st, b, 64)
        x, y = a, b
    if x.w == 1:
        if p == 'eq': return eq(x, y)
        if p == 'ne': return xor(x, y)
        if p == 'ult': return and_(not_(x), y)
        if p == 'ugt': return and_(x, not_(y))
        if p == 'ule': return or_(not_(x), y)
        if p == 'uge': return or_(x, not_(y))
        if p == 'slt': return and_(x, not_(y))
        if p == 'sgt': return and_(not_(x), y)
        if p == 'sle': return or_(x, not_(y))
        return or_(not_(x), y)
    if p == 'eq': return eq(x, y)
    if p == 'ne': return not_(eq(x, y))
    if p == 'ult': return ult(x, y)
    if p == 'ule': return ule(x, y)
    if p == 'ugt': return ult(y, x)
    if p == 'uge': return ule(y, x)
    if p == 'slt': return slt(x, y)
    if p == 'sle': return sle(x, y)
    if p == 'sgt': return slt(y, x)
    return sle(y, x)

@op('select')
def _select(e, st, fr, ins, *_):
    c = e.val(st, ins['a'][0]); a = e.val(st, ins['a'][1]); b = e.val(st, ins['a'][2])
    if c is UNDEF: c = e.fresh('undef', 1)
    if isinstance(c, list): raise Limit('vector select')
    if not isc(c) and e.o.get('split') and a is not b:
        # one case at a time (option split=1): pointers and sizes stay concrete
        if not e.feasible(st, not_(c)): c = TRUE
        elif not e.feasible(st, c): c = FALSE
        else: raise Fork(c)
    if isc(c): r = a if cv(c) else b
    elif isinstance(a, list): r = selagg(e, st, c, a, b)
    else:
        if a is UNDEF: r = b
        elif b is UNDEF: r = a
        else: r = e.merge(st, c, a, b)
    fr.regs[ins['i']] = r
    return 'next'
def selagg(e, st, c, a, b):
    return [selagg(e, st, c, x, y) if isinstance(x, list) else (y if x is UNDEF else x if y is UNDEF else e.merge(st, c, x, y)) for x, y in zip(a, b)]

@op('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'freeze', 'addrspacecast')
def _cast(e, st, fr, ins, *_):
    o = ins['o']; t = ins['t']
    v = e.val(st, ins['a'][0])
    if o == 'freeze':
        if v is UNDEF: v = NULL if t == 'p' else e.fresh('undef', tyw(t))
        fr.regs[ins['i']] = v; return 'next'
    if isinstance(v, list):
        if o in ('zext', 'sext', 'trunc'):
            w = tyw(t['v']); f = {'zext': zext, 'sext': sext, 'trunc': trunc}[o]
            fr.regs[ins['i']] = [f(x, w) for x in v]; return 'next'
        if o == 'bitcast' and isinstance(t, str):
            bits = [e.tobits(st, x) for x in v]
            if all(x.w % 8 == 0 for x in bits):
                fr.regs[ins['i']] = e.coerce(st, e.joinbytes(bits), t); return 'next'
        raise Limit('vector cast ' + o)
    if not isinstance(t, str): raise Limit('cast to aggregate')
    if v is UNDEF: v = e.undef_of(ins['ot'])
    if v is UNDEF: v = NULL
    if o == 'zext': r = zext(v, tyw(t))
    elif o == 'sext': r = sext(v, tyw(t))
    elif o == 'trunc': r = trunc(v, tyw(t))
    elif o == 'ptrtoint': r = e.ptrtoint(st, v, tyw(t))
    elif o == 'inttoptr': r = e.inttoptr(st, v)
    elif o == 'bitcast': r = v if t == 'p' else e.coerce(st, v, t)
    elif o == 'uitofp': r = fcast('ui2f', v, tyw(t))
    elif o == 'sitofp': r = fcast('si2f', v, tyw(t))
    elif o == 'fptoui': r = mk('f2ui', (v,), tyw(t))
    elif o == 'fptosi': r = mk('f2si', (v,), tyw(t))
    elif o == 'fpext': r = mk('f2f', (v,), tyw(t))
    elif o == 'fptrunc': r = mk('f2f', (v,), tyw(t))
    else: raise Limit(o)
    fr.regs[ins['i']] = r
    return 'next'
def fcast(o, v, w):
    if v.w == 1: v = ite(v, C(1 if o == 'ui2f' else -1, 8), C(0, 8))
    return mk(o, (v,), w)

@op('getelementptr')
def _gep(e, st, fr, ins, *_):
    if not ins['ok']: raise Limit('gep')
    p = e.val(st, ins['a'][0])
    if p is UNDEF: raise Limit('gep of undef')
    off = add(p.off, C(ins['k'], 64))
    for a, w, sc in ins['v']:
        v = ival(e, st, a, w)
        v = sext(v, 64) if w < 64 else trunc(v, 64) if w > 64 else v
        off = add(off, mulk(v, sc))
    fr.regs[ins['i']] = Ptr(p.obj, off)
    return 'next'

@op('alloca')
def _alloca(e, st, fr, ins, *_):
    n = e.val(st, ins['a'][0])
    size = mulk(zext(n, 64) if n.w < 64 else n, ins['z'])
    o = e.newobj(st, 'local@%s' % loc(ins), size, 'stack', None)
    st.mem[o.id] = e.uninit(o.id)
    fr.allocas.append(o.id)
    fr.regs[ins['i']] = Ptr(o.id, Z64)
    return 'next'

@op('load')
def _load(e, st, fr, ins, *_):
    p = e.val(st, ins['a'][0])
    p = _asptr(e, st, p)
    fr.regs[ins['i']] = e.load(st, p, ins['t'], loc(ins))
    return 'next'
@op('store')
def _store(e, st, fr, ins, *_):
    v = e.val(st, ins['a'][0]); p = _asptr(e, st, e.val(st, ins['a'][1]))
    e.store(st, p, v, ins['ot'], loc(ins))
    return 'next'
def _asptr(e, st, p):
    if isinstance(p, T): return e.inttoptr(st, p)
    return p

@op('extractvalue')
def _ev(e, st, fr, ins, *_):
    v = e.val(st, ins['a'][0])
    for x in ins['x']: v = v[x]
    fr.regs[ins['i']] = v
    return 'next'
@op('insertvalue')
def _iv(e, st, fr, ins, *_):
    v = e.val(st, ins['a'][0]); x = e.val(st, ins['a'][1])
    if v is UNDEF: v = e.undef_of(ins['t'])
    def put(v, ix):
        v = list(v)
        if len(ix) == 1: v[ix[0]] = x
        else: v[ix[0]] = put(v[ix[0]], ix[1:])
        return v
    fr.regs[ins['i']] = put(v, ins['x'])
    return 'next'
@op('insertelement')
def _ie(e, st, fr, ins, *_):
    v = list(e.val(st, ins['a'][0])); k = e.val(st, ins['a'][2])
    if not isc(k): raise Limit('insertelement')
    v[cv(k)] = e.val(st, ins['a'][1])
    fr.regs[ins['i']] = v
    return 'next'
@op('extractelement')
def _ee(e, st, fr, ins, *_):
    v = e.val(st, ins['a'][0]); k = e.val(st, ins['a'][1])
    if not isc(k): raise Limit('extractelement')
    fr.regs[ins['i']] = v[cv(k)]
    return 'next'

@op('phi')
def _phi(e, st, fr, ins, *_): raise Limit('phi executed')

def failblock(e, fn, bb):
    c = fn.setdefault('fb', {})
    r = c.get(bb)
    if r is None:
        r = ''
        for i in fn['blocks'][bb]:
            if i['o'] in ('call', 'invoke') and i['f'][0] == 'f':
                n = i['f'][1]
                if n == 'llvm.ubsantrap':
                    r = 'undefined-behaviour[%s]' % UBS.get(i['a'][0][2], str(i['a'][0][2])); break
                if n == 'llvm.trap': r = 'trap'; break
                if 'archon4core4impl' in n and 'terminate' in n: r = 'assertion'; break
                if n in ('_ZSt9terminatev', '__clang_call_terminate', 'abort'): r = 'terminate'; break
                break
            if i['o'] == 'unreachable': r = 'unreachable-code'; break
            if i['o'] in ('br', 'switch', 'ret', 'store'): break
        c[bb] = r
    return r
UBS = {0: 'add-overflow', 1: 'builtin-unreachable', 3: 'div-overflow', 5: 'float-cast-overflow', 6: 'function-type', 7: 'implicit-conversion', 8: 'invalid-builtin', 10: 'load-invalid-value', 11: 'missing-return', 12: 'mul-overflow', 13: 'negate-overflow', 16: 'nonnull-return', 17: 'out-of-bounds', 18: 'pointer-overflow', 19: 'shift-out-of-bounds', 20: 'sub-overflow', 21: 'type-mismatch', 22: 'alignment', 23: 'vla-bound'}

@op('br')
def _br(e, st, fr, ins, stop, out, work):
    b = ins['b']
    if len(b) == 1:
        return 'jumped' if e.jump(st, b[0], stop, out, work) else 'end'
    c = e.val(st, ins['a'][0])
    if c is UNDEF: c = e.fresh('undef', 1)
    if isc(c):
        t = b[0] if cv(c) else b[1]
        return 'jumped' if e.jump(st, t, stop, out, work) else 'end'
    # obligation branches
    for k, cond in ((0, c), (1, not_(c))):
        fb = failblock(e, fr.fn, b[k])
        if fb:
            d = loc(ins)
            for i in fr.fn['blocks'][b[k]]:
                if 'd' in i: d = i['d']; break
            e.oblige(st, not_(cond), fb, d)
            return 'jumped' if e.jump(st, b[1 - k], stop, out, work) else 'end'
    return branch(e, st, [(c, b[0]), (not_(c), b[1])], stop, out, work)

def branch(e, st, alts, stop, out, work):
    ok = []
    n = len(alts)
    for k, (c, t) in enumerate(alts):
        if k == n - 1 and not ok: ok.append((c, t)); break
        if e.feasible(st, c): ok.append((c, t))
    states = []
    for k, (c, t) in enumerate(ok):
        s2 = st if k == len(ok) - 1 else st.clone()
        states.append((s2, c, t))
    # explore last in current state, queue others
    for s2, c, t in states[:-1]:
        e.newpath()
        if len(ok) > 1:
            e.assume(s2, c)
        s2.pending = t
        s2.tag = 'resume-jump'
        work.append(s2)
    s2, c, t = states[-1]
    e.assume(s2, c)
    if e.quiet is not None and e.branchlog is not None: e.branchlog.append(c)
    return 'jumped' if e.jump(s2, t, stop, out, work) else 'end'

@op('switch')
def _switch(e, st, fr, ins, stop, out, work):
    v = e.val(st, ins['a'][0])
    if v is UNDEF: v = e.fresh('undef', tyw('i32'))
    if isc(v):
        t = ins['df']
        for val, bb in ins['cs']:
            if val == cv(v): t = bb
        return 'jumped' if e.jump(st, t, stop, out, work) else 'end'
    groups = {}
    rest = TRUE
    for val, bb in ins['cs']:
        c = eq(v, C(val, v.w))
        groups[bb] = or_(groups.get(bb, FALSE), c)
        rest = and_(rest, not_(c))
    df = ins['df']
    if df in groups: groups[df] = or_(groups[df], rest)
    else: groups[df] = rest
    alts = []
    for bb, c in groups.items():
        fb = failblock(e, fr.fn, bb)
        if fb: e.oblige(st, not_(c), fb, loc(ins))
        else: alts.append((c, bb))
    return branch(e, st, alts, stop, out, work)

@op('unreachable')
def _unreach(e, st, fr, ins, *_):
    e.oblige(st, FALSE, 'unreachable-code', loc(ins))
    return 'end'

@op('ret')
def _ret(e, st, fr, ins, stop, out, work):
    v = e.val(st, ins['a'][0]) if ins['a'] else None
    call = fr.call
    e.pop_frame(st)
    if not st.frames:
        e.ended = getattr(e, 'ended', 0) + 1
        if e.quiet == 0 and e.on_end: e.on_end(st)
        return 'end'
    f2 = st.frames[-1]
    if v is not None and 'i' in call: f2.regs[call['i']] = v
    if call['o'] == 'invoke':
        return 'jumped' if e.jump(st, call['b'][0], stop, out, work) else 'end'
    f2.ip += 1
    return 'jumped'

@op('landingpad')
def _lp(e, st, fr, ins, *_):
    exc = st.exc
    m = e.lp_match(st, ins, exc)
    sel = 0
    if m: sel = 1 if m[0] == 'all' else e.typeid(m[0])
    fr.regs[ins['i']] = [exc[0], C(sel, 32)]
    return 'next'
@op('resume')
def _resume(e, st, fr, ins, stop, out, work):
    exc = st.exc
    e.pop_frame(st)
    if not st.frames:
        e.oblige(st, FALSE, 'uncaught exception %s' % exc[1], 'contract'); return 'end'
    return e.throw(st, exc, stop, out, work)

@op('atomicrmw')
def _rmw(e, st, fr, ins, *_):
    p = e.val(st, ins['a'][0]); v = e.val(st, ins['a'][1])
    old = e.load(st, p, ins['t'], loc(ins))
    f = {'add': add, 'sub': sub, 'and': and_, 'or': or_, 'xor': xor, 'xchg': lambda a, b: b}[ins['rm']]
    e.store(st, p, f(old, v), ins['t'], loc(ins))
    fr.regs[ins['i']] = old
    return 'next'
@op('fence')
def _fence(*_): return 'next'

# ------------------------------------------------------------------ calls
def cstr(e, st, p):
    try:
        n = st.mem[p.obj]; r = ''
        o = cv(p.off)
        while True:
            v = e.mread(st, n, C(o, 64), 1, None)
            if not isc(v) or cv(v) == 0: break
            r += chr(cv(v)); o += 1
            if len(r) > 200: break
        return r
    except Exception as x:
        return '?'

CALLS = {}
def fn(*names):
    def d(f):
        for n in names: CALLS[n] = f
        return f
    return d

def setr(fr, ins, v):
    if 'i' in ins: fr.regs[ins['i']] = v

@op('call', 'invoke')
def _call(e, st, fr, ins, stop, out, work):
    f = ins['f']
    if f[0] == 'asm': raise Limit('inline asm')
    if f[0] == 'f': name = f[1]
    else:
        p = e.val(st, f)
        if isinstance(p, T): p = e.inttoptr(st, p)
        if p is UNDEF or p.obj == 0:
            e.oblige(st, FALSE, 'call through null/undefined function pointer', loc(ins)); return 'end'
        o = e.objs[p.obj]
        if o.kind != 'fn': raise Limit('indirect call to non-function')
        name = o.fn
    h = CALLS.get(name)
    if h is None and name.startswith('llvm.'):
        base = re.sub(r'(\.(p0|i\d+|f\d+|v\d+\w+|sl_\w+))+$', '', name)
        h = CALLS.get(base)
        if h is None: raise Limit('intrinsic ' + name)
    if h is None:
        rp = e.o.get('replace', {}).get(name)
        if rp: h = rp
    if h is None and name in e.m.funcs:
        args = [e.val(st, a) for a in ins['a']]
        e.push_frame(st, e.m.funcs[name], args, ins)
        return 'called'
    if h is None:
        for rx, hh in PATTERNS:
            if rx.search(name): h = hh; break
    if h is None: raise Limit('call to unmodeled external function ' + name)
    if not name.startswith(('llvm.', 'vc_')): e.ext_used.add(name)
    args = [None if a[0] == 'md' else e.val(st, a) for a in ins['a']]
    r = h(e, st, fr, ins, args)
    if r == 'end': return 'end'
    if isinstance(r, tuple) and r[0] == 'throw':
        return e.throw(st, r[1], stop, out, work)
    if ins['o'] == 'invoke':
        return 'jumped' if e.jump(st, ins['b'][0], stop, out, work) else 'end'
    return 'next'

def undefw(e, v, w):
    return e.fresh('undef', w) if v is UNDEF else v

def _any(w):
    def h(e, st, fr, ins, args):
        v = e.fresh('any', w)
        st.anys = (st.anys, ('v', v))
        setr(fr, ins, v)
    return h
for w in (8, 16, 32, 64): CALLS['vc_any%d' % w] = _any(w)
CALLS['vc_anybool'] = _any(1)
def _anysize(e, st, fr, ins, args):
    v = e.fresh('any', 64)
    st.anys = (st.anys, ('s', v))
    setr(fr, ins, v)
    if e.bounded: e.assume(st, ule(v, C(e.bounded, 64)))
CALLS['vc_any_size'] = _anysize
def _fact(e, st, fr, ins, args):
    if isinstance(args[0], T): st.facts = st.facts + (args[0],)
CALLS['vc_fact'] = _fact
CALLS['vc_anyfloat'] = _any('f32')
CALLS['vc_anydouble'] = _any('f64')

@fn('vc_any_array', 'vc_any_heap')
def _anyarr(e, st, fr, ins, args):
    size, ew = args
    name = 'arr%d' % (e.nobj + 1)
    k = cv(ew)
    o = e.newobj(st, 'input array #%d' % (e.nobj + 1), size, 'heap', None, ew=k)
    st.mem[o.id] = MN('base', None, 'sym', name, k)
    if isc(size) and cv(size) <= 4096:
        cells = {}
        for c in range(0, cv(size), k): cells[c] = (k, rd(name, C(c, 64), 8 * k))
        st.mem[o.id] = MN('cells', st.mem[o.id], cells)
    e.assume(st, ult(size, C(1 << 46, 64)))
    st.anys = (st.anys, ('arr', name, size, k))
    setr(fr, ins, Ptr(o.id, Z64))

@fn('vc_assume')
def _assume(e, st, fr, ins, args):
    c = undefw(e, args[0], 1)
    if isc(c):
        if not cv(c): return 'end'
        return
    r = e.decide(st, c)
    if r is False: return 'end'
    if r is None: e.assume(st, c)

@fn('vc_check')
def _check(e, st, fr, ins, args):
    lab = cstr(e, st, args[1])
    c = undefw(e, args[0], 1)
    if e.quiet == 0: e.checks[lab] = e.checks.get(lab, 0) + 1
    e.oblige(st, c, 'ensures: ' + lab, loc(ins))

@fn('vc_cover')
def _cover(e, st, fr, ins, args):
    lab = cstr(e, st, args[0])
    if e.quiet: return
    if not e.covers.get(lab):
        e.covers[lab] = e.sol.check(st.pc, TRUE) == 'sat' or e.sol.check(st.pc, mk('v', ('cov!',), 1)) != 'unsat'

@fn('vc_symbolic')
def _sym(e, st, fr, ins, args): setr(fr, ins, TRUE if ins['t'] == 'i1' else C(1, tyw(ins['t'])))
@fn('vc_bound')
def _bnd(e, st, fr, ins, args): setr(fr, ins, C(e.bounded, 64))
@fn('vc_watch')
def _watch(e, st, fr, ins, args):
    p, n = args
    st.watch = st.watch + ((p.obj, p.off, cv(n)),)
@fn('vc_hint64')
def _hint(e, st, fr, ins, args):
    st.facts = st.facts + (args[0],)
@fn('vc_opaque64')
def _opq(e, st, fr, ins, args):
    # uninterpreted function application: vc_opaque64(id, a, b)
    setr(fr, ins, app('uf%d' % cv(args[0]), [args[1], args[2]], 64))
@fn('vc_print')
def _print(e, st, fr, ins, args): print('vc_print', args)

NOP = lambda e, st, fr, ins, args: None
for n in ('llvm.lifetime.start', 'llvm.lifetime.end', 'llvm.experimental.noalias.scope.decl', 'llvm.assume', 'llvm.invariant.start', 'llvm.invariant.end', 'llvm.stackrestore', 'llvm.prefetch',
          'llvm.dbg.value', 'llvm.dbg.declare', 'llvm.dbg.label', 'llvm.donothing', 'llvm.var.annotation', '__cxa_atexit', '__cxa_end_catch', '__cxa_free_exception', '_ZNSt8ios_base4InitC1Ev'):
    CALLS[n] = NOP

@fn('llvm.stacksave')
def _ss(e, st, fr, ins, args): setr(fr, ins, NULL)
@fn('llvm.expect', 'llvm.launder.invariant.group', 'llvm.strip.invariant.group', 'llvm.ssa.copy')
def _id(e, st, fr, ins, args): setr(fr, ins, args[0])
@fn('llvm.threadlocal.address')
def _tl(e, st, fr, ins, args): setr(fr, ins, args[0])
@fn('llvm.is.constant')
def _isconst(e, st, fr, ins, args): setr(fr, ins, FALSE)
@fn('llvm.objectsize')
def _os(e, st, fr, ins, args): setr(fr, ins, C(-1, tyw(ins['t'])))

def ovf(f, signed, o):
    def h(e, st, fr, ins, args):
        w = args[0].w
        a, b = args
        ex = sext if signed else zext
        if w == 1: raise Limit('i1 overflow')
        if o == 'mul':
            r = mul(a, b)
            W = 2 * w
            wide = mul(ex(a, W), ex(b, W))
            ov = not_(eq(ex(r, W), wide))
        elif o == 'add':
            r = add(a, b)
            if signed:
                W = w + 1
                ov = not_(eq(sext(r, W), add(sext(a, W), sext(b, W))))
            else:
                ov = ult(r, a)
        else:
            r = sub(a, b)
            if signed:
                W = w + 1
                ov = not_(eq(sext(r, W), sub(sext(a, W), sext(b, W))))
            else:
                ov = ult(a, b)
        setr(fr, ins, [r, ov])
    return h
for s in ('s', 'u'):
    for o in ('add', 'sub', 'mul'):
        CALLS['llvm.%s%s.with.overflow' % (s, o)] = ovf(None, s == 's', o)

def mm(lt, mn):
    def h(e, st, fr, ins, args):
        a, b = args
        c = lt(a, b)
        setr(fr, ins, ite(c, a, b) if mn else ite(c, b, a))
    return h
CALLS['llvm.umin'] = mm(ult, True); CALLS['llvm.umax'] = mm(ult, False)
CALLS['llvm.smin'] = mm(slt, True); CALLS['llvm.smax'] = mm(slt, False)
@fn('llvm.uadd.sat')
def _uas(e, st, fr, ins, args):
    a, b = args; r = add(a, b); setr(fr, ins, ite(ult(r, a), C(-1, a.w), r))
@fn('llvm.usub.sat')
def _uss(e, st, fr, ins, args):
    a, b = args; setr(fr, ins, ite(ult(a, b), C(0, a.w), sub(a, b)))
@fn('llvm.abs')
def _abs(e, st, fr, ins, args):
    a = args[0]; setr(fr, ins, ite(slt(a, C(0, a.w)), neg(a), a))
@fn('llvm.fshl', 'llvm.fshr')
def _fsh(e, st, fr, ins, args):
    a, b, s = args
    w = a.w
    left = 'fshl' in ins['f'][1]
    if isc(s):
        k = cv(s) % w
        if k == 0: r = a if left else b
        elif left: r = or_(shl(a, C(k, w)), lshr(b, C(w - k, w)))
        else: r = or_(shl(a, C(w - k, w)), lshr(b, C(k, w)))
    else:
        k = and_(s, C(w - 1, w)) if w & (w - 1) == 0 else urem(s, C(w, w))
        if left: r = ite(eq(k, C(0, w)), a, or_(shl(a, k), lshr(b, sub(C(w, w), k))))
        else: r = ite(eq(k, C(0, w)), b, or_(shl(a, sub(C(w, w), k)), lshr(b, k)))
    setr(fr, ins, r)
@fn('llvm.ctlz')
def _ctlz(e, st, fr, ins, args):
    a = args[0]; w = a.w
    r = C(w, w)
    for k in range(w): r = ite(ext(a, k, k), C(w - 1 - k, w), r)
    setr(fr, ins, r)
@fn('llvm.cttz')
def _cttz(e, st, fr, ins, args):
    a = args[0]; w = a.w
    r = C(w, w)
    for k in reversed(range(w)): r = ite(ext(a, k, k), C(k, w), r)
    setr(fr, ins, r)
@fn('llvm.ctpop')
def _ctpop(e, st, fr, ins, args):
    a = args[0]; w = a.w
    r = C(0, w)
    for k in range(w): r = add(r, ite(ext(a, k, k), C(1, w), C(0, w)))
    setr(fr, ins, r)
@fn('llvm.bswap')
def _bswap(e, st, fr, ins, args):
    a = args[0]; w = a.w
    r = None
    for k in range(0, w, 8):
        b = ext(a, k + 7, k)
        r = b if r is None else concat(r, b)
    setr(fr, ins, r)
@fn('llvm.bitreverse')
def _brev(e, st, fr, ins, args):
    a = args[0]; w = a.w
    r = C(0, w)
    for k in range(w): r = or_(r, ite(ext(a, k, k), C(1 << (w - 1 - k), w), C(0, w)))
    setr(fr, ins, r)

def f1(o):
    def h(e, st, fr, ins, args): setr(fr, ins, mk(o, (args[0],), tyw(ins['t'])))
    return h
CALLS['llvm.fabs'] = f1('fabs'); CALLS['llvm.sqrt'] = f1('fsqrt'); CALLS['sqrt'] = f1('fsqrt'); CALLS['sqrtf'] = f1('fsqrt')
CALLS['llvm.floor'] = f1('ffloor'); CALLS['llvm.ceil'] = f1('fceil'); CALLS['llvm.trunc'] = f1('ftruncr')
CALLS['floor'] = CALLS['floorf'] = f1('ffloor'); CALLS['ceil'] = CALLS['ceilf'] = f1('fceil'); CALLS['trunc'] = CALLS['truncf'] = f1('ftruncr')
@fn('nextafter', 'nextafterf')
def _nextafter(e, st, fr, ins, args):
    # towards zero only
    x, y = args; w = x.w; n = 32 if w == 'f32' else 64
    if y.op != 'fc' or cv(C(y.args[0] * 2, n)): raise Limit('nextafter towards non-zero')
    if x.op == 'fc': b = C(x.args[0], n)
    elif x.op == 'ffrom': b = x.args[0]
    else: b = mk('fbits', (x,), n)
    zero = eq(shl(b, C(1, n)), C(0, n))
    nb = ite(zero, C(0, n), sub(b, C(1, n)))
    r = mk('fc', (cv(nb),), w) if isc(nb) else mk('ffrom', (nb,), w)
    isn = mk('fnan', (x,), 1)
    setr(fr, ins, r if x.op == 'fc' else ite(isn, x, r))
@fn('llvm.fmuladd', 'llvm.fma')
def _fma(e, st, fr, ins, args):
    if 'fmuladd' not in ins['f'][1]: raise Limit('fma')
    w = tyw(ins['t'])
    setr(fr, ins, mk('fadd', (mk('fmul', (args[0], args[1]), w), args[2]), w))
@fn('llvm.minnum', 'llvm.maxnum')
def _fmin(e, st, fr, ins, args):
    a, b = args; w = tyw(ins['t'])
    lt = mk('flt', (a, b), 1)
    x = ite(lt, a, b) if 'minnum' in ins['f'][1] else ite(lt, b, a)
    setr(fr, ins, ite(mk('fnan', (a,), 1), b, ite(mk('fnan', (b,), 1), a, x)))

@fn('llvm.ubsantrap')
def _trap(e, st, fr, ins, args):
    e.oblige(st, FALSE, 'undefined-behaviour[%s]' % UBS.get(cv(args[0]), cv(args[0])), loc(ins)); return 'end'
@fn('llvm.trap', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual', 'llvm.debugtrap')
def _trap2(e, st, fr, ins, args):
    e.oblige(st, FALSE, 'terminate', loc(ins)); return 'end'

@fn('llvm.memcpy', 'llvm.memcpy.inline', 'memcpy')
def _memcpy(e, st, fr, ins, args):
    e.memcpy(st, args[0], args[1], args[2], loc(ins), 'memcpy'); setr(fr, ins, args[0])
@fn('llvm.memmove', 'memmove')
def _memmove(e, st, fr, ins, args):
    e.memcpy(st, args[0], args[1], args[2], loc(ins), 'memmove'); setr(fr, ins, args[0])
@fn('llvm.memset', 'memset')
def _memset(e, st, fr, ins, args):
    b = args[1]
    if b is UNDEF: b = e.fresh('undef', 8)
    if b.w != 8: b = trunc(b, 8)
    e.memset(st, args[0], b, args[2], loc(ins)); setr(fr, ins, args[0])
@fn('memcmp', 'bcmp')
def _memcmp(e, st, fr, ins, args):
    a, b, n = args
    if not isc(n):
        lim = 64
        conds = []
        for k in range(lim + 1):
            c = eq(n, C(k, 64))
            if e.feasible(st, c): conds.append(c)
        if e.feasible(st, ult(C(lim, 64), n)): raise Limit('memcmp with unbounded length')
        if len(conds) == 1:
            for k in range(lim + 1):
                if eq(n, C(k, 64)) is conds[0]: n = C(k, 64)
        if not isc(n): raise ForkN(conds)
    r = C(0, 32)
    ln = cv(n)
    if ln:
        e.access(st, a, n, loc(ins), 'read'); e.access(st, b, n, loc(ins), 'read')
    for k in reversed(range(ln)):
        x = e.mread(st, st.mem[a.obj], add(a.off, C(k, 64)), 1, e.objs[a.obj])
        y = e.mread(st, st.mem[b.obj], add(b.off, C(k, 64)), 1, e.objs[b.obj])
        r = ite(eq(x, y), r, sub(zext(x, 32), zext(y, 32)))
    setr(fr, ins, r)
@fn('strlen')
def _strlen(e, st, fr, ins, args):
    s = cstr(e, st, args[0]); setr(fr, ins, C(len(s), 64))
@fn('wcslen')
def _wcslen(e, st, fr, ins, args):
    p = args[0]; k = 0
    while True:
        v = e.mread(st, st.mem[p.obj], add(p.off, C(4 * k, 64)), 4, e.objs[p.obj])
        if not isc(v): raise Limit('wcslen')
        if cv(v) == 0: break
        k += 1
    setr(fr, ins, C(k, 64))
@fn('memchr')
def _memchr(e, st, fr, ins, args):
    p, c, n = args
    if not isc(n):
        lim = 64
        conds = [eq(n, C(k, 64)) for k in range(lim + 1)]
        conds = [x for x in conds if e.feasible(st, x)]
        if e.feasible(st, ult(C(lim, 64), n)): raise Limit('memchr with unbounded length')
        if len(conds) != 1: raise ForkN(conds)
        for k in range(lim + 1):
            if eq(n, C(k, 64)) is conds[0]: n = C(k, 64)
    ch = trunc(c, 8)
    ln = cv(n)
    if ln: e.access(st, p, n, loc(ins), 'read')
    conds = []
    none = TRUE
    for k in range(ln):
        x = e.mread(st, st.mem[p.obj], add(p.off, C(k, 64)), 1, e.objs[p.obj])
        h = and_(none, eq(x, ch))
        none = and_(none, not_(eq(x, ch)))
        if isc(h) and cv(h):
            setr(fr, ins, Ptr(p.obj, add(p.off, C(k, 64)))); return
        if not (isc(h)):
            d = e.decide(st, h)
            if d is True:
                setr(fr, ins, Ptr(p.obj, add(p.off, C(k, 64)))); return
            if d is None: conds.append(h)
    if not conds or (isc(none) and cv(none)):
        setr(fr, ins, NULL); return
    if e.feasible(st, none): conds.append(none)
    if len(conds) == 1: setr(fr, ins, NULL); return
    raise ForkN(conds)

def alloc(e, st, size, loc_):
    o = e.newobj(st, 'heap@%s' % loc_, size, 'heap', None)
    st.mem[o.id] = e.uninit(o.id)
    e.assume(st, ult(size, C(1 << 46, 64)))
    return Ptr(o.id, Z64)
@fn('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '__cxa_allocate_exception')
def _new(e, st, fr, ins, args):
    setr(fr, ins, alloc(e, st, args[0], loc(ins)))
@fn('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdaPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def _del(e, st, fr, ins, args):
    p = args[0]
    if p is UNDEF:
        e.oblige(st, FALSE, 'free of undefined pointer', loc(ins)); return 'end'
    if p.obj == 0: return
    o = e.objs[p.obj]
    ok = o.kind == 'heap' and p.obj not in st.dead
    c = eq(p.off, Z64) if ok else FALSE
    e.oblige(st, c, 'valid free', loc(ins))
    st.dead = st.dead | frozenset((p.obj,))

# exceptions
@fn('__cxa_throw')
def _throw(e, st, fr, ins, args):
    t = args[1]
    return ('throw', (args[0], e.objs[t.obj].name))
@fn('__cxa_begin_catch')
def _bc(e, st, fr, ins, args):
    st.caught = st.caught + (st.exc,)
    setr(fr, ins, args[0])
@fn('__cxa_get_exception_ptr')
def _gep_(e, st, fr, ins, args): setr(fr, ins, args[0])
@fn('__cxa_rethrow')
def _rt(e, st, fr, ins, args):
    x = st.caught[-1]; st.caught = st.caught[:-1]
    return ('throw', x)
@fn('llvm.eh.typeid.for')
def _tid(e, st, fr, ins, args):
    setr(fr, ins, C(e.typeid(e.objs[args[0].obj].name), 32))
def thrower(ti):
    def h(e, st, fr, ins, args):
        e.getglobal(st, ti)
        return ('throw', (NULL, ti))
    return h
for n, t in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
             ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'), ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
             ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
             ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'), ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
             ('__cxa_throw_bad_array_new_length', '_ZTISt20bad_array_new_length'), ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast')):
    CALLS[n] = thrower(t)

@fn('__cxa_guard_acquire')
def _ga(e, st, fr, ins, args):
    p = args[0]
    v = e.mread(st, st.mem[p.obj], p.off, 1, e.objs[p.obj])
    setr(fr, ins, ite(eq(v, C(0, 8)), C(1, 32), C(0, 32)))
@fn('__cxa_guard_release')
def _gr(e, st, fr, ins, args):
    p = args[0]
    st.mem[p.obj] = e.mwrite(st.mem[p.obj], p.off, 1, C(1, 8))

def _terminate(e, st, fr, ins, args):
    msg = ''
    try: msg = cstr(e, st, args[0])
    except Exception: pass
    e.oblige(st, FALSE, 'assertion: ' + msg, loc(ins)); return 'end'
def _noop(e, st, fr, ins, args):
    if ins['t'] != 'void': raise Limit('stub returns value')
PATTERNS = [
    (re.compile(r'^_ZN6archon4core4impl12?.*terminate'), _terminate),
    (re.compile(r'^_ZNSt(12length_error|12out_of_range|11logic_error|13runtime_error|16invalid_argument|12domain_error|14overflow_error|11range_error|9bad_alloc|9exception|15underflow_error)[CD]'), _noop),
    (re.compile(r'^_ZNSt(3_V2)?14error_category'), _noop),
]
E.Engine.branchlog = None
E.Engine.on_end = None
