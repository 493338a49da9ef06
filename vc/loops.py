"""Loop cut points: strides, write regions, inductive-invariant inference (Houdini), final check."""
import math, time
import z3
from terms import *
import terms as tm
from engine import Limit, Dead, Ptr, UNDEF, Z64, MN, Fork
import engine as E

class LV:
    """loop variable: a phi or a memory cell written at a fixed offset"""
    __slots__ = ('kind', 'key', 'entry', 'var', 'stride', 'inv', 'w', 'obj', 'cur', 'gcd')

def lv_entry_term(lv):
    return lv.entry.off if isinstance(lv.entry, Ptr) else lv.entry

def collect_writes(e, node, hnode, oid):
    """writes between header node and node, newest first"""
    r = []
    n = node
    while n is not hnode:
        if n.k == 'cells':
            base = hnode
            hc = {}
            if hnode.k == 'cells': hc = hnode.a[0]
            for off, x in n.a[0].items():
                y = hc.get(off)
                if y is None or y[0] != x[0] or y[1] is not x[1]:
                    r.append(('cell', off, x[0], x[1]))
            for off, y in hc.items():
                if off not in n.a[0]: r.append(('cell', off, y[0], None))
            if n.prev is not hnode and not (hnode.k == 'cells' and n.prev is hnode.prev):
                raise Limit('loop memory shape')
            return r
        if n.k == 'w': r.append(('w', n.a[0], n.a[1], n.a[2]))
        elif n.k in ('copy', 'fill', 'havoc', 'map'): r.append(('region', n.a[0], n.a[1], n))
        else: raise Limit('loop memory node ' + n.k)
        n = n.prev
        if n is None: raise Limit('loop memory chain')
    return r

def loop_cut(e, st, fn, h, blocks):
    t_start = time.time()
    fr = st.frames[-1]
    depth = len(st.frames)
    e.enter(st, fr, h)
    stamp = e.fresh_n
    blk = fn['blocks'][h]
    phis = [i for i in blk if i['o'] == 'phi']
    name = e.locof(fn, h)
    rec = e.loopinfo.setdefault(name, {'cuts': 0, 'invariants': 0})
    preobjs = set(st.mem)

    def stop(s, target):
        if len(s.frames) < depth: return 'exit'
        if len(s.frames) == depth:
            if target == h: return 'back'
            if target not in blocks: return 'exit'
        return None

    lvs = []
    for p in phis:
        lv = LV(); lv.kind = 'phi'; lv.key = p['i']; lv.entry = fr.regs[p['i']]; lv.stride = None; lv.inv = False
        lv.var = None; lv.cur = None
        if isinstance(lv.entry, list): raise Limit('aggregate phi')
        if lv.entry is UNDEF: lv.entry = e.fresh('undef', 64) if p['t'] != 'p' else UNDEF
        lvs.append(lv)
    cells = {}      # (oid, off, sz) -> LV
    regions = {}    # oid -> dict(lo,ln,ew,mode)
    nvar = e.fresh('n', 64)

    def nw(w):
        if w == 64: return nvar
        if w < 64: return ext(nvar, w - 1, 0)
        return zext(nvar, w)

    def build_header(final=False):
        H = st.clone()
        f = H.frames[-1]
        for lv in lvs + list(cells.values()):
            ent = lv.entry
            if lv.inv:
                v = ent
            elif lv.stride is not None:
                et = lv_entry_term(lv)
                t = add(et, mulk(nw(et.w), lv.stride))
                v = Ptr(ent.obj, t) if isinstance(ent, Ptr) else t
            else:
                if ent is UNDEF: v = UNDEF
                elif isinstance(ent, Ptr):
                    if lv.var is None: lv.var = e.fresh('Lp', 64)
                    v = Ptr(ent.obj, lv.var)
                else:
                    if lv.var is None: lv.var = e.fresh('L', ent.w)
                    v = lv.var
            lv.cur = v
            if lv.kind == 'phi': f.regs[lv.key] = v
            elif not lv.inv:
                oid, off, sz = lv.key
                if isinstance(v, T) and v.w == 1: raise Limit('bool cell')
                H.mem[oid] = e.mwrite(H.mem[oid], C(off, 64), sz, v)
        for oid, rg in regions.items():
            node = H.mem[oid]
            if rg['mode'] == 'map':
                node = MN('map', node, rg['lo'], mulk(nvar, rg['s']), rg['s'], rg['s'], nvar, rg['g'])
            elif rg['mode'] == 'region':
                f_cur = rg['f'](cur_map())
                f_ent = rg['f'](entry_map())
                node = MN('havoc', node, f_ent, sub(f_cur, f_ent), rg['name'], rg['ew'])
            else:
                node = MN('havoc', node, Z64, e.objs[oid].size, rg['name'], rg['ew'])
            H.mem[oid] = node
        return H
    def all_lvs(): return lvs + list(cells.values())
    def cur_map(): return {}
    def entry_map():
        m = {nvar: Z64}
        for lv in all_lvs():
            if lv.var is not None: m[lv.var] = lv_entry_term(lv)
        return m

    def next_vals(s):
        """values of loop variables along a back edge"""
        f = s.frames[-1]
        prev = f.bb
        r = {}
        for lv, p in zip(lvs, phis):
            for a, b in p['a']:
                if b == prev:
                    r[lv] = e.val(s, a); break
        for lv in cells.values():
            oid, off, sz = lv.key
            r[lv] = e.mread(s, s.mem[oid], C(off, 64), sz, e.objs[oid])
        return r

    def run_body(H, quiet):
        if quiet: e.quiet += 1
        olog = e.branchlog
        e.branchlog = []
        try:
            outs = e.run([H], stop)
            conds = e.branchlog
        finally:
            if quiet: e.quiet -= 1
            e.branchlog = olog
        return [s for s in outs if s.tag == 'back'], [s for s in outs if s.tag == 'exit'], conds

    # ---------------- discovery of modified state, to a fixpoint
    for rnd in range(12):
        H = build_header()
        hmem = dict(H.mem)
        backs, exits, conds = run_body(H.clone(), True)
        changed = False
        nv = []
        for s in backs:
            for oid in list(hmem):
                n = s.mem.get(oid)
                if n is None or n is hmem[oid]: continue
                wr = collect_writes(e, n, hmem[oid], oid)
                if oid in regions and regions[oid]['mode'] == 'all': continue
                for w in wr:
                    if w[0] == 'cell' or (w[0] == 'w' and isc(w[1])):
                        off = w[1] if w[0] == 'cell' else cv(w[1])
                        if w[0] == 'cell' and w[3] is None: raise Limit('cell split in loop')
                        key = (oid, off, w[2])
                        if oid in regions: continue
                        if key not in cells:
                            lv = LV(); lv.kind = 'cell'; lv.key = key
                            lv.entry = e.mread(st, st.mem[oid], C(off, 64), w[2], e.objs[oid])
                            if isinstance(lv.entry, T) and isinstance(w[3], T) and lv.entry.w != w[3].w:
                                if isinstance(w[3].w, str): lv.entry = e.coerce(st, lv.entry, 'float' if w[3].w == 'f32' else 'double')
                                else: lv.entry = e.tobits(st, lv.entry)
                            if isinstance(w[3], Ptr) and not isinstance(lv.entry, Ptr): lv.entry = UNDEF
                            lv.stride = None; lv.inv = False; lv.var = None; lv.cur = None
                            cells[key] = lv
                            changed = True
                    else:
                        if oid not in regions:
                            regions[oid] = {'mode': 'new', 'writes': []}
                            changed = True
            if s.dead != H.dead and any(o in preobjs for o in s.dead - H.dead): raise Limit('object freed in loop')
        if changed:
            for oid, rg in regions.items():
                if rg['mode'] == 'new':
                    rg['mode'] = 'all'; rg['name'] = 'hv%d_%d' % (oid, e.fresh_n); e.fresh_n += 1
                    szs = set()
                    for s in backs:
                        for w in collect_writes(e, s.mem[oid], hmem[oid], oid):
                            if w[0] in ('w', 'cell'): szs.add(w[2])
                            else: szs.add(w[3].a[3] if w[3].k in ('havoc', 'map') else (e.objs[oid].ew or 1))
                    rg['ew'] = min(szs) if szs else 1
            for lv in all_lvs():
                if lv.kind == 'cell' and lv.key[0] in regions: lv.inv = True
            # cells of an object that is havocked as a region are covered by the region
            for k in [k for k in cells if k[0] in regions]: del cells[k]
            continue
        # strides / invariance
        for s in backs:
            nv.append(next_vals(s))
        upd = False
        for lv in all_lvs():
            if lv.inv or lv.stride is not None: continue
            ent = lv.entry
            ds = set()
            for r in nv:
                x = r[lv]; c = lv.cur
                if c is UNDEF or x is UNDEF:
                    ds.add('u'); continue
                if isinstance(c, Ptr) != isinstance(x, Ptr): raise Limit('loop variable changes kind at ' + name)
                if isinstance(c, Ptr):
                    if c.obj != x.obj: raise Limit('loop pointer changes object at ' + name)
                    d = sub(x.off, c.off)
                elif isinstance(c.w, int) and c.w > 1: d = sub(x, c)
                else: d = C(0, 8) if x is c else None
                if d is not None and isc(d): ds.add(cv(d))
                else: ds.add(None)
            if not nv or ds == {0}: lv.inv = True; upd = True
            elif ds == {'u'}: lv.inv = True; upd = True
            elif len(ds) > 1 and None not in ds and 'u' not in ds:
                lv.gcd = 0
                for d in ds: lv.gcd = math.gcd(lv.gcd, d)
            elif len(ds) == 1 and None not in ds and 'u' not in ds:
                lv.stride = ds.pop(); upd = True
        if upd: continue
        # write regions
        for oid, rg in regions.items():
            if rg['mode'] != 'all' or rg.get('tried'): continue
            rg['tried'] = True
            ws = []
            ok = True
            for s in backs:
                if s.mem[oid] is hmem[oid]: ws.append([]); continue
                # header node is the havoc node
                w = collect_writes(e, s.mem[oid], hmem[oid], oid)
                ws.append(w)
            allw = [w for x in ws for w in x]
            if not allw: continue
            if any(w[0] == 'cell' for w in allw): continue
            # map pattern
            w0 = allw[0]
            if all(len(x) == 1 for x in ws) and all(w[0] == 'w' and w[1] is w0[1] and w[2] == w0[2] for w in allw):
                c, ts = tm._parts(w0[1])
                d = dict(ts)
                k = d.get(nvar)
                rest = sub(w0[1], mulk(nvar, k)) if k else None
                if k and E.sgn(k, 64) == w0[2] and old_only(rest, stamp, ()):
                    g = None
                    if len(allw) == 1: g = w0[3]
                    elif all(w[3] is w0[3] for w in allw): g = w0[3]
                    if isinstance(g, T) and old_only(g, stamp, (nvar,)):
                        if isinstance(g.w, int) and g.w == 1: g = None
                        else:
                            rg.update(mode='map', lo=rest, s=w0[2], g=g)
                            upd = True; continue
            # region pattern: offsets share linear part
            lin0 = None; mn = None; good = True
            for w in allw:
                c, ts = tm._parts(w[1])
                if lin0 is None: lin0 = ts; mn = E.sgn(c, 64); base = w[1]
                elif ts == lin0:
                    if E.sgn(c, 64) < mn: mn = E.sgn(c, 64)
                else: good = False; break
            if not good: 
                continue
            fterm = sub(base, C(tm._parts(base)[0], 64))
            fterm = add(fterm, C(mn, 64))
            if not old_only(fterm, stamp, set([nvar]) | set(lv.var for lv in all_lvs() if lv.var is not None)): continue
            def mkf(ft):
                return lambda m: subst(ft, m) if m else ft
            f = mkf(fterm)
            # verify region hypothesis on every back edge
            good = True
            for s, wl, r in zip(backs, ws, nv):
                nm = next_map(all_lvs(), nvar, r)
                fn_ = subst(fterm, nm)
                for w in wl:
                    sz = C(w[2], 64) if w[0] == 'w' else w[2]
                    if not e.must(s, and_(ule(fterm, w[1]), and_(ule(add(w[1], sz), fn_), ule(w[1], add(w[1], sz))))):
                        good = False
                if not e.must(s, ule(fterm, fn_)): good = False
            if good:
                rg.update(mode='region', f=f, fterm=fterm)
                upd = True
        if upd: continue
        break
    else:
        raise Limit('loop analysis did not converge at ' + name)

    # ---------------- candidate invariants
    hv = set([nvar]) | set(lv.var for lv in all_lvs() if lv.var is not None)
    cands = {}
    def cand(t):
        if isc(t): return
        fv = fvars(t)
        if not (fv & hv): return
        if not old_only(t, stamp, hv): return
        cands.setdefault(t, 0)
    for rg in regions.values():
        if rg['mode'] == 'region':
            fe = subst(rg['fterm'], entry_map())
            cand(ule(fe, rg['fterm']))
    atoms = set()
    for s in backs + exits:
        p = s.pc
        while p is not None and p is not st.pc and p.parent is not None:
            atoms.add(p.term); p = p.parent
    for c in conds: atoms.add(c)
    ex = set()
    for a in atoms: flat(a, ex)
    bigs = []
    for a in ex:
        cand(a); cand(not_(a))
        b = a.args[0] if a.op == 'not' else a
        if b.op in ('eq', 'ult', 'ule', 'slt', 'sle') and isinstance(b.args[0].w, int) and b.args[0].w > 1:
            x, y = b.args
            for f in ((ule, sle) if x.w > 1 else ()):
                cand(f(x, y)); cand(f(y, x))
            if b.op == 'eq':
                d = sub(x, y)
                g = 0
                c, ts = tm._parts(d)
                for _, k in ts: g = math.gcd(g, abs(E.sgn(k, d.w)))
                g = math.gcd(g, abs(E.sgn(c, d.w)))
                if g > 1:
                    pos = {}; ngt = {}
                    for t_, k in ts:
                        k = E.sgn(k, d.w)
                        if k > 0: pos[t_] = k // g
                        else: ngt[t_] = -k // g
                    cc = E.sgn(c, d.w) // g
                    l = tm._lin(d.w, cc if cc > 0 else 0, pos); r = tm._lin(d.w, -cc if cc < 0 else 0, ngt)
                    cand(ule(l, r)); cand(ule(r, l)); cand(sle(l, r)); cand(sle(r, l))
    live = [lv for lv in all_lvs() if not lv.inv and lv.entry is not UNDEF]
    nums = [lv for lv in live if isinstance(lv_entry_term(lv).w, int) and lv_entry_term(lv).w > 1]
    for lv in nums:
        t = lv.cur.off if isinstance(lv.cur, Ptr) else lv.cur
        et = lv_entry_term(lv)
        cand(ule(et, t)); cand(ule(t, et)); cand(sle(et, t)); cand(sle(t, et))
        if lv.stride is None:
            for k in (1, 2, 3):
                if getattr(lv, 'gcd', 0) and lv.gcd % (1 << k) == 0 and t.w > k: cand(eq(trunc(sub(t, et), k), C(0, k)))
            for k in (1, 2, 3, 4, 5, 6, 7, 8):
                if t.w > k: cand(ult(t, C(1 << k, t.w)))
            if t.w > 16: cand(ult(t, C(0x110000, t.w)))
            if t.w == 64:
                cand(ule(nvar, sub(t, et)))
                for k in (1, 2, 3, 4, 8): cand(ule(sub(t, et), mulk(nvar, k)))
            for hnt in st.facts:
                if hnt.w == t.w:
                    cand(ule(t, hnt)); cand(ule(hnt, t)); cand(eq(t, hnt))
        if isinstance(lv.cur, Ptr):
            cand(ule(t, e.objs[lv.cur.obj].size))
    for a in nums:
        for b in nums:
            if a is b: continue
            ta = a.cur.off if isinstance(a.cur, Ptr) else a.cur
            tb = b.cur.off if isinstance(b.cur, Ptr) else b.cur
            if ta.w != tb.w: continue
            if a.stride is not None and b.stride is not None: continue
            cand(ule(ta, tb))
            ea = lv_entry_term(a); eb = lv_entry_term(b)
            for k in (1, 2, 4, 8):
                cand(eq(sub(ta, ea), mulk(sub(tb, eb), k)))
                cand(ule(sub(ta, ea), mulk(sub(tb, eb), k)))
    for lv in live:
        t = lv.cur.off if isinstance(lv.cur, Ptr) else lv.cur
        if isinstance(t.w, int): 
            cand(eq(t, lv_entry_term(lv)))
            if t.w == 1: cand(t); cand(not_(t))
    tmpl = e.o.get('tmpl', '')
    if 'sq' in tmpl:
        for lv in nums:
            t = lv.cur.off if isinstance(lv.cur, Ptr) else lv.cur
            for h in st.facts:
                if h.w < t.w: continue
                W = 2 * t.w + 2
                x = add(zext(t, W), C(1, W))
                cand(ult(zext(trunc(h, t.w), W) if h.w > t.w else zext(h, W), mul(x, x)))
            cand(not_(eq(t, C(0, t.w))))
    if e.cand_hook:
        for t in e.cand_hook(e, st, fn, h, all_lvs(), nvar, regions, H): cand(t)
    cl = list(cands)
    rec['cuts'] += 1
    # entry filter
    em = entry_map()
    memo = {}
    ents = [subst(t, em, memo) for t in cl]
    cl, ents = filt(e, st.pc, cl, ents, [])
    # inductiveness
    nv = [next_vals(s) for s in backs]
    nms = [next_map(all_lvs(), nvar, r) for r in nv]
    survivors = houdini(e, backs, cl, nms)
    rec['invariants'] = max(rec['invariants'], len(survivors))
    if e.o.get('verbose'):
        print('LOOP %s: %d cands -> %d  strides %s regions %s  %.1fs' % (name, len(cands), len(survivors), [(lv.kind, lv.key, lv.stride, lv.inv) for lv in all_lvs()], {k: v['mode'] for k, v in regions.items()}, time.time() - t_start))
        if e.o['verbose'] > 1:
            for t in survivors: print('    ', t)

    # ---------------- final pass
    if not e.quiet and survivors:
        e.nob += len(survivors); e.kinds['invariant-entry'] = e.kinds.get('invariant-entry', 0) + len(survivors)
        e.count('z3-houdini')
    H = build_header()
    for t in survivors: e.assume(H, t)
    hmem = dict(H.mem)
    backs, exits, conds = run_body(H.clone(), bool(e.quiet))
    for s in backs:
        r = next_vals(s)
        nm = next_map(all_lvs(), nvar, r)
        ob = [subst(t, nm) for t in survivors]
        for lv in all_lvs():
            x = r[lv]
            if lv.inv:
                if lv.entry is UNDEF or x is UNDEF: continue
                a = x.off if isinstance(x, Ptr) else x
                if a is not lv_entry_term(lv): ob.append(eq(a, lv_entry_term(lv)))
            elif lv.stride is not None:
                a = x.off if isinstance(x, Ptr) else x
                c = lv.cur.off if isinstance(lv.cur, Ptr) else lv.cur
                ob.append(eq(a, add(c, C(lv.stride, c.w))))
        for oid in list(hmem):
            n = s.mem.get(oid)
            if n is None or n is hmem[oid]: continue
            wr = collect_writes(e, n, hmem[oid], oid)
            rg = regions.get(oid)
            if rg is None:
                for w in wr:
                    off = w[1] if w[0] == 'cell' else (cv(w[1]) if isc(w[1]) else None)
                    if (oid, off, w[2]) not in cells: raise Limit('unexpected write in loop body')
            elif rg['mode'] == 'map':
                if len(wr) != 1 or wr[0][0] != 'w' or wr[0][2] != rg['s']: raise Limit('map write shape')
                ob.append(eq(wr[0][1], add(rg['lo'], mulk(nvar, rg['s']))))
                v = wr[0][3]
                if v is not rg['g']: ob.append(eq(v, rg['g']))
            elif rg['mode'] == 'region':
                fc = rg['fterm']; fx = subst(fc, nm)
                ob.append(ule(fc, fx))
                for w in wr:
                    if w[0] == 'cell': raise Limit('cell write in region')
                    sz = C(w[2], 64) if w[0] == 'w' else w[2]
                    ob.append(and_(ule(fc, w[1]), and_(ule(add(w[1], sz), fx), ule(w[1], add(w[1], sz)))))
        ob = [o for o in ob if not (isc(o) and cv(o))]
        if e.quiet: continue
        conj = all_(ob)
        e.kinds['invariant-preserved'] = e.kinds.get('invariant-preserved', 0) + max(len(ob), 1)
        e.nob += max(len(ob), 1)
        if e.sol.check(s.pc, not_(conj), to=20000) == 'unsat': continue
        for o in ob:
            if e.sol.check(s.pc, not_(o), to=20000) != 'unsat':
                rr = e.portfolio(s.pc, not_(o))
                if rr != 'unsat':
                    raise Limit('invariant %r not preserved on final pass at %s' % (o, name))
    if e.quiet == 0: rec['secs'] = round(rec.get('secs', 0) + time.time() - t_start, 2)
    for s in exits: s.tag = None
    return exits

def next_map(lvs, nvar, r):
    m = {nvar: add(nvar, C(1, 64))}
    for lv in lvs:
        if lv.var is not None and not lv.inv and lv.stride is None:
            x = r[lv]
            m[lv.var] = x.off if isinstance(x, Ptr) else x
    return m

def flat(a, ex, d=0):
    if a.op in ('and', 'or') and a.w == 1 and d < 4:
        for x in a.args: flat(x, ex, d + 1)
        if a.op == 'or': ex.add(a)
    elif a.op == 'not' and a.args[0].op in ('and', 'or'):
        flat(a.args[0], ex, d + 1); ex.add(a)
    elif a.op == 'ite' and a.w == 1 and d < 4:
        for x in a.args: flat(x, ex, d + 1)
        ex.add(a)
    else: ex.add(a)

def stampof(v):
    if isinstance(v, T):
        n = v.args[0]
        i = n.rfind('!')
        return int(n[i + 1:]) if i >= 0 else 0
    # array name
    if v.startswith('hv'): return int(v.split('_')[-1])
    return 0

def old_only(t, stamp, allowed):
    for v in fvars(t):
        if v in allowed: continue
        if stampof(v) > stamp: return False
    return True

def filt(e, pc, cl, ents, _):
    """keep candidates whose entry instance is implied by pc"""
    keep = [(c, t) for c, t in zip(cl, ents) if not (isc(t) and not cv(t))]
    triv = [(c, t) for c, t in keep if isc(t)]
    todo = [(c, t) for c, t in keep if not isc(t)]
    tr = e.sol.tr
    sol = e.sol
    t0 = time.time()
    while todo:
        sol.sync(pc)
        sol.s.push()
        sol.s.set('timeout', 800); sol.cur_to = 800
        sol.s.add(z3.Or([z3.Not(tr.tr(t)) for _, t in todo]))
        r = sol.s.check()
        if r == z3.sat:
            m = sol.s.model()
            sol.s.pop()
            n = [(c, t) for c, t in todo if not z3.is_false(m.eval(tr.tr(t), model_completion=True))]
            if len(n) == len(todo):
                n = todo[1:]
            todo = n
        elif r == z3.unsat:
            sol.s.pop(); break
        else:
            sol.s.pop()
            # fall back to individual checks
            n = []
            for c, t in todo:
                if sol.check(pc, not_(t), to=100) == 'unsat': n.append((c, t))
            todo = n
            break
    sol.t += time.time() - t0
    res = triv + todo
    return [c for c, _ in res], [t for _, t in res]

def houdini(e, backs, cl, nms):
    live = list(cl)
    t0 = time.time()
    tr = e.sol.tr
    data = []
    for s, nm in zip(backs, nms):
        memo = {}
        data.append((s, {c: subst(c, nm, memo) for c in cl}))
    changed = True
    solvers = []
    for s, nx in data:
        z = z3.Solver(); z.set('timeout', 1500)
        for t in s.pc.terms(): z.add(tr.tr(t))
        ind = {}
        for i, c in enumerate(cl):
            b = z3.Bool('cand!%d' % i)
            z.add(z3.Implies(b, tr.tr(c)))
            ind[c] = b
        solvers.append((z, ind))
    while changed:
        changed = False
        for (s, nx), (z, ind) in zip(data, solvers):
            while live:
                bad = [c for c in live if isc(nx[c]) and not cv(nx[c])]
                # constant-false next: only a problem if back edge feasible
                todo = [c for c in live if not (isc(nx[c]) and cv(nx[c]))]
                if not todo: break
                z.push()
                z.add(z3.Or([z3.Not(tr.tr(nx[c])) for c in todo]))
                r = z.check(*[ind[c] for c in live])
                if r == z3.sat:
                    m = z.model()
                    z.pop()
                    drop = [c for c in todo if z3.is_false(m.eval(tr.tr(nx[c]), model_completion=True))]
                    if not drop: drop = [todo[0]]
                    ds = set(drop)
                    live = [c for c in live if c not in ds]
                    changed = True
                elif r == z3.unsat:
                    z.pop(); break
                else:
                    z.pop()
                    keep = []
                    drop = set()
                    z.set('timeout', 250)
                    for c in todo:
                        z.push(); z.add(z3.Not(tr.tr(nx[c])))
                        rr = z.check(*[ind[x] for x in live if x not in drop])
                        z.pop()
                        if rr == z3.unknown:
                            import solve
                            q, _ = solve.portfolio(s.pc.terms() + [x for x in live if x not in drop], not_(nx[c]), 0.6, quick=True)
                            if q == 'unsat': continue
                        if rr != z3.unsat: drop.add(c); changed = True
                    z.set('timeout', 1500)
                    if drop:
                        live = [c for c in live if c not in drop]
                        continue
                    break
    e.sol.t += time.time() - t0
    return live
