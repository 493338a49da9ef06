"""Solver portfolio for single verification conditions."""
import z3, time, os, subprocess, tempfile, sys
from terms import *

def relevant(terms, goal):
    """cone of influence over shared variables"""
    need = set(fvars(goal))
    rest = [(t, fvars(t)) for t in terms]
    keep = []
    ch = True
    while ch:
        ch = False
        nr = []
        for t, f in rest:
            if f & need or not f:
                keep.append(t); need |= f; ch = True
            else: nr.append((t, f))
        rest = nr
    return keep, len(rest)

def smt2(terms, goal):
    tr = Z3Ctx(z3.Context())
    s = z3.Solver(ctx=tr.ctx)
    for t in terms: s.add(tr.tr(t))
    s.add(tr.tr(goal))
    txt = s.to_smt2()
    return txt

def portfolio(terms, goal, timeout, quick=False, full=False):
    # quick: only back ends that answer 'unsat' fast (path pruning: any other answer keeps the path)
    keep, dropped = relevant(terms, goal)
    if full: keep, dropped = list(terms), 0
    txt = smt2(keep, goal)
    txt = '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
    d = tempfile.mkdtemp(prefix='vcq')
    f = os.path.join(d, 'q.smt2')
    isfp = 'FloatingPoint' in txt or 'Float' in txt
    body = txt
    procs = []
    try:
        with open(f, 'w') as o: o.write(body)
        if os.environ.get('VC_DUMP'):
            smt2.n = getattr(smt2, 'n', 0) + 1
            open(os.environ['VC_DUMP'] + '/q%d_%d.smt2' % (os.getpid(), smt2.n), 'w').write(body)
        with open(f + '.c', 'w') as o: o.write('(set-logic ALL)\n' + body)
        cmds = [('z3-4.8', ['z3', '-T:%d' % max(1, timeout), f]),
                ('cvc5', ['cvc5', '--tlimit=%d' % (timeout * 1000), f + '.c'])]
        if os.path.exists('/usr/local/bin/z3-new') or True:
            cmds.insert(0, ('z3-5', ['z3-new', '-T:%d' % max(1, timeout), f]))
        if not isfp and 'declare-fun' in txt:
            cmds.append(('cvc5-bb', ['cvc5', '--tlimit=%d' % (timeout * 1000), '--bitblast=eager', f + '.c']))
        import intenc
        intq = set()
        if intenc.useful(keep + [goal]):
            for nm, nl in (('lia', False), ('nia', True)):
                try: q = intenc.encode(keep, goal, nl)
                except RecursionError: continue
                with open(f + '.' + nm, 'w') as o: o.write(q)
                cmds.insert(0, ('z3-' + nm, ['z3-new', '-T:%d' % max(1, timeout), f + '.' + nm])); intq.add('z3-' + nm)
        if quick:
            cmds = [x for x in cmds if x[0] in intq]
            if not cmds: return 'unknown', None
        for n, c in cmds:
            try: procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except FileNotFoundError: pass
        end = time.time() + timeout + (0 if quick else 5)
        live = list(procs)
        while live and time.time() < end:
            for x in list(live):
                n, p = x
                if p.poll() is not None:
                    live.remove(x)
                    o = p.stdout.read().strip().split('\n')[0].strip()
                    if o == 'unsat': return 'unsat', n
                    if o == 'sat' and n not in intq:
                        if dropped == 0: return 'sat', n
                        return portfolio(terms, goal, timeout, full=True)  # the dropped facts could be contradictory
            time.sleep(0.005)
        return 'unknown', None
    finally:
        for n, p in procs:
            if p.poll() is None:
                p.kill(); p.wait()
        for x in os.listdir(d): os.unlink(os.path.join(d, x))
        os.rmdir(d)
