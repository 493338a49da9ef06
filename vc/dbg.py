"""Run one proof for N seconds, then print where the execution is (development aid)."""
import sys, os, signal, collections; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine
src, name, secs = sys.argv[1], sys.argv[2], int(sys.argv[3])
opts = {}
for a in sys.argv[4:]:
    k, v = a.split('=', 1); opts[k] = int(v) if v.lstrip('-').isdigit() else v
m = engine.Module(build.build_ir(src, '/tmp/vcb'))
e = engine.Engine(m, opts)
cnt = collections.Counter()
oj = e.enter
def enter(st, fr, t):
    cnt[(fr.fn['n'][-40:], t)] += 1
    return oj(st, fr, t)
e.enter = enter
class X(Exception): pass
def h(*a): raise X()
signal.signal(signal.SIGALRM, h); signal.alarm(secs)
ost = e.step
last = [None]
def step(st, fr, ins, *a):
    last[0] = (ins, fr.fn['n'])
    return ost(st, fr, ins, *a)
e.step = step
try: e.run([e.start('vc_proof_' + name)]); print('finished', e.fail)
except X: print('interrupted')
except engine.Limit as x: print('limit', x)
print('paths', e.paths, 'ended', e.ended, 'q', e.sol.nq, 'solver', e.sol.t)
for (f, t), n in cnt.most_common(25):
    b = m.getfn(f)['blocks'][t] if False else None
    print(n, f, t, [i.get('d') for i in next(x for x in m.funcs.values() if x['n'].endswith(f))['blocks'][t]][:2])
print('last instruction', str(last[0])[:600])
