import sys, time; sys.path.insert(0, '/verif/vc')
import build, engine
src = sys.argv[1]
names = sys.argv[2:]
opts = {}
for a in list(names):
    if '=' in a:
        k, v = a.split('=', 1); opts[k] = int(v) if v.lstrip('-').isdigit() else v; names.remove(a)
t = time.time()
if not opts.get('nobuild'): j = build.build_ir(src, '/tmp/vcb')
else: j = '/tmp/vcb/' + src.split('/')[-1].rsplit('.',1)[0] + '.json'
m = engine.Module(j)
print('build %.1fs funcs %d' % (time.time() - t, len(m.funcs)))
for f in sorted(m.funcs):
    if not f.startswith('vc_proof_'): continue
    if names and f[9:] not in names: continue
    t = time.time()
    e = engine.Engine(m, opts)
    try:
        e.run([e.start(f)])
        r = 'ok' if not e.fail else 'FAIL'
    except engine.Limit as x: r = 'LIMIT %s' % x
    except engine.Stop as x: r = 'FAIL'
    print('%-30s %s ob=%d triv=%d paths=%d ended=%d q=%d solver=%.1fs total=%.1fs %s %s' % (f[9:], r, e.nob, e.ntriv, e.paths, e.ended, e.sol.nq, e.sol.t, time.time() - t, e.sol.backend, sorted(e.sol.slow)[::-1][:6]))
    for x in e.fail: print('   ', x, x.trace[:3], x.model)
