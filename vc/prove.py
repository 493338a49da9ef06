"""Run one proof: prove.py JSON PROOF OPTS-JSON -> result JSON on stdout."""
import sys, os, json, time, resource, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    js, name, opts = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    lim = opts.get('mem', 9) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    import engine
    t = time.time()
    m = engine.Module(js)
    e = engine.Engine(m, opts)
    err = None
    try: e.run([e.start('vc_proof_' + name)])
    except engine.Limit as x: err = 'limit: %s' % x
    except engine.Stop: pass
    except MemoryError: err = 'limit: out of memory'
    except Exception as x:
        err = 'limit: engine error %s: %s' % (type(x).__name__, traceback.format_exc()[-700:])
    lines = {}
    for fn, bb in e.blocks_seen:
        for i in m.funcs[fn]['blocks'][bb]:
            d = i.get('d')
            if d and ':' in d:
                f, l = d.rsplit(':', 1)
                if not f.startswith('/'): lines.setdefault(f, set()).add(l)
    res = dict(proof=name, err=err, obligations=e.nob, trivial=e.ntriv, kinds=e.kinds, checks=e.checks, paths=e.paths, ended=e.ended,
               covers=e.covers, queries=e.sol.nq, solver=round(e.sol.t, 2), backend=e.sol.backend, slow=e.sol.slow[:6], loops=e.loopinfo,
               ext=sorted(e.ext_used), lines={f: len(s) for f, s in lines.items()}, secs=round(time.time() - t, 2),
               fail=[dict(kind=x.kind, loc=x.loc, status=x.status, model=x.model, trace=x.trace) for x in e.fail])
    sys.stdout.write('\n@@RESULT ' + json.dumps(res, default=str) + '\n')
main()
