"""replay.py FILE: rebuild the contract named in a replay file natively and run it on the recorded input."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
d = json.load(open(sys.argv[1]))
if not d.get('input'): print('no concrete input recorded; failed obligations:', json.dumps(d.get('failed_obligations'), indent=1), d.get('limit')); sys.exit(1)
out = os.path.join(build.BUILD, 'replaybuild'); os.makedirs(out, exist_ok=True)
exe = build.build_native(os.path.join(build.VERIF, 'contracts', d['contract']), out)
f = os.path.join(out, 'in.rep')
with open(f, 'w') as o:
    for x in d['input']: o.write('v %d\n' % x[1] if x[0] == 'v' else 'a %s\n' % x[1])
sys.exit(subprocess.call([exe, d['proof'], 'replay', f]))
