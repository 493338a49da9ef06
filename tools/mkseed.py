"""Helper to record a planted bug: mk(id, prop, file, [(old, new)], needs, breaks, demo C++, extra sources)."""
import os, subprocess, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
W = '/tmp/mkw'
def mk(id, prop, file, subs, needs, breaks, demo, srcs=(), flags=''):
    d = os.path.join(ROOT, 'seeded', id); os.makedirs(d, exist_ok=True)
    if not os.path.isdir(W):
        sh('git clone -q /repo %s && ln -s /repo/_build %s/_build' % (W, W))
    x = sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (W, W)); assert x.returncode == 0, x.stdout
    p = W + '/src/archon/' + file
    s = open(p).read()
    for old, new in subs:
        assert s.count(old) == 1, (id, s.count(old), old)
        s = s.replace(old, new)
    open(p, 'w').write(s)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % W).stdout)
    sh('git -C %s checkout -q -- .' % W)
    open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Builds the demonstration against the sources in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
g++ -std=c++20 -g -w %s -I src -I _build/src "$d/demo.cpp" %s _build/src/libarchon-image.a _build/src/libarchon-util.a _build/src/libarchon-core.a -o "$t/demo" || exit 3
timeout 120 "$t/demo"
''' % (flags, ' '.join('src/archon/' + x for x in srcs)))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    a = sh('cd %s && %s/demo.sh' % (W, d))
    x = sh('cd %s && git apply %s/patch.diff' % (W, d)); assert x.returncode == 0, x.stdout
    b = sh('cd %s && %s/demo.sh' % (W, d))
    sh('git -C %s checkout -q -- .' % W)
    ok = a.returncode == 0 and b.returncode not in (0, 3)
    print('%-28s %s clean=%d patched=%d %s' % (id, 'ok' if ok else 'BAD', a.returncode, b.returncode, '' if ok else (a.stdout + b.stdout)[-1500:]))
