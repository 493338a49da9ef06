import os, re
VALS = {'ARCHON_SOURCE_FROM_BUILD_PATH': '../../src', 'ARCHON_ASSUME_VISUAL_STUDIO_CMAKE_GENERATOR': '0', 'Archon_VERSION_MAJOR': '0', 'Archon_VERSION_MINOR': '1'}
def gen(repo, out):
    for m in ('core', 'image', 'display', 'font', 'render'):
        p = os.path.join(repo, 'src/archon', m, 'impl/config.h.in')
        if not os.path.exists(p): continue
        s = open(p).read()
        s = re.sub(r'@(\w+)@', lambda k: VALS.get(k.group(1), '0'), s)
        s = re.sub(r'#cmakedefine (\w+).*', r'/* #undef \1 */', s)
        d = os.path.join(out, 'archon', m, 'impl')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, 'config.h')
        if not os.path.exists(f) or open(f).read() != s:
            t = f + '.%d' % os.getpid()
            open(t, 'w').write(s); os.replace(t, f)
