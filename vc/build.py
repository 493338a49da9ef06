"""Compile a contract translation unit (which includes the real /repo sources) to optimised LLVM IR and JSON."""
import subprocess, os, sys, hashlib, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = '/usr/bin/clang++-18'
CFG = os.path.join(VERIF, 'build', 'cfg')
INC = ['-I' + os.path.join(VERIF, 'vc'), '-I' + CFG, '-I' + os.path.join(REPO, 'src')]
SAN = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,bool,enum',
       '-fsanitize-trap=all']
PASSES = ('module(inferattrs),'
          'cgscc(devirt<4>(inline,function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>))),'
          'globaldce,'
          'function(mem2reg,sroa<modify-cfg>,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,loop-simplify,lcssa,'
          'loop-mssa(licm),loop(indvars,loop-deletion),gvn,instcombine<no-verify-fixpoint>,dse,adce,simplifycfg,loop-simplify,loop(loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg),'
          'cgscc(inline),globaldce,function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)')

def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if p.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout

import gencfg
gencfg.gen(REPO, CFG)

def irdump():
    exe = os.path.join(BUILD, 'irdump')
    src = os.path.join(VERIF, 'vc', 'irdump.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).replace('-std=c++17', '').split()
        ld = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs'], text=True).split()
        tmp = exe + '.%d' % os.getpid()
        sh([CXX, '-O1'] + fl + ['-std=c++17', '-fno-rtti', src, '-o', tmp] + ld)
        os.replace(tmp, exe)
    return exe

def build_ir(src, outdir, extra=(), passes=None):
    os.makedirs(outdir, exist_ok=True)
    b = os.path.join(outdir, os.path.basename(src).rsplit('.', 1)[0])
    if passes is None and '//: switch-tables' in open(src).read(): passes = PASSES + ',function(simplifycfg<switch-to-lookup>)'   # a switch over constants becomes a table
    sh([CXX, '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-gline-tables-only', '-fno-discard-value-names', '-emit-llvm', '-c', '-DVC_PROVE=1', '-w']
       + SAN + INC + list(extra) + [src, '-o', b + '.raw.bc'])
    sh(['/usr/bin/opt-18', '-passes=internalize,' .replace('internalize,', '') + (passes or PASSES), '-inline-threshold=3000', '-inlinehint-threshold=3000', '-inline-cold-callsite-threshold=1000', '-inlinecold-threshold=1000', '-unroll-threshold=2000', b + '.raw.bc', '-o', b + '.bc'])
    out = sh([irdump(), b + '.bc'])
    with open(b + '.json', 'w') as f: f.write(out)
    return b + '.json'

NATFLAGS = ['-std=c++20', '-O1', '-g1', '-w', '-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,bool,enum',
            '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DVC_NATIVE=1']
def build_native(src, outdir):
    """Compile a contract with the real code for native replay."""
    b = os.path.join(outdir, os.path.basename(src).rsplit('.', 1)[0])
    rt = os.path.join(outdir, 'vc_native.%s.o' % os.path.basename(b))
    sh([CXX] + NATFLAGS + INC + ['-c', os.path.join(VERIF, 'vc', 'vc_native.cpp'), '-o', rt])
    sh([CXX] + NATFLAGS + INC + [src, rt, '-o', b + '.exe', '-lpthread'])
    return b + '.exe'
