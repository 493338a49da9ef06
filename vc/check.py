#!/usr/bin/env python3
"""Decide one property: verify every contract of the property against /repo's current sources.

usage: check.py PROPERTY [--tier quick|thorough] [--only PROOF] [--no-search]
Exit 0: every obligation discharged.  Exit 1 + VIOLATION line: an obligation failed.  Exit 2: broken set-up."""
import sys, os, json, re, time, subprocess, shutil, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
VERIF = build.VERIF
PY = '/opt/veriftools/pyvenv/bin/python' if os.path.exists('/opt/veriftools/pyvenv/bin/python') else 'python3-vt'
NCPU = min(8, os.cpu_count() or 4)

def proofs_of(src):
    """VC_PROOF(name) //: key=value ...   (also through macros: //: NAME key=value lines)"""
    r = {}
    tu = {}
    for l in open(src):
        m = re.match(r'\s*//#\s*(.*)', l)
        if m:
            for kv in m.group(1).split():
                k, v = kv.split('=', 1); tu[k] = int(v) if v.lstrip('-').isdigit() else v
        m = re.match(r'\s*VC_PROOF\((\w+)\)\s*(?:/\*:\s*(.*?)\*/)?', l)
        if m and (m.group(2) or m.group(1) not in r): r[m.group(1)] = parse(m.group(2))
        m = re.match(r'\s*//:\s*proof (\w+)\s*(.*)', l)
        if m: r[m.group(1)] = parse(m.group(2))
    return tu, r
def parse(s):
    d = {}
    for kv in (s or '').replace('{', ' ').split():
        k, v = kv.split('=', 1) if '=' in kv else (kv, '1')
        d[k] = int(v) if v.lstrip('-').isdigit() else v
    return d

class Check:
    def __init__(self, pid, tier, only=None, search=True, verbose=False):
        self.pid = pid; self.tier = tier; self.only = only; self.do_search = search
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.out = os.path.join(VERIF, 'build', pid)
        self.limit = float(os.environ.get('VC_LIMIT', '840' if tier == 'quick' else '7200'))
        self.results = []; self.opts = {}
        self.verbose = verbose
    def left(self): return self.limit - (time.time() - self.t0)

    def prove(self, tu, name, opts, extra=None):
        o = dict(self.tuopts[tu]); o.update(opts); o.update(extra or {})
        to = min(o.get('time', 300), max(20, self.left() - 60))
        o['time'] = to
        if o.get('native'): return self.enumerate(tu, name, o)
        try:
            p = subprocess.run([PY, os.path.join(HERE, 'prove.py'), self.json[tu], name, json.dumps(o)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=to + 90)
            m = p.stdout.rfind('@@RESULT ')
            if m < 0: r = dict(proof=name, err='limit: prover died: ' + p.stderr[-300:], fail=[])
            else: r = json.loads(p.stdout[m + 9:])
        except subprocess.TimeoutExpired:
            r = dict(proof=name, err='limit: prover timed out', fail=[])
        r['tu'] = tu; r['opts'] = o
        bad = None
        if r.get('fail'): bad = 'failed'
        elif r.get('err'): bad = 'incomplete'
        elif not r.get('ended') and not o.get('noend'): bad = 'vacuous'; r['err'] = 'no execution of the contract reaches its end'
        else:
            for c, ok in r['covers'].items():
                if not ok: bad = 'vacuous'; r['err'] = 'cover point %s unreachable' % c
        r['bad'] = bad
        return r

    def enumerate(self, tu, name, o):
        # bounded stand-in: the contract enumerates its inputs itself and is executed against the real code
        r = dict(proof=name, tu=tu, opts=o, fail=[], err=None, bad=None, covers={}, obligations=0, ended=1)
        t = time.time()
        exe = self.native(tu)
        if not exe: r['bad'] = 'incomplete'; r['err'] = 'limit: native build failed'; return r
        f = os.path.join(self.out, name + '.empty')
        open(f, 'w').close()
        try: p = subprocess.run([exe, name, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=o['time'] + 30, errors='replace', env=dict(os.environ, VC_ALARM=str(int(o['time']))))
        except subprocess.TimeoutExpired: p = None
        if p is None: r['bad'] = 'incomplete'; r['err'] = 'limit: enumeration timed out'
        elif p.returncode == 1:
            r['bad'] = 'failed'; r['fail'] = [dict(kind=p.stdout.strip().split('\n')[-1], loc=tu, status='refuted', model=[], trace=[])]
        elif p.returncode: r['bad'] = 'incomplete'; r['err'] = 'limit: ' + p.stdout[-200:] + p.stderr[-200:]
        r['secs'] = round(time.time() - t, 1)
        return r

    def run(self):
        self.nlock = threading.Lock(); self.nbuilt = {}
        cdir = os.path.join(VERIF, 'contracts')
        srcs = sorted(f for f in os.listdir(cdir) if f.startswith(self.pid + '_') and f.endswith('.cpp'))
        if not srcs: print('no contracts for ' + self.pid); return 2
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        build.irdump()
        self.json = {}; self.tuopts = {}; self.proofs = {}
        def b(s):
            tu, pr = proofs_of(os.path.join(cdir, s))
            self.tuopts[s] = tu; self.proofs[s] = pr
            if tu.get('tier') == 'thorough' and self.tier != 'thorough': return
            self.json[s] = build.build_ir(os.path.join(cdir, s), self.out)
        try:
            with ThreadPoolExecutor(NCPU) as ex: list(ex.map(b, srcs))
        except RuntimeError as x:
            return self.broken(str(x))
        jobs = []
        for s in srcs:
            if s not in self.json: continue
            with open(self.json[s]) as f: names = set(re.findall(r'"vc_proof_(\w+)"', f.read()))
            for n in sorted(names):
                o = self.proofs[s].get(n)
                if not o:
                    # generated through a macro: longest declared prefix wins
                    c = [k for k in self.proofs[s] if n.startswith(k) and self.proofs[s][k]]
                    o = self.proofs[s][max(c, key=len)] if c else {}
                o = dict(o)
                if self.only and not re.fullmatch(self.only, n): continue
                if o.get('tier') == 'thorough' and self.tier != 'thorough': continue
                if self.tier == 'thorough':
                    for k in [k for k in o if k.startswith('T_')]: o[k[2:]] = o[k]
                    o.setdefault('time', 300); o['time'] = int(o['time']) * 3; o['timeout'] = int(o.get('timeout', 60)) * 3
                jobs.append((s, n, o))
        self.jobs = jobs
        if not jobs: print('no proofs for ' + self.pid); return 2
        jobs.sort(key=lambda j: -int(j[2].get('cost', 1)))
        nw = max(1, NCPU - 1)
        with ThreadPoolExecutor(nw) as ex: self.results = list(ex.map(lambda j: self.prove(*j), jobs))
        self.report_dev()
        self.cross = []
        bads = [r for r in self.results if r['bad']]
        known = self.known()
        viol = []
        printed = []
        if bads:
            viol = self.diagnose(bads)
        elif self.tier == 'thorough' and self.do_search:
            viol = self.crosscheck()
        new = []
        for v in viol:
            k = self.match_known(known, v)
            if k: printed.append(k)
            else: new.append(v)
        for k in printed: print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        self.evidence(new)
        new.sort(key=lambda v: not v["confirmed"])
        for v in new[:3]: self.show(v)
        return 1 if new else 0

    def broken(self, msg):
        # the contracts no longer compile against the tree: no obligation can be generated
        rp = self.replayfile('build', dict(kind='extraction', text=msg[-4000:]))
        print(msg[-3000:])
        self.evidence([dict(proof='-', what='contracts do not compile')], note=msg[-500:])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, rp))
        return 1
    def known(self):
        f = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(f): return []
        return [k for k in json.load(open(f)).get('findings', []) if k['property'] == self.pid]
    def match_known(self, known, v):
        for k in known:
            if k['proof'] == v['proof'] and k['label'] in v['what'] and k.get('input') == v.get('input_id', k.get('input')): return k
        return None
    def replayfile(self, name, data):
        d = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-%s.json' % (self.pid, name))
        with open(f, 'w') as o: json.dump(data, o, indent=1, default=str)
        return f
    def show(self, v):
        print('%s: %s' % (v['proof'], v['what']))
        for l in v.get('detail', [])[:6]: print('    ' + l)
        print('VIOLATION property=%s replay=%s%s' % (self.pid, v['replay'], '' if v['confirmed'] else ' no-failing-input-found'))

    # ---- failing proofs: find a concrete failing input on the real code
    def native(self, tu):
        with self.nlock:
            ev = self.nbuilt.get(tu)
            if ev is None: ev = self.nbuilt[tu] = dict(l=threading.Lock(), exe=None, err=None)
        with ev['l']:
            if ev['exe'] is None and ev['err'] is None:
                try: ev['exe'] = build.build_native(os.path.join(VERIF, 'contracts', tu), self.out)
                except RuntimeError as x: ev['err'] = str(x)
        return ev['exe']
    def replay(self, r, model, tag):
        exe = self.native(r['tu'])
        if not exe: return None
        f = os.path.join(self.out, '%s-%s.rep' % (r['proof'], tag))
        with open(f, 'w') as o:
            for x in model:
                if x[0] == 'v': o.write('v %d\n' % x[1])
                else: o.write('a %s\n' % x[1])
        try: p = subprocess.run([exe, r['proof'], 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, errors='replace')
        except subprocess.TimeoutExpired: return None
        if p.returncode == 1: return (p.stdout.strip().split('\n')[-1], p.stderr[-3000:])
        return None
    def search(self, r, secs, seed):
        exe = self.native(r['tu'])
        if not exe: return None
        f = os.path.join(self.out, '%s-s%d.out' % (r['proof'], seed))
        try: p = subprocess.run([exe, r['proof'], 'search', str(seed), str(secs), f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 60, errors='replace')
        except subprocess.TimeoutExpired: return None
        if p.returncode == 1 and os.path.exists(f):
            m = json.load(open(f))
            m = [('v', x[1], x[2]) if x[0] == 'v' else ('a', x[1], x[2]) for x in m]
            return m, p.stdout.strip().split('\n')[-1], p.stderr[-3000:]
        return None
    def violation(self, r, what, model, msg, err, how):
        rp = self.replayfile(r['proof'], dict(property=self.pid, proof=r['proof'], contract=r['tu'], failed_obligations=[(x['kind'], x['loc'], x['status'], x['trace']) for x in r['fail']], limit=r.get('err'),
            input=model, native_result=msg, native_stderr=err, found_by=how,
            reproduce='build the contract natively (python3 vc/replay.py <this file>)'))
        d = ['%s at %s: %s' % (x['kind'], x['loc'], x['status']) for x in r['fail']]
        if r.get('err'): d.append(r['err'][:300])
        if msg: d.append('replayed on the real code: ' + msg)
        return dict(proof=r['proof'], what=what, detail=d, replay=rp, confirmed=model is not None and msg is not None)
    def diagnose(self, bads):
        found = []
        stop = threading.Event()
        lock = threading.Lock()
        def hit(r, what, model, msg, err, how):
            with lock:
                found.append(self.violation(r, what, model, msg, err, how)); stop.set()
        def what(r, msg=None):
            if r['fail']: return '; '.join('%s at %s' % (x['kind'], x['loc']) for x in r['fail'][:2])
            return 'obligations not discharged (%s)' % (r.get('err') or '')[:200]
        def models(r):
            for i, x in enumerate(r['fail']):
                if stop.is_set(): return
                if x.get('model') is not None:
                    q = self.replay(r, x['model'], 'm%d' % i)
                    if q: hit(r, what(r), x['model'], q[0], q[1], 'verifier counterexample'); return
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(models, bads))
        if stop.is_set() or not self.do_search: return found or [self.violation(r, what(r), None, None, None, 'none') for r in bads[:1]]
        # search: bounded symbolic execution of the same contract, and native random search
        total = max(20, min(240, self.left() - 100))
        tasks = []
        end = time.time() + total
        rs = bads[:12]
        def srch(a):
            r, k = a
            n = 0
            while not stop.is_set() and time.time() < end:
                q = self.search(r, min(8 + 4 * n, max(2, end - time.time())), self.seed * 1000 + k * 50 + n)
                n += 1
                if q:
                    q2 = self.replay(r, q[0], 's%d' % k)
                    if q2: hit(r, what(r), q[0], q2[0], q2[1], 'native search after failed proof'); return
                if n >= 12: return
        def bnd(a):
            r, bound = a
            if stop.is_set() or time.time() > end: return
            r2 = self.prove(r['tu'], r['proof'], r['opts'], dict(bounded=bound, loops='unroll', unroll=max(12, 3 * bound), time=int(max(10, end - time.time())), timeout=20, maxfail=4, maxpaths=20000))
            for i, x in enumerate(r2.get('fail', [])):
                if x.get('model') and not stop.is_set():
                    q = self.replay(r, x['model'], 'b%d_%d' % (bound, i))
                    if q: hit(r, what(r), x['model'], q[0], q[1], 'bounded counterexample search after failed proof'); return
        with ThreadPoolExecutor(NCPU) as ex:
            fs = []
            for r in rs[:4]:
                fs.append(ex.submit(bnd, (r, 2)))
                fs.append(ex.submit(srch, (r, 0)))
            for r in rs[:4]:
                fs.append(ex.submit(bnd, (r, 5)))
            for r in rs: fs.append(ex.submit(srch, (r, 1)))
            for f in fs: f.result()
        if found: return found[:1]
        r = bads[0]
        return [self.violation(r, what(r), None, None, None, 'none')]
    def crosscheck(self):
        """thorough tier: run every contract natively on generated inputs (validates the verifier itself)"""
        secs = float(os.environ.get('VC_CROSS', '10'))
        out = []
        def f(r):
            if r['opts'].get('nonative') or r['opts'].get('native'): return
            q = self.search(r, secs, self.seed)
            self.cross.append(r['proof'])
            if q: out.append(self.violation(r, 'contract fails on the real code: ' + q[1], q[0], q[1], q[2], 'native cross-check'))
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(f, self.results))
        return out

    def report_dev(self):
        for r in sorted(self.results, key=lambda r: -(r.get('secs') or 0)):
            if self.verbose or r['bad']:
                print('%-34s %-10s ob=%s triv=%s paths=%s ended=%s q=%s solver=%ss total=%ss %s %s' % (r['proof'], r['bad'] or 'ok', r.get('obligations'), r.get('trivial'), r.get('paths'), r.get('ended'), r.get('queries'), r.get('solver'), r.get('secs'), r.get('backend'), (r.get('err') or '')[:600]))
                for x in r['fail'][:2 if self.verbose else 1]: print('      FAIL %s at %s: %s  model=%s' % (x['kind'], x['loc'], x['status'], str(x['model'])[:300]))
    def evidence(self, viol, note=None):
        rs = self.results
        def total(k): return sum(r.get(k) or 0 for r in rs)
        full = [r for r in rs if not r['opts'].get('bounded') and not r['opts'].get('native')]
        bnd = [r for r in rs if r not in full]
        be = {}; kinds = {}; lines = {}; ext = set(); checks = {}
        for r in rs:
            for k, v in (r.get('backend') or {}).items(): be[k] = be.get(k, 0) + v
            for k, v in (r.get('kinds') or {}).items(): kinds[k] = kinds.get(k, 0) + v
            for k, v in (r.get('lines') or {}).items(): lines[k] = max(lines.get(k, 0), v)
            ext |= set(r.get('ext') or [])
            for k, v in (r.get('checks') or {}).items(): checks[k] = checks.get(k, 0) + v
        kk = {}
        for k, v in kinds.items():
            k = 'ensures' if k.startswith('ensures') else k.split(':')[0]
            kk[k] = kk.get(k, 0) + v
        ob = sum(r.get('obligations') or 0 for r in full)
        failed = sum(len(r['fail']) + (1 if r['bad'] and not r['fail'] else 0) for r in full)
        cov = dict(obligations=ob, discharged=max(0, ob - failed), checker_cmd='python3 vc/check.py %s --tier %s' % (self.pid, self.tier),
            trusted_base=['clang 18 front end and the LLVM 18 passes listed in vc/build.py (the verified text is the LLVM IR that clang produces from /repo on this run)',
                          'vc/ VC generator (engine.py, ops.py, loops.py, terms.py)', 'SMT solvers z3 5.3.2/4.8.12, cvc5 1.1.2',
                          'allocation never fails; objects are smaller than 2^46 bytes', 'contracts/%s_*.cpp as the statement of the property' % self.pid],
            contracts=[dict(proof=r['proof'], file=r['tu'], bounded=r['opts'].get('bounded', 0), obligations=r.get('obligations'), decided_syntactically=r.get('trivial'), paths=r.get('paths'), solver_queries=r.get('queries'), solver_s=r.get('solver'), wall_s=r.get('secs'), outcome=r['bad'] or 'discharged') for r in rs],
            obligations_by_kind=kk, postconditions=checks, decided_by=dict(be, syntactic=total('trivial')), solver_seconds=round(total('solver'), 1),
            repo_source_lines_reached=lines, assumed_external_functions=sorted(ext),
            loops_cut_with_invariants={k: v for r in rs for k, v in (r.get('loops') or {}).items()},
            bounded_contracts=[dict(proof=r['proof'], bound=r['opts'].get('bound') or (('sizes drawn by vc::any_size() at most %s' % r['opts']['bounded']) if r['opts'].get('bounded') else 'enumeration'), obligations=r.get('obligations')) for r in bnd],
            bounded_obligations=sum(r.get('obligations') or 0 for r in bnd))
        if getattr(self, 'cross', None): cov['natively_cross_checked_contracts'] = len(self.cross)
        level = 'proof'
        try: level = [c['level'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks'] if c['property'] == self.pid][0]
        except (OSError, LookupError): pass
        if level == 'other': cov['explanation'] = 'Contracts discharged by the deductive verifier, most of them only up to the bounds stated under bounded_contracts; obligations/discharged count the unbounded contracts only.'
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
            assumptions=['machine arithmetic is exact (bit vectors), not idealised', 'C++ library functions listed in assumed_external_functions behave as modelled in vc/ops.py',
                         'UB introduced by pointer arithmetic outside an object is only detected when the pointer is dereferenced'],
            wall_s=round(time.time() - self.t0, 1), violations=len(viol))
        if note: ev['coverage']['note'] = note
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        if not viol: print('%s: %d contracts, %d obligations discharged%s, %.1f s' % (self.pid, len(rs), cov['discharged'], (' (+%d bounded)' % cov['bounded_obligations']) if bnd else '', time.time() - self.t0))

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--no-search', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    c = Check(a.pid, a.tier, a.only, not a.no_search, a.v)
    sys.exit(c.run())
