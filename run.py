#!/usr/bin/env python3
"""Decides one property: compiles the harness and the /repo sources it names to LLVM bitcode, runs the
symbolic executor on every case, replays counterexamples natively, writes evidence/<id>.json.
usage: run.py PROPERTY [quick|thorough] [--case NAME] [--keep]
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed (reproduced on the real code)."""
import sys, os, re, json, time, subprocess, tempfile, shutil, glob, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VP_REPO', '/repo')
CXX = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
LINK = '/usr/bin/llvm-link-18' if os.path.exists('/usr/bin/llvm-link-18') else 'llvm-link'
DEFS = '-std=gnu++14 -DNDEBUG -DHAVE_LAPACK -DHAVE_MSGPACK -DCOMPILER_USE_CXX11 -DLOG4CPP_DISABLE_LOGGING -Wno-everything'.split()
def incs(): return ['-I' + V + '/harness', '-I' + V + '/compat', '-I' + REPO + '/src', '-I' + REPO + '/3rd/boost-bindings', '-I' + REPO + '/3rd/log4cpp/include', '-I' + REPO + '/3rd/tinyxml']
SYM = '-O2 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fno-math-errno -emit-llvm -include '.split() + [V + '/compat/vp_noextern.h']
NAT = '-O1 -g -fsanitize=address -ftrivial-auto-var-init=pattern -DVP_NATIVE'.split()
def sh(cmd, timeout=None, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 124, e.stdout or b'', e.stderr or b'')
def engine():
    r = None
    for _ in range(2):
        r = sh(['make', '-s', '-C', V + '/engine'])
        if r.returncode == 0: return V + '/build/utsym'
    sys.stderr.write(r.stderr.decode()[-3000:]); return None
class H: pass
def parse(f):
    h = H(); h.file = f; h.props = []; h.sources = []; h.models = []; h.cases = {}; h.bounds = []; h.assume = []; h.libs = []; h.flags = []; h.order = []
    t = open(f).read()
    for m in re.finditer(r'^//@ (\w+)[ \t]*(.*)$', t, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k == 'property': h.props += v.split()
        elif k == 'sources': h.sources += v.split()
        elif k == 'models': h.models += v.split()
        elif k == 'bounds': h.bounds.append(v)
        elif k == 'assume': h.assume.append(v)
        elif k == 'libs': h.libs += v.split()
        elif k == 'flags': h.flags += v.split()
        elif k == 'case':
            n, *o = v.split(); h.cases.setdefault(n, {}).update(dict(x.split('=', 1) for x in o))
    for m in re.finditer(r'^VP_CASE\((\w+)\)', t, re.M): h.cases.setdefault(m.group(1), {}); h.order.append(m.group(1))
    for m in re.finditer(r'^VP_CASES_(\w+)\((\w+)', t, re.M): pass
    for n in h.cases:
        if n not in h.order: h.order.append(n)
    return h
def srcflags(s): return ['-include', 'ctime'] if s.endswith('Timestamp.cpp') else []
class Run:
    def __init__(self, prop, tier, only=None):
        self.prop, self.tier, self.only = prop, tier, only; self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop, dir='/tmp'); self.errors = []; self.t0 = time.time(); self.pool = ThreadPoolExecutor(8)
        self.hs = [h for h in map(parse, sorted(glob.glob(V + '/harness/*.cpp'))) if prop in h.props]
        self.stateful = []; self.cc = {}; self.lock = threading.Lock()
    def compile(self, src, out, flags):
        r = sh([CXX] + DEFS + flags + incs() + srcflags(src) + ['-c', src, '-o', out], timeout=500)
        if r.returncode: self.errors.append('compile %s: %s' % (src, r.stderr.decode(errors='replace')[-1500:])); return False
        return True
    def bc(self, src, flags=()):
        key = (src, tuple(flags))
        with self.lock:
            if key not in self.cc:
                out = '%s/%d.bc' % (self.tmp, len(self.cc)); self.cc[key] = (out, self.pool.submit(self.compile, src, out, SYM + list(flags)))
        return self.cc[key]
    def build(self, h):
        parts = [self.bc(h.file, h.flags)] + [self.bc(REPO + '/src/' + s, h.flags) for s in h.sources] + [self.bc('%s/models/%s.cpp' % (V, m)) for m in h.models]
        return parts
    def link(self, h, parts):
        if not all(f.result() for _, f in parts): return None
        out = '%s/%s.all.bc' % (self.tmp, os.path.basename(h.file)); n = 1 + len(h.sources)
        base = '%s/%s.base.bc' % (self.tmp, os.path.basename(h.file))
        r = sh([LINK, '-o', base] + [p for p, _ in parts[:n]])
        if r.returncode: self.errors.append('link %s: %s' % (h.file, r.stderr.decode()[-800:])); return None
        if n < len(parts):
            # models override nothing: only symbols the code leaves undefined are taken
            r = sh([LINK, '--only-needed', '-o', out, base] + [p for p, _ in parts[n:]])
            if r.returncode: self.errors.append('link %s: %s' % (h.file, r.stderr.decode()[-800:])); return None
        else: shutil.move(base, out)
        return out
    def nativebuild(self, h):
        with self.lock:
            if not hasattr(h, 'nat'): h.nat = self.pool2.submit(self._native, h)
        return h.nat.result()
    def _native(self, h):
        d = tempfile.mkdtemp(dir=self.tmp); objs = []; jobs = []
        srcs = [h.file, V + '/native/vp_native.cpp'] + [REPO + '/src/' + s for s in h.sources]
        if 'log4cpp' in h.libs: srcs += [V + '/native/log_stub.cpp']
        for i, s in enumerate(srcs):
            o = '%s/%d.o' % (d, i); objs.append(o); jobs.append(self.pool3.submit(self.compile, s, o, NAT + h.flags))
        if not all(j.result() for j in jobs): return None
        libs = [l for l in h.libs if l.startswith('-')]
        exe = d + '/native'; r = sh([CXX, '-fsanitize=address', '-o', exe] + objs + ['-Wl,--gc-sections', '-llapack', '-lblas'] + libs + ['-lpthread'])
        if r.returncode: self.errors.append('native link: ' + r.stderr.decode()[-1500:]); return None
        return exe
    def nat(self, exe, args, timeout=60, twice=False):
        env = dict(os.environ, **({'VP_TWICE': '1'} if twice else {}), ASAN_OPTIONS='detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1000000:allocator_may_return_null=1:abort_on_error=0')
        return sh([exe] + args, timeout=timeout, env=env)
    def state(self, bcf):
        """variables of the code under test that outlive a call: then every case also runs twice in a row"""
        r = sh([V + '/build/utsym', bcf, '--state'], timeout=60); return r.stdout.decode(errors='replace').split()
    def case(self, h, bcf, n, o, twice=False):
        out = '%s/%s.%s%s.json' % (self.tmp, os.path.basename(h.file), n, '.twice' if twice else ''); t = float(o.get('time', '60')); a = int(o.get('assert_ms', '8000')); b = int(o.get('branch_ms', '2500'))
        if twice: t = min(t, 60)
        if self.tier == 'thorough': t = float(o.get('ttime', t * 6)); a *= 5; b *= 3
        cmd = [V + '/build/utsym', bcf, '--entry=vp_case_' + n, '--mode=' + o.get('mode', 'real'), '--out=' + out, '--time=%g' % t, '--branch-ms=%d' % b, '--assert-ms=%d' % a, '--seed=%d' % self.seed, '--max-paths=' + o.get('paths', '20000')] + (['--crosscheck'] if self.tier == 'thorough' else []) + (['--poly-limit=' + o['poly']] if 'poly' in o else []) + (['--max-instr=' + o['steps']] if 'steps' in o else []) + (['--twice'] if twice else [])
        r = sh(['bash', '-c', 'ulimit -v 12000000; exec "$@"', 'x'] + cmd, timeout=t + 90)
        try: d = json.load(open(out))
        except Exception: d = {'status': 'engine-failure', 'violations': [], 'incomplete': ['engine exit %s %s' % (r.returncode, r.stderr.decode(errors='replace')[-300:])]}
        d['case'] = n; d['harness'] = os.path.basename(h.file); d['twice'] = twice; return d
    def confirm(self, h, n, v, rep, twice=False):
        """replay a solver counterexample on the native build; returns text of the failure or None"""
        exe = self.nativebuild(h)
        if not exe: return None
        lab = v['label']
        def failed(r):
            t = r.stdout.decode(errors='replace') + r.stderr.decode(errors='replace')
            if 'AddressSanitizer' in t or r.returncode < 0: return 'crash: ' + ' '.join(re.findall(r'(?:ERROR: AddressSanitizer|SUMMARY).*', t)[:2] or ['signal %d' % -r.returncode])
            if 'had an illegal value' in t: return 'LAPACK called with illegal arguments:' + re.findall(r'On entry to.*', t)[0]
            if r.returncode == 124: return 'does not terminate in time'
            if r.returncode == 1 and 'FAILED' in t: return re.findall(r'FAILED .*', t)[0]
            return None
        lines = ['# property %s case %s label %s' % (self.prop, n, lab), '# solver counterexample: ' + v.get('info', '')[:300]] + ['%s %s' % kv for kv in v['inputs'].items()]
        open(rep, 'w').write('\n'.join(lines) + '\n')
        arg = [] if lab in ('undefined-behaviour', 'termination') or lab.startswith('decomposition') else [lab] # labels of library models do not exist natively
        r = self.nat(exe, [n, rep] + arg, timeout=20 if lab == 'termination' else 60, twice=twice); f = failed(r)
        if f: 
            ins = re.findall(r'^INPUT (\S+ \S+)', r.stdout.decode(errors='replace'), re.M)
            if ins and '(after perturbation)' in r.stdout.decode(errors='replace'): open(rep, 'w').write('\n'.join(lines[:2] + ins) + '\n')
            open(rep, 'a').write('# native replay: %s\n' % f); return f
        if lab == 'termination': return None
        r = self.nat(exe, [n, '--random', '3000', str(self.seed)] + (arg or ['']) + ['1e-4'], timeout=90, twice=twice); f = failed(r)
        if f:
            ins = re.findall(r'^INPUT (\S+ \S+)', r.stdout.decode(errors='replace'), re.M)
            open(rep, 'w').write('\n'.join(lines[:2] + ['# the solver model rounds badly to doubles; nearby input confirming its verdict:'] + ins + ['# native replay: ' + f]) + '\n'); return f
        return None
    def main(self):
        self.pool2 = ThreadPoolExecutor(4); self.pool3 = ThreadPoolExecutor(8); known = []
        try: known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k.get('property') == self.prop]
        except Exception: pass
        parts = [(h, self.build(h)) for h in self.hs]; eng = engine()
        if not eng: print('engine build failed'); return self.finish([], [], [], 'engine build failed')
        todo = []; results = []; viol = []; knownhit = []; unrep = []
        for h, p in parts:
            b = self.link(h, p); st = self.state(b) if b else []
            if st: self.stateful += st
            for n in h.order:
                o = h.cases[n]
                if self.only and n != self.only: continue
                if o.get('tier') == 'thorough' and self.tier != 'thorough' and not self.only: continue
                if b: todo.append((h, b, n, o, False)); todo += [(h, b, n, o, True)] if st and o.get('twice') != 'no' else []
                else: results.append({'case': n, 'harness': os.path.basename(h.file), 'status': 'not-built', 'violations': [], 'incomplete': ['does not build']})
        todo.sort(key=lambda x: (x[4], -float(x[3].get('time', 60))))
        pool = ThreadPoolExecutor(8); fs = [(h, n, pool.submit(self.case, h, b, n, o, tw)) for h, b, n, o, tw in todo]
        repd = V + '/evidence/replay'; os.makedirs(repd, exist_ok=True)
        jobs = []
        for h, n, f in fs:
            d = f.result(); d['h'] = h; results.append(d); seen = {}
            for v in d.get('violations', []): seen.setdefault(v['label'], []).append(v)
            for lab, vs in seen.items(): jobs.append((h, n, lab, vs, d))
        def conf(j):
            h, n, lab, vs, d = j
            for i, v in enumerate(vs):
                rep = '%s/%s_%s_%s_%d.txt' % (repd, self.prop, n + ('_twice' if d['twice'] else ''), re.sub(r'\W+', '_', lab)[:40], i); f = self.confirm(h, n, v, rep, d['twice'])
                if f: return (rep, f, v)
                if os.path.exists(rep): os.unlink(rep)
            return None
        for j, r in zip(jobs, ThreadPoolExecutor(8).map(conf, jobs)):
            h, n, lab, vs, d = j
            if r is None: unrep.append('%s/%s: solver counterexample not reproduced natively: %s' % (n, lab, json.dumps(vs[0])[:400])); continue
            k = [x for x in known if x.get('case') == n and x.get('label') == lab]
            (knownhit if k else viol).append((n, lab, r[0], r[1], k[0] if k else None))
        # undecided cases (the solver gave no verdict or no model): search for a model of the negated assertions on the native build itself
        allc = os.environ.get('VP_SEARCHALL'); und = [d for d in results if 'h' in d and (allc or d.get('inconclusive') or d.get('incomplete') or d.get('status') != 'complete') and d['case'] not in {v[0] for v in viol} | {k[0] for k in knownhit}]
        def search(d):
            h, n = d['h'], d['case']; o = h.cases[n]
            if o.get('search') == 'no' or o.get('mode') == 'ieee': return None
            exe = self.nativebuild(h)
            if not exe: return None
            r = self.nat(exe, [n, '--search', allc or o.get('search', '10000'), str(self.seed), o.get('stol', '1e-3')], timeout=60 if not allc else 600, twice=d['twice'])
            t = r.stdout.decode(errors='replace'); m = re.search(r'^FAILED ([^:]*): (.*)', t, re.M)
            if allc:
                for x in re.findall(r'^SEARCH-HITS .*', t, re.M): print('  %s: %s' % (n, x))
            if r.returncode != 1 or not m: return None
            lab = m.group(1); rep = '%s/%s_%s_%s_search.txt' % (repd, self.prop, n, re.sub(r'\W+', '_', lab)[:40])
            open(rep, 'w').write('\n'.join(['# property %s case %s label %s' % (self.prop, n, lab), '# the solver left this case undecided; model of the negated assertion found by search:'] + re.findall(r'^INPUT (\S+ \S+)', t, re.M) + ['# native replay: FAILED %s: %s' % m.groups()]) + '\n')
            return (n, lab, rep, 'FAILED %s: %s' % m.groups())
        for r in ThreadPoolExecutor(8).map(search, und):
            if r is None: continue
            k = [x for x in known if x.get('case') == r[0] and x.get('label') == r[1]]; (knownhit if k else viol).append(r + (k[0] if k else None,))
        # witness replay: the solver's reachability model of each case is run through the native build
        self.traces = 0; self.tracebad = []; self.rnd = 0
        if self.tier == 'thorough' or os.environ.get('VP_VALIDATE'):
            def val(d):
                exe = self.nativebuild(d['h'])
                if not exe: return
                wf = '%s/%s.wit' % (self.tmp, d['case']); open(wf, 'w').write('\n'.join('%s %s' % kv for kv in d.get('witness', {}).items()) + '\n')
                bad = {v['label'] for v in d['violations']}
                r = self.nat(exe, [d['case'], wf]); r2 = self.nat(exe, [d['case'], '--random', '200', str(self.seed)])
                t = r2.stdout.decode(errors='replace'); m = re.search(r'executed=(\d+)', t); self.traces += 1 if r.returncode == 0 else 0; self.rnd += int(m.group(1)) if m else 0
                for x in (r, r2):
                    if x.returncode and not bad: self.tracebad.append('%s: %s' % (d['case'], (x.stdout.decode(errors='replace') + x.stderr.decode(errors='replace'))[:500]))
            list(ThreadPoolExecutor(6).map(val, [d for d in results if 'h' in d and 'labels' in d and not d['twice']]))
        return self.finish(results, viol, knownhit, None, unrep)
    def finish(self, results, viol, knownhit, err, unrep=()):
        S = lambda k: sum(d.get(k, 0) for d in results)
        obl = S('asserts'); unk = S('asserts_unknown'); fn = sorted({f for d in results for f in d.get('functions', [])})
        vac = [d['case'] for d in results if 'labels' in d and not d.get('reached', {}).get('(end)') and not d.get('violations')]
        inc = {d['case']: d['incomplete'][:5] for d in results if d.get('incomplete')}
        cov = {'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': getattr(self, 'traces', 0), 'random_native_runs': getattr(self, 'rnd', 0), 'native_disagreements': getattr(self, 'tracebad', []),
            'obligations': obl, 'discharged': obl - unk - sum(len(d.get('violations', [])) for d in results), 'discharged_by_term_normalisation': S('asserts_normal_form'), 'solver_assert_queries': S('asserts_solver'), 'solver_branch_queries': S('branch_queries'), 'branch_queries_unanswered': S('branch_unknown'), 'undecided_assertions': unk,
            'solver_s': round(S('solver_s'), 2), 'max_query_s': max([d.get('max_query_s', 0) for d in results] or [0]), 'crosschecked_with_cvc5': S('crosschecked'), 'crosscheck_agree': S('cross_agree'),
            'variables_outliving_a_call': sorted(set(self.stateful))[:20], 'functions_encoded': fn[:300], 'n_functions_encoded': len(fn), 'bounds': sorted({b for h in self.hs for b in h.bounds}), 'cases_complete': sum(1 for d in results if d.get('status') == 'complete'), 'cases': len(results),
            'samples': [{'case': d['case'] + (' (again)' if d.get('twice') else ''), 'status': d.get('status'), 'paths': d.get('paths'), 'asserts': d.get('asserts'), 'labels': d.get('labels'), 'wall_s': d.get('wall_s')} for d in results],
            'incomplete': inc, 'inconclusive': sum([d.get('inconclusive', [])[:5] for d in results], [])[:40], 'not_reproduced': list(unrep), 'cases_without_reachability_witness': vac, 'build_errors': self.errors[:6], 'error': err}
        ass = sorted({a for h in self.hs for a in h.assume} | {a for d in results for a in d.get('assumed', [])} | ({'no-op externals: ' + ', '.join(sorted({x for d in results for x in d.get('noop_externals', [])})[:20])} if any(d.get('noop_externals') for d in results) else set()))
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}, open('%s/evidence/%s.json' % (V, self.prop), 'w'), indent=1)
        for d in results:
            print('%-34s %-12s paths=%-5s asserts=%-5s nf=%-5s unk=%-3s viol=%-2s %6.1fs%s' % (d['case'] + (' (again)' if d.get('twice') else ''), d.get('status'), d.get('paths'), d.get('asserts'), d.get('asserts_normal_form'), d.get('asserts_unknown'), len(d.get('violations', [])), d.get('wall_s') or 0, '' if d['case'] not in vac else ' (no witness)'))
            for x in d.get('incomplete', [])[:3]: print('    incomplete: ' + x[:300])
            for x in d.get('inconclusive', [])[:3]: print('    inconclusive: ' + x[:300])
        for e in self.errors[:4]: print('error: ' + e[:1500])
        for x in unrep: print('not reproduced: ' + x[:500])
        for x in getattr(self, 'tracebad', []): print('native disagreement: ' + x)
        for n, lab, rep, f, k in knownhit: print('KNOWN-FINDING: property=%s %s/%s %s' % (self.prop, n, lab, k.get('what', '')))
        for n, lab, rep, f, k in viol: print('  %s/%s: %s' % (n, lab, f)); print('VIOLATION property=%s replay=%s' % (self.prop, rep))
        if err: print('error: ' + err)
        if '--keep' not in sys.argv: shutil.rmtree(self.tmp, ignore_errors=True)
        else: print(self.tmp)
        return 1 if viol else 0
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick') or 'quick'
    only = next((sys.argv[i + 1] for i, x in enumerate(sys.argv) if x == '--case'), None)
    if only and only in a: a.remove(only); tier = a[1] if len(a) > 1 else 'quick'
    rc = Run(a[0], tier, only).main(); sys.stdout.flush(); os._exit(rc)
