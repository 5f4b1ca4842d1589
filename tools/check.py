#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree.  See DESIGN.md.

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken."""
import glob, threading, json, os, re, subprocess, sys, time, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BSYM_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
os.environ['PATH'] = '/usr/bin:/bin:' + os.environ.get('PATH', '')
import checks as CFG

SRC = REPO + '/boofcpp/src/boofcv'
JNI = REPO + '/boofcpp-jni/src/main/cpp'
JH = '/usr/lib/jvm/java-17-openjdk-amd64/include'
INC = ['-I' + V + '/harness', '-I' + SRC, '-I' + REPO + '/boofcpp/src', '-I' + JNI, '-I' + JH, '-I' + JH + '/linux']
CLANG = ['clang++', '-std=gnu++11', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
         '-fno-threadsafe-statics', '-gline-tables-only', '-w', '-emit-llvm', '-c'] + INC
PASSES = 'function(sroa<modify-cfg>,early-cse,simplifycfg,instsimplify,mergereturn)'
tier = os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1') or 1)

def sh(cmd, timeout=600, env=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', '', (e.stderr or b'').decode('utf8', 'replace')

def ensure_engine():
    exe = V + '/build/bsym'
    rc, o, e = sh(['make', '-s', '-C', V + '/engine'], 900)
    if rc != 0 or not os.path.exists(exe):
        print('engine build failed\n' + e[-3000:]); sys.exit(2)
    return exe

class Lib:
    """the repository's own translation units, compiled from the current tree"""
    def __init__(self, work, pool): self.work, self.pool, self.f = work, pool, {}
    def srcs(self, jni): return sorted(glob.glob(SRC + '/*.cpp')) + (sorted(glob.glob(JNI + '/*.cpp')) if jni else [])
    def one(self, src, kind):
        o = os.path.join(self.work, 'lib_' + os.path.basename(src) + '.' + kind)
        inc = INC + ['-I' + os.path.dirname(src)]
        cmd = CLANG + inc + [src, '-o', o] if kind == 'bc' else ['g++', '-std=gnu++11', '-w', '-c'] + NFL[kind] + inc + [src, '-o', o]
        rc, so, e = sh(cmd)
        return o, (e if rc else None)
    def get(self, kind, jni):
        with self.lock:
            for s in self.srcs(jni):
                if (s, kind) not in self.f: self.f[(s, kind)] = self.pool.submit(self.one, s, kind)
        r = [self.f[(s, kind)].result() for s in self.srcs(jni)]
        return [o for o, e in r], next((e for o, e in r if e), None)
    lock = threading.Lock()
NFL = {'O1': ['-O1'], 'O3': ['-O3'], 'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']}
UBF = ['-fsanitize=float-cast-overflow', '-fno-sanitize-recover=float-cast-overflow']

class Unit:
    def __init__(self, prop, u, work):
        self.prop, self.u, self.work = prop, u, work
        self.src = os.path.join(V, 'harness', u['file'])
        self.name = u.get('name') or os.path.splitext(u['file'])[0]
        self.defs = ['-D' + d for d in u.get('defs', [])] + (['-DTHOROUGH'] if tier == 'thorough' else [])
        self.defs += ['-D' + d for d in u.get('defs_' + tier, [])]
        self.native = {}
    def compile_ir(self):
        bc = os.path.join(self.work, self.name + '.bc'); ln = os.path.join(self.work, self.name + '.l.bc'); opt = os.path.join(self.work, self.name + '.o.bc')
        rc, o, e = sh(CLANG + self.defs + [self.src, '-o', bc])
        if rc != 0: return e
        objs, e = self.lib.get('bc', self.u.get('jni'))
        if e: return e
        rc, o, e = sh(['llvm-link', bc] + objs + ['-o', ln])
        if rc != 0: return e
        rc, o, e = sh(['opt', '-passes=' + PASSES, ln, '-o', opt])
        if rc != 0: return e
        self.bc = opt
        return None
    def compile_native(self, kind):
        if kind in self.native: return self.native[kind]
        exe = os.path.join(self.work, self.name + '.' + kind)
        objs, e = self.lib.get(kind, self.u.get('jni'))
        rc, o, e = sh(['g++', '-std=gnu++11', '-w'] + NFL[kind] + (UBF if kind == 'asan' and self.u.get('ubfloat') else []) + INC + self.defs + [self.src, os.path.join(V, 'harness', 'rt.cpp')] + objs + ['-o', exe])
        if rc != 0:
            sys.stderr.write('native build failed: ' + e[-2000:] + '\n'); exe = None
        self.native[kind] = exe
        return exe
    def run_native(self, kind, replay, extra=None, timeout=25):
        exe = self.compile_native(kind)
        if not exe: return None, ''
        env = dict(os.environ); env['VERIF_TIER'] = tier
        env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:max_malloc_fill_size=1048576:malloc_fill_byte=171:allocator_may_return_null=0:max_allocation_size_mb=4096'
        if self.u.get('real'): env['SYM_REAL'] = '1'
        env.update(extra or {})
        rc, o, e = sh([exe, replay], timeout, env)
        return rc, e

def write_replay(path, prop, unit, v):
    with open(path, 'w') as f:
        f.write('# property %s unit %s tier %s\n# %s: %s\n# at %s\n# tag %s\n' % (prop, unit, tier, v.get('kind'), v.get('msg'), v.get('where'), v.get('tag')))
        for n, i, t, x in v['model']: f.write('var %s %d %s %s\n' % (n, i, t, x))

def reproduce(unit, rp, v):
    """replay a counterexample against the natively compiled real code"""
    tries = [('asan', {}), ('O3', {'SYM_FILL': '171'}), ('O3', {'SYM_FILL': '0'})]
    if v['kind'] == 'check': tries = [tries[1], tries[0], tries[2]]
    for kind, env in tries:
        rc, err = unit.run_native(kind, rp, env)
        if rc in (None, 0, 78): continue
        m = re.search(r'(CHECK-FAIL [^\n]*|ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*)', err)
        return True, '%s build: %s' % (kind, 'does not terminate' if rc == 'timeout' else (m.group(1) if m else 'exit status %s' % rc))
    return False, ''

def known_match(known, prop, unit, v):
    for k in known:
        if k.get('fixed'): continue
        if k['property'] == prop and k.get('unit') == unit and k.get('kind') == v['kind'] and k.get('msg') == v['msg'] and k.get('tag', '') == v.get('tag', ''):
            if k.get('where') and not re.search(k['where'], v.get('where', '')): continue
            return k
    return None

def run_unit(unit, exe, budget, jobs, grace=None):
    out = os.path.join(unit.work, unit.name + '.res')
    cmd = [exe, unit.bc, '--out', out, '--jobs', str(jobs), '--budget', str(budget), '--timeout', str(unit.u.get('timeout', 20000 if tier == 'quick' else 60000))]
    if grace: cmd += ['--grace', str(grace)]
    if unit.u.get('real'): cmd.append('--real')
    if unit.u.get('ubfloat'): cmd.append('--ubfloat')
    if unit.u.get('nomerge'): cmd.append('--nomerge')
    if unit.u.get('forkround'): cmd += ['--forkround', str(unit.u['forkround'])]
    if unit.u.get('maxsteps'): cmd += ['--maxsteps', str(unit.u['maxsteps'])]
    if os.environ.get('BSYM_V'): cmd.append('-v')
    env = dict(os.environ); env['VERIF_TIER'] = tier
    t0 = time.time()
    rc, o, e = sh(cmd, budget + 120, env)
    if os.environ.get('BSYM_V'): sys.stderr.write(e[-6000:])
    agg = {'covers': {}, 'inconclusive': {}, 'checkMsgs': {}, 'functions': set(), 'violations': [], 'coverModels': {}}
    got = 0
    for c in range(jobs):
        f = out + '.' + str(c)
        if not os.path.exists(f): continue
        try: r = json.load(open(f))
        except Exception: continue
        got += 1
        for k, x in r.items():
            if k in ('covers', 'inconclusive', 'checkMsgs'):
                for a, b in x.items(): agg[k][a] = agg[k].get(a, 0) + b
            elif k == 'functions': agg[k] |= set(x)
            elif k == 'violations':
                for v in x:
                    if not any(w['kind'] == v['kind'] and w['msg'] == v['msg'] and w['tag'] == v['tag'] and w['where'] == v['where'] for w in agg[k]): agg[k].append(v)
            elif k == 'coverModels':
                for a, b in x.items(): agg[k].setdefault(a, b)
            elif k in ('shards', 'solverMax', 'wall'): agg[k] = max(agg.get(k, 0), x)
            else: agg[k] = agg.get(k, 0) + x
    if rc == 'timeout' or got < jobs: agg['inconclusive']['engine workers lost: %d of %d (%s) %s' % (jobs - got, jobs, rc, e[-300:])] = 1
    agg['engine_wall'] = time.time() - t0
    return agg

def main():
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    cfg = CFG.CHECKS[prop]
    t0 = time.time()
    exe = ensure_engine()
    os.makedirs(V + '/evidence', exist_ok=True)
    rdir = V + '/evidence/replay'; os.makedirs(rdir, exist_ok=True)
    try: known = json.load(open(V + '/known_findings.json'))
    except Exception: known = []
    work = tempfile.mkdtemp(prefix='bsym_' + prop + '_')
    try: return body(prop, only, cfg, t0, exe, rdir, known, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def body(prop, only, cfg, t0, exe, rdir, known, work):
    units = [Unit(prop, u, work) for u in cfg['units'] if (not only or (u.get('name') or u['file']).startswith(only)) and not (u.get('thorough_only') and tier == 'quick')]
    total = CFG.BUDGET[tier]
    pool = cf.ThreadPoolExecutor(8); lib = Lib(work, cf.ThreadPoolExecutor(8))
    for u in units: u.lib = lib
    irs = {u.name: pool.submit(u.compile_ir) for u in units}
    nat = {u.name: pool.submit(u.compile_native, 'O1') for u in units}
    res, viol, knownhit, unrepro, valid, mism = {}, [], [], [], 0, []
    samples = []
    jobs = 8
    rc_all = 0
    for k, u in enumerate(units):
        err = irs[u.name].result()
        if err is not None:
            print('harness %s does not compile against %s:\n%s' % (u.name, REPO, err[-3000:])); return 2
    for k, u in enumerate(units):
        left = total - (time.time() - t0)
        b = max(20, min(u.u.get('budget_' + tier, left), left - 15 * (len(units) - k - 1)))
        hasknown = any(x['property'] == prop and x.get('unit') == u.name and not x.get('fixed') for x in known)
        r = run_unit(u, exe, b, jobs, None if hasknown else 45 if tier == 'quick' else 300); res[u.name] = r
        want = set(re.findall(r'sym_cover\("([^"]+)"\)', open(u.src).read())) - set(u.u.get('nocover', [])) | set(u.u.get('covers', []))
        r['missing_covers'] = sorted(c for c in want if c not in r['covers'])
        for v in sorted(r['violations'], key=lambda v: (v['kind'], v['msg'], v['tag'])):
            kf = known_match(known, prop, u.name, v)
            if kf and any(x is kf for x in knownhit): continue
            if viol and len(viol) >= 3 and not kf: continue
            rp = os.path.join(rdir, '%s_%s_%d.txt' % (prop, u.name, len(viol) + len(knownhit) + len(unrepro)))
            write_replay(rp, prop, u.name, v)
            ok, how = reproduce(u, rp, v)
            if not ok: unrepro.append({'unit': u.name, 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'tag': v['tag'], 'replay': rp}); continue
            if kf: knownhit.append(kf); continue
            viol.append({'unit': u.name, 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'tag': v['tag'], 'replay': rp, 'native': how})
        # translator validation: solver models that reach the witnesses are executed natively
        nat[u.name].result()
        for c, m in sorted(r['coverModels'].items())[:4]:
            if os.environ.get("BSYM_V"): print("cover", c, m)
            rp = os.path.join(work, 'cover.txt'); write_replay(rp, prop, u.name, {'model': m})
            rc, err = u.run_native('O1', rp, {'SYM_COVER': c})
            if len(samples) < 6: samples.append({'unit': u.name, 'witness': c, 'values': ['%s[%d]=%s' % (n, i, x) for n, i, t, x in m][:40]})
            if rc == 0 and 'COVER-REACHED' in err: valid += 1
            elif not r['violations']: mism.append('%s: witness "%s" natively: rc=%s %s' % (u.name, c, rc, err[-150:]))
        if viol and time.time() - t0 > 60: break
    wall = time.time() - t0
    def S(k): return sum(r.get(k, 0) for r in res.values())
    inc = {}
    for n, r in res.items():
        for a, b in r['inconclusive'].items(): inc[n + ': ' + a] = b
    missing = {n: r['missing_covers'] for n, r in res.items() if r['missing_covers']}
    fns = sorted(set().union(*[r['functions'] for r in res.values()])) if res else []
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(viol),
      'assumptions': cfg.get('assumptions', []) + CFG.COMMON_ASSUMPTIONS,
      'coverage': {
        'states': S('forks') + S('shardsDone') + len(res), 'transitions': S('steps'), 'traces_validated_against_impl': valid, 'samples': samples or [{'note': 'no witness reached'}],
        'bounds': cfg['bounds'][tier] if isinstance(cfg['bounds'], dict) else cfg['bounds'],
        'assertions_evaluated': S('checks'), 'assertions_discharged_by_normal_form': S('checkSimpl'), 'assertions_discharged_by_solver': S('checkSolver'), 'assertions_undecided': S('checkUnknown'),
        'memory_obligations': S('memObl'), 'memory_obligations_discharged_by_normal_form_or_range': S('memSimpl'), 'memory_obligations_discharged_by_solver': S('memSolver'),
        'symbolic_branches': S('branches'), 'merges': S('merges'), 'paths_completed': S('paths'), 'shards_total': {n: r.get('shards', 0) for n, r in res.items()}, 'shards_explored': {n: r.get('shardsDone', 0) for n, r in res.items()},
        'solver_queries': S('queries'), 'smt_calls': S('z3calls'), 'unsat': S('unsat'), 'sat': S('sat'), 'unknown': S('unknown'), 'solver_time_s': round(S('solverTime'), 2), 'longest_query_s': round(max([r.get('solverMax', 0) for r in res.values()] or [0]), 2),
        'functions_encoded': fns, 'assertion_messages': sorted(set().union(*[set(r['checkMsgs']) for r in res.values()])) if res else [],
        'inconclusive': inc, 'unreached_witnesses': missing, 'counterexamples_not_reproduced': unrepro, 'engine_native_mismatch': mism,
        'known_findings_seen': [k['what'] for k in knownhit], 'units': {n: {'wall_s': round(r['engine_wall'], 2), 'solver_s': round(r.get('solverTime', 0), 2), 'witnesses': r['covers']} for n, r in res.items()},
        'violation_details': viol}}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d assertions, %d memory obligations, %d queries (%.1fs solver), %d functions, %.1fs' % (prop, tier, S('checks'), S('memObl'), S('queries'), S('solverTime'), len(fns), wall))
    for a, b in list(inc.items())[:12]: print('  inconclusive: %s (%d)' % (a[:300], b))
    for n, m in missing.items(): print('  witness not reached in %s: %s' % (n, m))
    for m in mism[:5]: print('  engine/native mismatch: ' + m)
    for x in unrepro[:6]: print('  not reproduced natively: %s %s: %s at %s [%s]' % (x['unit'], x['kind'], x['msg'], x['where'], x['tag']))
    for k in knownhit: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for x in viol: print('VIOLATION property=%s replay=%s\n   %s: %s at %s tag=%s\n   natively: %s' % (prop, x['replay'], x['kind'], x['msg'], x['where'], x['tag'], x['native']))
    return 1 if viol else 0

if __name__ == '__main__':
    sys.exit(main())
