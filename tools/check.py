#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]

Builds /repo's current tree, runs harness/<property>.cpp sharded over the cores, merges the results, writes
evidence/<property>.json, and prints KNOWN-FINDING / VIOLATION lines."""
import json, os, subprocess, sys, time, re, tempfile, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import build

def header_opts(pid):
    """// MC: key=value ... lines at the top of a harness"""
    o = {}
    with open(os.path.join(V, 'harness', pid + '.cpp')) as f:
        for line in f:
            if line.startswith('// MC:'):
                for kv in line[6:].split():
                    k, _, v = kv.partition('=')
                    o[k] = v
            elif not line.startswith('//'):
                break
    return o

def known(pid):
    k = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                k[m.group(2)] = m.group(3)
    return k

def manifest_level(pid):
    with open(os.path.join(V, 'MANIFEST.json')) as f:
        for c in json.load(f)['checks']:
            if c['property'] == pid:
                return c['level']
    return 'model_checking'

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4000',
           TSAN_OPTIONS='exitcode=98:halt_on_error=1:report_signal_unsafe=0', LC_ALL='C')

class Shard:
    def __init__(self, exe, work, i, n, tier, extra=()):
        self.i, self.n = i, n
        self.out = os.path.join(work, 'out.%d.json' % i)
        self.sh = os.path.join(work, 'shared.%d' % i)
        self.err = open(os.path.join(work, 'err.%d' % i), 'wb')
        cmd = [exe, '--shard', str(i), str(n), '--out', self.out, '--shared', self.sh] + list(extra)
        if tier == 'thorough':
            cmd.append('--thorough')
        sd = os.path.join(work, 'dir.%d' % i)
        os.makedirs(sd, exist_ok=True)
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=self.err, cwd=sd,
                                  env=dict(ENV, TMPDIR=sd, MC_REPO=build.REPO, MC_VERIF=V))
    def current(self):
        try:
            b = open(self.sh, 'rb').read()
            return int.from_bytes(b[:8], 'little'), b[8:].split(b'\0')[0].decode('latin1')
        except OSError:
            return -1, ''
    def errtext(self):
        self.err.flush()
        try:
            b = open(self.err.name, 'rb').read()
        except OSError:
            return ''
        t = b.decode('latin1')
        m = re.search(r'==\d+==ERROR: (AddressSanitizer|ThreadSanitizer).*', t, re.S) or re.search(r'WARNING: ThreadSanitizer.*', t, re.S)
        t = m.group(0) if m else t[-1500:]
        return t[:2500]

def run_one(exe, work, tier, index, seconds):
    d = os.path.join(work, 'solo%d' % index)
    os.makedirs(d, exist_ok=True)
    s = Shard(exe, d, 0, 1, tier, ['--only', str(index), '--case-seconds', str(seconds)])
    try:
        rc = s.p.wait(timeout=seconds * 3 + 120)
    except subprocess.TimeoutExpired:
        s.p.kill(); s.p.wait(); rc = 97
    res = json.load(open(s.out)) if os.path.exists(s.out) else None
    return rc, res, s

def describe_rc(rc):
    if rc == 97: return 'did not terminate'
    if rc == 99: return 'memory error (AddressSanitizer)'
    if rc == 98: return 'data race (ThreadSanitizer)'
    if rc < 0: return 'killed by signal %d' % -rc
    return 'exit status %d' % rc

def main():
    pid = sys.argv[1]
    tier = 'quick'
    replay = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'): tier = a
        elif a == '--replay': replay = args.pop(0)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    opts = header_opts(pid)
    variant = opts.get('variant', 'asan')
    try:
        exe = build.harness(pid, variant, ['-O' + opts['o']] if 'o' in opts else [])
    except build.BuildError as e:
        print('build failed: %s' % e); sys.exit(2)
    tbuild = time.time() - t0
    work = tempfile.mkdtemp(prefix='mc.%s.' % pid, dir=os.path.join(V, 'build'))
    try:
        sys.exit(run(pid, tier, replay, exe, work, opts, t0, tbuild, seed))
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(pid, tier, replay, exe, work, opts, t0, tbuild, seed):
    if replay:
        r = json.load(open(replay))
        rc, res, s = run_one(exe, work, r.get('tier', tier), r['case'], 120)
        print('case %d: %s' % (r['case'], r.get('desc')))
        print('exit: %s' % ('normal' if rc == 0 else describe_rc(rc)))
        if res:
            for f in res['fails']:
                print('FAIL key=%s: %s' % (f['key'], f['msg']))
        if rc != 0:
            print(s.errtext())
        return 1 if rc != 0 or (res and res['fails']) else 0
    n = int(opts.get('shards', '8'))
    limit = float(opts.get('limit', '780' if tier == 'quick' else '14000'))
    shards = [Shard(exe, work, i, n, tier) for i in range(n)]
    fails, results, undecided = [], [], []
    for s in shards:
        left = max(1.0, limit - (time.time() - t0))
        try:
            rc = s.p.wait(timeout=left)
        except subprocess.TimeoutExpired:
            s.p.kill(); s.p.wait(); rc = None
        if rc == 0 and os.path.exists(s.out):
            results.append(json.load(open(s.out)))
            continue
        idx, desc = s.current()
        # replay the case alone, with a longer limit, before reporting it
        rc2, res2, s2 = run_one(exe, work, tier, idx, 120 if rc in (97, None) else 60)
        if rc2 == 0 and res2 is not None and not res2['fails']:
            if rc in (97, None):
                undecided.append((s.i, idx, desc))
                continue
            # only fails in sequence: report what the shard saw
            fails.append({'index': idx, 'key': 'crash', 'desc': desc, 'msg': describe_rc(rc) + '\n' + s.errtext()})
        elif res2 is not None and rc2 == 0:
            fails += res2['fails']
        else:
            i2, d2 = s2.current()
            fails.append({'index': idx, 'key': ('hang' if rc2 == 97 else 'crash') + ':' + re.sub(r'[^A-Za-z0-9_().,=-]+', '_', d2 or desc)[:150],
                          'desc': d2 or desc, 'msg': describe_rc(rc2) + '\n' + s2.errtext()})
    kn = known(pid)
    seen_known, viol = {}, []
    for r in results:
        for f in r['fails']:
            fails.append(f)
    for f in fails:
        if f['key'] in kn:
            seen_known.setdefault(f['key'], f)
        else:
            viol.append(f)
    # evidence
    def tot(k): return sum(r[k] for r in results)
    st = set()
    for r in results: st.update(r['states'])
    nst = len(st) if all(r['nstates'] == len(r['states']) for r in results) else sum(r['nstates'] for r in results)
    outc = set()
    for r in results: outc.update(r['outcomes'])
    samples = []
    for r in results: samples += r['samples'][:2]
    counters = {}
    for r in results:
        for k, v in r['counters'].items(): counters[k] = counters.get(k, 0) + v
    if not samples: samples = [f['desc'] for f in fails[:3]] or ['(no case completed)']
    level = manifest_level(pid)
    cov = {'states': nst, 'transitions': tot('transitions'), 'traces_validated_against_impl': tot('traces'),
           'samples': samples[:10], 'distinct_outcomes': len(outc), 'oracle_checks': tot('checks'),
           'exhaustive': not viol and not undecided, 'counters': counters,
           'explanation': opts.get('about', '').replace('_', ' ')}
    if level == 'exploration' or level == 'fault_enumeration':
        cov['evaluations'] = tot('cases')
        cov['distinct_nontrivial'] = tot('distinct')
        cov['rule'] = 'cases are enumerated from the finite alphabets stated in DESIGN.md; a case counts as distinct by its written-out description'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ['bounds and alphabets as stated for %s in DESIGN.md' % pid],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1); f.write('\n')
    for k, f in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[k], k))
    print('%s %s: cases=%d states=%d transitions=%d checks=%d outcomes=%d build=%.1fs total=%.1fs' %
          (pid, tier, tot('cases'), nst, cov['transitions'], cov['oracle_checks'], len(outc), tbuild, time.time() - t0))
    rc = 0
    if viol:
        rd = os.path.join(V, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
        seenk = set()
        viol.sort(key=lambda f: f['index'])
        k = 0
        for f in viol:
            if f['key'] in seenk: continue
            seenk.add(f['key'])
            path = os.path.join(rd, '%s.%d.json' % (pid, k)); k += 1
            json.dump({'property': pid, 'tier': tier, 'case': f['index'], 'key': f['key'], 'desc': f['desc'], 'msg': f['msg'],
                       'run': 'python3 tools/check.py %s %s --replay %s' % (pid, tier, path)}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  case %d key=%s\n  %s\n  %s' % (f['index'], f['key'], f['desc'][:700], f['msg'][:1200]))
            if k >= int(os.environ.get('MC_MAXREPORT', '12')): break
        rc = 1
    elif undecided:
        for i, idx, d in undecided:
            print('undecided: shard %d exceeded its time near case %d: %s' % (i, idx, d))
        rc = 2
    return rc

if __name__ == '__main__':
    main()
