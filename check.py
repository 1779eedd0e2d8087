#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--keep]   decide one property
   check.py --replay FILE                          run a recorded counterexample natively"""
import sys, os, json, time, subprocess, random, re, resource, threading
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
TARGET = os.environ.get('WZV_TARGET', os.path.join(ROOT, 'target'))
NATIVE = os.path.join(TARGET, 'native', 'debug', 'wznative')
ENVB = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
ENVB.pop('RUSTFLAGS', None)
ENVB['PATH'] = '/root/.cargo/bin:' + ENVB.get('PATH', '')


def log(*a):
    print(*a)
    sys.stdout.flush()


def build_native():
    return subprocess.Popen(['cargo', 'build', '--target-dir', os.path.join(TARGET, 'native')], cwd=os.path.join(ROOT, 'native'),
                            env=ENVB, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_ir():
    return subprocess.Popen([os.path.join(ROOT, 'build_ir.sh'), os.path.join(TARGET, 'sym')], env=ENVB, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def native_run(jobs, per_job=30):
    """jobs: [(harness, params, hex)] -> result strings, tolerant of crashes and hangs"""
    out = []
    i = 0

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    while i < len(jobs):
        p = subprocess.Popen([NATIVE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=lim,
                             cwd='/tmp', env=dict(os.environ, RUST_BACKTRACE='0'))
        txt = ''.join('%s %s %s\n' % (h, ','.join(map(str, pr)), hx) for h, pr, hx in jobs[i:])

        def feed(p=p, txt=txt):
            try:
                p.stdin.write(txt)
                p.stdin.close()
            except (BrokenPipeError, ValueError, OSError):
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        hang = [False]
        while i < len(jobs):
            def kill(p=p):
                hang[0] = True
                p.kill()
            t = threading.Timer(per_job, kill)
            t.start()
            line = p.stdout.readline()
            while line and not line.startswith('@@ '):      # output of the code under test
                line = p.stdout.readline()
            t.cancel()
            if not line:
                p.wait()
                out.append('fail did not return within %d s' % per_job if hang[0] else 'fail process died with status %s' % p.returncode)
                i += 1
                break
            out.append(line[3:].rstrip('\n'))
            i += 1
        else:
            p.wait()
            break
    return out


def replay(path):
    d = json.load(open(path))
    p = build_native()
    o, _ = p.communicate()
    if p.returncode:
        log(o)
        return 2
    r = native_run([(d['harness'], d['params'], d['input'])])[0]
    log('harness %s params %s input %s' % (d['harness'], d['params'], d['input']))
    log('native result: ' + r[:2000])
    return 1 if r.startswith('fail') else 0


def main():
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    import specs
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = specs.PROPS[pid]
    t0 = time.time()
    budget = float(os.environ.get('WZV_BUDGET', 560 if tier == 'quick' else 6 * 3600))
    work = os.path.join(ROOT, 'work', pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    evfile = os.path.join(ROOT, 'evidence', pid + '.json')
    if os.path.exists(evfile):
        os.unlink(evfile)
    bn = build_native()
    bi = build_ir()
    o, _ = bi.communicate()
    if bi.returncode:
        log(o)
        log('ERROR: symbolic build failed')
        bn.kill()
        sys.exit(2)
    t_build = time.time() - t0
    import ll, par
    mod = ll.Module(os.path.join(TARGET, 'sym', 'wzh.ll'))
    known = [k for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings'] if k['property'] == pid]
    cases = []
    for h in spec['harnesses']:
        cs = h.get('thorough') if tier == 'thorough' and h.get('thorough') is not None else h.get('cases')
        if cs is None:
            cs = [()]
        opts = dict(h.get('opts', {}))
        for c in cs:
            cases.append(par.Case(h['name'], c, opts))
    if os.environ.get('WZV_ONLY'):
        cases = [c for c in cases if c.h in os.environ['WZV_ONLY'].split(',')]
    o, _ = bn.communicate()
    if bn.returncode:
        log(o)
        log('ERROR: native build failed')
        sys.exit(2)
    res = par.run_cases(mod, cases, int(os.environ.get('WZV_JOBS', '8')), os.path.join(work, 'run'), t0 + budget, seed)
    t_sym = time.time() - t0 - t_build

    # ---- failures found by the solver: replay each against the real build
    violations = []
    errors = []
    jobs, meta = [], []
    seen = set()
    for r in res:
        for f in r['fails']:
            key = (r['case'].h, tuple(r['case'].p), f['site'])
            if key in seen:
                continue
            seen.add(key)
            jobs.append((r['case'].h, r['case'].p, f['input']))
            meta.append((r, f))
    for (r, f), j, out in zip(meta, jobs, native_run(jobs)):
        if out.startswith('fail'):
            violations.append(dict(harness=j[0], params=j[1], input=j[2], symbolic=f['info'], native=out))
        else:
            errors.append('counterexample of %s %s does not reproduce natively: %s input %s -> %s' % (j[0], j[1], f['info'], j[2], out[:200]))

    # ---- completed paths: the real build must observe what the engine computed
    rng = random.Random(seed)
    jobs, meta = [], []
    byh = {}
    for r in res:
        for s in r['samples']:
            byh.setdefault((r['case'].h, tuple(r['case'].p)), []).append((r, s))
    per = max(3, 1500 // max(1, len(byh)))
    for k, l in byh.items():
        rng.shuffle(l)
        for r, s in l[:per]:
            jobs.append((r['case'].h, r['case'].p, s['input']))
            meta.append((r, s))
    validated = 0
    for (r, s), j, out in zip(meta, jobs, native_run(jobs)):
        if out.startswith('fail'):
            violations.append(dict(harness=j[0], params=j[1], input=j[2], symbolic='path completes symbolically', native=out))
            continue
        f = out.split(' ')
        ok = f[0] == 'ok' and [int(x) for x in (f[3] if len(f) > 3 else '').split(',') if x] == s['obs'] \
            and [int(x) for x in f[2].split(',') if x] == s['covers']
        if ok:
            validated += 1
        else:
            errors.append('engine and native build disagree on %s %s input %s: engine covers %s obs %s, native %s' % (j[0], j[1], j[2], s['covers'], s['obs'][:40], out[:400]))

    # ---- vacuity
    complete = all(not r['limits'] and not r['left'] for r in res)
    cov = {}
    for r in res:
        cov.setdefault(r['case'].h, set()).update(r['covers'])
    for h in spec['harnesses']:
        if h['name'] not in cov:
            continue
        miss = set(h.get('covers', [1])) - cov[h['name']]
        if miss and complete and not violations:
            errors.append('vacuity: harness %s never reached cover %s' % (h['name'], sorted(miss)))
    limits = {}
    for r in res:
        for l in r['limits']:
            limits.setdefault(l, []).append('%s%s' % (r['case'].h, list(r['case'].p)))
    hard = {k: v for k, v in limits.items() if 'time limit' not in k and not k.startswith('solver:')}
    soft = {k: v for k, v in limits.items() if k not in hard}
    for l, hs in hard.items():
        errors.append('engine limit in %s: %s' % (', '.join(hs[:4]), l))

    # ---- known findings
    news = []
    for v in violations:
        k = match_known(known, v)
        if k:
            v['known'] = k['id']
        else:
            news.append(v)
    sol = {}
    for r in res:
        for k, n in r['solver'].items():
            sol[k] = max(sol.get(k, 0), n) if k == 'maxq' else sol.get(k, 0) + n
    hits = set()
    for r in res:
        hits |= r['hits']
    fns = sorted(set(demangle(hits)))
    mine = [f for f in fns if 'wz_reader' in f]
    paths = sum(sum(r['kinds'].values()) for r in res)
    samples = []
    for (r, s) in meta[:8]:
        samples.append(dict(harness=r['case'].h, params=r['case'].p, input=s['input'], observed=s['obs'][:16]))
    for v in violations[:4]:
        samples.append(v)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=paths + sum(r['forks'] for r in res), transitions=sum(r['segs'] for r in res),
                  traces_validated_against_impl=validated, samples=samples or ['no completed path'],
                  paths=paths, path_outcomes=merge([r['kinds'] for r in res]),
                  solver_queries=sol.get('queries', 0), solver_sat=sol.get('sat', 0), solver_unsat=sol.get('unsat', 0),
                  byte_table_verdicts=sol.get('table', 0), byte_table_crosschecked=sol.get('crosschecked', 0),
                  cached_verdicts=sol.get('cached', 0), solver_s=round(sol.get('time', 0), 2), solver_max_query_s=round(sol.get('maxq', 0), 2),
                  exploration_cpu_s=round(sum(r['cpu'] for r in res), 1),
                  functions_encoded=mine, functions_encoded_total=len(fns),
                  bounds=[dict(harness=h['name'], bound=h.get('bound', ''), cases=len([c for c in cases if c.h == h['name']]),
                               paths=sum(sum(r['kinds'].values()) for r in res if r['case'].h == h['name']),
                               covers=sorted(cov.get(h['name'], []))) for h in spec['harnesses']],
                  outside=spec.get('outside', ''), exhaustive=complete and not errors,
                  incomplete={k: len(v) for k, v in soft.items()}, notes=merge([r['notes'] for r in res])),
              assumptions=specs.COMMON + spec.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(news))
    with open(evfile, 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %d cases, %d paths %s, %d native traces agree, %d solver queries (%.1f s), build %.0f s, explore %.0f s' % (
        pid, tier, len(cases), paths, ev['coverage']['path_outcomes'], validated, sol.get('queries', 0), sol.get('time', 0), t_build, t_sym))
    if '-v' in sys.argv:
        for h in spec['harnesses']:
            rr = [r for r in res if r['case'].h == h['name']]
            log('   %-28s cases %3d paths %7d cpu %7.1f left %d covers %s rss %s' % (h['name'], len(rr), sum(sum(r['kinds'].values()) for r in rr), sum(r['cpu'] for r in rr),
                                                                 sum(r['left'] for r in rr), sorted(cov.get(h['name'], [])), max([r['rss'] for r in rr] or [0])))
    for l, hs in soft.items():
        log('INCOMPLETE: %s in %d cases (%s)' % (l, len(hs), ', '.join(hs[:5])))
    for k in known:
        if any(v.get('known') == k['id'] for v in violations):
            log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if news:
        for n, v in enumerate(news[:20]):
            path = os.path.join(work, 'replay-%d.json' % n)
            with open(path, 'w') as f:
                json.dump(dict(v, property=pid, reproduce='python3-vt %s --replay %s' % (os.path.abspath(__file__), path)), f, indent=1)
            log('  %s %s input=%s\n    symbolic: %s\n    native:   %s' % (v['harness'], v['params'], v['input'][:400], v['symbolic'][:500], v['native'][:500]))
            log('VIOLATION property=%s replay=%s' % (pid, path))
        for e in errors[:5]:
            log('note: ' + e[:1000])
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            log('ERROR: ' + e[:1500])
        sys.exit(3)
    log('OK %s held on everything explored' % pid)
    sys.exit(0)


def match_known(known, v):
    for k in known:
        if k['harness'] == v['harness'] and (k.get('params') is None or list(v['params']) == k['params']) and re.search(k['native'], v['native']):
            return k
    return None


def merge(ds):
    o = {}
    for d in ds:
        for k, n in d.items():
            o[k] = o.get(k, 0) + n
    return o


def demangle(names):
    """readable paths out of v0 mangled names"""
    out = []
    for n in names:
        ids = []
        i = 0
        for m in re.finditer(r'(\d+)_?([A-Za-z_]\w*)', n):
            k = int(m.group(1))
            s = m.group(2)
            if k <= len(s):
                ids.append(s[:k])
        i = 0
        ids = []
        while i < len(n):
            m = re.compile(r'(\d+)_?').match(n, i)
            if m and n[i - 1] not in 's':
                k = int(m.group(1))
                s = n[m.end():m.end() + k]
                if len(s) == k and re.match(r'[A-Za-z_]\w*$', s):
                    ids.append(s)
                    i = m.end() + k
                    continue
            i += 1
        out.append('::'.join(ids) if ids else n.strip('@'))
    return out


if __name__ == '__main__':
    main()
