"""developer driver: t1.py HARNESS [p0,p1,..]...   explore cases, print failures"""
import sys, time, os
import ll, par
t = time.time()
m = ll.Module(os.environ.get('LL', '/verif/target/sym/wzh.ll'))
cs = [par.Case(sys.argv[1], [int(x) for x in a.split(',') if x], {'all': 'ALL' in os.environ, 'fork_reads': 'FR' in os.environ, 'conc_limit': int(os.environ.get('CL', 300))}) for a in (sys.argv[2:] or [''])]
tl = float(os.environ.get('TL', 120))
for r in par.run_cases(m, cs, 8, '/tmp/t1work.%d' % os.getpid(), time.time() + tl):
    print(r['case'].h, r['case'].p, r['kinds'], 'covers', sorted(r['covers']), 'segs', r['segs'], 'forks', r['forks'], 'cpu %.1f' % r['cpu'], 'rss', r['rss'], 'left', r['left'], 'procs', r['procs'])
    s = r['solver']
    print('   ', {k: round(x, 2) for k, x in s.items()}, r['notes'])
    for x in set(r['limits']):
        print('   LIMIT', x)
    seen = set()
    for f in r['fails']:
        if f['site'] not in seen:
            seen.add(f['site'])
            print('   FAIL', f['info'][:600], f['input'])
print('time %.1f' % (time.time() - t))
os.system('rm -rf /tmp/t1work.%d' % os.getpid())
