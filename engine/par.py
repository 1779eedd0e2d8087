"""Parallel exploration: every harness case runs in a forked process which hands half
of its pending states to a new process whenever a core is free."""
import os, sys, time, json, random, traceback, resource, gc, signal
import multiprocessing as mp
import vm as vmmod
import expr
from solver import Unknown

CTX = mp.get_context('fork')


class Shared(object):
    def __init__(self, ntok, workdir, deadline):
        self.tok = CTX.Semaphore(ntok)
        self.stop = {}
        self.dir = workdir
        self.deadline = deadline


class Case(object):
    def __init__(self, harness, params, opts):
        self.h = harness
        self.p = list(params)
        self.opts = opts


def site(info):
    """stable identity of a failure"""
    return json.dumps(info[:2])


def explore(mod, sh, case, ci, stopflag, seed):
    """body of a case process (already owns a token)"""
    gc.disable()

    def late(*_):
        raise vmmod.EngineLimit('time limit')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(1, int(sh.deadline - time.time()) + 10))
    v = vmmod.VM(mod)
    v.conc_limit = case.opts.get('conc_limit', 300)
    v.fork_reads = case.opts.get('fork_reads', False)
    v.max_depth = case.opts.get('max_depth', 400)
    v.solver.timeout = case.opts.get('solver_ms', 60000)
    rng = random.Random(seed * 1000003 + ci)
    out = {'case': ci, 'kinds': {}, 'fails': [], 'covers': [], 'samples': [], 'limit': None, 'spawned': 0}
    kids = []
    nsample = case.opts.get('samples', 6)
    covers = set()
    sampled = [0]
    work = [v.start(case.h, case.p)]
    base = dict(segs=0, forks=0)
    t0 = time.time()
    limits = []
    while True:
        try:
            while work and not stopflag.value:
                st = work.pop()
                v.work = work
                kind, info = v.run_path(st, sh.deadline)
                out['kinds'][kind] = out['kinds'].get(kind, 0) + 1
                if kind == 'done':
                    covers |= st.covers
                    sampled[0] += 1
                    k = sampled[0]
                    if k <= nsample or rng.random() < nsample / k:
                        smp = dict(input=inp(st), obs=[st.val(o) for o in st.obs], covers=sorted(st.covers))
                        if k <= nsample:
                            out['samples'].append(smp)
                        else:
                            out['samples'][rng.randrange(nsample)] = smp
                elif kind == 'fail':
                    s = site(info)
                    if len([1 for f in out['fails'] if f['site'] == s]) < 1:
                        out['fails'].append(dict(site=s, info=repr(info), input=inp(st)))
                    if not case.opts.get('all') and s not in case.opts.get('known', ()):
                        stopflag.value = 1
                        break
                if len(work) >= 4 and sh.tok.acquire(block=False):
                    half = work[:len(work) // 2]
                    pid = os.fork()
                    if pid == 0:
                        signal.alarm(max(1, int(sh.deadline - time.time()) + 10))
                        v.unknowns = 0
                        work[:] = half
                        kids = []
                        out = {'case': ci, 'kinds': {}, 'fails': [], 'covers': [], 'samples': [], 'limit': None, 'spawned': 0}
                        covers = set()
                        sampled = [0]
                        limits = []
                        v.segs = 0
                        v.forks = 0
                        st_ = v.solver.st
                        for k_ in vars(st_):
                            setattr(st_, k_, type(getattr(st_, k_))(0))
                        v.solver.inc = None
                        rng = random.Random(os.getpid())
                        t0 = time.time()
                        continue
                    kids.append(pid)
                    out['spawned'] += 1
                    del work[:len(work) // 2]
        except vmmod.EngineLimit as e:
            out['limit'] = str(e)
            if 'time limit' not in str(e):
                stopflag.value = 1
        except Unknown as e:
            out['limit'] = 'solver: %s' % e
        except Exception:
            out['limit'] = 'internal: ' + traceback.format_exc()
            stopflag.value = 1
        break
    signal.alarm(0)
    if v.unknowns and out['limit'] is None:
        out['limit'] = 'solver: %d branches undecided, one side followed' % v.unknowns
    out['left'] = len(work)
    out['covers'] = sorted(covers)
    out['segs'] = v.segs
    out['forks'] = v.forks
    out['solver'] = vars(v.solver.st)
    out['notes'] = v.notes
    out['hits'] = [f.name for f in mod.funcs.values() if f.hit]
    out['cpu'] = time.time() - t0
    out['rss'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    tmp = os.path.join(sh.dir, 'r%d.tmp' % os.getpid())
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.rename(tmp, os.path.join(sh.dir, 'r%d.json' % os.getpid()))
    sh.tok.release()
    for k in kids:
        os.waitpid(k, 0)
    os._exit(0)


def inp(st):
    return bytes(st.model.get(i, 0) for i in range(st.nvar)).hex()


def run_cases(mod, cases, ntok, workdir, deadline, seed=1, progress=None):
    """returns list of merged results per case"""
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(workdir):
        if f.startswith('r'):
            os.unlink(os.path.join(workdir, f))
    sh = Shared(ntok, workdir, deadline)
    flags = {}
    pids = {}
    sys.stdout.flush()
    for ci, c in enumerate(cases):
        key = c.h
        if key not in flags:
            flags[key] = CTX.Value('i', 0, lock=False)
        sh.tok.acquire()
        if time.time() > deadline:
            sh.tok.release()
            pids[ci] = None
            continue
        pid = os.fork()
        if pid == 0:
            try:
                explore(mod, sh, c, ci, flags[key], seed)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(9)
        pids[ci] = pid
    for ci, pid in pids.items():
        if pid is not None:
            os.waitpid(pid, 0)
    res = []
    for ci, c in enumerate(cases):
        res.append(dict(case=c, kinds={}, fails=[], covers=set(), samples=[], limits=[], segs=0, forks=0, solver={}, notes={}, hits=set(), cpu=0, left=0, procs=0, spawned=1, rss=0))
        if pids[ci] is None:
            res[-1]['spawned'] = 0
            res[-1]['limits'].append('time limit')
    for f in os.listdir(workdir):
        if not f.endswith('.json'):
            continue
        o = json.load(open(os.path.join(workdir, f)))
        r = res[o['case']]
        for k, n in o['kinds'].items():
            r['kinds'][k] = r['kinds'].get(k, 0) + n
        r['fails'] += o['fails']
        r['covers'] |= set(o['covers'])
        r['samples'] += o['samples']
        if o['limit']:
            r['limits'].append(o['limit'])
        for k in ('segs', 'forks', 'cpu', 'left', 'spawned'):
            r[k] += o[k]
        r['rss'] = max(r['rss'], o['rss'])
        r['procs'] += 1
        for k, n in o['solver'].items():
            r['solver'][k] = max(r['solver'].get(k, 0), n) if k == 'maxq' else r['solver'].get(k, 0) + n
        for k, n in o['notes'].items():
            r['notes'][k] = r['notes'].get(k, 0) + n
        r['hits'] |= set(o['hits'])
    for r in res:
        if r['procs'] != r['spawned']:
            r['limits'].append('internal: %d of %d exploration processes reported' % (r['procs'], r['spawned']))
    return res
