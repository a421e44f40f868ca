"""Runner: seeds -> scenarios -> forked simulated executions -> verdict, replay file, evidence."""
import gc
import hashlib
import json
import mmap
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CMP_REPO', '/repo')
real_time = time.time


# ----------------------------------------------------------------------------------------------
# forked incarnations
# ----------------------------------------------------------------------------------------------
class Child:
    """Outcome of one forked incarnation."""
    __slots__ = ('events', 'result', 'status', 'error')

    def __init__(self):
        self.events, self.result, self.status, self.error = [], None, None, None


WALL = 120
CPU = 60


class HarnessError(Exception):
    pass


def _pipe():
    """Pipe on high descriptors, out of the way of the code under test."""
    import fcntl
    r, w = os.pipe()
    r2, w2 = fcntl.fcntl(r, fcntl.F_DUPFD, 900), fcntl.fcntl(w, fcntl.F_DUPFD, 900)
    os.close(r)
    os.close(w)
    return r2, w2


_null = None


def _devnull():
    global _null
    if _null is None:
        import fcntl
        fd = os.open('/dev/null', os.O_WRONLY)
        _null = fcntl.fcntl(fd, fcntl.F_DUPFD, 890)
        os.close(fd)
    return _null


def fork_run(fn, wall=WALL, cpu=CPU):
    """Run fn(emit) in a forked child; return a Child.

    status: 'done' (result delivered), 'crash' (simulated process death, 137), 'budget' (operation budget
    exceeded), 'cpu' (CPU budget exceeded), 'deadlock' (on a simulated lock), 'blocked' (asleep for good), 'signal:N',
    'exit:N'.
    """
    r, w = _pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            if not os.environ.get('CMP_STDERR'):
                os.dup2(_devnull(), 2)      # libraries print noise about injected faults
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

            def emit(obj):
                data = pickle.dumps(('ev', obj), 4)
                os.write(w, struct.pack('<I', len(data)) + data) if len(data) < 60000 else _wall(w, data)
            try:
                res = fn(emit)
                data = pickle.dumps(('res', res), 4)
            except BaseException as e:
                if type(e).__name__ == 'Deadlock':      # of the simulated locks
                    os._exit(96)
                data = pickle.dumps(('err', traceback.format_exc()), 4)
            _wall(w, data)
        except BaseException:
            code = 98
        finally:
            os._exit(code)
    os.close(w)
    c = Child()
    buf = bytearray()
    deadline = time.monotonic() + wall
    killed = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            killed = 'blocked' if _blocked(pid) else 'wall'
            os.kill(pid, signal.SIGKILL)
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    pos = 0
    got = False
    while pos + 4 <= len(buf):
        n = struct.unpack('<I', bytes(buf[pos:pos + 4]))[0]
        if pos + 4 + n > len(buf):
            break
        kind, obj = pickle.loads(bytes(buf[pos + 4:pos + 4 + n]))
        pos += 4 + n
        if kind == 'ev':
            c.events.append(obj)
        elif kind == 'res':
            c.result, got = obj, True
        else:
            c.error = obj
    if killed:
        c.status = killed
    elif os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        c.status = 'cpu' if s in (signal.SIGXCPU, signal.SIGKILL) else 'signal:%d' % s
    else:
        e = os.WEXITSTATUS(st)
        c.status = {137: 'crash', 97: 'budget', 96: 'deadlock'}.get(e, 'exit:%d' % e)
        if e == 0:
            c.status = 'done' if got else 'error'
    if c.status == 'wall':
        raise HarnessError('child exceeded wall limit')
    if c.status == 'error':
        raise HarnessError('child raised:\n' + str(c.error))
    return c


def _blocked(pid):
    """The process sleeps, has no children and uses no time: it waits for something that will not happen."""
    seen = set()
    try:
        for _ in range(5):
            st = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
            if st[0] != 'S' or any(open('/proc/%d/task/%s/children' % (pid, t)).read().strip() for t in os.listdir('/proc/%d/task' % pid)):
                return False
            seen.add((st[11], st[12]))
            time.sleep(1)
    except OSError:
        return False
    return len(seen) == 1


def _wall(fd, data):
    data = struct.pack('<I', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


# ----------------------------------------------------------------------------------------------
# scratch space
# ----------------------------------------------------------------------------------------------
_scratch_base = None


def scratch_base():
    global _scratch_base
    if _scratch_base is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
        _scratch_base = os.path.join(base, 'cmpsim.%d' % os.getpid())
        os.makedirs(_scratch_base, exist_ok=True)
    return _scratch_base


def scratch_cleanup():
    if _scratch_base and os.path.isdir(_scratch_base):
        shutil.rmtree(_scratch_base, ignore_errors=True)


class Scratch:
    """A fresh directory for one run; always the same relative layout."""
    n = 0

    def __init__(self, tag='r'):
        Scratch.n += 1
        self.path = os.path.join(scratch_base(), '%s%d.%d' % (tag, os.getpid(), Scratch.n))

    def __enter__(self):
        os.makedirs(self.path)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ----------------------------------------------------------------------------------------------
# results of one run
# ----------------------------------------------------------------------------------------------
class Result:
    def __init__(self):
        self.violations = []     # list of (class, detail)
        self.log = []            # event log (deterministic)
        self.counts = {}         # counters (faults fired, probes, ...)
        self.sig = None          # signature for distinctness
        self.nontrivial = False
        self.simtime = 0.0
        self.extra = {}          # e.g. explicit schedule, merged into the scenario for replay

    def violate(self, cls, detail):
        self.violations.append((cls, detail))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def digest(self):
        return hashlib.sha256(json.dumps([self.log, [v[0] for v in self.violations]], sort_keys=True,
                                         default=str).encode()).hexdigest()[:16]


def sig(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ----------------------------------------------------------------------------------------------
# the check driver
# ----------------------------------------------------------------------------------------------
class Check:
    """One property. Subclasses define gen(rng, i, tier) -> scenario and execute(scenario) -> Result."""
    pid = None
    level = 'exploration'
    rule = ''
    assumptions = []
    real = ''
    stub = ''
    runs = dict(quick=400, thorough=8000)
    wall = dict(quick=240, thorough=3000)   # stop generating new runs after this many seconds
    distinct_by = 'signature of the run'

    def setup(self):
        """Called once in the zygote, before forking workers."""

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, scn):
        raise NotImplementedError

    def shrink(self, scn):
        """Yield simpler candidate scenarios (one pass); default: drop list entries named in `shrinkable`."""
        for key in getattr(self, 'shrinkable', ('steps',)):
            lst = scn.get(key)
            if not isinstance(lst, list):
                continue
            n = len(lst)
            size = max(1, n // 2)
            while size >= 1:
                for a in range(0, n, size):
                    c = dict(scn)
                    c[key] = lst[:a] + lst[a + size:]
                    if len(c[key]) < n:
                        yield c
                if size == 1:
                    break
                size //= 2

    def known(self):
        return load_known().get(self.pid, [])


def load_known():
    """known-findings.json: {property: [{key, class, match, what}]}"""
    p = os.path.join(VERIF, 'known_findings.json')
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p)).get('findings', []):
            out.setdefault(e['property'], []).append(e)
    return out


def known_for(check, cls, detail):
    for e in check.known():
        if e['class'] == cls and all(m in detail for m in e.get('match', [])):
            return e
    return None


def rng_for(seed, pid, i):
    return random.Random('%d/%s/%d' % (seed, pid, i))


def run_one(check, scn):
    r = check.execute(scn)
    return r


def minimise(check, scn, cls, budget_s=60, max_exec=150):
    t0 = real_time()
    n = 0
    best = scn
    improved = True
    while improved and real_time() - t0 < budget_s and n < max_exec:
        improved = False
        for cand in check.shrink(best):
            if real_time() - t0 > budget_s or n >= max_exec:
                break
            n += 1
            try:
                r = check.execute(cand)
            except Exception:
                continue
            if any(v[0] == cls for v in r.violations):
                best = dict(cand)
                best.update(r.extra)
                improved = True
                break
    return best, n


def check_main(check, tier, seed, workers=None, runs=None, quiet=False, only=None):
    t0 = real_time()
    workers = workers or int(os.environ.get('CMP_WORKERS', 0)) or max(1, min(8, os.cpu_count() or 1))
    nruns = runs or check.runs[tier]
    wall = check.wall[tier]
    prepare(check)
    t_setup = real_time() - t0
    sys.stdout.flush()
    pipes = {}
    pids = []
    shared = mmap.mmap(-1, 1)       # number of violating runs so far
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p in pipes:
                os.close(p)
            code = 0
            try:
                _worker(check, tier, seed, w, workers, nruns, t0 + wall, wr, shared)
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(wr)
        pipes[r] = bytearray()
        pids.append(pid)
    agg = dict(evals=0, sigs=set(), nontriv=set(), counts={}, simtime=0.0, samples=[], viol=[], errors=[],
               digests={}, re={}, known={})
    live = set(pipes)
    hard = t0 + wall + 300
    while live:
        rl, _, _ = select.select(list(live), [], [], 5)
        if real_time() > hard:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            agg['errors'].append('batch exceeded its hard wall limit')
            break
        for fd in rl:
            d = os.read(fd, 1 << 20)
            if not d:
                live.discard(fd)
                os.close(fd)
                continue
            buf = pipes[fd]
            buf += d
            while b'\n' in buf:
                i = buf.index(b'\n')
                msg = json.loads(bytes(buf[:i]))
                del buf[:i + 1]
                _absorb(check, agg, msg)
    for p in pids:
        try:
            _, st = os.waitpid(p, 0)
            if st != 0:
                agg['errors'].append('worker exited with status %d' % st)
        except ChildProcessError:
            pass
    mismatch = sorted(i for i, d in agg['re'].items() if i in agg['digests'] and agg['digests'][i] != d)
    rc = 0
    reported = None
    n_min = 0
    if agg['viol']:
        agg['viol'].sort(key=lambda v: v['i'])
        reported, n_min, lines = _report(check, agg, seed)
        for l in lines:
            print(l)
        rc = 1 if reported else 2
        if not reported:
            agg['errors'].append('violation did not reproduce')
    for e in check.known():
        print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (check.pid, e['what'], agg['known'].get(e['what'], 0)))
    if not agg['evals']:
        agg['errors'].append('no run completed')
    if agg['errors'] and rc == 0:
        rc = 2
    for e in agg['errors'][:5]:
        print('HARNESS-ERROR:', e, file=sys.stderr)
    wall_s = real_time() - t0
    _evidence(check, tier, seed, agg, mismatch, wall_s, t_setup, workers, nruns, reported, n_min)
    if not quiet:
        print('%s: %d runs, %d distinct non-trivial, %d violating, %d determinism re-checks (%d differ), %.1f s'
              % (check.pid, agg['evals'], len(agg['nontriv']), len(agg['viol']), len(agg['re']), len(mismatch), wall_s))
        if mismatch:
            print('WARNING: event logs differ between two executions for runs', mismatch[:10])
    scratch_cleanup()
    return rc, agg, mismatch


def _send(fd, obj):
    data = (json.dumps(obj, default=str) + '\n').encode()
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _worker(check, tier, seed, w, W, nruns, deadline, out, shared=None):
    recheck = max(8, nruns // 40)
    nviol = 0
    for i in range(w, nruns, W):
        if real_time() > deadline:
            break
        scn = check.gen(rng_for(seed, check.pid, i), i, tier)
        scn = json.loads(json.dumps(scn))
        try:
            r = check.execute(scn)
        except HarnessError as e:
            _send(out, dict(i=i, error=str(e)[-3000:], scn=scn))
            continue
        except Exception:
            _send(out, dict(i=i, error=traceback.format_exc()[-3000:], scn=scn))
            continue
        scn2 = dict(scn)
        if r.violations:
            scn2.update(r.extra)
            if any(not known_for(check, *v) for v in r.violations):
                nviol += 1
                if shared is not None:
                    shared[0] = min(shared[0] + 1, 255)
        _send(out, dict(i=i, viol=(sorted(r.violations, key=lambda v: known_for(check, *v) is not None))[:4], digest=r.digest(), counts=r.counts, sig=r.sig, nt=r.nontrivial,
                        simtime=r.simtime, scn=scn2 if (r.violations or i < 3) else None,
                        log=r.log[:40] if i < 3 else None))
        if nviol >= 6 or shared is not None and shared[0] >= 10:      # lost updates only delay this
            break
    # determinism: re-execute some runs of the next worker in this process
    for k, i in enumerate(range((w + 1) % W, nruns, W)):
        if k * W >= recheck or real_time() > deadline or nviol:
            break
        scn = json.loads(json.dumps(check.gen(rng_for(seed, check.pid, i), i, tier)))
        try:
            r = check.execute(scn)
        except Exception:
            continue
        _send(out, dict(re=i, digest=r.digest()))


def _absorb(check, agg, m):
    if 're' in m:
        agg['re'][m['re']] = m['digest']
        return
    if 'error' in m:
        agg['errors'].append('run %s: %s' % (m['i'], m['error']))
        return
    agg['evals'] += 1
    agg['digests'][m['i']] = m['digest']
    agg['simtime'] += m['simtime'] or 0
    for k, v in m['counts'].items():
        agg['counts'][k] = agg['counts'].get(k, 0) + v
    agg['sigs'].add(m['sig'])
    if m['nt']:
        agg['nontriv'].add(m['sig'])
    if m['log'] is not None and len(agg['samples']) < 3:
        agg['samples'].append(dict(run=m['i'], scenario=_clip(m['scn']), log=_clip(m['log'])))
    new = []
    for cls, det in m['viol']:
        e = known_for(check, cls, det)
        if e:
            agg['known'][e['what']] = agg['known'].get(e['what'], 0) + 1
        else:
            new.append((cls, det))
    if new:
        agg['viol'].append(dict(i=m['i'], cls=new[0][0], detail=new[0][1], scn=m['scn'], all=new))


def _clip(o, n=1500):
    s = json.dumps(o, default=str)
    return o if len(s) <= n else s[:n] + '...'


def _report(check, agg, seed):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    lines = []
    for v in agg['viol'][:6]:
        scn = v['scn']
        ok = None
        for _ in range(2):
            try:
                r = check.execute(scn)
            except Exception:
                continue
            cl = [x for x in r.violations if not known_for(check, *x)]
            if cl:
                ok = (cl[0], r)
                break
        if not ok:
            print('  run %d did not show it again: %s' % (v['i'], str(v.get('viol', v))[:300]))
            continue
        (cls, det), r = ok
        best, n = minimise(check, scn, cls) if not os.environ.get('CMP_NOMIN') else (scn, 0)
        try:
            rr = check.execute(best)
            vv = [x for x in rr.violations if x[0] == cls]
        except Exception:
            vv = []
        if not vv:
            best, rr, vv = scn, r, [(cls, det)]
        path = os.path.join(VERIF, 'replays', '%s-seed%d-run%d.json' % (check.pid, seed, v['i']))
        with open(path, 'w') as f:
            json.dump(dict(property=check.pid, seed=seed, run=v['i'], violation=cls, detail=vv[0][1],
                           scenario=best, event_log=rr.log[:400], digest=rr.digest(),
                           original_scenario=scn, minimise_executions=n,
                           replay='python3 /verif/verif.py replay %s' % path), f, indent=1, default=str)
        print('  violation class: %s' % cls)
        print('  detail: %s' % vv[0][1][:1500])
        lines.append('VIOLATION property=%s replay=%s' % (check.pid, path))
        return path, n, lines
    return None, 0, lines


def _evidence(check, tier, seed, agg, mismatch, wall_s, t_setup, workers, nruns, reported, n_min):
    ev = agg['evals']
    faults = {k[6:]: v for k, v in sorted(agg['counts'].items()) if k.startswith('fault:')}
    probes = {k: v for k, v in sorted(agg['counts'].items()) if not k.startswith('fault:')}
    hours = max(wall_s - t_setup, 1e-9) / 3600
    d = dict(property=check.pid, tier=tier, seed=seed, level=check.level,
             coverage=dict(
                 evaluations=ev, distinct_nontrivial=len(agg['nontriv']), rule=check.rule,
                 samples=agg['samples'] or ['none completed'],
                 runs_planned=nruns, workers=workers,
                 runs_per_hour=int(ev / hours),
                 simulated_seconds=agg['simtime'],
                 faults_injected=faults, fault_events_total=sum(faults.values()),
                 probes=probes,
                 distinct_measure=check.distinct_by, distinct_runs=len(agg['sigs']),
                 determinism=dict(reexecuted_in_another_process=len(agg['re']), event_log_differs=len(mismatch)),
                 minimisation_executions=n_min,
                 real_components=check.real, stub_components=check.stub,
                 harness_errors=len(agg['errors'])),
             assumptions=list(check.assumptions), wall_s=round(wall_s, 2), violations=len(agg['viol']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.pid + '.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)


def prepare(check):
    check.setup()
    gc.collect()
    gc.freeze()      # keeps the collector from touching (copying) the pages shared with the zygote


def replay(check, path):
    rec = json.load(open(path))
    prepare(check)
    r = check.execute(rec['scenario'])
    same = any(v[0] == rec['violation'] for v in r.violations)
    print('replay of %s: violations %s; digest %s (recorded %s)' % (path, r.violations[:3], r.digest(), rec['digest']))
    scratch_cleanup()
    if same:
        print('VIOLATION property=%s replay=%s' % (check.pid, path))
        return 1
    return 0
