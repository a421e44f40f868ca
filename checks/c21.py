"""C21: a process forked while other threads are inside calls can use the package at once."""
import os
import pickle
import select
import signal
import sys
import warnings

from sim import core, ops, sched, world
from . import common as cm

SECONDS = 40        # no child needs that long


class CHECK(core.Check):
    pid = 'C21'
    runs = dict(quick=3000, thorough=120000)
    wall = dict(quick=200, thorough=3300)
    rule = 'the process was forked while another thread was inside a call, and the child made calls'
    distinct_by = 'calls + sequence of switches and forks'
    assumptions = ['threads switch between source lines of chaosmagpy', 'the forking thread is not itself inside a call',
                   'NumPy, SciPy and HDF5 are not interrupted by the fork', 'equal means 1e-9 relative, 1e-10 of the largest value absolute']
    real = 'chaos, model_utils, coordinate_utils, data_utils, config_utils in real threads, fork(2) and real child processes; NumPy, SciPy, pandas, h5py, hdf5storage'
    stub = 'thread scheduling (sys.settrace batons), locks created by chaosmagpy'
    shrinkable = ('explicit', 'threads', 'forks')

    def setup(self):
        world.fixtures()

    def gen(self, r, i, tier):
        pool = ops.select('eval io load save', ('plot', 'slow'))
        if r.random() < 0.3:
            pool = ops.select(r.choice(['load', 'save', 'io load save', 'ext', 'rc']), ('plot', 'slow')) or pool
        base = ops.gen(r, pool)
        used = [0]

        def call():
            m = r.random()
            d = ops.twin(r, base, r.choice([0, 1, 1, 2])) if m < 0.6 else ops.gen_op(r, r.choice(pool)) if m < 0.8 else ops.gen(r, pool)
            used[0] += 1
            if 'out' in d['args']:
                d['args']['out'] = 3 * used[0]
            return d
        threads = [[call() for k in range(r.choice([1, 1, 2]))] for t in range(r.choice([1, 1, 2, 3]))]
        forks = []
        for k in range(r.choice([1, 1, 2, 3])):
            forks.append(dict(wait=r.choice([0, 5, 30]), before=[call()] if r.random() < 0.2 else [], calls=[call() for q in range(r.choice([1, 2, 3]))],
                              deep=r.random() < 0.15))
        return dict(threads=threads, forks=forks, strategy=dict(kind='rand', seed=r.randrange(2 ** 31), p=r.choice([0.5, 0.2, 0.08, 0.03, 0.01])))

    # -- in the simulated process -----------------------------------------------------------------
    def driver(self, root, scn, emit):
        world.enter(root)
        W = world.take()
        inside = [0] * len(scn['threads'])

        def worker(t):
            def f():
                out = []
                for d in scn['threads'][t]:
                    inside[t] = 1
                    out.append(ops.call(W, d)[0])
                    inside[t] = 0
                return out
            return f

        forked = []

        def forker():
            out = []
            for q in scn['forks']:
                for _ in range(q['wait']):
                    s.point('wait')
                first = [ops.call(W, d)[0] for d in q['before']]
                forked.append([s.step, sum(inside)])
                out.append((first, fork(W, q['calls'], q['deep'])))
                s.point('forked')
                if isinstance(out[-1][1], str):
                    break               # each child that hangs takes a minute
            return out
        s = sched.Scheduler([worker(t) for t in range(len(scn['threads']))] + [forker], scn['strategy'], scn.get('explicit'))
        got = s.run()
        return dict(got=got, taken=s.taken, switches=[[a, list(b) if isinstance(b, tuple) else b, c] for a, b, c in s.switches][:400],
                    deadlock=s.deadlock, exhausted=s.exhausted, forked=forked)

    # -- outside ----------------------------------------------------------------------------------
    def execute(self, scn):
        res = core.Result()
        memo = {}
        with core.Scratch('q') as ref:
            world.populate(ref)

            def alone(d):
                k = core.sig(d)
                if k not in memo:
                    memo[k] = cm.reference(ref, None, d)[0]
                return memo[k]
            for calls in scn['threads'] + [q['before'] + q['calls'] for q in scn['forks']]:
                for d in calls:
                    alone(d)
        with core.Scratch() as root:
            world.populate(root)
            c = core.fork_run(lambda emit: self.driver(root, scn, emit), wall=400, cpu=100)
        res.sig = core.sig(scn)
        if c.status != 'done':
            res.violate('hang', 'the forking process ended with %s' % c.status)
            return res
        r = c.result
        if r['deadlock'] or r['exhausted']:
            res.violate('deadlock', 'threads of the forking process are blocked; switches %s' % r['switches'][-6:])
            return res

        def judge(who, kind, got, calls):
            if not isinstance(got, list):
                res.violate('child-hangs' if who.startswith('child') else 'escaped', '%s: %s' % (who, got))
                return
            for d, o in zip(calls, got):
                e = world.same_outcome(o, alone(d))
                res.log.append([who, d['op'], o[0], e])
                res.count('calls compared')
                if e:
                    res.violate(kind, '%s %s: %s (alone)' % (who, d, e))
        for t, calls in enumerate(scn['threads']):
            judge('thread %d' % t, 'parent-disturbed', r['got'][t], calls)
        last = r['got'][-1]
        if not isinstance(last, list):
            res.violate('escaped', str(last))
            return res
        for k, (q, (first, child)) in enumerate(zip(scn['forks'], last)):
            judge('forking thread', 'parent-disturbed', first, q['before'])
            judge('child %d' % k, 'child-disturbed', child, q['calls'])
        n = sum(1 for _, busy in r['forked'] if busy)
        res.log += [r['switches'], r['forked']]
        res.extra = dict(explicit=r['taken'])
        res.sig = core.sig([scn['threads'], scn['forks'], r['switches'], r['forked']])
        res.nontrivial = n > 0
        if n:
            res.count('fault:fork while other threads are inside calls', n)
        return res


def fork(W, calls, deep):
    """Make the calls in a forked child (or a child of it); returns their outcomes, or how the child ended."""
    rd, wr = os.pipe()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pid = os.fork()
    if pid == 0:
        code = 1
        try:
            sys.settrace(None)
            sched._active = None
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(SECONDS)
            if deep:
                code = 0
                out = fork(W, calls, False)
            else:
                out = []
                for d in calls:
                    try:
                        out.append(ops.call(W, d)[0])
                    except sched.Deadlock as e:
                        out = 'blocked in %s: %s' % (d['op'], e)
                        break
            b = pickle.dumps(out)
            while b:
                b = b[os.write(wr, b):]
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    b = b''
    blocked = False
    while True:
        if not select.select([rd], [], [], 2.)[0]:
            blocked = blocked or core._blocked(pid)       # sleeps for good
            if blocked:
                os.kill(pid, signal.SIGKILL)
            continue
        x = os.read(rd, 1 << 20)
        if not x:
            break
        b += x
    os.close(rd)
    st = os.waitpid(pid, 0)[1]
    if blocked:
        return 'waits for something that will not happen'
    if st:
        return 'ended with %s' % ('signal %d' % (st & 127) if st & 127 else 'status %d' % (st >> 8))
    return pickle.loads(b)
