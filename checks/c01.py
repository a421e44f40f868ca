"""C01: concurrent evaluations do not disturb each other."""
import hashlib

import numpy as np

from sim import core, ops, sched, world
from sim.world import cp, enc, same
from . import common as cm


def fingerprint(W, cache):
    """Cheap digest of everything the threads share: models, configuration, argument arrays."""
    h = hashlib.blake2b(digest_size=8)
    for m in W.bm:
        h.update(m.coeffs.tobytes())
        h.update(m.breaks.tobytes())
        h.update(repr((m.source, m.order, m.pieces, m.nmax, m.dim)).encode())
    a = h.hexdigest()
    h = hashlib.blake2b(digest_size=8)
    for c in W.chaos:
        for m in [c.model_tdep, c.model_static] + list(c.model_euler.values()):
            h.update(m.coeffs.tobytes())
            h.update(m.breaks.tobytes())
        h.update(c.coeffs_sm.tobytes() + c.coeffs_gsm.tobytes())
        for d in (c.coeffs_delta, c.breaks_delta):
            for k in d:
                h.update(d[k].tobytes())
    b = h.hexdigest()
    h = hashlib.blake2b(digest_size=8)
    for k, v in sorted(cp.basicConfig.items()):
        h.update(k.encode() + (v.tobytes() if isinstance(v, np.ndarray) else repr(v).encode()))
    c_ = h.hexdigest()
    h = hashlib.blake2b(digest_size=8)
    for k in sorted(cache):
        v = cache[k][0]
        h.update(v.tobytes() if isinstance(v, np.ndarray) else repr(v).encode())
    return dict(base_models=a, chaos_models=b, configuration=c_), h.hexdigest()


class CHECK(core.Check):
    pid = 'C01'
    runs = dict(quick=3600, thorough=144000)
    wall = dict(quick=200, thorough=3300)
    rule = 'at least two calls overlapped (a switch happened while both were unfinished)'
    distinct_by = 'calls + sequence of (thread, function, line, thread) switches'
    assumptions = ['threads switch between source lines or bytecodes of chaosmagpy; NumPy/SciPy/HDF5 calls are atomic',
                   'plots are excluded: pyplot is documented not to be thread-safe',
                   'equal means 1e-9 relative, 1e-10 of the largest value absolute']
    real = 'chaos, model_utils, coordinate_utils, data_utils, config_utils in real threads; NumPy, SciPy, pandas, h5py, hdf5storage'
    stub = 'thread scheduling (sys.settrace batons), locks created by chaosmagpy'
    shrinkable = ('explicit', 'threads')

    def setup(self):
        world.fixtures()

    def gen(self, r, i, tier):
        n = r.choice([2, 2, 2, 3, 4])
        slow = r.random() < 0.06
        pool = ops.select('eval io load save', ('plot',) if slow else ('plot', 'slow'))
        files = r.random() < 0.12
        if files:
            pool = ops.select('load save', ('plot',) if slow else ('plot', 'slow'))
        mode = r.random()
        threads = []
        base = ops.gen(r, pool)
        for t in range(n):
            calls = []
            for k in range(r.choice([1, 1, 2])):
                if mode < 0.55:
                    d = ops.twin(r, base, r.choice([0, 1, 1, 2, 3])) if (t or k) else base
                elif mode < 0.75:
                    d = ops.gen_op(r, r.choice([o for o in pool if o.tags & (ops.OPS[base['op']].tags - {'eval', 'io', 'load', 'save'}) ] or pool))
                else:
                    d = ops.gen(r, pool)
                if 'out' in d['args']:
                    d['args']['out'] = 10 * t + k if not files else 3 * (10 * t + k) + r.choice([0, 1])
                calls.append(d)
            threads.append(calls)
        kind = r.choice(['pct', 'pct', 'rand', 'rand', 'rand'])
        st = dict(kind=kind, seed=r.randrange(2 ** 31))
        if kind == 'pct':
            st['d'] = r.choice([1, 2, 3, 5])
        else:
            st['p'] = r.choice([0.5, 0.2, 0.08, 0.03])
        scn = dict(threads=threads, strategy=st, opcodes=r.random() < 0.25, share=r.random() < 0.7)
        if r.random() < 0.06:
            ops.crowd([d for calls in threads for d in calls])
        return scn

    def execute(self, scn):
        res = core.Result()
        # every call alone, in a pristine process
        refs = []
        total = 0
        memo = {}
        with core.Scratch('q') as ref:
            world.populate(ref)
            for calls in scn['threads']:
                row = []
                for d in calls:
                    key = core.sig(d)
                    if key not in memo:
                        memo[key] = cm.reference(ref, None, d, lines=True)
                    out, n, said = memo[key]
                    total += n
                    row.append((out, said))
                refs.append(row)
        with core.Scratch() as root:
            world.populate(root)
            c = core.fork_run(lambda emit: self.child(root, scn, total), cpu=100)
        if c.status != 'done':
            res.violate('hang', 'concurrent execution ended with %s' % c.status)
            res.sig = core.sig(scn)
            return res
        r = c.result
        res.count('interleaving points', r['steps'])
        res.count('switches', len(r['switches']))
        if r['deadlock']:
            res.violate('deadlock', 'all threads blocked; switches %s' % r['switches'][-6:])
        elif r['exhausted']:
            res.violate('hang', 'step budget exhausted')
        for t, row in enumerate(refs):
            got = r['results'][t]
            if isinstance(got, tuple):
                if not (r['deadlock'] or r['exhausted']):
                    res.violate('escaped', 'thread %d: %s' % (t, got))
                continue
            for k, (want, said) in enumerate(row):
                d = world.same_outcome(got[k][0], want)
                if not d and got[k][1] != said:
                    d = 'says %s, not %s' % (got[k][1], said)
                res.log.append([t, k, scn['threads'][t][k]['op'], got[k][0][0], d])
                res.count('calls compared')
                if d:
                    res.violate('disturbed', 'thread %d %s: concurrent %s (alone)' % (t, scn['threads'][t][k], d))
        for v in r['viol']:
            res.violate(*v)
        res.log.append(r['switches'])
        res.extra = dict(explicit=r['taken'])
        res.sig = core.sig([scn['threads'], r['switches']])
        res.nontrivial = r['overlap'] > 0
        if res.nontrivial:
            res.count('fault:preemption', r['overlap'])
        return res

    def child(self, root, scn, total):
        stdout, wl = world.enter(root)
        W = world.take()
        cache = {} if scn['share'] else None
        viol = []
        n = len(scn['threads'])
        running = [0] * n
        shared0 = fingerprint(W, {})[0]
        sizes = {}

        def program(t):
            def f():
                out = []
                for d in scn['threads'][t]:
                    running[t] = 1
                    a = ops.Args(cache)
                    said = world.Said(stdout, wl)
                    o, raw = ops.call(W, d, a)
                    running[t] = 0
                    out.append((o, said.get(root)))
                    ch = a.changed()
                    if ch:
                        viol.append(('argument-changed', '%s: input %s' % (d, ch)))
                running[t] = 0
                return out
            return f
        st = dict(scn['strategy'])
        scale = 9 if scn['opcodes'] else 1
        st['length'] = max(4, total * scale)
        if st['kind'] == 'rand' and scn['opcodes']:
            st['p'] /= 6
        s = sched.Scheduler([program(t) for t in range(n)], st, scn.get('explicit'), opcodes=scn['opcodes'])
        stat = dict(overlap=0, looked=0)

        def on_switch(me, target):
            if running[me]:
                stat['overlap'] += 1
            if stat['looked'] < 150:
                stat['looked'] += 1
                look()

        def look():
            now, _ = fingerprint(W, {})
            for k in now:
                if now[k] != shared0[k] and len(viol) < 5:
                    viol.append(('shared-state-changed', '%s differ while calls are running' % k))
            if cache is not None:
                for key, (v, orig) in list(cache.items()):
                    if isinstance(v, np.ndarray) and v.dtype != object and v.tobytes() != orig.tobytes() and len(viol) < 5:
                        viol.append(('argument-changed', 'shared input %s differs while calls are running' % key[:80]))
        s.on_switch = on_switch
        res = s.run()
        look()
        return dict(results=res, steps=s.step, switches=[[a, list(b) if isinstance(b, tuple) else b, c] for a, b, c in s.switches][:400],
                    taken=s.taken, deadlock=s.deadlock, exhausted=s.exhausted, viol=viol, overlap=stat['overlap'])
