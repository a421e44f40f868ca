"""C17: data and model files are read in one piece and as they are now, while others replace them."""
import itertools
import json
import os
import shutil

import numpy as np

from sim import core, io, ops, procs, world
from sim.world import cp
from . import c15

EVALS = {'chaos.synth_coeffs_sm': ('rc', 'sm.npz'), 'chaos.synth_values_sm': ('rc', 'sm.npz'), 'chaos.synth_coeffs_gsm': ('gsm.npz',),
         'chaos.synth_values_gsm': ('gsm.npz',), 'cu.q_response': ('cond.dat',), 'cu.rotate_fft': ('cond.dat',)}
NV = 4      # versions of each file
_made = {}


def make():
    """Versions of the files evaluations read: {name: [path of version 0, ...]}"""
    if _made:
        return _made
    d = os.path.join(core.scratch_base(), 'c17')
    os.makedirs(d, exist_ok=True)
    fix = world.fixtures()
    for name in ('rc.h5', 'rc.dat', 'gsm.npz', 'sm.npz', 'cond.dat'):
        _made[name] = []
        for k in range(NV):
            a, b = name.split('.')
            p = os.path.join(d, '%s%d.%s' % (a, k, b))
            n = (1440, 1440, 1500, 4000)[k]
            if name == 'rc.h5':
                world.write_rc_h5(p, 40 + k, n=n)
            elif name == 'rc.dat':
                open(p, 'w').write(world.rc_dat_text(40 + k, n=n))
            elif b == 'npz':
                world.write_spectrum(p, 50 + k + (10 if a == 'sm' else 0), world.DIPOLES[0], k=(6, 6, 6, 5)[k])
            else:
                c = np.loadtxt(os.path.join(fix, 'cond.dat'))
                c[:, 1] *= (1, 2, 5, 0.3)[k]
                if k == 3:
                    c = np.delete(c, 5, axis=0)
                np.savetxt(p, c)
            _made[name].append(p)
    return _made


class CHECK(core.Check):
    pid = 'C17'
    runs = dict(quick=3500, thorough=140000)
    wall = dict(quick=200, thorough=3300)
    rule = 'a file was replaced while a call was reading it, or between two calls of one process that read it'
    distinct_by = 'calls, replacements and switch sequence'
    assumptions = ['files are replaced by rename (an edit in place can be seen half done by any reader)', 'the replacement has the same format',
                   'an evaluation of one source (external or internal) is one call; the sum of both is two']
    real = 'all loaders and evaluations that read files, HDF5, h5py, hdf5storage, NumPy, pandas, several real processes'
    stub = 'process scheduling (a baton at every file operation)'
    shrinkable = ('explicit', 'readers', 'installs')

    def setup(self):
        world.fixtures()
        self.fifteen = c15.CHECK()
        make()

    def gen(self, r, i, tier):
        rc = r.choice(['rc.h5', 'rc.h5', 'rc.dat'])
        seed, size = r.randrange(5), r.choice([0, 0, 1])
        readers, names = [], []
        n = r.choice([1, 1, 2])
        hows = [r.choices(sorted(c15.LOADERS), [c15.WEIGHT.get(h, 1.) for h in sorted(c15.LOADERS)])[0] for _ in range(2)]
        evs = r.sample(sorted(EVALS), 2)
        load = r.random() < 0.5
        for _ in range(n):
            calls = []
            for _ in range(r.choice([1, 2, 2, 3])):
                if calls and r.random() < 0.35:
                    calls.append(json.loads(json.dumps(calls[-1])))     # the same call again
                elif load:
                    how = r.choice(hows)
                    kind = c15.LOADERS[how]
                    f = kind + '0' + c15.END[kind]
                    calls.append(dict(how=how, files=[f], nsat=r.choice([3, 3, 1])))
                else:
                    d = ops.gen_op(r, ops.OPS[r.choice(evs)])
                    a = d['args']
                    if 'source' in a:
                        a['source'] = r.choice(['external', 'internal'])
                    if 'rc' in a:
                        a['rc'] = None
                    if 'c' in a:
                        a['c'] = r.choice([0, 2])
                    if 'q' in a:
                        a['q'] = None
                    calls.append(dict(d=d, files=[rc if f == 'rc' else f for f in EVALS[d['op']]]))
                names += calls[-1]['files']
            readers.append(calls)
        installs = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            installs.append([r.choice(names), r.choice([1, 1, r.randrange(NV)]), r.random() < 0.6, r.choice([0, 0, 4, 15, 40])])
        kind = r.choice(['pct', 'rand', 'rand'])
        st = dict(kind=kind, seed=r.randrange(2 ** 31))
        if kind == 'pct':
            st.update(d=r.choice([2, 3, 4, 6]), length=r.choice([8, 20, 60, 200]))
        else:
            st['p'] = r.choice([0.6, 0.3, 0.1])
        return dict(readers=readers, installs=installs, rc=rc, seed=seed, size=size, split=r.random() < 0.3, strategy=st)

    def bytes_of(self, scn, name, v):
        if name in _made:
            return open(_made[name][v], 'rb').read()
        kind = name.split('0.')[0]
        return self.fifteen.content(kind, (scn['seed'] + v) % 5, scn['size'])

    def put(self, scn, root, name, v, to=None):
        p = os.path.join(root, to or name)
        open(p, 'wb').write(self.bytes_of(scn, name, v))
        os.utime(p, (10 ** 9, 10 ** 9))

    def place(self, scn, root, state):
        for n in ('gsm.npz', 'sm.npz', 'cond.dat', 'coast.zip'):
            shutil.copyfile(os.path.join(world.fixtures(), n), os.path.join(root, n))
        for n, v in state.items():
            self.put(scn, root, n, v)
        if scn['rc'] not in state:
            self.put(scn, root, scn['rc'], 0)

    def call(self, W, c, files):
        if 'how' in c:
            before = dict(cp.basicConfig)
            o = self.fifteen.outcome(c['how'], files[0], c['nsat'])
            if c15.LOADERS[c['how']] == 'conf':
                dict.update(cp.basicConfig, before)
            return o
        return ops.call(W, c['d'])[0]

    def execute(self, scn):
        res = core.Result()
        names = sorted({f for c in scn['readers'] for d in c for f in d['files']})
        with core.Scratch() as root:
            os.makedirs(os.path.join(root, 'new'))
            self.place(scn, root, {n: 0 for n in names})
            if any(n not in names for n, *_ in scn['installs']):
                scn = dict(scn, installs=[x for x in scn['installs'] if x[0] in names])
            for k, (n, v, same, _) in enumerate(scn['installs']):
                self.put(scn, root, n, v, 'new/%d' % k)
                if not same:
                    os.utime(os.path.join(root, 'new/%d' % k), (10 ** 9 + k, 10 ** 9 + k))

            def reader(calls):
                def run(emit, gate):
                    world.enter(root, {'file.RC_index': scn['rc']})
                    W = world.take()
                    with io.Disk(root):
                        gate.on('')
                        gate.mark()
                        for k, c in enumerate(calls):
                            emit(('start', k))
                            o = self.call(W, c, c['files'])
                            emit(('end', k, o))
                            gate.mark()
                        gate.off()
                return run

            def installer(ks):
                def run(emit, gate):
                    world.enter(root, False)
                    with io.Disk(root):
                        gate.on('')
                        for k in ks:
                            for _ in range(scn['installs'][k][3]):
                                gate.mark()
                            os.replace('new/%d' % k, scn['installs'][k][0])
                            emit(('new', k))
                        gate.off()
                return run
            ks = list(range(len(scn['installs'])))
            groups = [ks] if not scn['split'] else [[k for k in ks if scn['installs'][k][0] == n] for n in names]
            fns = [reader(c) for c in scn['readers']] + [installer(g) for g in groups if g]
            ps, taken, trace, exhausted = procs.run(fns, scn['strategy'], scn.get('explicit'))
            res.extra = dict(explicit=taken)
            res.sig = core.sig([scn['readers'], scn['installs'], scn['seed'], scn['size'], taken])
            if exhausted:
                res.violate('hang', 'more than %d steps' % procs.STEPS)
                return res
        for p in ps:
            if p.status != 'done':
                res.violate('process-dies' if p.status.startswith('signal') else 'hang', 'process ended with %s' % p.status)
                return res
        when = {n: [(-1, 0)] for n in names}
        for p in ps[len(scn['readers']):]:
            for step, (_, k) in p.events:
                when[scn['installs'][k][0]].append((step, scn['installs'][k][1]))
        for n in when:
            when[n].sort(key=lambda x: x[0])
        log = []
        for q, p in enumerate(ps[:len(scn['readers'])]):
            start = {}
            for step, ev in p.events:
                if ev[0] == 'start':
                    start[ev[1]] = step
                    continue
                c = scn['readers'][q][ev[1]]
                s0, out = start[ev[1]], ev[2]
                allowed = []
                for f in c['files']:
                    now = [v for t, v in when[f] if t <= s0][-1]
                    then = [v for t, v in when[f] if s0 < t < step]
                    if then or now != 0:
                        res.nontrivial = True
                    if then:
                        res.count('fault:file replaced during a call')
                    elif now != 0 or len([1 for t, _ in when[f] if t <= s0]) > 1:
                        res.count('fault:file replaced before a call')
                    allowed.append(sorted({now, *then}))
                for combo in itertools.product(*allowed):
                    ref = self.reference(scn, c, dict(zip(c['files'], combo)))
                    if not world.same_outcome(out, ref):
                        break
                else:
                    other = [v for v in range(NV) if len(c['files']) == 1 and not world.same_outcome(out, self.reference(scn, c, {c['files'][0]: v}))]
                    cls = 'stale-read' if other else 'mixed-read'
                    res.violate(cls, '%s of %s with versions %s in place gives %s' % (c.get('how') or c['d']['op'], c['files'], allowed,
                                                                                      'version %s' % other if other else world.brief(out)))
                log.append([q, ev[1], out[0], allowed])
        res.log = [[c, x[0], x[1]] for c, x in trace][:300] + [log]
        res.count('steps', len(trace))
        res.count('switches', len(taken))
        return res

    def reference(self, scn, c, state):
        key = (core.sig([c, sorted(state.items()), scn['rc'], scn['seed'], scn['size']]))
        if key not in self.memo:
            if len(self.memo) > 3000:
                self.memo.clear()
            with core.Scratch('ref') as root:
                self.place(scn, root, state)

                def run(emit):
                    world.enter(root, {'file.RC_index': scn['rc']})
                    return self.call(world.take(), c, c['files'])
                r = core.fork_run(run)
                if r.status != 'done':
                    raise core.HarnessError('reference ended with %s' % r.status)
                self.memo[key] = r.result
        return self.memo[key]

    memo = {}
