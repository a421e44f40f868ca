"""C12: a call sees one value of each configuration parameter."""
import itertools

from sim import core, ops, sched, world
from sim.world import cp
from . import common as cm

DIP = [['raw', d] for d in world.DIPOLES]
VALUES = {'params.r_surf': [['raw', 6371.2], ['raw', 7100.0], ['raw', 5200.0]],
          'params.dipole': DIP,
          'params.ellipsoid': [['raw', [6378.137, 6356.752]], ['raw', [6500., 6100.]], ['raw', [6200., 6000.]]],
          'file.RC_index': [['raw', 'rc.h5'], ['raw', 'rc1.h5'], ['raw', 'rc1.dat'], ['raw', 'rc.dat']],
          'file.GSM_spectrum': [['raw', 'gsm.npz'], ['raw', 'gsm1.npz'], ['raw', 'gsm0b.npz'], ['raw', 'gsm2.npz']],
          'file.SM_spectrum': [['raw', 'sm.npz'], ['raw', 'sm1.npz'], ['raw', 'sm0b.npz'], ['raw', 'sm2.npz']],
          'file.Earth_conductivity': [['raw', 'cond.dat'], ['raw', 'cond1.dat']],
          'params.cdf_to_mjd': [['raw', 730485], ['raw', 700000]]}
BASE = {'params.r_surf': ['raw', 6371.2], 'params.dipole': DIP[0], 'params.ellipsoid': ['raw', [6378.137, 6356.752]],
        'file.RC_index': ['raw', 'rc.h5'], 'file.GSM_spectrum': ['raw', 'gsm.npz'], 'file.SM_spectrum': ['raw', 'sm.npz'],
        'file.Earth_conductivity': ['raw', 'cond.dat'], 'params.cdf_to_mjd': ['raw', 730485]}


def uses(d):
    """Parameters the documentation says a call reads (only steers the generator)."""
    n = d['op']
    if 'gsm' in n and n.startswith('chaos'):
        return ['file.GSM_spectrum', 'params.dipole', 'params.r_surf']
    if 'sm' in n and n.startswith('chaos'):
        return ['file.SM_spectrum', 'params.dipole', 'file.RC_index', 'params.r_surf']
    if n.startswith('cu.rotate'):
        return ['params.dipole', 'file.Earth_conductivity']
    if 'gg' in n:
        return ['params.ellipsoid']
    if 'q_response' in n:
        return ['file.Earth_conductivity']
    if 'power' in n or 'synth_values' in n:
        return ['params.r_surf']
    return ['params.dipole']


class CHECK(core.Check):
    pid = 'C12'
    runs = dict(quick=6000, thorough=240000)
    wall = dict(quick=200, thorough=3300)
    rule = 'at least one assignment by the writer took effect while the call was running'
    distinct_by = 'call + writer program + switch sequence'
    assumptions = ['"single-source": source is external or internal, not the sum of both (which is two evaluations)',
                   'plots and the composite CHAOS call are outside the statement']
    real = 'chaos, model_utils, coordinate_utils, config_utils in real threads; data files on disk'
    stub = 'thread scheduling (sys.settrace batons)'
    shrinkable = ('explicit', 'writes')

    def setup(self):
        world.fixtures()
        self.pool = [o for o in ops.select('cfg', ('plot', 'multi'))] + \
            [ops.OPS[n] for n in ('bm.synth_values', 'chaos.synth_values_tdep', 'chaos.synth_values_static', 'mu.synth_values', 'mu.design_gauss')]

    def gen(self, r, i, tier):
        d = ops.gen_op(r, r.choices(self.pool, [max(o.weight, 0.6) for o in self.pool])[0])
        if d['args'].get('source', 0) in (None, 'all') and 'chaos' in d['op']:
            d['args']['source'] = r.choice(['external', 'internal'])
        if 'd' in d['args']:
            d['args']['d'] = None
        if d['op'].endswith('power_spectrum') and r.random() < 0.7:
            d['args']['radius'] = None if d['op'].startswith('bm') else 3485.
        us = uses(d)
        keys = r.sample(us, min(len(us), r.choice([1, 1, 2])))
        if r.random() < 0.1:
            keys.append(r.choice(list(VALUES)))
        rc = 'file.RC_index' in us and r.random() < 0.5
        if rc:
            keys = ['file.RC_index'] + keys[:r.choice([0, 0, 1])]
            d['args']['rc'] = None
            if 't' in d['args']:
                d['args']['t']['r'] = 'rc'
        writes = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            k = r.choice(keys)
            writes.append([k, r.choice(VALUES[k])])
        kind = r.choice(['pct', 'rand', 'rand'])
        st = dict(kind=kind, seed=r.randrange(2 ** 31))
        if kind == 'pct':
            st['d'] = r.choice([1, 2, 3, 5])
        else:
            st['p'] = r.choice([0.5, 0.2, 0.1, 0.05])
        base = {k: r.choice(VALUES[k]) for k in set(us + keys) if r.random() < 0.5} if r.random() < 0.5 else {}
        if rc:
            base['file.RC_index'] = r.choice([['raw', 'rc1.dat'], ['raw', 'rc.dat'], r.choice(VALUES['file.RC_index'])])
        return dict(call=d, writes=writes, base=base, strategy=st, opcodes=r.random() < 0.3, how=r.choice(['set', 'set', 'context', 'rewrite']))

    def execute(self, scn):
        res = core.Result()
        d = scn['call']
        BASE = self.base(scn)
        with core.Scratch('q') as ref:
            world.populate(ref)
            base, n, _ = cm.reference(ref, {k: cm.value(v) for k, v in BASE.items()}, d, lines=True)
            with core.Scratch() as root:
                world.populate(root)
                c = core.fork_run(lambda emit: self.child(root, scn, n), cpu=100)
            if c.status != 'done':
                res.violate('hang', 'ended with %s' % c.status)
                res.sig = core.sig(scn)
                return res
            r = c.result
            got = r['outcome']
            res.count('interleaving points', r['steps'])
            res.extra = dict(explicit=r['taken'])
            res.sig = core.sig([d, scn['writes'], r['switches']])
            res.nontrivial = len(r['during']) > 0
            res.count('fault:parameter changed during call', len(r['during']))
            # values in force while the call ran
            vals = {k: list(r['start'].get(k, [BASE[k]])) for k in BASE}
            for k, v in r['during']:
                if v not in vals[k]:
                    vals[k].append(v)
            keys = [k for k in vals if len(vals[k]) > 1]
            diffs = []
            ok = False
            fixed = {k: cm.value(v[0]) for k, v in vals.items()}
            for combo in itertools.product(*[vals[k] for k in keys]):
                conf = dict(fixed, **{k: cm.value(v) for k, v in zip(keys, combo)})
                want, _ = cm.reference(ref, conf, d)
                df = world.same_outcome(got, want)
                if df is None:
                    ok = True
                    break
                diffs.append(df)
            res.log.append([d['op'], got[0], ok, r['switches'], r['during']])
            if not ok:
                res.violate('mixed-configuration', '%s with %s assigned meanwhile: outcome matches none of %d single-valued configurations (%s)' % (
                    d, r['during'], len(diffs), diffs[:2]))
            res.count('outcomes compared', len(diffs) + ok)
        return res

    @staticmethod
    def base(scn):
        return dict(BASE, **scn['base'])

    def child(self, root, scn, n):
        BASE = self.base(scn)
        world.enter(root, {k: cm.value(v) for k, v in BASE.items()})
        W = world.take()
        bc = cp.basicConfig
        state = dict(running=False, start=None)
        during = []
        current = {}
        done = []

        def caller():
            state['start'] = {k: list(v) for k, v in current.items()}
            state['running'] = True
            o = ops.call(W, scn['call'])[0]
            state['running'] = False
            return o

        def note(k, v):
            # while the assignment is under way either value may be seen
            current[k] = current.get(k, [BASE[k]]) + [v]
            if state['running']:
                during.append([k, v])

        def settle(k, v):
            current[k] = [v]

        def writer():
            for k, v in scn['writes']:
                old = current.get(k, [BASE[k]])[-1]
                note(k, v)
                if scn['how'] == 'context':
                    with bc.context(k, cm.value(v)):
                        settle(k, v)
                        s.point(('writer', 0))
                        note(k, old)
                    settle(k, old)
                    s.point(('writer', 1))
                else:
                    bc[k] = cm.value(v)
                    settle(k, v)
                    s.point(('writer', 0))
            return None

        st = dict(scn['strategy'], length=max(6, (n + 40) * (9 if scn['opcodes'] else 1)))
        if st['kind'] == 'rand' and scn['opcodes']:
            st['p'] /= 6
        s = sched.Scheduler([caller, writer], st, scn.get('explicit'), opcodes=scn['opcodes'])
        out = s.run()
        if isinstance(out[1], tuple):
            raise core.HarnessError(str(out[1]))
        return dict(outcome=out[0], steps=s.step, taken=s.taken, during=during, start=state['start'] or {},
                    switches=[[a, list(b) if isinstance(b, tuple) else b, c] for a, b, c in s.switches][:200])
