"""C02: results do not depend on call history; calls have no side effects."""
import gc
import os
import shutil

import numpy as np

from sim import core, io, ops, sched, world
from sim.world import cp, enc, same
from . import common as cm

SWAPS = [('rc.h5', 'rc1.h5'), ('rc.dat', 'rc1.dat'), ('gsm.npz', 'gsm0b.npz'), ('sm.npz', 'sm0b.npz'), ('gsm.npz', 'gsm1.npz'),
         ('sm.npz', 'sm1.npz'), ('cond.dat', 'cond1.dat'), ('model.shc', 'model1.shc'), ('static.shc', 'static1.shc'),
         ('covobs.txt', 'covobs1.txt'), ('gufm.txt', 'gufm1.txt'), ('cals.txt', 'cals1.txt'), ('igrf.txt', 'igrf1.txt'),
         ('small.mat', 'small1.mat')]
CONFIG = [('params.r_surf', [['raw', 6371.2], ['raw', 6400.0], ['raw', 3000.0], ['raw', 6371.24]]),
          ('params.dipole', [['raw', d] for d in world.DIPOLES] + [['raw', [q + near for q in world.DIPOLES[0]]] for near in (0.3, -0.02)]*2),
          ('params.ellipsoid', [['raw', [6378.137, 6356.752]], ['raw', [6400., 6300.]], ['raw', [6378.137, 6378.137]], ['raw', [6378.2, 6356.7]]]),
          ('file.RC_index', [['raw', 'rc.h5'], ['raw', 'rc1.h5'], ['raw', 'rc.dat']]),
          ('file.GSM_spectrum', [['raw', 'gsm.npz'], ['raw', 'gsm1.npz'], ['raw', 'gsm0b.npz']]),
          ('file.SM_spectrum', [['raw', 'sm.npz'], ['raw', 'sm1.npz'], ['raw', 'sm0b.npz']]),
          ('file.Earth_conductivity', [['raw', 'cond.dat'], ['raw', 'cond1.dat']]),
          ('plots.figure_width', [['raw', 6.3], ['raw', 4.0]])]

class CHECK(core.Check):
    pid = 'C02'
    runs = dict(quick=6000, thorough=120000)
    wall = dict(quick=300, thorough=3300)
    rule = ('history with at least two calls and, between them, at least one state change, fault or interrupt that took '
            'effect, or a different call of the same function')
    distinct_by = 'history (calls with arguments, edits, faults)'
    assumptions = ['"the same result" means equal to 1e-9 relative (1e-10 of the largest value absolute)',
                   'interrupts arrive between two source lines of chaosmagpy',
                   'NumPy, SciPy, HDF5 and matplotlib keep no relevant state of their own']
    real = 'all public calls of chaos, model_utils, coordinate_utils, data_utils, plot_utils; NumPy, SciPy, pandas, h5py, matplotlib'
    stub = 'system calls below libc where a fault is planned'
    shrinkable = ('steps',)

    def setup(self):
        world.fixtures()
        self.W0 = None

    # ---- generation ---------------------------------------------------------------------------
    def gen(self, r, i, tier):
        n = r.choice([2, 3, 3, 4, 5] if tier == 'quick' else [2, 3, 4, 6, 10])
        slow = r.random()
        pool = ops.select('eval io load save', ('plot', 'slow'))
        if 0.12 <= slow < 0.2:
            pool = pool + ops.select('load save', ('plot',))
        if slow < 0.12:
            pool = ops.select('eval io load save plot', ()) + ops.select('plot slow', ())
        focus = [r.choice(pool) for _ in range(2)]
        if r.random() < 0.3:
            focus = [r.choice(ops.select('ext cfg file', ('plot', 'slow')))] * 2
        steps = []
        prev = None
        for k in range(n):
            if prev is not None:
                for _ in range(r.choice([0, 1, 1, 2])):
                    steps.append(self.between(r, prev))
            m = r.random()
            if prev is not None and m < 0.45:
                d = ops.twin(r, prev, r.choice([0, 1, 1, 2]))
            elif m < 0.8:
                d = ops.gen_op(r, r.choice(focus))
            else:
                d = ops.gen(r, pool)
            st = dict(k='call', d=d)
            if r.random() < 0.3:
                st['poke'] = 1
            if k < n - 1:
                q = r.random()
                if q < 0.2:
                    st['at'] = r.choice([r.randrange(1, 12), r.randrange(1, 60), r.randrange(1, 400)])
                    st['exc'] = r.choice(['KeyboardInterrupt', 'MemoryError'])
                    if r.random() < 0.4:
                        st.update(depth=r.choice([1, 1, 2]), at=r.choice([r.randrange(1, 15), r.randrange(1, 60)]))
                elif q < 0.32:
                    st['faults'] = [dict(on=[r.choice(['read', 'read', 'read', 'open-read', 'open-write', 'write'])],
                                         nth=r.choice([1, 1, 2, 3, 5]), action='error', arg=r.choice([5, 24, 28]))]
            steps.append(st)
            prev = d
        scn = dict(steps=steps, share=r.random() < 0.6)
        if r.random() < 0.04:
            ops.crowd([s['d'] for s in steps if s['k'] == 'call'])
        return scn

    def between(self, r, prev):
        o = ops.OPS[prev['op']]
        q = r.random()
        a = prev['args']
        if q < 0.27:
            sw = list(SWAPS)
            if 'rc' in o.tags:
                sw = SWAPS[:1] + SWAPS[3:4]
            elif 'ext' in o.tags:
                sw = SWAPS[2:6]
            elif 'file' in o.tags:
                sw = SWAPS[:7]
            elif 'f' in a:
                sw = [s for s in SWAPS if s[0].startswith(str(a['f']).split('.')[0].rstrip('1'))] or SWAPS
            s = r.choice(sw)
            return dict(k='file', dst=s[0], src=s[1], keep=r.random() < 0.6, inplace=r.random() < 0.5)
        if q < 0.5:
            key, vals = r.choice(CONFIG + CONFIG[:2]*2)
            return dict(k='config', key=key, val=r.choice(vals))
        if q < 0.7:
            if 'm' in a and 'bm' in o.tags or o.name == 'mu.synth_from_pp':
                w = ['bm', a['m']]
            elif 'c' in a:
                w = ['chaos', a['c']]
            else:
                w = [r.choice(['bm', 'chaos']), r.randrange(3)]
            return dict(k='model', which=w, how=r.choice(['scale', 'assign', 'new', 'breaks', 'shift', 'shape']), s=r.randrange(100))
        if q < 0.85:
            return dict(k='scribble', what=r.choice(['result', 'result', 'args']), by=r.choice([1.0, -7.5, 0.01]))
        if q < 0.93:
            return dict(k='settings', what=r.choice(['np_err', 'seed', 'printoptions', 'rc']))
        return dict(k='gc')

    # ---- execution ----------------------------------------------------------------------------
    def execute(self, scn):
        res = core.Result()
        steps = scn['steps']
        with core.Scratch() as root, core.Scratch('q') as ref:
            world.populate(root)
            world.populate(ref)
            c = core.fork_run(lambda emit: self.driver(root, scn, emit), cpu=100)
            if c.status != 'done':
                res.violate('hang', 'history ended with %s' % c.status)
            for ev in c.events:
                if ev[0] == 'viol':
                    res.violate(ev[1], ev[2])
                elif ev[0] == 'count':
                    res.count(ev[1], ev[2])
            outs = {ev[1]: ev[2] for ev in c.events if ev[0] == 'out'}
            said = {ev[1]: ev[3] for ev in c.events if ev[0] == 'out'}
            edited = [ev[1:] for ev in c.events if ev[0] == 'edited']
            n_ref = 0
            for i, st in enumerate(steps):
                if st['k'] == 'file':
                    self.swap(ref, st)
                if i not in outs:
                    continue
                want, told = self.pristine(ref, scn, i, edited)
                n_ref += 1
                d = world.same_outcome(outs[i], want)
                if not d and said[i] != told:
                    d = 'said %s instead of %s' % (str(said[i])[:300], str(told)[:300])
                res.log.append([i, st['d']['op'], outs[i][0], world.brief(outs[i][1]) if outs[i][0] == 'ok' else outs[i][1], d])
                if d:
                    res.violate('history-dependent', 'step %d %s: after this history %s (in a pristine process)' % (i, st['d'], d))
                elif outs[i][0] == 'ok':
                    res.count('calls compared')
                else:
                    res.count('failing calls compared')
        res.sig = core.sig(steps)
        calls = [s for s in steps if s['k'] == 'call']
        res.nontrivial = n_ref > 0 and len(calls) > 1 and (
            any(s['k'] not in ('call', 'gc') for s in steps) or any(k.startswith('fault:') for k in res.counts) or
            len(set(s['d']['op'] for s in calls)) < len(calls))
        return res

    @staticmethod
    def swap(root, st):
        """Replace the contents of a data file (optionally keeping its timestamps, optionally a new inode)."""
        dst, src = os.path.join(root, st['dst']), os.path.join(root, st['src'])
        s = os.stat(dst) if os.path.exists(dst) else None
        data = open(src, 'rb').read()
        if st['inplace']:
            open(dst, 'wb').write(data)
        else:
            open(dst + '.new', 'wb').write(data)
            os.rename(dst + '.new', dst)
        if st['keep'] and s:
            os.utime(dst, ns=(s.st_atime_ns, s.st_mtime_ns))

    def pristine(self, root, scn, i, edited=()):
        """Outcome of call i in a fresh process, with the same state but without the calls before it."""
        def run(emit):
            heard = world.enter(root)
            W = world.take()
            for st in scn['steps'][:i]:
                self.state_step(st, W)
            adjust = {}
            for j, keys, by in edited:
                if j < i:
                    for q in keys:
                        adjust.setdefault(q, []).append(by)
            said = world.Said(*heard)
            return ops.call(W, scn['steps'][i]['d'], ops.Args({} if scn['share'] else None, adjust))[0], said.get(root)
        c = core.fork_run(run, cpu=100)
        return c.result if c.status == 'done' else (('exc', c.status, ''), None)

    def state_step(self, st, W):
        """Steps that legitimately change what a later call sees."""
        k = st['k']
        if k == 'config':
            cp.basicConfig[st['key']] = cm.value(st['val'])
        elif k == 'model':
            self.edit(W, st)
        elif k == 'settings':
            self.settings(st)

    @staticmethod
    def settings(st):
        w = st['what']
        if w == 'np_err':
            np.seterr(divide='ignore', invalid='ignore', over='ignore')
        elif w == 'seed':
            np.random.seed(99)
        elif w == 'printoptions':
            np.set_printoptions(precision=3)
        else:
            import matplotlib
            matplotlib.rcParams['font.size'] = 7.0

    @staticmethod
    def edit(W, st):
        kind, k = st['which']
        lst = W.bm if kind == 'bm' else W.chaos
        how = st['how']
        if how == 'new':
            # drop the object and build another one, likely at the same address
            lst[k] = None
            gc.collect()
            lst[k] = world.make_bm(50 + st['s'], 3, 4, 3) if kind == 'bm' else world.make_chaos(60 + st['s'])
            return
        obj = lst[k]
        if kind == 'chaos':
            if how == 'scale':
                obj.model_tdep.coeffs *= 1.5
                obj.model_static.coeffs *= -2.
                obj.coeffs_sm *= 1.25
                obj.coeffs_gsm *= 0.5
                for q in obj.coeffs_delta:
                    obj.coeffs_delta[q] *= 3.
                for q in obj.model_euler:
                    obj.model_euler[q].coeffs *= 2.
                    obj.model_euler[q].meta['Euler_prerotation'] = obj.model_euler[q].meta['Euler_prerotation'] + 1.
                for q in obj.model_cal:
                    obj.model_cal[q].coeffs *= 2.
                obj.meta['params']['Euler_prerotation'] *= 3.
            elif how == 'assign':
                r = world.rs(st['s'])
                obj.coeffs_sm = r.normal(size=obj.coeffs_sm.shape)
                obj.coeffs_gsm = obj.coeffs_gsm + 1.
                obj.model_tdep.coeffs = obj.model_tdep.coeffs + 1.
                obj.model_static.coeffs = obj.model_static.coeffs * 2.
            elif how == 'breaks':
                obj.model_tdep.breaks = obj.model_tdep.breaks + 30.
                for q in obj.breaks_delta:
                    obj.breaks_delta[q] = obj.breaks_delta[q] + 20.
            elif how == 'shift':
                # the same arrays, changed in place
                cm.shift(obj.model_tdep.breaks, 30.)
                for q in sorted(obj.breaks_delta):
                    cm.shift(obj.breaks_delta[q], 20.)
                for m in (obj.model_euler, obj.model_cal):
                    for q in sorted(m):
                        cm.shift(m[q].breaks, 10.)
            else:
                obj.model_tdep = world.make_bm(70 + st['s'], 3, 4, 3)
        else:
            if how == 'scale':
                obj.coeffs *= 1.5
                if isinstance(obj.meta, dict):
                    obj.meta['weights'] *= 2.
                elif isinstance(obj.meta, list):
                    obj.meta.append('more')
            elif how == 'assign':
                obj.coeffs = obj.coeffs + 1.
            elif how == 'breaks':
                obj.breaks = obj.breaks + 30.
            elif how == 'shift':
                cm.shift(obj.breaks, 30.)
            else:
                obj.source = 'external' if obj.source == 'internal' else 'internal'

    def driver(self, root, scn, emit):
        self.heard = world.enter(root)
        W = world.take()
        cache = {} if scn['share'] else None
        held = []           # (op, raw result, its encoding when it was returned)
        for i, st in enumerate(scn['steps']):
            k = st['k']
            if k == 'file':
                self.swap(root, st)
                emit(('count', 'state:file replaced', 1))
            elif k == 'gc':
                held.clear()
                gc.collect()
            elif k == 'scribble':
                if st['what'] == 'result':
                    n = sum(self.scribble(raw, st['by']) for _, raw, _ in held)
                    held.clear()
                    emit(('count', 'state:returned arrays edited', n))
                elif cache:
                    held.clear()
                    keys = ops.Args.edit_cached(cache, 0.125 * st['by'])
                    emit(('edited', i, keys, 0.125 * st['by']))
                    emit(('count', 'state:argument arrays edited', len(keys)))
            elif k != 'call':
                self.state_step(st, W)
                emit(('count', 'state:' + k, 1))
            else:
                self.one_call(i, st, W, cache, held, root, emit)
            if k == 'model':
                held.clear()
        return None

    @staticmethod
    def show(v, other):
        if isinstance(v, dict):
            v = {k: x for k, x in v.items() if k not in other or other[k] != x}
        return str(v)[:200]

    @staticmethod
    def scribble(raw, by, depth=0):
        n = 0
        if isinstance(raw, np.ndarray) and raw.dtype.kind in 'fc' and raw.flags.writeable and raw.size:
            raw += by
            return 1
        if isinstance(raw, dict):
            raw = list(raw.values())
        if isinstance(raw, (list, tuple)) and depth < 4:
            for x in raw:
                n += CHECK.scribble(x, by, depth + 1)
        return n

    def one_call(self, i, st, W, cache, held, root, emit):
        a = ops.Args(cache)
        said = world.Said(*self.heard)
        before = (W.snapshot(), cm.snap(), world.process_state())
        if 'at' in st:
            exc = cm.EXC[st['exc']]
            out, raw = None, None
            try:
                (out, raw), fired = sched.interrupt_at(lambda: ops.call(W, st['d'], a), st['at'], exc, st.get('depth'))
            except exc as e:
                if 'injected' not in str(e):
                    raise
                fired = True
            if fired:
                emit(('count', 'fault:' + st['exc'], 1))
                out = None
        elif 'faults' in st:
            disk = io.Disk(root)
            disk.plan(st['faults'])
            with disk:
                out, raw = ops.call(W, st['d'], a)
            inj = io.injected(disk.journal())
            for k, n in inj.items():
                emit(('count', 'fault:' + k, n))
            if inj:
                out = None
            disk.clear()
        else:
            out, raw = ops.call(W, st['d'], a)
        told = said.get(root)
        after = (W.snapshot(), cm.snap(), world.process_state())
        ch = a.changed()
        if ch:
            emit(('viol', 'argument-changed', '%s changed its input %s' % (st['d'], ch)))
            for key, v, orig in a.given:
                if isinstance(v, np.ndarray):
                    v[...] = orig
        d = same(after[0], before[0], rtol=0, atol=0)
        if d:
            emit(('viol', 'model-changed', '%s changed a model: %s' % (st['d'], d)))
        d = cm.diff(after[1], before[1])
        if d:
            emit(('viol', 'config-changed', '%s changed %s' % (st['d'], d)))
        for k in before[2]:
            if before[2][k] != after[2][k]:
                emit(('viol', 'process-state-changed', '%s changed %s: %s -> %s' % (st['d'], k, self.show(before[2][k], after[2][k]), self.show(after[2][k], before[2][k]))))
        for name, r0, e0 in held:
            d = same(enc(r0), e0, rtol=0, atol=0)
            if d:
                emit(('viol', 'earlier-result-changed', '%s changed what an earlier %s returned: %s' % (st['d'], name, d)))
                held.remove((name, r0, e0))
                break
        if out is not None:
            emit(('out', i, out, told))
            if out[0] == 'ok' and isinstance(raw, (np.ndarray, tuple, list, dict)):
                if 'poke' in st:
                    self.poke(st, W, raw, after, emit)
                else:
                    held.append((st['d']['op'], raw, out[1]))

    def poke(self, st, W, raw, before, emit):
        """The caller edits what it got: neither models nor configuration may notice."""
        if not self.scribble(raw, 3.5):
            return
        emit(('count', 'state:result edited at once', 1))
        d = same(W.snapshot(), before[0], rtol=0, atol=0) or cm.diff(cm.snap(), before[1])
        if d:
            emit(('viol', 'result-is-shared', 'editing what %s returned changed %s' % (st['d'], d)))
