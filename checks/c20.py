"""C20: an interrupt ends the call, and a call that runs out of memory or stack raises or is exactly right."""
import asyncio
import errno
import os
import sys
import warnings

import numpy as np

from sim import core, io, net, ops, sched, world
from . import c09, c15

EXC = dict(KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit, CancelledError=asyncio.CancelledError, MemoryError=MemoryError)
OTHER = ('fetch', 'refresh', 'conf', 'matlab', 'warn', 'set', 'set')


class CHECK(core.Check):
    pid = 'C20'
    runs = dict(quick=8000, thorough=240000)
    wall = dict(quick=230, thorough=3000)
    rule = 'calls in which an interrupt, a failed allocation or an exhausted stack was injected'
    distinct_by = 'calls with arguments, kind and place of the fault'
    assumptions = ['HDF5 and OpenSSL are not used again after an allocation failed in them', 'interrupts arrive between two source lines of chaosmagpy or at a file operation', 'allocations of less than 1025 bytes (NumPy keeps those, so that they depend on its history) do not fail',
                   'an interrupt that third-party code discards may be lost if the result is right']
    real = 'all public calls'
    stub = 'malloc, calloc and realloc of planned failures, recursion limit, trace function that raises'
    shrinkable = ('points',)

    def setup(self):
        world.fixtures()
        for f in os.listdir(sched.PKG):
            if f.endswith('.py'):
                sched.guarded(sched.PKG + f)

    def gen(self, r, i, tier):
        pool = ops.select('eval io load save', ('plot', 'slow') if r.random() < 0.85 else ('plot',))
        if r.random() < 0.15:
            step = dict(k='other', d=r.choice(OTHER))
        elif r.random() < 0.15:      # every load and save alike
            step = dict(k='op', d=ops.gen_op(r, r.choice([o for o in pool if o.tags & {'load', 'save', 'io', 'file'}])))
        elif r.random() < 0.4:
            step = dict(k='op', d=ops.gen_op(r, r.choice(pool)))
        else:
            step = dict(k='op', d=ops.gen(r, pool))
        how = r.choice(['line', 'line', 'line', 'line', 'alloc', 'alloc', 'alloc', 'stack', 'warning'] + (['sigint', 'sigint'] if {'io', 'load', 'save', 'file', 'rc'} & self.tags(step) else []))
        s = dict(step=step, how=how, rc=r.choice(['rc.h5', 'rc.dat', 'rc.h5']))
        if how == 'line':
            s['exc'] = r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'SystemExit', 'CancelledError', 'MemoryError'])
            s['distinct'] = r.random() < 0.7
            if not s['distinct'] and r.random() < 0.5:
                s['depth'] = r.choice([1, 1, 2, 3])
        elif how == 'alloc':
            s['least'] = r.choice([1025, 1025, 1025, 4096, 20000])
            s['times'] = r.choice([1, 1, 3, 10 ** 6])
        elif how == 'warning':
            s['err'] = r.choice(['raise', 'raise', 'ignore'])
        elif how == 'stack':
            s['points'] = [r.choice([3, 5, 8, r.randrange(3, 60)]) for k in range(3)]
        # where the faults come: as a fraction of the call, one after the other; stack: frames that are left
        s.setdefault('points', [r.random() for k in range({'line': 5, 'sigint': 2}.get(how, 1))])
        return s

    def tags(self, step):
        return set(ops.OPS[step['d']['op']].tags) if step['k'] == 'op' else {'io'}

    # -- in the simulated process -----------------------------------------------------------------
    def do(self, W, s):
        if s['k'] == 'op':
            return ops.call(W, s['d'])[0]
        d = s['d']
        conf = world.cp.basicConfig
        try:
            if d == 'conf':
                conf['params.r_surf'] = 6371.
                conf.save('c.json')
                conf.load('c.json')
                conf.reset('params.dipole')
                return ('ok', [open('c.json').read(), {k: world.enc(v) for k, v in conf.items()}])
            if d == 'set':
                conf.fullreset()
                for k, v in (('params.dipole', [-29000., -1500., 4600.]), ('params.ellipsoid', (6378., 6356.)), ('params.version', '7.1'), ('file.SM_spectrum', 'sm1.npz'),
                             ('params.r_cmb', 3480), ('plots.figure_width', 5), ('params.CDC_version', '0101')):
                    conf[k] = v
                conf.reset('params.r_cmb')
                got = {k: world.enc(v) for k, v in conf.items()}
                conf.fullreset()
                return ('ok', [got, {k: world.enc(v) for k, v in conf.items()}])
            if d == 'matlab':
                W.chaos[1].save_matfile('m.mat')
                return ('ok', world.enc(world.ch.load_CHAOS_matfile('m.mat')))
            if d == 'warn':
                with conf.context('file.GSM_spectrum', 'gsm1.npz'):
                    return ('ok', world.enc(W.chaos[0].synth_coeffs_gsm(1010.5)))

            def serve(path):
                return (200, {}, c09.listing('good', 'x.dat')) if path == c09.PATH else (200, {}, c09.data('good', 5, 30))
            with net.Net(serve):
                if d == 'fetch':
                    return ('ok', [world.enc(world.du.load_RC_datfile())])
                world.du.save_RC_h5file('r.h5')
            if not os.path.exists('r.h5'):
                return ('exc', 'NoFile', '')
            import h5py
            with h5py.File('r.h5', 'r') as h:
                return ('ok', [{k: h[k][:] for k in h}])
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:200])

    def driver(self, scn, root, fault, count):
        """Runs the call: undisturbed (fault None), or with the fault, and again undisturbed."""
        def run(emit):
            out, self.wl = world.enter(root)
            W = world.take()
            world.cp.basicConfig['file.RC_index'] = scn['rc']
            s = scn['step']
            if not fault:
                with io.Memory(scn.get('least', 0)) as m, io.Disk(root) as disk:
                    disk.plan([])
                    if scn['how'] == 'line':
                        o, n = (sched.distinct_lines if scn['distinct'] else sched.count_lines)(lambda: self.do(W, s))
                    else:
                        o, n = self.do(W, s), 0
                return o, n or m.seen or len(disk.journal())
            for x in scn['points']:
                at = x if scn['how'] == 'stack' else count[int(x * len(count))] if isinstance(count, list) else 1 + int(x * count)
                drop = []
                with c15.suppressed(drop):
                    o, fired = self.disturbed(W, scn, root, at)
                # HDF5 and OpenSSL themselves stay broken after an allocation failed in them
                again = None if scn['how'] == 'alloc' and self.tags(s) & {'io', 'load', 'save', 'file', 'rc'} else self.do(W, s)
                emit(('fault', o, fired, again, bool(drop and o[0] == 'ok')))
        return run

    # fired: 2 if HDF5 takes part, whose Python layer discards what is raised while it releases objects
    def disturbed(self, W, scn, root, at):
        s = scn['step']
        fired = 0
        if scn['how'] == 'line':
            exc = EXC[scn['exc']]
            try:
                o, fired = sched.interrupt_at(lambda: self.do(W, s), at, exc, scn.get('depth'))
            except exc as e:
                o, fired = ('exc', type(e).__name__, str(e)), 1
        elif scn['how'] == 'alloc':
            with io.Memory(scn['least'], at, scn['times']) as m:
                try:
                    o = self.do(W, s)
                except MemoryError as e:      # raised again while the outcome was taken down
                    o = ('exc', 'MemoryError', str(e))
            fired = m.fired
        elif scn['how'] == 'sigint':
            with io.Disk(root) as disk:
                disk.plan([dict(on=['open-read', 'open-write', 'read', 'write', 'close-read', 'close-write', 'unlink', 'rename'], nth=at, action='sigint')])
                try:
                    o = self.do(W, s)
                except KeyboardInterrupt:
                    o = ('exc', 'KeyboardInterrupt', '')
                j = disk.journal()
                fired = sum(io.injected(j).values()) and (2 if any('.h5' in x['path'] or '.mat' in x['path'] for x in j) else 1)
        elif scn['how'] == 'warning':      # raised as exceptions, like floating-point errors
            n = len(self.wl.items)
            with warnings.catch_warnings(), np.errstate(all=scn['err']):
                warnings.simplefilter('error', UserWarning)
                warnings.simplefilter('error', RuntimeWarning)
                o = self.do(W, s)
            fired = int(o[0] == 'exc' or len(self.wl.items) > n)
        else:
            was = sys.getrecursionlimit()
            depth, f = 0, sys._getframe()
            while f:
                depth, f = depth + 1, f.f_back
            # the call itself comes later in the same frames: what is left counts from here
            sys.setrecursionlimit(depth + 4 + at)
            try:
                o = self.do(W, s)
            except RecursionError as e:
                o = ('exc', 'RecursionError', str(e)[:100])
            finally:
                sys.setrecursionlimit(was)
            fired = 1
        return o, fired

    # -- outside ---------------------------------------------------------------------------------
    def execute(self, scn):
        res = core.Result()
        got = []
        for fault in (False, True):
            with core.Scratch() as root:
                world.populate(root)
                c = core.fork_run(self.driver(scn, root, fault, got[0][1] if fault else 0))
            for v in c.events:
                if v[0] == 'count':
                    res.count(v[1], v[2])
            if c.status.startswith('signal') and scn['how'] == 'alloc':
                res.count('probe:C library died of a failed allocation')
                return res
            if c.status != 'done':
                res.violate('hang', '%s ended with %s (fault: %s)' % (scn['step'], c.status, fault))
                return res
            got.append(c.result)
        res.sig = core.sig(scn)
        for v in c.events:
            if v[0] == 'fault':
                self.judge(res, scn, got[0][0], *v[1:])
        return res

    def judge(self, res, scn, a, b, fired, again, drop):
        s = scn['step']
        name = s['d'] if s['k'] == 'other' else s['d']['op']
        res.log.append([scn['how'], b[0], b[1] if b[0] == 'exc' else '', int(bool(fired))])
        if fired:
            res.nontrivial = True
            res.count('fault:%s' % (scn.get('exc') or {'alloc': 'allocation fails', 'sigint': 'SIGINT at a file operation', 'stack': 'stack exhausted', 'warning': 'warnings and floating-point errors raised'}[scn['how']]))
        e = world.same_outcome(b, a)
        if fired:
            if scn['how'] == 'line' and scn['exc'] != 'MemoryError':
                if b[:2] != ('exc', scn['exc']):
                    res.violate('interrupt-swallowed', '%s: %s was discarded: %s' % (name, scn['exc'], b[:2] if b[0] == 'exc' else e or 'returned'))
            elif scn['how'] == 'sigint' and fired == 1 and b[:2] != ('exc', 'KeyboardInterrupt'):
                res.violate('interrupt-swallowed', '%s: SIGINT was discarded: %s' % (name, b[:2] if b[0] == 'exc' else e or 'returned'))
            elif b[0] == 'ok' and e:
                res.violate('wrong-result', '%s returned after a fault (%s)%s: %s' % (name, scn['how'], ', discarded by hdf5storage' if drop else '', e))
        elif e:
            res.violate('not-repeatable', '%s: %s' % (name, e))
        e = again and world.same_outcome(again, a)
        if e:
            res.violate('lasting-effect', '%s, repeated after a fault (%s): %s' % (name, scn['how'], e))
