"""C11: every file and connection a call opens is closed when the call ends."""
import errno
import gc
import os
import shutil
import sys

import numpy as np

from sim import core, io, net, ops, sched, world
from sim.world import cp, du
from . import c09

SRC = ('rc.h5', 'rc.dat', 'gsm.npz', 'sm.npz', 'cond.dat', 'coast.zip', 'model.shc', 'static.shc', 'covobs.txt', 'gufm.txt', 'cals.txt', 'igrf.txt',
       'small.mat', 'five.mat', 'conf.json')


FILES = {'load.text': '4444', 'load.chaos_mat': 'mm', 'du.load_RC_dat': 'rr', 'odd.load': 'oo'}
OPS = ('open-read', 'open-write', 'read', 'write', 'close-read', 'close-write')


class CHECK(core.Check):
    pid = 'C11'
    runs = dict(quick=8000, thorough=320000)
    wall = dict(quick=230, thorough=3000)
    rule = 'call that opened at least one file or connection, with a fault, a damaged file or an error that took effect'
    distinct_by = 'call with arguments, fault or damage, number of repetitions'
    assumptions = ['files and connections whose objects are unreachable are closed by CPython at once (reference counting); the cyclic collector is off',
                   'calls are not interrupted by signals or exceptions from outside',
                   'a native crash inside HDF5 after a write error is judged by C07']
    real = 'all public calls that use files; requests, urllib3, http.client, pandas, h5py, HDF5, hdf5storage, scipy.io, zipfile, pyshp'
    stub = 'system calls below libc where a fault is planned; socket module (sim/net.py)'
    shrinkable = ('faults', 'conns')

    def setup(self):
        world.fixtures()

    def gen(self, r, i, tier):
        pool = ops.select('io load save file', ('plot',) if r.random() < 0.93 else ())
        k = r.random()
        scn = dict(kind='op', d=None, faults=[], damage=[], conns=[], dns=None, reps=r.choice([1, 1, 2, 3]), files={}, listing='good', data='good')
        if k < 0.14:
            scn['kind'] = r.choice(['refresh', 'refresh', 'fetch'])
            n = c09.CHECK()
            for _ in range(50):
                s = n.gen(r, i, tier)
                if s['src'] == 'net':
                    break
            scn.update(conns=s['conns'], dns=s['dns'], listing=s['listing'], data=s['data'], keep=s['keep'])
        elif k < 0.22:
            scn['kind'] = r.choice(['conf.load', 'conf.save', 'conf.set', 'mat5', 'mat5'])
        elif k < 0.245:      # maps whose coastline breaks while it is read
            scn['d'] = ops.gen_op(r, r.choice([o for o in ops.select('plot') if o.name in ('plot.maps_pu', 'plot.maps')]))
            scn['damage'] = [['coast.zip', r.choice(['field', 'utf8', 'dipole']), r.random(), r.randrange(1000)]]
            return scn
        else:
            pool = [o for o in pool for _ in range(len(FILES.get(o.name, 'x')))]      # every loader variant alike
            scn['d'] = ops.gen_op(r, r.choice(pool) if r.random() < 0.8 else ops.gen_pick(r, pool))
            for q in ('t', 'g'):
                if q in scn['d']['args'] and r.random() < 0.8:
                    scn['d']['args'][q]['r'] = 'rc'
            if scn['d']['args'].get('rc') and r.random() < 0.7:
                scn['d']['args']['rc'] = None
            if 'q' in scn['d']['args']:
                scn['d']['args']['q'] = None
        if r.random() < 0.6:
            on = r.choice(['open-read', 'open-read', 'read', 'read', 'read', 'write', 'write', 'open-write', 'close-write', 'close-read'])
            scn['faults'] = [dict(on=[on], nth=r.choice([1, 1, 2, 3, 4, r.randrange(1, 40)]), action='error', times=r.choice([1, 1, 3, 10 ** 6]),
                                  arg=r.choice([errno.EIO, errno.ENOSPC, errno.EACCES, errno.EMFILE]))]
            if r.random() < 0.15:
                scn['faults'] = [dict(action='disk_full', arg=r.choice([0, 100, 5000, r.randrange(60000)]))]
            elif r.random() < 0.75:      # among the operations an undisturbed call makes
                scn['faults'][0].update(on=['any'], frac=r.random(), times=r.choice([1, 1, 10 ** 6]))
        if r.random() < 0.5:
            scn['damage'] = [[r.choice(SRC), r.choice(['missing', 'cut', 'cut', 'garbage', 'empty', 'word', 'word', 'utf8', 'dipole', 'field', 'directory']), r.random(), r.randrange(1000)]
                             for _ in range(r.choice([1, 1, 2, 4]))]
            need = self.wants(scn)
            if need and r.random() < 0.8:
                scn['damage'][0][0] = r.choice(need)
        return scn

    def wants(self, scn):
        if scn['kind'] == 'mat5':
            return ['five.mat']
        if scn['kind'].startswith('conf'):
            return ['conf.json']
        if scn['d'] is None:
            return []
        f = scn['d']['args'].get('f')
        n = scn['d']['op']
        if f:
            return [x for x in SRC if x.startswith(str(f))]
        for k, v in (('gsm', ['gsm.npz']), ('_sm', ['sm.npz', 'rc.h5']), ('chaos.call', ['gsm.npz', 'sm.npz', 'rc.h5']), ('external', ['gsm.npz', 'sm.npz', 'coast.zip']),
                     ('rotate_fft', ['cond.dat']), ('plot', ['coast.zip'])):
            if k in n:
                return v
        return []

    def hurt(self, name, how, frac, seed):
        try:
            self.hurt1(name, how, frac, seed)
        except Exception:      # damaged before: leave as it is
            pass

    def hurt1(self, name, how, frac, seed):
        if not os.path.isfile(name):
            return
        data = open(name, 'rb').read()
        if len(data) < 20:
            return
        os.unlink(name)
        if how == 'directory':
            os.mkdir(name)
        elif how == 'empty':
            open(name, 'w').close()
        elif how == 'garbage':
            open(name, 'wb').write(bytes(range(256)) * 40)
        elif how == 'cut':
            open(name, 'wb').write(data[:int(frac * len(data))])
        elif how in ('word', 'field', 'utf8', 'dipole') and name.endswith('.zip'):
            # a valid archive of damaged files: found while the shapes are read
            import io as bio
            import zipfile
            with zipfile.ZipFile(bio.BytesIO(data)) as z:
                parts = {n: bytearray(z.read(n)) for n in z.namelist()}
            shp = next((n for n in parts if n.endswith('.shp')), None)
            b = parts[shp]
            at = 100 + int(frac * (len(b) - 104)) // 4 * 4
            if how == 'word':
                b[at:at + 4] = b'\x63\0\0\0'
            elif how == 'field':
                b[108:112] = b'\x63\0\0\0'
            elif how == 'utf8':
                del b[at:]
            else:
                n = next((n for n in parts if n.endswith('.dbf')), shp)
                del parts[n][int(frac * len(parts[n])):]
            with zipfile.ZipFile(name, 'w') as z:
                for n, v in parts.items():
                    z.writestr(n, bytes(v))
        elif how in ('dipole', 'field') and name.endswith('.npz'):
            open(name, 'wb').write(data)
            with np.load(name) as z:
                d = dict(z)
            if how == 'dipole':
                d['dipole'] = d['dipole'] * 2
            else:
                d.pop(sorted(d)[seed % len(d)])
            np.savez(name, **d)
        elif how == 'field' and name.endswith(('.h5', 'small.mat')):
            import h5py
            open(name, 'wb').write(data)
            with h5py.File(name, 'a') as h:
                k = [q for q in sorted(h) if not q.startswith('#')]
                del h[k[seed % len(k)]]
        elif how == 'utf8' and not name.endswith(('.npz', '.h5', '.mat', '.zip')):
            k = int(frac * len(data))
            open(name, 'wb').write(data[:k] + b' \xff\xfe ' + data[k:])
        elif how == 'word' and not name.endswith(('.npz', '.h5', '.mat', '.zip')):
            w = data.decode().split('\n')
            k = int(frac * len(w))
            w[k] = 'word ' + w[k]
            open(name, 'w').write('\n'.join(w))
        elif how != 'missing':
            b = bytearray(data)
            for q in range(3):
                b[int(frac * (len(b) - 1 - q)) + q] ^= 0x41
            open(name, 'wb').write(bytes(b))

    def call(self, W, scn):
        k = scn['kind']
        if k == 'op':
            o = ops.OPS[scn['d']['op']]
            return o.fn(W, ops.Args(), **scn['d']['args'])
        if k == 'refresh':
            return du.save_RC_h5file('new.h5')
        if k == 'fetch':
            return du.load_RC_datfile()
        if k == 'conf.load':
            return cp.basicConfig.load('conf.json')
        if k == 'conf.save':
            return cp.basicConfig.save('conf2.json')
        if k == 'conf.set':
            cp.basicConfig['file.RC_index'] = 'rc.h5'
        if k == 'mat5':
            return world.ch.load_CHAOS_matfile('five.mat')

    def five(self):
        p = os.path.join(world.fixtures(), 'five.mat')
        if not os.path.exists(p):
            from . import c08
            c08.mat_v5(p + '.%d' % os.getpid(), world.make_chaos(31, nsat=2))
            os.rename(p + '.%d' % os.getpid() + ('' if os.path.exists(p + '.%d' % os.getpid()) else '.mat'), p)
        return p

    def execute(self, scn):
        res = core.Result()
        with core.Scratch() as root:
            world.populate(root)
            shutil.copy(self.five(), os.path.join(root, 'five.mat'))

            def serve(path):
                if path == c09.PATH:
                    return 200, {}, c09.listing(scn['listing'], 'x.dat')
                if path == c09.PATH + 'x.dat':
                    return 200, {}, c09.data(scn['data'], 3, 60)
                return 404, {}, b'not found'

            def run(emit, scn=scn, journal=False):
                world.enter(root)
                cp.basicConfig.save('conf.json')
                W = world.take()
                for dmg in scn['damage']:
                    self.hurt(*dmg)
                sys.unraisablehook = lambda u: None
                gc.collect()
                gc.disable()
                disk = io.Disk(root)
                disk.plan(scn['faults'])
                held, out = [], []
                with disk, net.Net(serve, scn['conns'], scn['dns'], scn.get('keep')) as n:
                    for _ in range(scn['reps']):
                        try:
                            self.call(W, scn)
                            o = 'returned'
                        except Exception as e:
                            held.append(e)
                            o = type(e).__name__
                        out.append((o, disk.open_files(), n.open_sockets()))
                j = disk.journal()
                if journal:
                    return [dict(op=x['op'], path=x['path']) for x in j]
                tb = []
                for e in held[:1]:
                    t = e.__traceback__
                    while t:
                        tb.append('%s:%s' % (os.path.basename(t.tb_frame.f_code.co_filename), t.tb_frame.f_code.co_name))
                        t = t.tb_next
                names = sorted({x['path'] for x in j if x['op'].startswith('open')})
                return out, io.injected(j), n.fired, names, len(n.sockets), tb[-10:]
            if any('frac' in f for f in scn['faults']):
                with core.Scratch('dry') as other:
                    world.populate(other)
                    shutil.copy(self.five(), os.path.join(other, 'five.mat'))
                    here, root = root, other
                    c = core.fork_run(lambda emit: run(emit, dict(scn, faults=[], damage=[], reps=1), True))
                    root = here
                    done = [x for x in c.result or [] if x['op'] in OPS]
                if done:
                    f = dict(scn['faults'][0])
                    k = int(f['frac'] * len(done))
                    f.update(on=[done[k]['op']], path='=' + done[k]['path'])
                    f['nth'] = sum(x == done[k] for x in done[:k + 1])
                    scn = dict(scn, faults=[f])
                else:
                    scn = dict(scn, faults=[])
            c = core.fork_run(lambda emit: run(emit, scn))
            res.sig = core.sig(scn)
            if c.status.startswith('signal'):
                res.count('native crash (see C07)')
                res.log.append(c.status)
                return res
            if c.status != 'done':
                res.violate('hang', 'call ended with %s' % c.status)
                return res
            out, fired, nfired, names, nsock, tb = c.result
            for k in list(fired) + list(nfired):
                res.count('fault:' + k)
            for d in scn['damage']:
                if d[0] in names:
                    res.count('fault:file ' + d[1])
            res.log.append([[o[0] for o in out], sorted(fired), sorted(nfired), len(names), nsock])
            res.nontrivial = bool(names or nsock) and bool(fired or nfired or any(o[0] != 'returned' for o in out))
            for k, (o, files, socks) in enumerate(out):
                if files:
                    whose = ' (temporary files of a pyshp reader that could not be made)' if 'shapefile.py:__init__' in tb and \
                        all(f[1].startswith('tmp/tmp') for f in files) else ''
                    if tb and 'h5py.h5f.FileID' in tb[-1] and 'close' in tb[-1] and all(f[1].endswith('.mat') for f in files):
                        whose = ' (HDF5 failed to close it)'
                    res.violate('file-left-open', '%s%s after call %d ended with %s; faults %s; raised at %s' % (
                        sorted({f[1] for f in files}), whose, k + 1, o, sorted(fired), tb))
                    break
                if socks:
                    res.violate('connection-left-open', '%d connections after call %d ended with %s; faults %s; raised at %s' % (len(socks), k + 1, o, sorted(nfired), tb))
                    break
        return res
