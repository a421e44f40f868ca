"""C19: results and files are the same in every environment: interpreter options, hash seed, random state, memory contents, directory, locale."""
import ctypes
import decimal
import gc
import os
import random
import re
import sys
import threading

import numpy as np

from sim import core, io, net, ops, others, world
from . import c09

ROOTS = ('w', 'with space', 'w{0}{}', 'w%s%d', '#w', 'a' * 120, "it's", 'w\\n', '-w', '~', 'w[1]', '[a-v]*', 'w?')
NUISANCE = ('memory', 'memory', 'random', 'print', 'decimal', 'gc', 'thread', 'listing', 'err', 'layout', 'layout', 'parts', 'umask', 'nostdin', 'depth')
LAYOUTS = ('strided', 'fortran', 'readonly', 'swapped', 'negative')
FILLS = (float('nan'), 1e300, -7.25, float('inf'), 3e-310, 1.)


def layout(v, how):
    """The same numbers, otherwise placed in memory."""
    if not isinstance(v, np.ndarray) or v.dtype.kind not in 'fiu' or v.ndim == 0:
        return v
    if how == 'strided':
        w = np.full(v.shape + (3,), 9.25, dtype=v.dtype)
        w[..., 1] = v
        return w[..., 1]
    if how == 'fortran':
        return np.asfortranarray(v)
    if how == 'readonly':
        w = v.copy()
        w.flags.writeable = False
        return w
    if how == 'swapped':
        return v.astype(v.dtype.newbyteorder())
    return v[tuple([slice(None, None, -1)] * v.ndim)].copy()[tuple([slice(None, None, -1)] * v.ndim)]


class Args(ops.Args):
    how = None

    def reg(self, key, make):
        return super().reg(key, (lambda: layout(make(), self.how)) if self.how else make)


def fill_empty(value):
    """numpy.empty gives memory with the given contents."""
    real, like = np.empty, np.empty_like

    def put(a):
        if isinstance(a, np.ndarray) and a.size < 10 ** 7 and a.dtype.kind in 'fciub':
            if a.dtype.kind in 'fc':
                a[...] = value
            else:
                a.view('u1')[...] = 0xa5 if a.dtype.kind != 'b' and a.ndim and a.flags.c_contiguous else 1 if a.dtype.kind == 'b' else 0xa5
        return a

    def safe(a):
        try:
            return put(a)
        except (ValueError, TypeError, OverflowError):
            return a

    def empty(*a, **k):
        return safe(real(*a, **k))

    def empty_like(*a, **k):
        return safe(like(*a, **k))
    np.empty, np.empty_like = empty, empty_like


class CHECK(core.Check):
    pid = 'C19'
    runs = dict(quick=5500, thorough=120000)
    wall = dict(quick=230, thorough=3000)
    rule = 'calls executed in another interpreter (hash seed, options, locale) and under other circumstances than the base run'
    distinct_by = 'calls with arguments, interpreter, circumstances'
    assumptions = ['arguments and files are valid, or are data files and configuration values the package has to refuse',
                   'file names and contents are ASCII when the locale is', 'same libraries and number of threads of the linear algebra']
    real = 'all public calls, in interpreters with other options'
    stub = 'contents of numpy.empty, malloc perturbation, order of directory listings, clock'
    shrinkable = ('steps', 'nuisance')

    def setup(self):
        world.fixtures()
        self.others = others.Others('C19')

    def gen(self, r, i, tier):
        pool = ops.select('eval io load save', ('plot', 'slow', 'odd') if r.random() < 0.8 else ('plot', 'odd') if r.random() < 0.5 else ('plot', 'slow'))
        steps = []
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            k = r.random()
            if k < 0.12:
                s = dict(k='other', d=r.choice(['refresh', 'fetch', 'conf', 'conf str', 'matlab', 'reset']), s=r.randrange(1000))
            elif k < 0.25:
                s = dict(k='refuse', d=r.choice(['gsm', 'sm', 'value', 'value', 'value', 'json']), s=r.randrange(1000))
            else:
                s = dict(k='op', d=ops.gen(r, pool))
            steps.append(s)
        kind = r.choice(list(others.KINDS))
        nuisance = r.sample(sorted(set(NUISANCE)), r.choice([0, 1, 1, 2, 3]))
        if r.random() < 0.15:
            nuisance = sorted(set(nuisance) | {'memory'})
        return dict(steps=steps, kind=kind, nuisance=nuisance,
                    root='w' if r.random() < 0.5 else r.choice(ROOTS), link=r.random() < 0.2, seed=r.randrange(2 ** 31), layout=r.choice(LAYOUTS),
                    fill=r.randrange(len(FILLS)))

    # -- in the simulated process -----------------------------------------------------------------
    def do(self, W, s, how):
        if s['k'] == 'op':
            a = Args()
            a.how = how
            return ops.call(W, s['d'], a)[0]
        d = s['d']
        conf = world.cp.basicConfig
        r = random.Random(s['s'])
        try:
            if s['k'] == 'refuse':
                if d in ('gsm', 'sm'):
                    with conf.context('file.%s_spectrum' % d.upper(), '%s%d.npz' % (d, r.choice([1, 2]))):
                        f = getattr(W.chaos[0], 'synth_coeffs_' + d)
                        return ('ok', world.enc(f(1010.5, **(dict(rc=1.) if d == 'sm' else {}))))
                key, val = r.choice([('params.r_surf', 'word'), ('params.dipole', [1., 2.]), ('params.dipole', [[1., 2., 3.]]), ('params.dipole', [1., 2., 3., 4.]),
                                     ('params.dipole', 3.), ('params.ellipsoid', [1.]), ('params.ellipsoid', [[6378., 6356.]]), ('params.version', 3), ('params.r_surf', [1., 2.]),
                                     ('params.CDC_version', None), ('file.RC_index', 5), ('plots.figure_width', 'x'), ('params.r_cmb', None), ('no.such', 1),
                                     ('params.euler_sequence', 5)])
                if d == 'value':
                    conf[key] = val
                else:
                    import json
                    json.dump({key: val}, open('bad.json', 'w'))
                    conf.load('bad.json')
                return ('ok', {k: world.enc(v) for k, v in conf.items()})
            if d == 'conf':
                conf.save('c.json')
                conf.load('c.json')
                return ('ok', [open('c.json').read(), {k: world.enc(v) for k, v in conf.items()}])
            if d == 'reset':
                conf.reset(sorted(conf)[s['s'] % len(conf)])
                conf.fullreset()
                world.set_config(None)
                return ('ok', {k: world.enc(v) for k, v in conf.items()})
            if d == 'conf str':
                return ('ok', str(conf))
            if d == 'matlab':
                W.chaos[s['s'] % 3].save_matfile('m.mat')
                return ('ok', world.enc(world.ch.load_CHAOS_matfile('m.mat')))

            def serve(path):
                return (200, {}, c09.listing('good', 'x.dat')) if path == c09.PATH else (200, {}, c09.data('good', 5, 30))
            with net.Net(serve) as n:
                if d == 'fetch':
                    return ('ok', [world.enc(world.du.load_RC_datfile()), n.log])
                world.du.save_RC_h5file('r.h5')
                import h5py
                with h5py.File('r.h5', 'r') as h:
                    return ('ok', [{k: h[k][:] for k in h}, n.log])
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:200])

    def upset(self, scn):
        n = scn['nuisance']
        r = random.Random(scn['seed'])
        if 'random' in n:
            np.random.seed(r.randrange(2 ** 32))
            random.seed(r.random())
        if 'memory' in n:
            ctypes.CDLL(None).mallopt(-6, r.choice([0x5a, 0xff, 0x7f, 0x3f]))
            fill_empty(FILLS[scn['fill']])
        if 'print' in n:
            np.set_printoptions(precision=2, threshold=4, edgeitems=1, linewidth=20, suppress=True, floatmode='fixed')
        if 'decimal' in n:
            decimal.getcontext().prec = 3
        if 'gc' in n:
            gc.unfreeze()
            gc.set_threshold(*r.choice([(1, 1, 1), (0, 0, 0)]))
        if 'listing' in n:
            ls = os.listdir
            os.listdir = lambda *a: sorted(ls(*a), reverse=True)
        if 'err' in n:
            np.seterr(all='ignore')
        if 'umask' in n:
            os.umask(r.choice([0o077, 0]))
        if 'nostdin' in n:
            sys.stdin = None

    def driver(self, scn, root, base):
        def run(emit):
            out, wl = world.enter(root)
            W = world.take()
            how = None
            if base:
                ctypes.CDLL(None).mallopt(-6, 0xff)      # new memory is zero
                fill_empty(0)
            else:
                self.upset(scn)
                how = scn['layout'] if 'layout' in scn['nuisance'] else None
                if 'parts' in scn['nuisance']:
                    for m in W.bm + [p for c in W.chaos for p in vars(c).values() if isinstance(p, world.ch.BaseModel)]:
                        h = scn['layout'].replace('swapped', 'fortran')      # SciPy takes native numbers only
                        m.breaks = layout(m.breaks, h)
                        m.coeffs = layout(m.coeffs, h)
            res = []

            def work():
                here = os.getcwd()
                for s in scn['steps']:
                    said = world.Said(out, wl)
                    with io.Clock(1600000000 * 10 ** 9, 1000):
                        o = self.do(W, s, how)
                    t, w = said.get(root)
                    res.append((o, t.replace(here, '.'), [x.replace(here, '.') for x in w]))

            def deep(n):
                return deep(n - 1) if n else work()
            if not base and 'thread' in scn['nuisance']:
                t = threading.Thread(target=work)
                t.start()
                t.join()
            elif not base and 'depth' in scn['nuisance']:
                deep(200)
            else:
                work()
            return res
        return run

    # -- outside ---------------------------------------------------------------------------------
    def execute(self, scn):
        res = core.Result()
        both = []
        for base in (True, False):
            with core.Scratch() as top:
                root = os.path.join(top, 'w' if base else scn['root'])
                os.makedirs(root)
                world.populate(root)
                if base:
                    c = core.fork_run(self.driver(scn, root, True))
                    c = dict(status=c.status, result=c.result)
                else:
                    if scn['link']:
                        os.symlink(root, os.path.join(top, 'link'))
                        root = os.path.join(top, 'link')
                    c = self.others.run(scn['kind'], 'driver', scn, root, False)
                if c['status'] != 'done':
                    res.violate('hang', 'calls ended with %s (%s)' % (c['status'], 'base' if base else scn['kind']))
                    return res
                both.append(c['result'])
        res.sig = core.sig(scn)
        res.nontrivial = True
        res.count('fault:interpreter %s' % scn['kind'])
        for n in scn['nuisance']:
            res.count('fault:%s' % (n if n not in ('layout', 'parts') else n + ' ' + scn['layout']))
        if scn['root'] != 'w':
            res.count('fault:working directory %s' % scn['root'][:10])
        for k, s in enumerate(scn['steps']):
            (a, ta, wa), (b, tb, wb) = both[0][k], both[1][k]
            res.log.append([b[0], world.brief(b[1]) if b[0] == 'ok' else b[1]])
            if a[0] == 'ok' and isinstance(a[1], str) and 'print' in scn['nuisance']:
                continue
            if s['k'] == 'op' and scn['kind'] in ('-O', '-OO') and a[:2] == ('exc', 'AssertionError'):
                continue      # invalid arguments
            e = world.same_outcome(b, a, rtol=1e-12, atol=1e-12)
            if s['k'] == 'refuse' and a[0] == 'ok':
                e = 'accepted in the plain interpreter'
            if not e and re.sub(r'\d+\.\d+', '#', ta) != re.sub(r'\d+\.\d+', '#', tb):
                e = 'printed %r, otherwise %r' % (tb[:200], ta[:200])
            if 'print' in scn['nuisance']:
                wa, wb = [[re.sub(r'\[.*?\]', '[]', x, flags=re.S) for x in w] for w in (wa, wb)]
            if not e and wa != wb:
                e = 'warned %s, otherwise %s' % (wb, wa)
            if e:
                res.violate('environment-dependent', '%s in interpreter %s, %s, directory %r: %s' % (s['d'], scn['kind'], scn['nuisance'] + [scn['layout']], scn['root'], e))
        return res
