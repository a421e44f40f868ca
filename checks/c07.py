"""C07: MAT-files: announced means complete and reloadable."""
import os
import pathlib
import shutil

import numpy as np

from sim import core, world
from sim.world import ch, du
from . import saving

PARTS = ('model_tdep', 'model_static', 'coeffs_sm', 'coeffs_gsm', 'n_sm', 'n_gsm', 'breaks_delta', 'coeffs_delta', 'model_euler',
         'model_cal')


def parts_of(m):
    e = world.enc(m)[1]
    out = {k: e[k] for k in PARTS}
    for k in ('model_tdep', 'model_static'):
        if out[k]:
            out[k][1].pop('name')
    for d in ('model_euler', 'model_cal'):
        for b in (out[d] or {}).values():
            b[1].pop('meta', None) if d == 'model_cal' else None
    p = (e['meta'] or {}).get('params', {}) or {}
    out['prerotation'] = p.get('Euler_prerotation')
    return out


class CHECK(saving.SaveCheck):
    pid = 'C07'
    announce = ('CHAOS saved',)
    runs = dict(quick=8000, thorough=320000)
    wall = dict(quick=240, thorough=3000)
    rule = 'save with at least one crash or injected fault that took effect'
    distinct_by = 'model, options, previous file and fault plan'
    assumptions = ['process death loses user-space buffers but not what the kernel accepted (no power loss)',
                   'models are fully specified in the sense of the MAT-format (parts present are complete; names from the default list)']
    real = 'chaosmagpy.chaos, chaosmagpy.data_utils, hdf5storage, h5py, HDF5'
    stub = 'system calls below libc where the plan injects faults (LD_PRELOAD shim)'
    size_hint = 60000
    max_nth = 60
    retry_ok = True
    hdf5 = True

    def gen(self, r, i, tier):
        scn = dict(kind=r.choice(['chaos', 'chaos', 'chaos', 'base']), seed=r.randrange(10 ** 6), nt=r.choice([1, 2, 3, 5]),
                   dn=r.choice([1, 2, 4]), order=r.choice([1, 2, 3, 4, 6]), pieces=r.choice([1, 2, 4, 7]),
                   parts=['tdep'] + [p for p in ('static', 'ext', 'euler', 'cal') if r.random() < 0.8],
                   nsat=r.choice([1, 2, 3, 3, 9]), ep=r.choice([1, 2, 4]), equal=r.random() < 0.3, q10=r.choice([1, 2, 8]), q11=r.choice([1, 2, 5]),
                   cal=r.choice([1, 2, 3]), vals=r.choice([None, None] + world.SPECIAL),
                   vals_in=r.choice([['static'], ['tdep'], ['tdep', 'static'], ['sm', 'gsm', 'delta'], ['euler', 'cal']]), single_break=r.random() < 0.2,
                   dest=r.choice(['out.mat', 'out.mat', 'sub/out.mat', 'a b.mat', 'no dir/out.mat', 'model', 'v1.2.mat']),
                   as_path=r.random() < 0.2, path=r.choice([None, None, '/pp', '/other', 'third']),
                   prev=r.choice([None, None, None, 'same', 'more', 'foreign', 'garbage', 'torn', 'empty']))
        self.gen_faults(r, scn)
        if r.random() < 0.05:       # as large as real models: compressed variables
            scn.update(nt=r.choice([8, 14]), order=6, pieces=r.choice([10, 25]), q10=r.choice([8, 2500]), q11=r.choice([5, 1200]), ep=r.choice([4, 2100]))
        return scn

    def may_raise(self, scn):
        if scn['dest'].startswith('no dir'):
            return True
        if scn['kind'] == 'base':
            return scn['prev'] in ('same', 'more', 'garbage', 'torn', 'empty')
        return False

    def setup(self):
        world.fixtures()

    def prepare(self, scn, root):
        p = os.path.join(root, scn['dest'])
        if not scn['prev'] or not os.path.isdir(os.path.dirname(p)):
            return
        v = scn['prev']
        fix = world.fixtures()
        if v in ('same', 'more'):
            shutil.copy(os.path.join(fix, 'small.mat' if v == 'more' else 'small1.mat'), p)
        elif v == 'torn':
            open(p, 'wb').write(open(os.path.join(fix, 'small.mat'), 'rb').read()[:9000])
        elif v == 'garbage':
            open(p, 'wb').write(b'not a MAT-file' * 400)
        elif v == 'empty':
            open(p, 'wb').close()
        else:
            def mk(emit):
                import hdf5storage as hdf
                hdf.write(dict(z=np.ones((3, 3))), path='/foreign', filename=p, matlab_compatible=True)
                hdf.write(np.ones((5, 1)), path='/g', filename=p, matlab_compatible=True)
            core.fork_run(mk)

    # -- what is saved -------------------------------------------------------------------------
    def model(self, scn):
        if scn['kind'] == 'base':
            return world.make_bm(scn['seed'], scn['nt'], scn['order'], scn['pieces'], even=scn['seed'] % 2 == 0, vals=scn['vals'])
        c = world.make_chaos(scn['seed'], nt=scn['nt'], ns=scn['nt'] + scn['dn'], order=scn['order'], pieces=scn['pieces'],
                             parts=scn['parts'], nsat=scn['nsat'], euler_pieces=scn['ep'], npieces_q10=scn['q10'],
                             npieces_q11=scn['q11'], cal_pieces=scn['cal'], vals=scn['vals'], vals_in=scn['vals_in'])
        if c.model_euler and scn['equal']:
            b = next(iter(c.model_euler.values()))
            r = world.rs(scn['seed'] + 9)
            kw = dict(breaks_euler={s: b.breaks + k for k, s in enumerate(c.model_euler)},
                      coeffs_euler={s: r.normal(size=b.coeffs.shape) for s in c.model_euler})
            c2 = ch.CHAOS(c.model_tdep.breaks, scn['order'], coeffs_tdep=c.model_tdep.coeffs, meta=c.meta, name=c.name, **kw)
            c.model_euler = c2.model_euler
        if c.model_euler and scn['single_break'] and scn['ep'] == 1:
            # one satellite with a single set of angles: both ends of its interval coincide
            s = next(iter(c.model_euler))
            m = c.model_euler[s]
            c.model_euler[s] = ch.Base(s, breaks=np.array([700., 700.]), order=1, coeffs=m.coeffs[:, :1], meta=m.meta)
        return c

    def before(self, scn):
        m = self.model(scn)
        path = pathlib.Path(scn['dest']) if scn['as_path'] else scn['dest']
        if scn['kind'] == 'base':
            return lambda scn: m.save_matfile(str(path), path=scn['path'])
        return lambda scn: m.save_matfile(path)

    def judge(self, scn, info):
        want = self.model(scn)
        try:
            if scn['kind'] == 'base':
                key = (scn['path'] or '/pp').strip('/')
                d = du.load_matfile(scn['dest'])
                pp = d[key]
                o, p, n = int(pp['order']), int(pp['pieces']), int(pp['dim'])
                got = ch.BaseModel('x', breaks=pp['breaks'], order=o, coeffs=pp['coefs'].transpose().reshape((o, p, n)))
                a, b = world.enc(got)[1], world.enc(want)[1]
                for k in ('breaks', 'order', 'pieces', 'coeffs', 'dim'):
                    e = world.same(a[k], b[k], rtol=0, atol=0)
                    if e:
                        yield 'reload-differs', '%s: %s' % (k, e)
                if scn['prev'] == 'foreign' and ('foreign' not in d or 'g' not in d):
                    yield 'lost-variables', 'variables saved earlier disappeared: %s' % sorted(d)
                return
            got = ch.load_CHAOS_matfile(scn['dest']) if scn['seed'] % 2 else ch.CHAOS.from_mat(scn['dest'])
        except Exception as e:
            yield 'reload-fails', '%s: %s' % (type(e).__name__, str(e)[:200])
            return
        a, b = parts_of(got), parts_of(want)
        for k in b:
            e = world.same(a[k], b[k], rtol=0, atol=0)
            if e:
                yield 'reload-differs', '%s: %s' % (k, e)
