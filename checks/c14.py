"""C14: saved rotation spectra are complete, equal the returned ones and are the ones an evaluation uses."""
import os
import pathlib

import numpy as np

from sim import core, world
from sim.world import ch, cp, cu
from . import saving

KEYS = ('frequency', 'spectrum', 'frequency_ind', 'spectrum_ind')


class CHECK(saving.SaveCheck):
    pid = 'C14'
    announce = ('Output saved to',)
    runs = dict(quick=11000, thorough=440000)
    wall = dict(quick=230, thorough=3000)
    rule = 'save with at least one crash or injected fault that took effect, or a configuration change during the computation'
    distinct_by = 'options, previous file and fault plan'
    assumptions = ['process death loses user-space buffers but not what the kernel accepted (no power loss)',
                   'NumPy appends .npz to names without that ending (documented there)',
                   'the meaning of start_date in later evaluations is not judged (only that it is stored)']
    real = 'chaosmagpy.coordinate_utils, chaosmagpy.chaos (evaluation), numpy.savez, zipfile'
    stub = 'system calls below libc where the plan injects faults (LD_PRELOAD shim)'
    size_hint = 60000
    max_nth = 12
    retry_ok = True     # zipfile tries again if opening fails

    def setup(self):
        world.fixtures()

    def gen(self, r, i, tier):
        scn = dict(seed=r.randrange(10 ** 6), n=r.choice([1, 1, 2, 2, 3]), k=r.choice([1, 2, 2, 2]), N=r.choice([8, 12, 13, 24, 40]), step=r.choice([None, 1.0, 2.0, 0.5, 24]),
                   filter=r.choice([None, None, 1, 3, 5]), ref=r.choice([None, 'gsm', 'GSM', 'sm', 'sm']), scaled=r.choice([None, False, True, True]),
                   start=r.choice([None, None, 0.0, 1234.5]), q=r.choice([None, None, 'own']), dipole=r.choice([0, 1, 2]),
                   dest=r.choice(['out.npz', 'out.npz', 'sub/out.npz', 'a b.npz', 'ünï.npz', 'no dir/out.npz', 'bare.npz', 'gsm.npz']), as_path=r.random() < 0.2,
                   prev=r.choice([None, None, 'valid', 'long', 'short']), switch=None)
        if r.random() < 0.25:
            scn['q'] = 'own'
            scn['switch'] = [r.choice([0, 0, 1, 2]), (scn['dipole'] + 1) % 3, r.choice(['set', 'set', 'context'])]
        self.gen_faults(r, scn)
        if r.random() < 0.2:
            scn['bystanders'] = []
        return scn

    def may_raise(self, scn):
        return scn['dest'].startswith('no dir')

    def config(self, scn):
        return {'params.dipole': world.DIPOLES[scn['dipole']]}

    def prepare(self, scn, root):
        world.populate(root, ('rc.h5', 'gsm.npz', 'sm.npz', 'cond.dat', 'coast.zip'))
        p = os.path.join(root, scn['dest'])
        if scn['prev'] and os.path.isdir(os.path.dirname(p)):
            if scn['prev'] == 'short':
                open(p, 'w').write('PK')
            else:
                world.write_spectrum(p, 3, world.DIPOLES[1], k=40 if scn['prev'] == 'long' else 4)

    def compute(self, scn, save_to):
        calls = [0]

        def qfunc(f, k):
            if scn['switch'] and scn['switch'][0] == calls[0]:
                other = np.array(world.DIPOLES[scn['switch'][1]])
                if scn['switch'][2] == 'set':
                    cp.basicConfig['params.dipole'] = other
                else:
                    with cp.basicConfig.context('params.dipole', other):
                        pass
            calls[0] += 1
            return 0.1 * (k + 1) * np.exp(1j * f * 3600)
        return cu.rotate_gauss_fft(scn['n'], scn['k'], qfunc=qfunc if scn['q'] else None, step=scn['step'], N=scn['N'], filter=scn['filter'], save_to=save_to,
                                   reference=scn['ref'], scaled=scn['scaled'], start_date=scn['start'])

    def save(self, scn):
        dest = scn['dest'][:-4] if scn['dest'] == 'bare.npz' else scn['dest']
        out = self.compute(scn, pathlib.Path(dest) if scn['as_path'] else dest)
        return [np.array(x) for x in out]

    # -- oracle -------------------------------------------------------------------------------
    def check_ack(self, scn, root, res, info):
        if scn['switch']:
            res.count('fault:configuration changed during the computation')
        super().check_ack(scn, root, res, info)

    def judge(self, scn, info):
        dip = np.array(world.DIPOLES[scn['dipole']])
        if info is None or scn['switch']:     # died at the announcement, or: what one dipole throughout gives
            with world.quiet():
                ref = self.compute(dict(scn, switch=None), None)
            if info is not None and any(world.same(np.asarray(a), np.asarray(b)) for a, b in zip(info, ref)):
                yield 'file-wrong', 'the returned arrays are not those of the dipole in force at the call'
                return
            info = ref if info is None else info
        try:
            with open(scn['dest'], 'rb') as fh, np.load(fh) as f:
                got = {k: f[k] for k in f.files}
        except Exception as e:
            yield 'file-incomplete', 'cannot be read: %s %s' % (type(e).__name__, str(e)[:100])
            return
        for k, want in zip(KEYS, info):
            e = 'missing' if k not in got else world.same(got[k], np.asarray(want), rtol=1e-12, atol=1e-14)
            if e:
                yield 'file-incomplete', '%s: %s' % (k, e)
        want = dict(step=1.0 if scn['step'] is None else scn['step'], N=scn['N'], filter=scn['N'] // 2 + 1 if scn['filter'] is None else scn['filter'],
                    scaled=bool(scn['scaled']), start_date=scn['start'] or 0.0)
        for k, v in want.items():
            if k not in got or got[k].shape != () or float(got[k]) != float(v):
                yield 'file-wrong', '%s is %s, used %s' % (k, got.get(k), v)
        if str(got.get('reference')).lower() != (scn['ref'] or 'gsm').lower():
            yield 'file-wrong', 'reference is %s, used %s' % (got.get('reference'), scn['ref'])
        if 'dipole' not in got or got['dipole'].shape != (3,) or np.any(got['dipole'] != dip):
            yield 'file-wrong', 'dipole is %s, used %s' % (got.get('dipole'), dip)
            return
        if scn['n'] < scn['k'] or (scn['start'] or 0.) != 0.:
            return
        yield from self.evaluate(scn, info, dip)

    def evaluate(self, scn, info, dip):
        f, s, fi, si = [np.asarray(x) for x in info]
        ref = (scn['ref'] or 'gsm').lower()
        dim = scn['k'] * (scn['k'] + 2)
        r = world.rs(scn['seed'])
        c = r.normal(size=dim) * 10
        b = np.array([world.T0, world.T1])
        d = r.normal(size=3)
        z = {k: np.array([[x]]) for k, x in zip(('q10', 'q11', 's11'), d)}
        m = ch.CHAOS(b, 1, coeffs_tdep=np.zeros((1, 1, 3)), coeffs_static=np.zeros((1, 1, 3)), coeffs_sm=c, coeffs_gsm=c, breaks_delta=dict(q10=b, q11=b, s11=b), coeffs_delta=z)
        t = r.uniform(1001, 1050, size=3)
        key = 'file.GSM_spectrum' if ref == 'gsm' else 'file.SM_spectrum'
        cp.basicConfig['params.dipole'] = dip
        try:
            cp.basicConfig[key] = scn['dest']
        except Exception as e:
            yield 'not-used', 'cannot be configured: %s' % e
            return

        def ev(source):
            if ref == 'gsm':
                return m.synth_coeffs_gsm(t, source=source)
            return m.synth_coeffs_sm(t, source=source, rc=0.5)
        for source, fr, sp in (('external', f, s), ('internal', fi, si)):
            w = np.where((fr > 0) & (not scn['scaled']), 2., 1.)
            rot = np.sum(np.real(w * sp * np.exp(2j * np.pi * fr * t[:, None, None, None])), axis=1)
            if ref == 'gsm':
                want = rot @ c
            elif source == 'external':
                rot_ext = rot
                want = rot @ np.r_[0.5 * c[:3] + d, c[3:]]
            else:
                want = rot @ np.r_[d, c[3:]]
                want[:, :3] += rot_ext[:, :3, :3] @ (0.5 * c[:3])
            want = want[:, :dim]
            try:
                e = world.same(np.asarray(ev(source)), want, rtol=1e-7, atol=1e-9)
            except Exception as x:
                e = 'raised %s %s' % (type(x).__name__, str(x)[:100])
            if e:
                yield 'not-used', '%s %s field of the saved spectrum (scaled=%s): %s' % (ref, source, scn['scaled'], e)
        other = dip.copy()
        other[scn['seed'] % 3] *= [1.5, -1., 1 + 1e-9, 1.01][scn['seed'] % 4]
        cp.basicConfig['params.dipole'] = other
        try:
            ev('external')
        except Exception:
            return
        yield 'not-refused', 'evaluation with dipole %s accepted the spectrum of %s' % (other, dip)
