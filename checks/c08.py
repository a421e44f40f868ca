"""C08: files that lost data are never loaded as complete models."""
import os
import shutil

import numpy as np

from sim import core, io, world
from sim.world import ch, du
from . import c07

TEXT = dict(shc=('shc', 'shc_chaos', 'shc_raw'), covobs=('covobs',), gufm=('gufm',), cals=('cals',), igrf=('igrf',))
# part -> words by which a warning may name it
NAMES = dict(model_static=('static',), coeffs_sm=('external',), coeffs_gsm=('external',), n_sm=('external',), n_gsm=('external',),
             breaks_delta=('external',), coeffs_delta=('external',), model_euler=('euler',), model_cal=('calib',),
             prerotation=('prerotation', 'params'))


def own(lost, warned):
    """There is a different warning for each of the lost parts."""
    if not lost:
        return True
    return any(any(w in t for w in lost[0]) and own(lost[1:], warned[:i] + warned[i + 1:]) for i, t in enumerate(warned))


def load(how, path):
    return dict(shc=ch.BaseModel.from_shc, shc_chaos=ch.load_CHAOS_shcfile, shc_raw=du.load_shcfile, covobs=ch.load_CovObs_txtfile,
                gufm=ch.load_gufm1_txtfile, cals=ch.load_CALS7K_txtfile, igrf=ch.load_IGRF_txtfile, mat=ch.load_CHAOS_matfile)[how](path)


def tokens(text):
    """Numbers (and words) of the data lines."""
    return [w for ln in text.split('\n') if not ln.lstrip().startswith('#') for w in ln.split()]


def mat_v5(path, c):
    """Small MAT-file in the older (v5) format, laid out like the published files."""
    import scipy.io as sio
    cell = lambda a: np.array([[*a, None]], dtype=object)[:, :-1]   # noqa: E731
    pp = c.model_tdep.to_ppdict()
    d = dict(pp=pp, g=c.model_static.coeffs.reshape((-1, 1)),
             params=dict(Euler_prerotation=c.meta['params']['Euler_prerotation']),
             model_ext=dict(t_break_q10=c.breaks_delta['q10'].reshape((-1, 1)), q10=c.coeffs_delta['q10'].reshape((-1, 1)),
                            t_break_qs11=c.breaks_delta['q11'].reshape((-1, 1)),
                            qs11=np.stack((c.coeffs_delta['q11'].ravel(), c.coeffs_delta['s11'].ravel()), axis=-1),
                            m_sm=c.coeffs_sm.reshape((-1, 1)), m_gsm=c.coeffs_gsm[[0, 3]].reshape((-1, 1)), m_Dst=c.coeffs_sm[:3].reshape((-1, 1))),
             pp_CAL=cell([c.model_cal['cryosat-2_1'].to_ppdict()]),
             model_Euler=dict(t_break_Euler=cell([m.breaks.reshape((-1, 1)) for m in c.model_euler.values()]),
                              **{k: cell([m.coeffs[0, :, i:i + 1] for m in c.model_euler.values()]) for i, k in enumerate(('alpha', 'beta', 'gamma'))}))
    order = sorted(d)
    world.rs(int(c.coeffs_sm[0] * 1e6) % 1000).shuffle(order)
    sio.savemat(path, {k: d[k] for k in order}, do_compression=True)


class CHECK(core.Check):
    pid = 'C08'
    runs = dict(quick=8500, thorough=340000)
    wall = dict(quick=200, thorough=3000)
    rule = 'file lacks at least one whole number (text) or any byte, variable or field (MAT)'
    distinct_by = 'file contents and damage'
    assumptions = ['text files that only lack digits of their last number are not distinguishable by any reader and not claimed',
                   'comment lines do not count as data',
                   'IGRF files state no degree: one that ends after the last row of a degree is a complete file of that degree']
    real = 'all loaders, the SHC and MAT writers, hdf5storage, h5py, scipy.io'
    stub = 'the writer dies through the LD_PRELOAD shim; truncation and zeroing applied to the finished file'
    shrinkable = ()

    def gen(self, r, i, tier):
        fmt = r.choice(['shc', 'shc', 'shc', 'covobs', 'gufm', 'cals', 'igrf', 'mat', 'mat', 'mat', 'mat5'])
        scn = dict(fmt=fmt, seed=r.randrange(10 ** 6), nmax=r.choice([1, 2, 2, 3, 5]), nmin=1, order=r.choice([1, 2, 3, 4, 6]), pieces=r.choice([1, 2, 4, 6]),
                   frac=r.choice([r.random(), r.random(), r.random() ** 4, 1 - r.random() ** 4, 1 - r.random() ** 8]),
                   line=r.random() < 0.4, zero=r.random() < 0.1)
        if fmt in TEXT:
            scn['how'] = r.choice(TEXT[fmt])
            scn['mode'] = r.choice(['cut', 'cut', 'crash']) if fmt == 'shc' else 'cut'
            if fmt == 'shc' and r.random() < 0.3:
                scn['nmin'] = min(scn['nmax'], r.choice([2, 3]))
            if scn['mode'] == 'crash':
                scn['nmax'] = r.choice([2, 5, 9, 12])
                scn['prev'] = r.choice([None, 'valid'])
                scn['faults'] = [dict(on=['write'], path='m.shc', nth=r.choice([1, 1, 2, 3, 5]), action=r.choice(['crash_torn', 'crash_after', 'crash_before']),
                                      arg=r.randrange(8192))]
        else:
            scn['how'] = 'mat'
            scn['nsat'] = r.choice([1, 2, 3])
            scn['mode'] = r.choice(['cut', 'drop', 'drop']) if fmt == 'mat5' else r.choice(['cut', 'drop', 'drop', 'crash', 'crash', 'crash'])
            scn['drop'] = r.sample(['g', 'model_ext', 'model_Euler', 'pp_CAL', 'params'], r.choice([2, 2, 3, 4])) if r.random() < 0.25 else r.sample(['g', 'model_ext', 'model_Euler', 'pp_CAL', 'params', 'pp', 'model_ext/m_sm', 'model_ext/qs11', 'model_Euler/gamma',
                                    'model_Euler/t_break_Euler', 'model_ext/m_Dst', 'model_ext/m_gsm', 'model_ext/t_break_q10', 'pp/coefs', 'pp/breaks',
                                    'params/Euler_prerotation'], r.choice([1, 1, 1, 2, 3]))
            if scn['mode'] == 'crash':
                a = r.choice(['crash_before', 'crash_after', 'crash_torn'])
                scn['faults'] = [dict(on=['write'] if a == 'crash_torn' else [r.choice(['write', 'close-write', 'open-write'])], path='m.mat',
                                      nth=r.randrange(1, 70), action=a, arg=r.randrange(2000))]
                if scn['faults'][0]['on'] != ['write']:
                    scn['faults'][0]['nth'] = r.randrange(1, 24)
                scn['prev'] = r.choice([None, None, 'other'])
        if r.random() < 0.05:       # as large as real models: two-digit degrees, compressed MAT-variables
            scn.update(nmax=r.choice([10, 11, 13]), pieces=r.choice([6, 12]))
        return scn

    # -- producing the complete and the damaged file --------------------------------------------
    def chaos(self, scn):
        return world.make_chaos(scn['seed'], nt=scn['nmax'], ns=scn['nmax'] + 2, order=scn['order'], pieces=scn['pieces'], nsat=scn['nsat'])

    def text(self, scn):
        f, s = scn['fmt'], scn['seed']
        if f == 'shc':
            return world.shc_text(s, nmin=scn['nmin'], nmax=scn['nmax'], order=scn['order'], pieces=scn['pieces'], trailing=s % 2 == 0)
        if f == 'covobs':
            return world.covobs_text(s, nmax=scn['nmax'], order=max(2, scn['order']), nspl=scn['pieces'] + 1)
        if f == 'igrf':
            return world.igrf_text(s, nmax=scn['nmax'], nb=scn['pieces'] + 1)
        return dict(gufm=world.gufm_text, cals=world.cals_text)[f](s, nmax=scn['nmax'], nspl=scn['pieces'] + 1)

    def execute(self, scn):
        res = core.Result()
        with core.Scratch() as root:
            os.makedirs(os.path.join(root, 'tmp'))
            name = 'm.shc' if scn['fmt'] == 'shc' else ('m.mat' if scn['how'] == 'mat' else 'm.txt')
            path = os.path.join(root, name)
            lacking = self.damage(scn, root, name, path, res)
            res.sig = core.sig(scn)
            if lacking is None:
                return res
            res.nontrivial = True
            res.count('fault:' + scn['mode'] + (' zeroed tail' if scn['zero'] and scn['mode'] == 'cut' else ''))

            def reader(p):
                def run(emit):
                    _, wl = world.enter(root, False)
                    try:
                        m = load(scn['how'], p)
                    except Exception as e:
                        return ('raised', type(e).__name__, str(e)[:150])
                    if scn['how'] == 'mat':
                        return ('loaded', c07.parts_of(m), [w[1] for w in wl.items])
                    return ('loaded', world.brief(world.enc(m)), [w[1] for w in wl.items])
                return core.fork_run(run)
            c = reader(name)
            if c.status != 'done':
                res.violate('hang', 'loading ended with %s' % c.status)
                return res
            out = c.result
            res.log.append([lacking, out[0], out[1] if out[0] == 'raised' else ''])
            if out[0] == 'raised':
                res.count('refused')
                return res
            res.count('loaded')
            if scn['how'] != 'mat':
                res.violate('incomplete-loaded', '%s file (%s) was loaded as complete: %s' % (scn['fmt'], lacking, out[1][:200]))
                return res
            full = reader(name + '.full')
            if full.status != 'done' or full.result[0] != 'loaded':
                raise core.HarnessError('complete file does not load: %s %s' % (full.status, full.result))
            self.compare(res, out, full.result, lacking)
        return res

    def compare(self, res, out, full, lacking):
        missing = []
        for k, want in full[1].items():
            got = out[1][k]
            if want is None:
                if got is not None:
                    res.violate('part-changed', '%s appeared from nowhere (%s)' % (k, lacking))
                continue
            if got is None:
                missing.append(k)
                continue
            a, b = got, want
            if k == 'model_euler':      # the pre-rotation stored with the angles is a part of its own
                strip = lambda d: {s: (v[0], {q: x for q, x in v[1].items() if q != 'meta'}) for s, v in d.items()}  # noqa: E731
                a, b = strip(got), strip(want)
            e = world.same(a, b, rtol=0, atol=0)
            if e:
                res.violate('part-changed', '%s: %s (%s)' % (k, e, lacking))
        # every missing part has a warning of its own
        lost = sorted(set(NAMES.get(k, ('?',)) for k in missing))
        if not own(lost, [w.lower() for w in out[2]]):
            res.violate('missing-not-reported', '%s missing without warnings naming each (%s; warnings %s)' % (missing, lacking, out[2][:5]))
        res.log.append(missing)
        for k in missing:
            res.count('warned: ' + k)

    def damage(self, scn, root, name, path, res):
        """Returns a description of what the file lacks, or None if it lacks nothing (claimed)."""
        if scn['fmt'] in TEXT:
            if scn['mode'] == 'crash':
                return self.crash_shc(scn, root, name, path)
            text = self.text(scn)
            n = int(scn['frac'] * len(text))
            if scn['line']:     # cut at the end of a line
                n = text.rfind('\n', 0, n + 1) + (scn['seed'] % 2)
            n = max(0, min(n, len(text) - 1))
            part = text[:n]
            lack = len(tokens(text)) - len(tokens(part))
            data = part.encode() + (b'\0' * (len(text) - n) if scn['zero'] else b'')
            open(path, 'wb').write(data)
            if scn['fmt'] == 'igrf' and not scn['zero'] and self.whole(part, scn['pieces'] + 1):
                return None
            return 'first %d of %d bytes, %d numbers missing' % (n, len(text), lack) if lack > 0 else None
        if scn['mode'] == 'crash':
            return self.crash_mat(scn, root, name, path)

        def mk(emit):
            world.enter(root, False)
            if scn['fmt'] == 'mat5':
                mat_v5(path, self.chaos(scn))
            else:
                self.chaos(scn).save_matfile(path)
        core.fork_run(mk)
        shutil.copy(path, path + '.full')
        if scn['mode'] == 'cut':
            size = os.path.getsize(path)
            n = min(size - 1, int(scn['frac'] * size))
            data = open(path, 'rb').read()[:n]
            open(path, 'wb').write(data)
            return 'first %d of %d bytes' % (n, size)
        drop = scn['drop']
        if scn['fmt'] == 'mat5':
            def cut(emit):
                import scipy.io as sio
                d = {k: v for k, v in sio.loadmat(path).items() if not k.startswith('__')}
                for k in drop:
                    top, _, sub = k.partition('/')
                    if not sub:
                        d.pop(top, None)
                    elif top in d:
                        d[top] = {q: d[top][q][0, 0] for q in d[top].dtype.names if q != sub} if not isinstance(d[top], dict) else {
                            q: v for q, v in d[top].items() if q != sub}
                sio.savemat(path, d)
        else:
            def cut(emit):
                import h5py
                with h5py.File(path, 'a') as f:
                    for k in drop:
                        if k in f:
                            del f[k]
        core.fork_run(cut)
        return 'without %s' % drop

    @staticmethod
    def whole(part, nb):
        """The lines read like an IGRF file of lower degree."""
        rows = [ln.split() for ln in part.split('\n') if ln.strip() and not ln.lstrip().startswith(('#', 'c/s'))][1:]
        return bool(rows) and len(rows[-1]) == nb + 4 and int((len(rows) + 1) ** 0.5 + 1e-9) ** 2 == len(rows) + 1

    def crash_shc(self, scn, root, name, path):
        m = world.make_bm(scn['seed'], nmax=scn['nmax'], order=scn['order'], pieces=scn['pieces'])
        if scn['prev'] == 'valid':
            open(path, 'w').write(world.shc_text(scn['seed'] + 1))

        def writer(emit):
            world.enter(root, False)
            m.to_shc(name)
            return open(path).read()
        full = core.fork_run(writer).result
        if scn['prev'] == 'valid':
            open(path, 'w').write(world.shc_text(scn['seed'] + 1))
        else:
            os.unlink(path)

        def dying(emit):
            world.enter(root, False)
            d = io.Disk(root)
            d.plan(scn['faults'])
            with d:
                m.to_shc(name)
        c = core.fork_run(dying)
        if c.status != 'crash' or not os.path.exists(path):
            return None
        now = open(path).read()
        if scn['prev'] == 'valid' and now == world.shc_text(scn['seed'] + 1):
            return None
        lack = len(tokens(full)) - len(tokens(now))
        return 'writer died at %s: %d numbers missing' % (scn['faults'][0], lack) if lack > 0 else None

    def crash_mat(self, scn, root, name, path):
        def mk(emit):
            world.enter(root, False)
            self.chaos(scn).save_matfile(path + '.full')
        core.fork_run(mk)
        if scn['prev'] == 'other':
            shutil.copy(os.path.join(world.fixtures(), 'small1.mat'), path)

        def dying(emit):
            world.enter(root, False)
            c = self.chaos(scn)
            d = io.Disk(root)
            d.plan(scn['faults'])
            with d:
                c.save_matfile(name)
        c = core.fork_run(dying)
        if c.status != 'crash' or not os.path.exists(path):
            return None
        if scn['prev'] == 'other' and open(path, 'rb').read() == open(os.path.join(world.fixtures(), 'small1.mat'), 'rb').read():
            return None
        return 'writer died at %s' % (scn['faults'][0],)

    def setup(self):
        world.fixtures()
