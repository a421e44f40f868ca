"""C06: SHC files: announced means complete and reloadable."""
import os
import pathlib

import numpy as np
import scipy.interpolate as sip

from sim import world
from sim.world import ch, du
from . import saving


def degrees(nmin, nmax):
    return [(n, m) for n in range(nmin, nmax + 1) for m in [0] + [x for k in range(1, n + 1) for x in (k, -k)]]


def read_shc(path):
    """Independent reader of the format (description: first line after comments, time line, one row per coefficient)."""
    lines = [ln for ln in open(path).read().split('\n') if ln.strip() and not ln.lstrip().startswith('#')]
    nmin, nmax, n, order, step = [int(x) for x in lines[0].split()]
    t = np.array([float(x) for x in lines[1].split()])
    rows = [ln.split() for ln in lines[2:]]
    nm = [(int(x[0]), int(x[1])) for x in rows]
    return nmin, nmax, n, order, step, t, nm, np.array([[float(y) for y in x[2:]] for x in rows])


def to_mjd(t, leap):
    """Decimal years to modified Julian date."""
    if not leap:
        return (np.asarray(t) - 2000.) * 365.25
    out = []
    for x in np.atleast_1d(t):
        y = int(np.floor(x))
        d0 = (np.datetime64('%04d-01-01' % y) - np.datetime64('2000-01-01')).astype(int)
        d1 = (np.datetime64('%04d-01-01' % (y + 1)) - np.datetime64('2000-01-01')).astype(int)
        out.append(d0 + (x - y) * (d1 - d0))
    return np.array(out, dtype=float)


class CHECK(saving.SaveCheck):
    pid = 'C06'
    announce = ('Created SHC',)
    runs = dict(quick=14000, thorough=560000)
    wall = dict(quick=200, thorough=3000)
    rule = 'save with at least one crash or injected fault that took effect'
    distinct_by = 'model, options, previous file and fault plan'
    assumptions = ['process death loses user-space buffers but not what the kernel accepted (no power loss)',
                   'time-dependent models are splines (smooth at the breaks), as the format cannot hold others',
                   'the header, if given, consists of comment lines']
    real = 'chaosmagpy.chaos, chaosmagpy.data_utils (save and load), scipy, Python text I/O'
    stub = 'system calls below libc where the plan injects faults (LD_PRELOAD shim)'
    size_hint = 30000

    def gen(self, r, i, tier):
        kind = r.choice(['bm', 'bm', 'bm', 'tdep', 'tdep', 'static', 'table'])
        scn = dict(kind=kind, seed=r.randrange(10 ** 6), nmax=r.choice([1, 2, 3, 5, 8, 12]), order=r.choice([1, 2, 3, 4, 4, 5, 6, 7, 8]),
                   pieces=r.choice([1, 1, 2, 3, 5, 9]), even=r.random() < 0.5, t0=r.choice([0.0, -3652.5, 1000.25, -36525.0]),
                   span=r.choice([1461.0, 365.25, 2010.7, 7305.0]),
                   leap=r.choice([None, True, False]), nmin=r.choice([None, None, 1, 2, 3]), cut=r.choice([None, None, 0, 1]),
                   header=r.choice([None, None, '# a header\n', '', '# two\n  # lines\n']),
                   dest=r.choice(['out.shc', 'out.shc', 'sub/out.shc', 'a b.shc', 'no dir/out.shc', 'ünï.shc', 'model2']),
                   as_path=r.random() < 0.25, prev=r.choice([None, None, 'short', 'long', 'torn']), scale=r.choice([100., 30000., 1e-3, 1e7, 1e9]),
                   vals=r.choice([None, None, None] + world.SPECIAL))
        if scn['order'] == 1 and r.random() < 0.3:
            scn['pieces'] = 1
        self.gen_faults(r, scn)
        if scn['kind'] != 'tdep' and r.random() < 0.03:      # three-digit degrees and orders, few rows
            hi = r.choice([99, 100, 100, 101, 130, 190])
            scn.update(nmax=hi if scn['kind'] != 'static' else hi - 3, nmin=hi - r.choice([0, 1, 2]), cut=None, pieces=r.choice([1, 2]), order=r.choice([1, 2, 3]))
        elif r.random() < 0.02:     # as large as real models
            scn.update(nmax=r.choice([20, 25]), pieces=r.choice([20, 40]))
        return scn

    def may_raise(self, scn):
        return scn['dest'].startswith('no dir') or self.nmin(scn) > self.nmax(scn)

    def prepare(self, scn, root):
        p = os.path.join(root, scn['dest'])
        if scn['prev'] and os.path.isdir(os.path.dirname(p)):
            open(p, 'w').write({'short': '# old\n', 'long': world.shc_text(5, nmax=9, pieces=9), 'torn': world.shc_text(5)[:200]}[scn['prev']])

    # -- what is saved ------------------------------------------------------------------------
    @staticmethod
    def nmin(scn):
        if scn['kind'] == 'static':
            return scn['nmax'] + 1
        return 1 if scn['nmin'] is None or scn['kind'] == 'tdep' else scn['nmin']

    @staticmethod
    def nmax(scn):
        if scn['kind'] == 'static':
            return scn['nmax'] + 3
        n = scn['nmax']
        if scn['cut'] is not None and scn['kind'] in ('bm', 'table'):
            return max(1, n - scn['cut'])
        return n

    @staticmethod
    def scale(scn):
        """Bound of the values, about."""
        return scn['scale'] * {'big': 1e5, 'mixed': 1e4}.get(scn['vals'], 1.)

    @staticmethod
    def breaks(scn):
        r = world.rs(scn['seed'] + 1)
        t0, t1, p = scn['t0'], scn['t0'] + scn['span'], scn['pieces']
        if scn['even']:
            return np.linspace(t0, t1, p + 1)
        return t0 + (t1 - t0) * np.cumsum(np.concatenate(([0.], r.uniform(0.3, 1., p)))) / 1. / np.sum(
            np.concatenate(([0.], world.rs(scn['seed'] + 1).uniform(0.3, 1., p))))

    def model(self, scn):
        r = world.rs(scn['seed'])
        b = self.breaks(scn)
        n = scn['nmax']
        c = world.smooth_pp(r, b, scn['order'], n * (n + 2), scn['scale'], scn['vals'])
        if scn['kind'] in ('tdep', 'static'):
            s = world.special(scn['vals'], r.normal(size=(1, 1, (n + 3) * (n + 5))) * scn['scale'])
            return ch.CHAOS(b, scn['order'], coeffs_tdep=c, coeffs_static=s, name='My model')
        return ch.BaseModel('My model', breaks=b, order=scn['order'], coeffs=c)

    def table(self, scn):
        n = scn['nmax']
        N = scn['pieces'] + 1
        r = world.rs(scn['seed'])
        t = np.sort(scn['t0'] + r.uniform(0, scn['span'], N))
        c = world.special(scn['vals'], r.normal(size=(N, n * (n + 2))) * scn['scale'])
        if scn['pieces'] == 1:
            return (t[0] if scn['even'] else t[:1]), c[0]
        return t, c

    def leap(self, scn):
        return (scn['leap'] is not False) if scn['kind'] == 'table' else bool(scn['leap'])

    def before(self, scn):
        m = self.table(scn) if scn['kind'] == 'table' else self.model(scn)
        path = pathlib.Path(scn['dest']) if scn['as_path'] else scn['dest']
        nmax = None if scn['cut'] is None else self.nmax(scn)

        def call(scn):
            k = scn['kind']
            if k == 'table':
                du.save_shcfile(m[0], m[1], order=2 if scn['pieces'] > 1 else None, filepath=path, nmin=scn['nmin'], nmax=nmax,
                                leap_year=scn['leap'], header=scn['header'])
            elif k == 'bm':
                m.to_shc(path, leap_year=scn['leap'], nmin=scn['nmin'], nmax=nmax, header=scn['header'])
            else:
                m.save_shcfile(path, model=k if scn['even'] else (None if k == 'tdep' else k), leap_year=scn['leap'])
        return call

    # -- oracle -------------------------------------------------------------------------------
    def judge(self, scn, info):
        k = scn['kind']
        nmin, nmax, leap = self.nmin(scn), self.nmax(scn), self.leap(scn)
        lo, hi = nmin ** 2 - 1, (nmax + 1) ** 2 - 1
        try:
            a, b, n, order, step, years, nm, vals = read_shc(scn['dest'])
        except Exception as e:
            yield 'file-incomplete', 'cannot be parsed: %s %s' % (type(e).__name__, str(e)[:100])
            return
        if (a, b) != (nmin, nmax) or nm != degrees(nmin, nmax):
            yield 'file-incomplete', 'degrees %s-%s, %d rows; expected %d-%d' % (a, b, len(nm), nmin, nmax)
            return
        if years.size != n or vals.shape != (len(nm), n):
            yield 'file-incomplete', 'announces %d times, has %d times and table %s' % (n, years.size, vals.shape)
            return
        mjd = to_mjd(years, leap)
        if k == 'table':
            t, c = self.table(scn)
            t, c = np.atleast_1d(t), np.atleast_2d(c)
            want = c[:, lo:hi]
            worder = 2 if scn['pieces'] > 1 else 1
            slope = 0.
            if n != t.size or np.max(np.abs(mjd - t)) > 5e-6:
                yield 'file-wrong', 'times %s, expected %s' % (mjd[:4], t[:4])
                return
        else:
            m = self.model(scn)
            part = m if k == 'bm' else (m.model_tdep if k == 'tdep' else m.model_static)
            br, worder = np.array(part.breaks, dtype=float), (1 if k == 'static' else scn['order'])
            pp = sip.PPoly(part.coeffs[..., lo:hi], br)
            st = max(worder - 1, 1)
            if worder == 1:
                expect = br[:-1]
                ok = n == expect.size
                ends = mjd
            else:
                expect = br
                ok = n == (br.size - 1) * st + 1
                ends = mjd[::st]
            if not ok or np.max(np.abs(ends - expect)) > 5e-6 or np.any(np.diff(mjd) <= 0):
                yield 'file-wrong', '%d times, every %d: %s; breaks %s' % (n, st, ends[:5], expect[:5])
                return
            slope = np.max(np.abs(pp.derivative()(np.linspace(br[0], br[-1], 200)))) if worder > 1 else 0.
            want = pp(mjd + (1e-5 if worder == 1 else 0.))
        if (order, step) != (worder, worder - 1):
            yield 'file-wrong', 'order %d step %d, expected order %d' % (order, step, worder)
            return
        tol = 1e-8 + 1e-13 * self.scale(scn) + 5e-6 * slope
        if np.max(np.abs(vals.T - want)) > tol:
            yield 'file-wrong', 'coefficients differ by %.3g (tolerance %.2g)' % (np.max(np.abs(vals.T - want)), tol)
            return
        # the package's own readers
        kw = {} if scn['leap'] is None else dict(leap_year=scn['leap'])
        try:
            t2, c2, par = du.load_shcfile(scn['dest'], leap_year=leap)
            if (par['nmin'], par['nmax'], par['order'], par['N']) != (nmin, nmax, worder, n):
                yield 'reload-differs', 'parameters %s' % par
            if np.max(np.abs(t2 - mjd)) > 1e-6 or c2.shape != vals.shape or np.max(np.abs(c2 - vals)) > 1e-9 * (1 + self.scale(scn)):
                yield 'reload-differs', 'load_shcfile gives other times or coefficients'
            if k == 'table':
                return
            if k == 'bm':
                new = ch.BaseModel.from_shc(scn['dest'], **kw)
            else:
                mm = ch.load_CHAOS_shcfile(scn['dest'], **kw)
                new = mm.model_tdep or mm.model_static
                if k == 'tdep' and mm.model_tdep is None and not (worder == 1 and scn['pieces'] == 1):
                    yield 'reload-differs', 'time-dependent part missing'
                    return
            t = np.concatenate((np.linspace(br[0], br[-1], 60), br, br[:-1] + 1e-3))
            t = np.unique(np.clip(t, br[0] + 1e-5, br[-1] - 1e-5)) if br[-1] > br[0] else br[:1]
            if worder == 1:      # away from the jumps
                t = t[np.min(np.abs(t[:, None] - br[None, :]), axis=1) > 1e-4]
            got = new.synth_coeffs(t)
        except Exception as e:
            yield 'reload-fails', '%s: %s' % (type(e).__name__, str(e)[:150])
            return
        full = np.zeros((t.size, nmax * (nmax + 2)))
        full[:, lo:] = pp(t)
        if got.shape != full.shape:
            yield 'reload-differs', 'shape %s, expected %s' % (got.shape, full.shape)
            return
        err = np.max(np.abs(got - full)) if t.size else 0.
        tol = 20 * (1e-8 + 1e-12 * self.scale(scn) + 5e-6 * slope)
        if not err <= tol:
            yield 'reload-differs', 'reloaded model differs by %.3g (tolerance %.2g)' % (err, tol)
