"""Fixture models and files, argument factories, outcome encoding and comparison."""
import contextlib
import datetime as dt
import hashlib
import io as _io
import json
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import warnings

import numpy as np

from . import boot, core

cp = boot.load()
from chaosmagpy import chaos as ch, config_utils as cfg, coordinate_utils as cu  # noqa: E402
from chaosmagpy import data_utils as du, model_utils as mu, plot_utils as pu  # noqa: E402
import pandas as pd  # noqa: E402
import h5py  # noqa: E402
import matplotlib  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402

LIBDIR = os.path.join(core.REPO, 'chaosmagpy', 'lib')
REAL_MAT = os.path.join(core.REPO, 'docs', 'source', '.static', 'examples', 'CHAOS-7.mat')
T0, T1 = 0.0, 1461.0     # period of the synthetic models: 2000-2004
DIPOLES = ([-29442.0, -1501.0, 4797.1], [-29404.8, -1450.9, 4652.5], [-30000.0, 500.0, -2500.0])
SATS = ('oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3')


def rs(seed):
    return np.random.RandomState(seed % (2 ** 32))


# ---- models ----------------------------------------------------------------------------------
SPECIAL = ['tail', 'head', 'zero', 'cols', 'same', 'int', 'big', 'mixed', 'signs']


def special(mode, a):
    """The array with values that are rare among random ones (the last axis runs over the coefficients)."""
    if mode is None:
        return a
    a = np.array(a, dtype=float)
    n = a.shape[-1]
    r = rs(int(abs(a.flat[0]) * 1e6) % 10 ** 6)
    if mode == 'tail':
        a[..., n - r.randint(1, n + 1):] = 0.
    elif mode == 'head':
        a[..., :r.randint(1, n + 1)] = 0.
    elif mode == 'zero':
        a *= 0.
    elif mode == 'cols':
        a[..., r.uniform(size=n) < 0.5] = 0.
    elif mode == 'same':
        a[...] = a.reshape((-1, n))[0]
    elif mode == 'int':
        a = np.round(a)
    elif mode == 'big':
        a *= 10 ** r.uniform(3, 5)
    elif mode == 'mixed':
        a *= 10 ** r.uniform(-6, 4, size=n)
    elif mode == 'signs':
        a = -np.abs(a)
        a[..., r.uniform(size=n) < 0.3] *= 0.        # negative zeros
    return a


def make_bm(seed, nmax=3, order=4, pieces=3, source='internal', t0=T0, t1=T1, name=None, even=True, scale=100., vals=None):
    r = rs(seed)
    if order == 1 and pieces == 0:
        breaks = np.array([t0, t0])
        pieces = 1
    elif even:
        breaks = np.linspace(t0, t1, pieces + 1)
    else:
        breaks = np.concatenate(([t0], np.sort(r.uniform(t0, t1, pieces - 1)), [t1]))
    c = smooth_pp(r, breaks, order, nmax * (nmax + 2), scale, vals)
    return ch.BaseModel(name or 'bm%d' % seed, breaks=breaks, order=order, coeffs=c, source=source)


def smooth_pp(r, breaks, order, dim, scale=100., vals=None):
    """Continuous (spline) piecewise polynomial in PPoly layout (order, pieces, dim)."""
    import scipy.interpolate as sip
    if order == 1:
        return special(vals, r.normal(size=(1, len(breaks) - 1, dim)) * scale)
    deg = order - 1
    knots = np.concatenate((np.repeat(breaks[0], deg), breaks, np.repeat(breaks[-1], deg)))
    c = special(vals, r.normal(size=(len(knots) - order, dim)) * scale)
    pps = [sip.PPoly.from_spline((knots, c[:, k], deg)) for k in range(dim)]
    sl = slice(deg, deg + len(breaks) - 1)
    return np.stack([p.c[:, sl] for p in pps], axis=-1)


def make_chaos(seed, nt=3, ns=6, order=4, pieces=4, parts=('tdep', 'static', 'ext', 'euler', 'cal'), nsat=3,
               euler_pieces=4, meta=True, name=None, npieces_q10=8, npieces_q11=5, cal_pieces=3, prerot=True,
               even=True, vals=None, vals_in=('tdep', 'static', 'sm', 'gsm', 'delta', 'euler', 'cal')):
    r = rs(seed)
    breaks = np.linspace(T0, T1, pieces + 1) if even else np.concatenate(
        ([T0], np.sort(r.uniform(T0, T1, pieces - 1)), [T1]))
    def sp(part, a):
        return special(vals if part in vals_in else None, a)

    kw = dict(name=name or 'chaos%d' % seed)
    if 'tdep' in parts:
        kw['coeffs_tdep'] = smooth_pp(r, breaks, order, nt * (nt + 2), 1000., vals if 'tdep' in vals_in else None)
    if 'static' in parts:
        s = r.normal(size=(1, 1, ns * (ns + 2)))
        s[..., :nt * (nt + 2)] = 0.
        kw['coeffs_static'] = sp('static', s)
    if 'ext' in parts:
        sm = sp('sm', r.normal(size=8))
        gsm = np.zeros(8)
        gsm[[0, 3]] = sp('gsm', r.normal(size=2) * 10)
        bq10 = np.linspace(T0, T1, npieces_q10 + 1)
        bq11 = np.linspace(T0, T1, npieces_q11 + 1)
        q11 = r.normal(size=(1, npieces_q11))
        s11 = r.normal(size=(1, npieces_q11))
        kw.update(coeffs_sm=sm, coeffs_gsm=gsm,
                  breaks_delta=dict(q10=bq10, q11=bq11, s11=bq11),
                  coeffs_delta=dict(q10=sp('delta', r.normal(size=(1, npieces_q10))), q11=sp('delta', q11), s11=sp('delta', s11)))
    sats = SATS[:nsat]
    pr = r.normal(size=(nsat, 3)) if prerot else None
    if 'euler' in parts:
        kw['breaks_euler'] = {s: np.linspace(T0 + 10 * i, T1 - 10 * i, euler_pieces + 1 + i) for i, s in enumerate(sats)}
        kw['coeffs_euler'] = {s: sp('euler', r.normal(size=(1, euler_pieces + i, 3))) for i, s in enumerate(sats)}
    if 'cal' in parts:
        kw['breaks_cal'] = {'cryosat-2_1': np.linspace(T0, T1, cal_pieces + 1)}
        kw['coeffs_cal'] = {'cryosat-2_1': sp('cal', r.normal(size=(1, cal_pieces, 9)))}
    if meta:
        kw['meta'] = dict(params=dict(Euler_prerotation=pr), satellites=tuple(sats))
    return ch.CHAOS(breaks, order, **kw)


# ---- data files ------------------------------------------------------------------------------
def rc_table(seed=0, n=24 * 60, t0=1000.0):
    r = rs(1000 + seed)
    t = t0 + np.arange(n) / 24. + 1 / 48.
    rc = np.round(np.cumsum(r.normal(size=n)) * 0.5, 2)
    e = np.round(0.7 * rc + 1., 2)
    i = np.round(rc - e, 2)
    flag = np.where(rs(91000 + seed).uniform(size=n) < 0.7, 'D', 'P')      # longer tables of one seed continue shorter ones
    return t, rc, e, i, flag


def rc_dat_text(seed=0, n=24 * 60, t0=1000.0):
    t, rc, e, i, flag = rc_table(seed, n, t0)
    lines = ['# RC index test file', '# time RC RC_e RC_i flag']
    lines += ['%.6f %8.2f %8.2f %8.2f %s' % x for x in zip(t, rc, e, i, flag)]
    return '\n'.join(lines) + '\n'


def write_rc_h5(path, seed=0, n=24 * 60, t0=1000.0):
    t, rc, e, i, flag = rc_table(seed, n, t0)
    t = np.array([float('%.6f' % x) for x in t])
    with h5py.File(path, 'w') as f:
        for k, v in (('time', t), ('RC', rc), ('RC_e', e), ('RC_i', i)):
            f.create_dataset(k, data=v)
        d = f.create_dataset('flag', flag.shape, dtype='S1')
        d[:] = flag.astype('bytes')


def write_spectrum(path, seed, dipole, k=6, nmax=2, kmax=2):
    r = rs(2000 + seed)
    sh = (k, nmax * (nmax + 2), kmax * (kmax + 2))
    f = r.uniform(0.2, 3., size=sh)
    f[0] = 0.
    z = lambda: r.normal(size=sh) + 1j * r.normal(size=sh)  # noqa: E731
    np.savez(path, frequency=f, spectrum=z(), frequency_ind=f[::-1].copy(), spectrum_ind=z(), step=1., N=64,
             filter=k, reference='gsm', scaled=bool(seed % 2), dipole=np.array(dipole), start_date=0.)


def shc_text(seed=0, nmin=1, nmax=2, order=3, pieces=2, leap_year=False, trailing=True):
    r = rs(3000 + seed)
    step = max(order - 1, 1)
    n = pieces if order == 1 else pieces * step + 1
    t = np.linspace(2000., 2004., n) if n > 1 else np.array([2000.])
    lines = ['# test model', '# second comment', '%d %d %d %d %d' % (nmin, nmax, n, order, order - 1)]
    lines.append('   ' + ' '.join('%16.8f' % x for x in t))
    for nn in range(nmin, nmax + 1):
        for m in [0] + [x for k in range(1, nn + 1) for x in (k, -k)]:
            lines.append('%d %d ' % (nn, m) + ' '.join('%16.8f' % x for x in r.normal(size=n) * 100))
    return '\n'.join(lines) + ('\n' if trailing else '')


def _rows(v, k=4, fmt='%.6e'):
    return '\n'.join(' '.join(fmt % x for x in v[i:i + k]) for i in range(0, len(v), k))


def covobs_text(seed=0, nmax=2, order=4, nspl=4):
    r = rs(4000 + seed)
    b = np.linspace(1990., 2010., nspl + order)
    return 'COV-OBS test\n%d 0 %d %s\n%s\n' % (nmax, order, ' '.join('%.4f' % x for x in b),
                                             _rows(r.normal(size=nspl * nmax * (nmax + 2)) * 1000))


def gufm_text(seed=0, nmax=2, nspl=4):
    r = rs(5000 + seed)
    b = np.linspace(1990., 2010., nspl + 4)
    return 'gufm1 test\n%d %d\n%s\n%s\n' % (nmax, nspl, _rows(b, 8, '%.4f'),
                                          _rows(r.normal(size=nspl * nmax * (nmax + 2)) * 1000))


def cals_text(seed=0, nmax=2, nspl=4):
    r = rs(6000 + seed)
    b = np.linspace(-100., 1900., nspl + 4)
    s = '%s\n%s\n%s\n' % ('%.4f %.4f 4 0 %d 0 %d' % (b[0], b[-1], nmax, nspl), _rows(b, 6, '%.6e'),
                        _rows(r.normal(size=nspl * nmax * (nmax + 2)) * 1000))
    return s.replace('e', 'D')


def igrf_text(seed=0, nmax=2, nb=4):
    r = rs(7000 + seed)
    yrs = 2000 + 5 * np.arange(nb)
    L = ['# IGRF test', 'c/s deg ord ' + ' '.join(['IGRF'] * nb) + ' SV',
         'g/h n m ' + ' '.join('%.1f' % y for y in yrs) + ' %d-%02d' % (yrs[-1], (yrs[-1] + 5) % 100)]
    for n in range(1, nmax + 1):
        for m in range(n + 1):
            for g in ('g',) if m == 0 else ('g', 'h'):
                L.append('%s %d %d ' % (g, n, m) + ' '.join('%.2f' % x for x in r.normal(size=nb + 1) * 100))
    return '\n'.join(L) + '\n'


TEXT_FILES = {'covobs.txt': covobs_text, 'gufm.txt': gufm_text, 'cals.txt': cals_text, 'igrf.txt': igrf_text}


class World:
    """Everything a simulated process shares: models, and where the data files are."""

    def __init__(self):
        self.bm = [make_bm(1, 3, 4, 3), make_bm(2, 4, 2, 5, source='external'), make_bm(3, 3, 1, 4),
                   make_bm(4, 2, 6, 2, even=False), make_bm(5, 3, 4, 3)]
        self.bm[1].meta = dict(author='someone', weights=np.arange(3.))
        self.bm[3].meta = ['a', 'list']
        self.chaos = [make_chaos(11), make_chaos(12, nt=4, ns=7, order=3, pieces=3), make_chaos(13)]

    def snapshot(self):
        return [enc(m) for m in self.bm] + [enc(c) for c in self.chaos]


_fixdir = None
_proto = None


def take():
    """The world of this (forked) process: made in the zygote, handed out once."""
    global _proto
    w, _proto = _proto, None
    return w or World()


def fixtures():
    """Directory with pristine data files (built once, in the zygote)."""
    global _fixdir
    if _fixdir is None:
        d = os.path.join(core.scratch_base(), 'fix')
        os.makedirs(d, exist_ok=True)
        for s in (0, 1):
            tag = '' if s == 0 else '1'
            write_rc_h5(os.path.join(d, 'rc%s.h5' % tag), s)
            open(os.path.join(d, 'rc%s.dat' % tag), 'w').write(rc_dat_text(s))
            for name, f in TEXT_FILES.items():
                a, b = name.split('.')
                open(os.path.join(d, a + tag + '.' + b), 'w').write(f(s))
            open(os.path.join(d, 'model%s.shc' % tag), 'w').write(shc_text(s))
            open(os.path.join(d, 'static%s.shc' % tag), 'w').write(shc_text(s, nmin=2, nmax=4, order=1, pieces=1))
        shutil.copy(os.path.join(LIBDIR, 'frequency_spectrum_gsm.npz'), os.path.join(d, 'gsm_real.npz'))
        shutil.copy(os.path.join(LIBDIR, 'frequency_spectrum_sm.npz'), os.path.join(d, 'sm_real.npz'))
        for k, dip in enumerate(DIPOLES):
            write_spectrum(os.path.join(d, 'gsm%d.npz' % k), k, dip)
            write_spectrum(os.path.join(d, 'sm%d.npz' % k), k + 10, dip)
        write_spectrum(os.path.join(d, 'gsm0b.npz'), 7, DIPOLES[0])
        write_spectrum(os.path.join(d, 'sm0b.npz'), 17, DIPOLES[0])
        shutil.copy(os.path.join(LIBDIR, 'Earth_conductivity.dat'), os.path.join(d, 'cond.dat'))
        a = np.loadtxt(os.path.join(d, 'cond.dat'))
        a[:, 1] *= 3.
        np.savetxt(os.path.join(d, 'cond1.dat'), a)
        shutil.copy(os.path.join(LIBDIR, 'ne_110m_coastline.zip'), os.path.join(d, 'coast.zip'))
        with quiet():
            make_chaos(21).save_matfile(os.path.join(d, 'small.mat'))
            make_chaos(22, nt=2, ns=4, order=3).save_matfile(os.path.join(d, 'small1.mat'))
        for f in ('gsm', 'sm'):
            shutil.copy(os.path.join(d, f + '0.npz'), os.path.join(d, f + '.npz'))
        _fixdir = d
        global _proto
        _proto = World()
    return _fixdir


ALL_FILES = ('rc.h5', 'rc.dat', 'rc1.h5', 'rc1.dat', 'gsm.npz', 'sm.npz', 'gsm1.npz', 'sm1.npz', 'gsm2.npz', 'sm2.npz',
             'gsm0b.npz', 'sm0b.npz', 'cond.dat', 'cond1.dat', 'coast.zip', 'model.shc', 'model1.shc', 'static.shc',
             'static1.shc', 'covobs.txt', 'gufm.txt', 'cals.txt', 'igrf.txt', 'covobs1.txt', 'gufm1.txt', 'cals1.txt',
             'igrf1.txt', 'small.mat', 'small1.mat')


def populate(root, names=ALL_FILES):
    d = fixtures()
    for n in names:
        shutil.copyfile(os.path.join(d, n), os.path.join(root, n))
    os.makedirs(os.path.join(root, 'sub'), exist_ok=True)


BASE_CONFIG = {'file.RC_index': 'rc.h5', 'file.GSM_spectrum': 'gsm.npz', 'file.SM_spectrum': 'sm.npz',
               'file.Earth_conductivity': 'cond.dat', 'file.shp_coastline': 'coast.zip'}


def set_config(values):
    c = cp.basicConfig
    for k, v in {**BASE_CONFIG, **(values or {})}.items():
        c[k] = v


# ---- encoding and comparison -------------------------------------------------------------------
def enc(o, depth=0):
    """Plain, picklable, copied representation of a result."""
    if depth > 12:
        return 'deep'
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('objarr', list(o.shape), [enc(x, depth + 1) for x in o.ravel()])
        return np.array(o, copy=True)
    if isinstance(o, (np.generic,)):
        return np.array(o)
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        return o
    if isinstance(o, ch.CHAOS):
        me = {k: enc(getattr(o, k, None), depth + 1) for k in (
            'name', 'model_tdep', 'model_static', 'coeffs_sm', 'n_sm', 'coeffs_gsm', 'n_gsm', 'breaks_delta',
            'coeffs_delta', 'model_euler', 'model_cal', 'meta')}
        return ('CHAOS', me)
    if isinstance(o, ch.Base):
        return (type(o).__name__, {k: enc(getattr(o, k, None), depth + 1) for k in (
            'name', 'breaks', 'pieces', 'order', 'coeffs', 'dim', 'nmax', 'source', 'meta')})
    if isinstance(o, pd.DataFrame):
        return ('df', [str(c) for c in o.columns], {str(c): (
            [str(x) for x in o[c]] if str(o[c].dtype) in ('category', 'object', 'str') else np.array(o[c])) for c in o.columns},
            np.array(o.index))
    if isinstance(o, dict):
        return {str(k): enc(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(x, depth + 1) for x in o]
    if isinstance(o, dt.datetime):
        return o.isoformat()
    return ('obj', type(o).__name__)


def same(a, b, rtol=1e-9, atol=1e-10):
    """None if equal, else a short description of the difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return 'type %s vs %s' % (type(a).__name__, type(b).__name__)
        if a.shape != b.shape:
            return 'shape %s vs %s' % (a.shape, b.shape)
        if a.dtype.kind != b.dtype.kind:
            return 'dtype %s vs %s' % (a.dtype, b.dtype)
        if a.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                scale = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0)), initial=0.0)
                ok = (np.abs(a - b) <= atol * max(1., scale) + rtol * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))
            if not np.all(ok):
                i = int(np.argmin(ok.ravel()))
                return 'value %r vs %r at flat index %d of shape %s (%d differ)' % (
                    a.ravel()[i], b.ravel()[i], i, a.shape, int(np.sum(~ok)))
            return None
        return None if np.array_equal(a, b) else 'values differ'
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return 'type %s vs %s' % (type(a).__name__, type(b).__name__)
    if isinstance(a, dict):
        if set(a) != set(b):
            return 'keys %s vs %s' % (sorted(a), sorted(b))
        for k in a:
            d = same(a[k], b[k], rtol, atol)
            if d:
                return '%s: %s' % (k, d)
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return 'length %d vs %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, rtol, atol)
            if d:
                return '[%d] %s' % (i, d)
        return None
    if isinstance(a, float) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b) or abs(a - b) <= atol + rtol * abs(b):
            return None
        return '%r vs %r' % (a, b)
    if isinstance(a, complex):
        return None if abs(a - b) <= atol + rtol * abs(b) else '%r vs %r' % (a, b)
    return None if a == b else '%r vs %r' % (str(a)[:200], str(b)[:200])


def brief(o):
    """Short deterministic digest of an encoded value for logs (6 significant digits)."""
    if isinstance(o, np.ndarray):
        if o.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                s = ','.join('%.5g' % abs(x) for x in np.atleast_1d(o).ravel()[:3])
        else:
            s = ','.join(str(x) for x in np.atleast_1d(o).ravel()[:3])
        return '%s%s' % (list(o.shape), s)
    if isinstance(o, dict):
        return '{%s}' % ','.join('%s:%s' % (k, brief(v)) for k, v in list(o.items())[:6])
    if isinstance(o, (list, tuple)):
        return '(%s)' % ','.join(brief(x) for x in o[:4])
    if isinstance(o, float):
        return '%.5g' % o
    return str(o)[:60]


def same_outcome(a, b, **kw):
    """a, b: ('ok', value, warnings) / ('exc', type, text, warnings)."""
    if a[0] != b[0]:
        return '%s vs %s' % (a[:3] if a[0] == 'exc' else 'returned ' + brief(a[1]),
                             b[:3] if b[0] == 'exc' else 'returned ' + brief(b[1]))
    if a[0] == 'exc':
        return None if a[1] == b[1] else 'raised %s (%s) vs %s (%s)' % (a[1], a[2][:100], b[1], b[2][:100])
    return same(a[1], b[1], **kw)


class WarningLog:
    """Records warnings without touching filters per call (usable from simulated threads)."""

    def __init__(self):
        self.items = []
        self.who = []

    def install(self):
        warnings.resetwarnings()
        warnings.simplefilter('always')
        warnings.filterwarnings('ignore', category=DeprecationWarning)
        warnings.filterwarnings('ignore', category=FutureWarning)
        warnings.filterwarnings('ignore', category=ResourceWarning)

        def show(message, category, filename, lineno, file=None, line=None):
            self.items.append((category.__name__, str(message)[:300]))
            self.who.append(threading.get_ident())
        warnings.showwarning = show
        return self


@contextlib.contextmanager
def quiet():
    old, sys.stdout = sys.stdout, _io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.stdout = old


class Stdout:
    """Captures prints as events at the moment they happen."""

    def __init__(self, emit=None):
        self.text = []
        self.who = []
        self.emit = emit

    def write(self, s):
        self.text.append(s)
        self.who.append(threading.get_ident())
        if self.emit:
            self.emit(('print', s))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    @property
    def value(self):
        return ''.join(self.text)


def enter(root, config=None, seed=0, emit=None):
    """Prepare a forked child: cwd, config, seeds, captured output and warnings."""
    os.chdir(root)
    tmp = os.path.join(root, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    out = Stdout(emit)
    sys.stdout = out
    wl = WarningLog().install()
    if config is not False:
        set_config(config)
    return out, wl


class Said:
    """What the present thread prints and warns of from now on."""

    def __init__(self, out, wl):
        self.out, self.wl, self.at = out, wl, (len(out.text), len(wl.items))

    def get(self, root):
        me = threading.get_ident()
        text = ''.join(t for t, w in list(zip(self.out.text, self.out.who))[self.at[0]:] if w == me)
        text = re.sub(r'Finished in \S+ seconds', 'Finished', text)
        warned = sorted(set(m for (c, m), w in list(zip(self.wl.items, self.wl.who))[self.at[1]:] if w == me and c == 'UserWarning'))
        text, *warned = [re.sub(r'[0-9a-f]{32}\.tmp', 'HEX.tmp', t.replace(root, '.')) for t in [text] + warned]
        return [text, warned]


def config_snapshot():
    return {k: enc(v) for k, v in cp.basicConfig.items()}


def process_state():
    """Process-wide settings a library call must leave alone."""
    import locale
    import signal
    return dict(
        np_err=json.dumps(np.geterr(), sort_keys=True),
        np_random=hashlib.sha256(np.random.get_state()[1].tobytes() + bytes([np.random.get_state()[2] % 256])).hexdigest()[:12],
        cwd=os.getcwd(), filters=str([(f[0], str(f[2])) for f in warnings.filters]),
        printopts=json.dumps(np.get_printoptions(), sort_keys=True, default=str),
        rc={k: list(v) if isinstance(v, list) else v for k, v in dict.items(matplotlib.rcParams)},
        env=hashlib.sha256(repr(sorted(os.environ.items())).encode()).hexdigest()[:12],
        locale=str(locale.setlocale(locale.LC_ALL)), rec=sys.getrecursionlimit(),
        sigint=str(signal.getsignal(signal.SIGINT)), showw=id(warnings.showwarning),
        umask=_umask())


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m
