"""Catalogue of public calls with JSON-able arguments, shared by several checks."""
import copy
import datetime
import functools
import json
import os
import shutil

import numpy as np

from .world import (ch, cp, cu, du, mu, pu, enc, rs, T0, T1, DIPOLES)

OPS = {}


class Op:
    def __init__(self, name, fn, params, tags, weight):
        self.name, self.fn, self.params, self.tags, self.weight = name, fn, params, tags, weight


def op(name, tags='', weight=1.0, /, **params):
    def deco(fn):
        OPS[name] = Op(name, fn, params, set(tags.split()), weight)
        return fn
    return deco


# ---- samplers: rng -> JSON value --------------------------------------------------------------
def C(*vals):
    return lambda r: r.choice(vals)


def SEED(r):
    return r.randrange(10 ** 6)


def GEO(r):
    return dict(k=r.choice(['s', 'v', 'v', 'bc', 'grid', 'tv', 'one']), s=r.randrange(1000),
                r=r.choice(['in', 'in', 'in', 'edge', 'out']), p=r.random() < 0.15, n=r.choice([3, 5]))


def TIME(r):
    return dict(k=r.choice(['s', 'v', 'v', 'm']), s=r.randrange(1000), r=r.choice(['in', 'in', 'in', 'edge', 'out']),
                n=r.choice([3, 6]))


def RCTIME(r):
    return dict(k=r.choice(['s', 'v', 'v']), s=r.randrange(1000), r=r.choice(['rc', 'rc', 'rc', 'rc', 'in']),
                n=r.choice([3, 4]))


def RCGEO(r):
    g = GEO(r)
    g['r'] = r.choice(['rc', 'rc', 'rc', 'rc', 'in'])
    return g


def ARR(lo, hi, *shapes):
    shapes = shapes or ('s', 'v', 'm')

    def f(r):
        return dict(a=[lo, hi], k=r.choice(shapes), s=r.randrange(1000), n=r.choice([3, 5]))
    return f


def _times(r, rng, shape):
    if rng == 'in':
        return r.uniform(T0 + 1, T1 - 1, size=shape)
    if rng == 'edge':
        return r.choice([T0, T1, (T0 + T1) / 2, T1 / 3, T0 + 1e-9], size=shape)
    if rng == 'rc':
        return r.uniform(1001., 1058., size=shape)
    return r.uniform(T0 - 400, T1 + 400, size=shape)


LIKE = ('inner', 'inner', 'reversed', 'first', 'last', 'eps', 'f32', 'list', 'column', 'int', 'strided')


def alike(make, how):
    """An array that agrees with make() in size, ends, extremes, rounded values, ... but not in everything."""
    v = make()
    if not isinstance(v, np.ndarray) or v.dtype.kind != 'f' or v.size < 2:
        return v
    f = v.ravel().copy()
    if how == 'inner':
        f[1:-1] = 0.7 * f[1:-1] + 0.3 * f[2:]
    elif how == 'reversed':
        f = f[::-1].copy()
    elif how == 'first':
        f[0] = 0.5 * (f[0] + f[1])
    elif how == 'last':
        f[-1] = 0.5 * (f[-1] + f[-2])
    elif how == 'eps':
        f *= 1 + 1e-6
    elif how == 'f32':
        f = f.astype('f4')
    elif how == 'int':
        f = np.round(f).astype(int)
    elif how == 'strided':
        return np.repeat(v[..., None], 2, axis=-1)[..., 0]
    f = f.reshape(v.shape)
    return f.tolist() if how == 'list' else f[..., None] if how == 'column' else f


def many(d, by=100):
    """Number of elements: few, in some calls hundreds."""
    return d.get('n', 3) * (by if d['s'] % 50 == 3 else 1)


def crowd(calls):
    """Let all arrays of these calls have hundreds of elements."""
    for x in {id(x): x for d in calls for x in d['args'].values() if isinstance(x, dict)}.values():
        if 's' in x and 'n' in x:
            x['s'] = 50 * x['s'] + 3


class Args:
    """Creates (and remembers) the arrays passed to a call, so that changes to them can be detected."""

    def __init__(self, cache=None, adjust=None):
        self.cache = cache
        self.given = []
        self.adjust = adjust or {}    # key -> increments applied to a new array (edits made by the caller earlier)
        self.like = None              # [how, n]: the n-th array is replaced by one that looks alike
        self.n = self.depth = 0       # arrays made so far; making one from another

    def reg(self, key, make):
        if not self.depth:
            self.n += 1
        if self.like and not self.depth and self.like[1] < self.n - 1 and key[:1] != '[':
            key = json.dumps(['with', self.like, key])      # may be made from the replaced one
        if self.like and not self.depth and self.like[1] == self.n - 1:
            key = json.dumps(['like', self.like[0], key])
            make = functools.partial(alike, make, self.like[0])
        if self.cache is not None:
            if key not in self.cache:
                v = self.build(make)
                for by in self.adjust.get(key, ()):
                    v += by
                self.cache[key] = (v, copy.deepcopy(v))
            v, orig = self.cache[key]
        else:
            v = self.build(make)
            orig = copy.deepcopy(v)
        self.given.append((key, v, orig))
        return v

    def build(self, make):
        self.depth += 1
        try:
            return make()
        finally:
            self.depth -= 1

    def changed(self):
        from .world import same
        for key, v, orig in self.given:
            d = same(enc(v), enc(orig), rtol=0, atol=0)
            if d:
                return '%s: %s' % (key, d)
        return None

    @staticmethod
    def edit_cached(cache, by):
        """The caller edits, in place, every float array it passed to earlier calls. Returns their keys."""
        keys, done = [], []
        for key in [k for k in cache if k[:1] != '[' or k.startswith('["with"')]:      # may be made from these
            del cache[key]
        for key, (v, orig) in cache.items():
            if isinstance(v, np.ndarray) and v.ndim and v.dtype.kind == 'f' and key[:1] == '[' and v.flags.writeable:
                if not any(v is w for w in done):      # two keys may stand for one array
                    v += by
                    keys.append(key)
                    done.append(v)
                cache[key] = (v, v.copy())
        return keys

    # builders
    def arr(self, spec, lo=None, hi=None, shape=None):
        key = json.dumps(['arr', spec, lo, hi, shape])

        def make():
            a, b = spec.get('a', [lo, hi])
            n = many(spec)
            sh = shape if shape is not None else {'s': (), 'v': (n,), 'm': (2, n)}[spec['k']]
            v = rs(spec['s'] + 7).uniform(a, b, size=sh)
            return float(v) if sh == () else v
        return self.reg(key, make)

    def vec(self, seed, lo, hi, shape):
        key = json.dumps(['vec', seed, lo, hi, list(shape)])
        return self.reg(key, lambda: rs(seed).uniform(lo, hi, size=shape))

    def time(self, t):
        key = json.dumps(['time', t])

        def make():
            n = many(t)
            sh = {'s': (), 'v': (n,), 'm': (2, n)}[t['k']]
            v = _times(rs(t['s']), t['r'], sh)
            return float(v) if sh == () else np.asarray(v, dtype=float)
        return self.reg(key, make)

    def geo(self, g):
        """(time, radius, theta, phi, grid)"""
        k = g['k']
        n = many(g, 10 if k == 'grid' else 100)
        shapes = {'s': ((), (), (), ()), 'one': ((1,), (), (), ()), 'v': ((n,), (n,), (n,), (n,)),
                  'tv': ((n,), (), (), ()), 'bc': ((), (1,), (n, 1), (4,)), 'grid': ((), (), (n,), (n + 1,))}[k]
        r = rs(g['s'] + 11)

        def mk(i, lo, hi):
            def f():
                rr = rs(g['s'] * 4 + i)
                if i == 0:
                    v = _times(rr, g['r'], shapes[0])
                else:
                    v = rr.uniform(lo, hi, size=shapes[i])
                    if i == 2 and g['p'] and shapes[2] != ():
                        v.ravel()[0] = 0.
                        v.ravel()[-1] = 180.
                return float(v) if shapes[i] == () else np.asarray(v, dtype=float)
            return self.reg(json.dumps(['geo', g, i]), f)
        return (mk(0, 0, 0), mk(1, 6371.2, 7000.), mk(2, 5., 175.), mk(3, -180., 360.), k == 'grid')


EXTRA = C(None, None, 'linear', 'off', 'constant', 'spline', 'quadratic', 3)
NM = C(None, None, 1, 2, 3, 9)

# ---- BaseModel ----------------------------------------------------------------------------------
BM = C(0, 1, 2, 3, 4)


@op('bm.synth_coeffs', 'eval bm', 2, m=BM, t=TIME, nmax=NM, deriv=C(None, 0, 1, 2), ex=EXTRA)
def _(W, a, m, t, nmax, deriv, ex):
    return W.bm[m].synth_coeffs(a.time(t), nmax=nmax, deriv=deriv, extrapolate=ex)


@op('bm.synth_values', 'eval bm', 2, m=BM, g=GEO, nmax=NM, deriv=C(None, 0, 1), ex=EXTRA)
def _(W, a, m, g, nmax, deriv, ex):
    t, r, th, ph, grid = a.geo(g)
    return W.bm[m].synth_values(t, r, th, ph, nmax=nmax, deriv=deriv, grid=grid or None, extrapolate=ex)


@op('bm.power_spectrum', 'eval bm cfg', 1, m=BM, t=TIME, radius=C(None, None, 3485., 7000.), nmax=C(None, 1, 2), deriv=C(None, 1))
def _(W, a, m, t, radius, nmax, deriv):
    return W.bm[m].power_spectrum(a.time(t), radius, nmax=nmax, deriv=deriv)


@op('bm.to_ppdict', 'eval bm', .3, m=BM)
def _(W, a, m):
    return W.bm[m].to_ppdict()


@op('bm.from_bspline', 'eval', .5, s=SEED, order=C(2, 3, 4, 6))
def _(W, a, s, order):
    br = np.linspace(0., 100., 5)
    knots = a.reg('knots%d' % order, lambda: mu.augment_breaks(br, order))
    c = a.vec(s, -10, 10, (knots.size - order, 8))
    return ch.BaseModel.from_bspline('b', knots, c, order)


def _shc_strip(path):
    with open(path) as f:
        return [ln for ln in f.read().split('\n') if 'Created on' not in ln]


def _out(k, ext):
    return ('sub/' if k % 3 == 1 else '') + 'out%d.%s' % (k, ext)


@op('bm.to_shc', 'io save bm', .5, m=BM, leap=C(None, True, False), nmin=C(None, 1, 2), out=SEED, header=C(None, '# h\n', ''))
def _(W, a, m, leap, nmin, out, header):
    p = _out(out, 'shc')
    W.bm[m].to_shc(p, leap_year=leap, nmin=nmin, header=header)
    return _shc_strip(p)


@op('bm.from_shc', 'io load', .7, f=C('model.shc', 'model1.shc', 'static.shc'), leap=C(None, True), name=C(None, 'x'))
def _(W, a, f, leap, name):
    return ch.BaseModel.from_shc(f, leap_year=leap, name=name)


@op('bm.save_matfile', 'io save mat bm', .4, m=BM, out=SEED, path=C(None, '/pp'))
def _(W, a, m, out, path):
    p = _out(out, 'mat')
    if os.path.exists(p):
        os.unlink(p)     # saving twice under one path is judged by C07
    W.bm[m].save_matfile(p, path=path)
    return du.load_matfile(p)


# ---- CHAOS --------------------------------------------------------------------------------------
CH = C(0, 0, 1, 2)


@op('chaos.synth_coeffs_tdep', 'eval chaos', 1, c=CH, t=TIME, nmax=NM, deriv=C(None, 0, 1, 2), ex=EXTRA)
def _(W, a, c, t, nmax, deriv, ex):
    return W.chaos[c].synth_coeffs_tdep(a.time(t), nmax=nmax, deriv=deriv, extrapolate=ex)


@op('chaos.synth_values_tdep', 'eval chaos', 1, c=CH, g=GEO, nmax=NM, deriv=C(None, 0, 1), ex=EXTRA)
def _(W, a, c, g, nmax, deriv, ex):
    t, r, th, ph, grid = a.geo(g)
    return W.chaos[c].synth_values_tdep(t, r, th, ph, nmax=nmax, deriv=deriv, grid=grid or None, extrapolate=ex)


@op('chaos.synth_coeffs_static', 'eval chaos', .7, c=CH, nmax=C(None, 1, 4, 5))
def _(W, a, c, nmax):
    return W.chaos[c].synth_coeffs_static(nmax=nmax)


@op('chaos.synth_values_static', 'eval chaos', 1, c=CH, g=GEO, nmax=C(None, 4, 5))
def _(W, a, c, g, nmax):
    t, r, th, ph, grid = a.geo(g)
    return W.chaos[c].synth_values_static(r, th, ph, nmax=nmax, grid=grid or None)


SRC = C(None, 'external', 'internal')


@op('chaos.synth_coeffs_gsm', 'eval chaos ext cfg file', 1.5, c=CH, t=TIME, nmax=C(None, 1, 2), source=SRC)
def _(W, a, c, t, nmax, source):
    return W.chaos[c].synth_coeffs_gsm(a.time(t), nmax=nmax, source=source)


@op('chaos.synth_values_gsm', 'eval chaos ext cfg file', 1, c=CH, g=GEO, nmax=C(None, 1), source=C(None, 'all', 'external', 'internal'))
def _(W, a, c, g, nmax, source):
    t, r, th, ph, grid = a.geo(g)
    return W.chaos[c].synth_values_gsm(t, r, th, ph, nmax=nmax, source=source, grid=grid or None)


@op('chaos.synth_coeffs_sm', 'eval chaos ext cfg file rc', 2, c=CH, t=RCTIME, nmax=C(None, 1, 2), source=SRC, rc=C(None, None, 's', 'v'))
def _(W, a, c, t, nmax, source, rc):
    tt = a.time(t)
    r = None if rc is None else (12.5 if rc == 's' else a.vec(t['s'] + 5, -30, 30, np.shape(tt)))
    return W.chaos[c].synth_coeffs_sm(tt, nmax=nmax, source=source, rc=r)


@op('chaos.synth_values_sm', 'eval chaos ext cfg file rc', 1.2, c=CH, g=RCGEO, nmax=C(None, 1), source=C(None, 'all', 'external', 'internal'),
    rc=C(None, None, 's'))
def _(W, a, c, g, nmax, source, rc):
    t, r, th, ph, grid = a.geo(g)
    e, i = (None, None) if rc is None else (7.5, -2.5)
    return W.chaos[c].synth_values_sm(t, r, th, ph, rc_e=e, rc_i=i, nmax=nmax, source=source, grid=grid or None)


@op('chaos.call', 'eval chaos ext file multi', 1, c=CH, g=RCGEO, rc=C(None, 's'),
    sl=C(None, 'internal', 'external', ['tdep'], ['static', 'gsm'], ['sm', 'tdep'], ['gsm', 'sm']), ns=C(None, 4))
def _(W, a, c, g, rc, sl, ns):
    t, r, th, ph, grid = a.geo(g)
    if grid:
        th, ph = th[:3], ph[:3]
    e, i = (None, None) if rc is None else (7.5, -2.5)
    return W.chaos[c](t, r, th, ph, rc_e=e, rc_i=i, source_list=sl, nmax_static=ns)


@op('chaos.synth_euler', 'eval chaos', .7, c=CH, t=TIME, sat=C('oersted', 'champ', 'sac_c', 'unknown'), dim=C(None, 2), deriv=C(None, 1), ex=EXTRA)
def _(W, a, c, t, sat, dim, deriv, ex):
    return W.chaos[c].synth_euler_angles(a.time(t), sat, dim=dim, deriv=deriv, extrapolate=ex)


@op('chaos.str', 'eval chaos', .2, c=CH)
def _(W, a, c):
    return str(W.chaos[c]).replace(W.chaos[c].timestamp, 'STAMP')


@op('chaos.save_shcfile', 'io save chaos', .4, c=CH, model=C(None, 'tdep', 'static'), leap=C(None, True), out=SEED)
def _(W, a, c, model, leap, out):
    p = _out(out, 'shc')
    W.chaos[c].save_shcfile(p, model=model, leap_year=leap)
    return _shc_strip(p)


@op('chaos.save_matfile', 'io save mat chaos slow', .25, c=CH, out=SEED)
def _(W, a, c, out):
    p = _out(out, 'mat')
    if os.path.exists(p):
        os.unlink(p)
    W.chaos[c].save_matfile(p)
    return ch.load_CHAOS_matfile(p, name='n')


@op('load.chaos_mat', 'io load slow', .5, f=C('small.mat', 'small1.mat'), name=C(None, 'y'), sats=C(None, None, 3, 2, 1))
def _(W, a, f, name, sats):
    s = None if sats is None else a.reg('sats%d' % sats, lambda: ['sat%d' % k for k in range(sats)])
    return ch.load_CHAOS_matfile(f, name=name, satellites=s)


@op('load.chaos_shc', 'io load', .5, f=C('model.shc', 'model1.shc', 'static.shc'), leap=C(None, True))
def _(W, a, f, leap):
    return ch.load_CHAOS_shcfile(f, leap_year=leap)


@op('load.text', 'io load', .8, f=C('covobs', 'gufm', 'cals', 'igrf'), v=C('', '1'), name=C(None, 'z'))
def _(W, a, f, v, name):
    fn = dict(covobs=ch.load_CovObs_txtfile, gufm=ch.load_gufm1_txtfile, cals=ch.load_CALS7K_txtfile, igrf=ch.load_IGRF_txtfile)[f]
    return fn('%s%s.txt' % (f, v), name=name)


# ---- model_utils --------------------------------------------------------------------------------
@op('mu.synth_values', 'eval mu', 3, s=SEED, g=GEO, nmax=C(None, 2, 3), nmin=C(None, 1, 2), mmax=C(None, None, 1), source=C(None, 'internal', 'external'))
def _(W, a, s, g, nmax, nmin, mmax, source):
    t, r, th, ph, grid = a.geo(g)
    n0, n1 = nmin or 1, 3
    m1 = n1 if mmax is None else mmax
    dim = sum(2 * min(n, m1) + 1 for n in range(n0, n1 + 1))
    c = a.vec(s, -100, 100, (dim,))
    return mu.synth_values(c, r, th, ph, nmax=n1 if mmax is not None else nmax, nmin=nmin, mmax=mmax, source=source, grid=grid or None)


@op('mu.design_gauss', 'eval mu', 1, g=GEO, nmax=C(1, 2, 3), nmin=C(None, 1, 2), mmax=C(None, 1), source=C(None, 'internal', 'external'))
def _(W, a, g, nmax, nmin, mmax, source):
    t, r, th, ph, grid = a.geo(dict(g, k='v' if g['k'] == 'grid' else g['k']))
    return mu.design_gauss(r, th, ph, max(nmax, nmin or 1), nmin=nmin, mmax=mmax, source=source)


@op('mu.design_matrix', 'eval mu', .6, g=GEO, order=C(2, 4), ntd=C(1, 2), ns=C(None, 2, 3), source=C(None, 'external'))
def _(W, a, g, order, ntd, ns, source):
    t, r, th, ph, _ = a.geo(dict(g, k='v', r='in'))
    knots = a.reg('kn%d' % order, lambda: mu.augment_breaks(np.linspace(T0, T1, 4), order))
    return mu.design_matrix(knots, order, ntd, t, r, th, ph, n_static=ns, source=source)


@op('mu.colloc', 'eval mu', .7, t=TIME, order=C(1, 2, 3, 4), deriv=C(None, 0, 1, 2, 3, 4))
def _(W, a, t, order, deriv):
    x = a.time(dict(t, k='v', r='in'))
    return mu.colloc_matrix(x, mu.augment_breaks(np.linspace(T0, T1, 4), order), order, deriv=deriv)


@op('mu.pp_from_bspline', 'eval mu', .5, s=SEED, order=C(2, 3, 4))
def _(W, a, s, order):
    k = mu.augment_breaks(np.linspace(0, 10., 4), order)
    return mu.pp_from_bspline(a.vec(s, -5, 5, (k.size - order, 3)), k, order)


@op('mu.synth_from_pp', 'eval mu', .7, m=C(0, 1, 3), g=GEO, nmax=C(None, 1, 2), source=C(None, 'external'), deriv=C(None, 1))
def _(W, a, m, g, nmax, source, deriv):
    t, r, th, ph, grid = a.geo(g)
    b = W.bm[m]
    return mu.synth_from_pp(b.breaks, b.order, b.coeffs, t, r, th, ph, nmax=nmax, source=source, deriv=deriv, grid=grid or None)


@op('mu.legendre', 'eval mu', 1, nmax=C(1, 2, 4, 7), th=ARR(0, 180))
def _(W, a, nmax, th):
    return mu.legendre_poly(nmax, a.arr(th))


@op('mu.power_spectrum', 'eval mu cfg', 1, s=SEED, k=C(1, 2, 3), radius=C(None, None, 3485.), nmax=C(None, 2), source=C(None, 'internal', 'external', 'toroidal'))
def _(W, a, s, k, radius, nmax, source):
    return mu.power_spectrum(a.vec(s, -9, 9, (15,) if k == 1 else (k, 15)), radius, nmax=nmax, source=source)


@op('mu.degree_corr', 'eval mu', .4, s=SEED, k=C(1, 2))
def _(W, a, s, k):
    sh = (15,) if k == 1 else (2, 15)
    return mu.degree_correlation(a.vec(s, -9, 9, sh), a.vec(s + 1, -9, 9, (15,)))


@op('mu.sensitivity', 'eval mu', .4, s=SEED)
def _(W, a, s):
    return mu.sensitivity(a.vec(s, -9, 9, (15,)), a.vec(s + 1, -9, 9, (15,)))


# ---- coordinate_utils ----------------------------------------------------------------------------
DIP = C(None, None, None, 0, 1, 'tp')


def _dip(a, d):
    if d is None:
        return None
    if d == 'tp':
        return (10.0, 285.0)
    return a.reg('dip%d' % d, lambda: np.array(DIPOLES[d]))


@op('cu.igrf_dipole', 'eval cu', .3, e=C(None, '2015', '2010', 2010, '1900'))
def _(W, a, e):
    return cu.igrf_dipole(e)


@op('cu.dipole_to_vec', 'eval cu cfg', .5, d=DIP)
def _(W, a, d):
    return cu.dipole_to_vec(_dip(a, d))


@op('cu.synth_rotate', 'eval cu', .8, t=TIME, s=C(1, 2), scaled=C(None, True, False))
def _(W, a, t, s, scaled):
    tt = a.reg(json.dumps(['rt', t]), lambda: np.asarray(a.time(t)))
    f = a.vec(s, 0, 3, (4, 3, 3))
    z = a.reg('z%d' % s, lambda: rs(s).normal(size=(4, 3, 3)) + 1j * rs(s + 1).normal(size=(4, 3, 3)))
    return cu.synth_rotate_gauss(tt, f, z, scaled=scaled)


@op('cu.rotate_fft', 'eval cu cfg file slow', .6, n=C(1, 2), N=C(8, 12), ref=C(None, 'gsm', 'sm', 'SM'), filt=C(None, 3), scaled=C(None, True),
    start=C(None, 100.5), step=C(None, 2.0), q=C(None, None, 'own'))
def _(W, a, n, N, ref, filt, scaled, start, step, q):
    qf = None if q is None else (lambda f, k: 0.1 * (k + 1) * np.exp(1j * f * 3600))
    return cu.rotate_gauss_fft(n, 1, qfunc=qf, N=N, reference=ref, filter=filt, scaled=scaled, start_date=start, step=step)


@op('cu.rotate_fft_save', 'io save cfg', .4, n=C(1, 2), N=C(8, 12), ref=C('gsm', 'sm'), filt=C(None, 3), scaled=C(None, True), out=SEED)
def _(W, a, n, N, ref, filt, scaled, out):
    p = _out(out, 'npz')
    r = cu.rotate_gauss_fft(n, 1, N=N, reference=ref, filter=filt, scaled=scaled, save_to=p)
    with open(p, 'rb') as fh, np.load(fh) as f:
        return [list(r), {k: f[k] for k in f.files}]


@op('cu.rotate_gauss', 'eval cu slow', .5, n=C(1, 2), t=TIME)
def _(W, a, n, t):
    b = cu.basevectors_gsm(a.time(dict(t, k='v')), dipole=np.array(DIPOLES[0]))
    return cu.rotate_gauss(n, n, *[a.reg('b%d%s' % (i, json.dumps(t)), lambda i=i: b[i]) for i in range(3)])


@op('cu.sh_analysis', 'eval cu', .5, n=C(1, 2, 3), s=SEED, k=C(None, 4))
def _(W, a, n, s, k):
    c = rs(s).normal(size=(n + 1) ** 2 - 1)
    f = lambda th, ph: sum(ci * np.cos((i + 1) * np.radians(th)) * np.sin(np.radians(ph) + i) for i, ci in enumerate(c))  # noqa
    return cu.sh_analysis(f, n, k)


@op('cu.sun_position', 'eval cu', 1, t=TIME)
def _(W, a, t):
    return cu.sun_position(a.time(t))


@op('cu.zenith', 'eval cu', .6, g=GEO)
def _(W, a, g):
    t, r, th, ph, grid = a.geo(dict(g, k='v'))
    return cu.zenith_angle(t, th, ph)


@op('cu.s2c', 'eval cu', .4, g=GEO)
def _(W, a, g):
    t, r, th, ph, grid = a.geo(dict(g, k='v' if g['k'] == 'grid' else g['k']))
    return cu.spherical_to_cartesian(r, th, ph)


@op('cu.c2s', 'eval cu', .4, s=SEED, n=C(1, 4))
def _(W, a, s, n):
    return cu.cartesian_to_spherical(a.vec(s, -9, 9, (n,)), a.vec(s + 1, -9, 9, (n,)), a.vec(s + 2, -9, 9, (n,)))


@op('cu.gg_to_geo', 'eval cu cfg', 1, h=ARR(0, 500, 'v'), s=SEED, comp=C(True, False))
def _(W, a, h, s, comp):
    n = (h['n'],)
    hh, be = a.arr(h), a.vec(s, 1, 179, n)
    return cu.gg_to_geo(hh, be, a.vec(s + 1, -1, 1, n), a.vec(s + 2, -1, 1, n)) if comp else cu.gg_to_geo(hh, be)


@op('cu.geo_to_gg', 'eval cu cfg', 1, h=ARR(6371, 7000, 'v'), s=SEED, comp=C(True, False))
def _(W, a, h, s, comp):
    n = (h['n'],)
    hh, be = a.arr(h), a.vec(s, 1, 179, n)
    return cu.geo_to_gg(hh, be, a.vec(s + 1, -1, 1, n), a.vec(s + 2, -1, 1, n)) if comp else cu.geo_to_gg(hh, be)


@op('cu.base_gg', 'eval cu', .4, s=SEED)
def _(W, a, s):
    return cu.basevectors_gg(a.vec(s, 1, 179, (3,)), a.vec(s + 1, 1, 179, (3,)))


@op('cu.base_gsm', 'eval cu cfg', 1, t=TIME, d=DIP)
def _(W, a, t, d):
    return cu.basevectors_gsm(a.time(t), dipole=_dip(a, d))


@op('cu.base_sm', 'eval cu cfg', 1, t=TIME, d=DIP)
def _(W, a, t, d):
    return cu.basevectors_sm(a.time(t), dipole=_dip(a, d))


@op('cu.base_mag', 'eval cu cfg', .6, d=DIP)
def _(W, a, d):
    return cu.basevectors_mag(dipole=_dip(a, d))


@op('cu.base_use', 'eval cu', .5, g=GEO)
def _(W, a, g):
    t, r, th, ph, grid = a.geo(dict(g, k='v', p=g['p']))
    return cu.basevectors_use(th, ph)


@op('cu.transform_points', 'eval cu cfg', 1.5, g=GEO, ref=C('gsm', 'sm', 'mag', 'SM'), inv=C(None, True), d=DIP)
def _(W, a, g, ref, inv, d):
    t, r, th, ph, grid = a.geo(dict(g, k='v' if g['k'] in ('grid', 'bc') else g['k']))
    return cu.transform_points(th, ph, t, reference=ref, inverse=inv, dipole=_dip(a, d))


@op('cu.transform_vectors', 'eval cu cfg', 1.5, g=GEO, s=SEED, ref=C('gsm', 'sm', 'mag', 'bad'), inv=C(None, True), d=DIP)
def _(W, a, g, s, ref, inv, d):
    t, r, th, ph, grid = a.geo(dict(g, k='v', p=False))
    return cu.transform_vectors(th, ph, a.vec(s, -9, 9, np.shape(th)), a.vec(s + 1, -9, 9, np.shape(th)), t, reference=ref,
                                inverse=inv, dipole=_dip(a, d))


@op('cu.matrix_geo_to_base', 'eval cu', .5, g=GEO, inv=C(None, True))
def _(W, a, g, inv):
    t, r, th, ph, grid = a.geo(dict(g, k='v', p=False))
    b = cu.basevectors_mag(dipole=np.array(DIPOLES[1]))
    return cu.matrix_geo_to_base(th, ph, *b, inverse=inv)


@op('cu.geo_to_base', 'eval cu', .4, g=GEO, inv=C(None, True))
def _(W, a, g, inv):
    t, r, th, ph, grid = a.geo(dict(g, k='v'))
    return cu.geo_to_base(th, ph, *cu.basevectors_mag(dipole=np.array(DIPOLES[1])), inverse=inv)


@op('cu.center_azimuth', 'eval cu', .4, p=ARR(-700, 700))
def _(W, a, p):
    return cu.center_azimuth(a.arr(p))


@op('cu.local_time', 'eval cu', .4, p=ARR(-180, 360), t=C(0., 12.25, -3.7))
def _(W, a, p, t):
    return cu.local_time(t, a.arr(p))


@op('cu.q_response_1D', 'eval cu', .5, p=ARR(1e3, 1e6, 'v'), kind=C(None, 'quadratic', 'constant'), n=C(1, 2), s=C(1, 2))
def _(W, a, p, kind, n, s):
    rad = a.reg('qr', lambda: np.array([6371.2, 6000., 5000., 3480.]))
    return cu.q_response_1D(a.arr(p), a.vec(s, 0.01, 2., (4,)), rad, n, kind=kind)


@op('cu.q_response', 'eval cu cfg file', .8, s=SEED, n=C(1, 2))
def _(W, a, s, n):
    return cu.q_response(a.vec(s, 0., 1e-4, (4,)), n)


# ---- data_utils ----------------------------------------------------------------------------------
@op('du.mjd2000', 'eval du', .6, s=SEED, k=C('int', 'arr', 'dt64', 'full', 'py', 'pys'))
def _(W, a, s, k):
    y = 1900 + s % 200
    if k == 'int':
        return du.mjd2000(y, 1 + s % 12)
    if k == 'arr':
        return du.mjd2000(a.reg('y%d' % s, lambda: np.arange(y, y + 4)), 2, a.reg('d', lambda: np.arange(1, 5)))
    if k == 'py':
        return du.mjd2000(a.reg('p%d' % s, lambda: [datetime.datetime(y, 1 + s % 12, 1 + s % 28, s % 24, s % 60), datetime.datetime(2000, 7, 1)]))
    if k == 'pys':
        return du.mjd2000(datetime.datetime(y, 1 + s % 12, 1 + s % 28, s % 24, s % 60, s % 59, s % 1000000))
    if k == 'dt64':
        return du.mjd2000(a.reg('t%d' % s, lambda: np.array(['%d-03-04T05:06' % y, '2001-01-01'], dtype='datetime64[ns]')))
    return du.mjd2000(y, 3, 4, 5, 6, 7, 8, 9)


@op('du.timestamp', 'eval du', .5, t=TIME)
def _(W, a, t):
    return du.timestamp(a.time(t))


@op('du.dyear_to_mjd', 'eval du', .6, y=ARR(1900, 2100), leap=C(None, True, False))
def _(W, a, y, leap):
    return du.dyear_to_mjd(a.arr(y), leap_year=leap)


@op('du.mjd_to_dyear', 'eval du', .6, t=TIME, leap=C(None, True, False))
def _(W, a, t, leap):
    return du.mjd_to_dyear(a.time(t), leap_year=leap)


@op('du.is_leap', 'eval du', .3, s=SEED)
def _(W, a, s):
    return du.is_leap_year(a.reg('ly%d' % s, lambda: np.array([1900 + s % 200, 2000, 1900])))


@op('du.gauss_units', 'eval du', .2, d=C(None, 0, 1, 2, 3))
def _(W, a, d):
    return du.gauss_units(d)


@op('du.load_RC_dat', 'io load file', .6, f=C('rc.dat', 'rc1.dat'), pd_=C(None, True, False))
def _(W, a, f, pd_):
    return du.load_RC_datfile(f, parse_dates=pd_)


@op('du.save_RC_h5', 'io save', .4, f=C('rc.dat', 'rc1.dat'), out=SEED)
def _(W, a, f, out):
    import h5py
    p = _out(out, 'h5')
    du.save_RC_h5file(p, read_from=f)
    with h5py.File(p, 'r') as h:
        return {k: h[k][:] for k in h}


@op('du.load_shc', 'io load', .6, f=C('model.shc', 'model1.shc', 'static.shc'), leap=C(None, True, False), com=C(None, '#'))
def _(W, a, f, leap, com):
    return du.load_shcfile(f, leap_year=leap, comment=com)


@op('du.save_shc', 'io save', .5, s=SEED, n=C(1, 3), nmin=C(None, 2), nmax=C(None, 2), leap=C(None, False), order=C(None, 1, 2), out=SEED)
def _(W, a, s, n, nmin, nmax, leap, order, out):
    p = _out(out, 'shc')
    t = a.vec(s, 0, 4000, (n,))
    du.save_shcfile(t, a.vec(s + 1, -99, 99, (n, 15)), order=order, filepath=p, nmin=nmin, nmax=nmax, leap_year=leap)
    return _shc_strip(p)


@op('du.load_mat', 'io load', .5, f=C('small.mat', 'small1.mat'), v=C(None, ['g'], ['pp', 'g']))
def _(W, a, f, v):
    out = du.load_matfile(f, variable_names=v)
    return {k: x for k, x in out.items() if not k.startswith('__')}


@op('du.memory_usage', 'eval du', .1, n=C(3, 10))
def _(W, a, n):
    import pandas as pd
    return du.memory_usage(pd.DataFrame(dict(a=np.arange(n), b=np.arange(n) * .5)))


# ---- less usual and refused arguments -------------------------------------------------------------
ODDEX = C('bad', True, False, 5, 7, 2.9, 'cubic', 'constant', 'spline', 0, -1)


@op('odd.bm_coeffs', 'eval bm odd', .5, m=BM, t=TIME, nmax=C(None, 0, -1, 40, 2), deriv=C(None, 0, 1, 2, 3, 9), ex=ODDEX)
def _(W, a, m, t, nmax, deriv, ex):
    return W.bm[m].synth_coeffs(a.time(t), nmax=nmax, deriv=deriv, extrapolate=ex)


@op('odd.bm_values', 'eval bm odd', .5, m=BM, g=GEO, what=C('shape', 'theta', 'neg', 'nmax', 'grid', 'empty'), ex=ODDEX)
def _(W, a, m, g, what, ex):
    t, r, th, ph, grid = a.geo(dict(g, k='v', p=False))
    b = W.bm[m]
    if what == 'shape':
        return b.synth_values(t, r, th[:2], ph, extrapolate=ex)
    if what == 'theta':
        return b.synth_values(t, r, th + 200., ph, extrapolate=ex)
    if what == 'neg':
        return b.synth_values(t, r, th - 179., ph, extrapolate=ex)
    if what == 'nmax':
        return b.synth_values(t, r, th, ph, nmax=40, extrapolate=ex)
    if what == 'grid':
        return b.synth_values(t[:1], r[:1], th, ph[:2], grid=True, extrapolate=ex)
    return b.synth_values(t[:0], r[:0], th[:0], ph[:0])


@op('odd.synth_values', 'eval mu odd', 1, s=SEED, g=GEO, what=C('shape', 'theta', 'nmax', 'nmin', 'mmax', 'source', 'mixed', 'zero', 'list', 'int', 'f32', 'neglon'))
def _(W, a, s, g, what):
    t, r, th, ph, grid = a.geo(dict(g, k='v'))
    c = a.vec(s, -100, 100, (15,))
    if what == 'shape':
        return mu.synth_values(c, r, th[:2], ph)
    if what == 'theta':
        return mu.synth_values(c, r, th + 185., ph)
    if what == 'nmax':
        return mu.synth_values(c, r, th, ph, nmax=9)
    if what == 'nmin':
        return mu.synth_values(c, r, th, ph, nmin=3, nmax=2)
    if what == 'mmax':
        return mu.synth_values(c[:3], r, th, ph, mmax=0)
    if what == 'source':
        return mu.synth_values(c, r, th, ph, source='both')
    if what == 'mixed':
        return mu.synth_values(c[3:], r, th, ph, nmin=2, nmax=3, mmax=3, grid=False)
    if what == 'zero':
        return mu.synth_values(c * 0, r, th * 0, ph)
    if what == 'list':
        return mu.synth_values(list(c), list(r), list(th), list(ph))
    if what == 'int':
        return mu.synth_values(a.reg('ci', lambda: np.arange(8)), 7000, 45, a.reg('pi', lambda: np.array([0, 90, 400])))
    if what == 'f32':
        return mu.synth_values(c.astype('f4'), r, th, ph)
    return mu.synth_values(c, r, th, ph - 360., source='external', nmin=1)


@op('odd.design', 'eval mu odd', .5, g=GEO, what=C('theta', 'shape', 'source', 'poles', 'static_low', 'static_same'))
def _(W, a, g, what):
    t, r, th, ph, grid = a.geo(dict(g, k='v', r='in'))
    k = mu.augment_breaks(np.linspace(T0, T1, 4), 3)
    if what == 'theta':
        return mu.design_gauss(r, th + 180.5, ph, 2)
    if what == 'shape':
        return mu.design_gauss(r, th[:2], ph, 2)
    if what == 'source':
        return mu.design_gauss(r, th, ph, 2, source='none')
    if what == 'poles':
        return mu.design_gauss(r, th * 0, ph, 2, nmin=2)
    return mu.design_matrix(k, 3, 2, t, r, th, ph, n_static=1 if what == 'static_low' else 2)


@op('odd.splines', 'eval mu odd', .3, what=C('breaks2d', 'colloc', 'pp', 'order1'), s=SEED)
def _(W, a, what, s):
    if what == 'breaks2d':
        return mu.augment_breaks(a.vec(s, 0, 1, (2, 2)), 3)
    if what == 'colloc':
        return mu.colloc_matrix(a.reg('cx', lambda: np.array([0., 5., 10., 11.])), mu.augment_breaks(np.linspace(0, 10., 3), 3), 3, deriv=5)
    if what == 'order1':
        k = mu.augment_breaks(np.linspace(0, 10., 4), 1)
        return mu.pp_from_bspline(a.vec(s, -5, 5, (k.size - 1, 3)), k, 1)
    return mu.synth_from_pp(W.bm[0].breaks, W.bm[0].order, W.bm[0].coeffs, 1000.3, 7000., 30., 40., nmax=12)


@op('odd.corr', 'eval mu odd', .4, s=SEED, what=C('corr2', 'corrlen', 'sens2', 'senslen', 'sens_t', 'spec', 'spec_nmax', 'axis', 'big'))
def _(W, a, s, what):
    c, d, e = a.vec(s, -9, 9, (15,)), a.vec(s + 1, -9, 9, (8,)), a.vec(s + 2, -9, 9, (2, 15))
    return {'corr2': lambda: mu.degree_correlation(c, e), 'corrlen': lambda: mu.degree_correlation(c, d), 'sens2': lambda: mu.sensitivity(e, c),
            'senslen': lambda: mu.sensitivity(c, d), 'sens_t': lambda: mu.sensitivity(c, e), 'spec': lambda: mu.power_spectrum(c, source='both'),
            'spec_nmax': lambda: mu.power_spectrum(c, nmax=8), 'axis': lambda: mu.power_spectrum(a.vec(s, -9, 9, (15, 2)), axis=0),
            'big': lambda: mu.power_spectrum(a.vec(s, -9, 9, (2, 15, 3)), 3480., axis=1, nmax=2)}[what]()


@op('odd.chaos', 'eval chaos odd ext cfg file', .8, c=CH, t=TIME, what=C('gsm_nmax', 'sm_nmax', 'gsm_source', 'sm_source', 'gsm_vsource', 'sm_vsource', 'static_nmax',
                                                                  'rcshape', 'delta', 'dim'))
def _(W, a, c, t, what):
    m = W.chaos[c]
    tt = a.time(dict(t, k='v', r='in'))
    return {'gsm_nmax': lambda: m.synth_coeffs_gsm(tt, nmax=9), 'sm_nmax': lambda: m.synth_coeffs_sm(tt, nmax=9, rc=1.),
            'gsm_source': lambda: m.synth_coeffs_gsm(tt, source='both'), 'sm_source': lambda: m.synth_coeffs_sm(tt, source='both', rc=1.),
            'gsm_vsource': lambda: m.synth_values_gsm(tt, 7000., 40., 50., source='none'),
            'sm_vsource': lambda: m.synth_values_sm(tt, 7000., 40., 50., rc_e=1., rc_i=2., source='none'),
            'static_nmax': lambda: m.synth_coeffs_static(nmax=99), 'rcshape': lambda: m.synth_coeffs_sm(tt, rc=a.reg('rc2', lambda: np.array([1., 2.]))),
            'delta': lambda: m.synth_coeffs_sm(tt + 9000., rc=1.), 'dim': lambda: m.synth_euler_angles(tt, 'champ', dim=7)}[what]()


@op('odd.bare', 'eval chaos odd', .6, t=TIME, part=C('tdep', 'static', 'none'),
    what=C('tdep', 'vtdep', 'static', 'vstatic', 'gsm', 'sm', 'euler', 'call', 'str'))
def _(W, a, t, part, what):
    br = np.array([T0, (T0 + T1) / 2, T1])
    kw = {'tdep': dict(coeffs_tdep=a.vec(3, -9, 9, (2, 2, 8))), 'static': dict(coeffs_static=a.vec(4, -9, 9, (1, 1, 24))), 'none': {}}[part]
    m = ch.CHAOS(br, 2, **kw)
    tt = a.time(dict(t, k='v', r='in'))
    return {'tdep': lambda: m.synth_coeffs_tdep(tt), 'vtdep': lambda: m.synth_values_tdep(tt, 7000., 40., 50.), 'static': lambda: m.synth_coeffs_static(nmax=3),
            'vstatic': lambda: m.synth_values_static(7000., 40., 50.), 'gsm': lambda: m.synth_coeffs_gsm(tt), 'sm': lambda: m.synth_coeffs_sm(tt, rc=1.),
            'euler': lambda: m.synth_euler_angles(tt, 'champ'), 'call': lambda: m(tt, 7000., 40., 50., source_list=[part] if part != 'none' else None),
            'str': lambda: str(m).replace(m.timestamp, 'STAMP')}[what]()


@op('odd.bare_plot', 'plot slow odd', .1, t=TIME, part=C('tdep', 'static', 'none'), what=C('tdep', 'static'))
def _(W, a, t, part, what):
    _clear()
    br = np.array([T0, (T0 + T1) / 2, T1])
    kw = {'tdep': dict(coeffs_tdep=a.vec(3, -9, 9, (2, 2, 8))), 'static': dict(coeffs_static=a.vec(4, -9, 9, (1, 1, 24))), 'none': {}}[part]
    m = ch.CHAOS(br, 2, **kw)
    if what == 'tdep':
        m.plot_maps_tdep(a.time(dict(t, k='v', r='in')), 7000.)
    else:
        m.plot_maps_static(7000.)
    return _fig()


@op('odd.bare_save', 'io save mat chaos slow odd', .3, part=C('tdep', 'static', 'none'), what=C('shc', 'shcs', 'mat'), out=SEED)
def _(W, a, part, what, out):
    br = np.array([T0, (T0 + T1) / 2, T1])
    kw = {'tdep': dict(coeffs_tdep=a.vec(3, -9, 9, (2, 2, 8))), 'static': dict(coeffs_static=a.vec(4, -9, 9, (1, 1, 24))), 'none': {}}[part]
    m = ch.CHAOS(br, 2, **kw)
    p = _out(out, 'x')
    if what == 'mat':
        if os.path.exists(p):
            os.unlink(p)
        m.save_matfile(p)
        return None
    m.save_shcfile(p, model='static' if what == 'shcs' else None)
    return _shc_strip(p)


@op('odd.call_verbose', 'eval chaos ext file multi odd', .3, c=CH, g=RCGEO, sl=C(None, 'internal', ['tdep', 'static'], ['tdep', 'nothing']))
def _(W, a, c, g, sl):
    t, r, th, ph, grid = a.geo(dict(g, k='v'))
    return W.chaos[c](t, r, th, ph, rc_e=1., rc_i=.5, source_list=sl, verbose=True)


@op('odd.time', 'eval du odd', .6, s=SEED, what=C('leap', 'leap2', 'floatleap', 'list', 'empty', 'old', 'neg', 'floatyear', 'stamp0', 'series', 'tz', 'mixed'))
def _(W, a, s, what):
    import pandas as pd
    return {'leap': lambda: du.dyear_to_mjd(2000.5, leap_year='maybe'), 'leap2': lambda: du.mjd_to_dyear(10.5, leap_year=3), 'floatleap': lambda: du.is_leap_year(2000.5),
            'list': lambda: du.dyear_to_mjd([2000., 2004.5]), 'empty': lambda: du.mjd_to_dyear(np.array([])), 'old': lambda: du.mjd_to_dyear(-730000. + s),
            'neg': lambda: du.dyear_to_mjd(-100.25), 'floatyear': lambda: du.mjd2000(2000.5, 1), 'stamp0': lambda: du.timestamp(np.array([0.5, -1.25])),
            'series': lambda: du.mjd2000(pd.Series(pd.to_datetime(['2001-02-03', '1999-12-31']))), 'tz': lambda: du.mjd2000(
                datetime.datetime(2001, 1, 2, tzinfo=datetime.timezone(datetime.timedelta(hours=5)))), 'mixed': lambda: du.mjd2000([2000, 2001], [[1], [2]])}[what]()


@op('odd.coords', 'eval cu odd cfg', .8, t=TIME, g=GEO, what=C('epoch', 'dip3', 'dip4', 'sun', 'sunscalar', 'ref', 'vref', 'poles', 'vpoles', 'fftref', 'period2d', 'sigma2d', 'kind',
                                                              'const', 'lt', 'c2s0', 'gg', 'sh1', 'lists'))
def _(W, a, t, g, what):
    tt = a.time(dict(t, k='v'))
    _, r, th, ph, grid = a.geo(dict(g, k='v', p=False))
    return {'epoch': lambda: cu.igrf_dipole('1999'), 'dip3': lambda: cu.basevectors_mag(dipole=(-29000., -1500., 4600.)),
            'dip4': lambda: cu.dipole_to_vec((1., 2., 3., 4.)), 'sun': lambda: cu.sun_position(np.array([-40000., 0., 60000.])),
            'sunscalar': lambda: cu.sun_position(0.), 'ref': lambda: cu.transform_points(th, ph, 100., reference='geo'),
            'vref': lambda: cu.transform_vectors(th, ph, th, ph, 100., reference='mag'), 'poles': lambda: cu.matrix_geo_to_base(th * 0, ph, *cu.basevectors_mag(dipole=0.1 * np.ones(3))),
            'vpoles': lambda: cu.transform_vectors(th * 0, ph, th, ph, reference='mag', dipole=np.array(DIPOLES[1])), 'fftref': lambda: cu.rotate_gauss_fft(1, 1, N=8, reference='geo'),
            'period2d': lambda: cu.q_response_1D(np.ones((2, 2)), np.ones(4), np.array([6371.2, 6000., 5000., 3480.]), 1),
            'sigma2d': lambda: cu.q_response_1D(np.ones(2), np.ones((2, 2)), np.array([6371.2, 6000., 5000., 3480.]), 1),
            'kind': lambda: cu.q_response_1D(np.ones(2), np.ones(4), np.array([6371.2, 6000., 5000., 3480.]), 1, kind='linear'),
            'const': lambda: cu.q_response_1D(np.array([1e1, 1e9]), np.array([1e-5, 1e-3, 1., 10.]), np.array([6371.2, 6000., 5000., 3480.]), 1, kind='constant'),
            'lt': lambda: cu.local_time(tt, ph[:1]), 'c2s0': lambda: cu.cartesian_to_spherical(0., 0., 0.), 'gg': lambda: cu.gg_to_geo(0., 45., 1., 2.),
            'sh1': lambda: cu.sh_analysis(lambda x, y: np.cos(np.radians(x)), 1, 1), 'lists': lambda: cu.spherical_to_cartesian(1., [10., 20.], 30.)}[what]()


@op('odd.config', 'eval odd', .4, what=C('str', 'repr', 'int', 'string', 'float', 'vector', 'version', 'path', 'unknown', 'copy', 'fullkeys'))
def _(W, a, what):
    from chaosmagpy import config_utils as cf
    b = cp.basicConfig
    bad = type('Bad', (), {'__str__': lambda s: 1 / 0, '__repr__': lambda s: 'bad'})()
    return {'str': lambda: str(b), 'repr': lambda: repr(b), 'int': lambda: cf.check_int('x'), 'string': lambda: cf.check_string(bad), 'float': lambda: cf.check_float('x'),
            'vector': lambda: cf.check_vector([1, 2], 3), 'version': lambda: cf.check_version_string(3), 'path': lambda: cf.check_path_exists('nope'),
            'unknown': lambda: b['params.none'], 'copy': lambda: copy.deepcopy(dict(b)), 'fullkeys': lambda: sorted(b)}[what]()


@op('odd.load', 'io load odd', .5, what=C('gone', 'dir', 'empty', 'kind', 'matkind', 'h5kind'), f=C('shc', 'covobs', 'gufm', 'cals', 'igrf', 'mat', 'rc', 'bm'))
def _(W, a, what, f):
    p = {'gone': 'nope.x', 'dir': 'tmp', 'empty': 'empty.x', 'kind': 'cond.dat', 'matkind': 'small.mat', 'h5kind': 'gsm.npz'}[what]
    if what == 'empty':
        open(p, 'w').close()
    if what == 'matkind' and f == 'mat':
        p = 'model.shc'
    fn = dict(shc=ch.load_CHAOS_shcfile, covobs=ch.load_CovObs_txtfile, gufm=ch.load_gufm1_txtfile, cals=ch.load_CALS7K_txtfile, igrf=ch.load_IGRF_txtfile,
              mat=ch.load_CHAOS_matfile, rc=du.load_RC_datfile, bm=ch.BaseModel.from_shc)[f]
    return fn(p)


LOADERS = {'model.shc': (ch.load_CHAOS_shcfile, ch.BaseModel.from_shc, du.load_shcfile), 'static.shc': (ch.load_CHAOS_shcfile, ch.BaseModel.from_shc, du.load_shcfile),
           'covobs.txt': (ch.load_CovObs_txtfile,), 'gufm.txt': (ch.load_gufm1_txtfile,), 'cals.txt': (ch.load_CALS7K_txtfile,), 'igrf.txt': (ch.load_IGRF_txtfile,),
           'rc.dat': (du.load_RC_datfile,)}
MATPARTS = ['pp', 'pp/order', 'pp/pieces', 'pp/dim', 'pp/breaks', 'pp/coefs', 'g', 'model_ext', 'model_ext/m_sm', 'model_ext/m_Dst', 'model_ext/m_gsm', 'model_ext/q10',
            'model_ext/qs11', 'model_ext/t_break_q10', 'model_Euler', 'model_Euler/alpha', 'model_Euler/gamma', 'model_Euler/t_break_Euler', 'pp_CAL', 'params',
            'params/Euler_prerotation']


@op('odd.damaged', 'io load odd', .6, f=C(*LOADERS), what=C('cut', 'drop', 'word', 'huge', 'swap', 'more'), s=SEED)
def _(W, a, f, what, s):
    rows = open(f).read().splitlines(True)
    r = rs(s)
    k = r.randint(len(rows))
    words = rows[k].split(' ')
    w = r.randint(len(words))
    if what == 'cut':
        rows = [''.join(rows)[:int(r.uniform() * sum(map(len, rows)))]]
    elif what == 'drop':
        del rows[k]
    elif what == 'more':
        rows.insert(k, rows[r.randint(len(rows))])
    elif what == 'swap':
        rows[k], rows[-1] = rows[-1], rows[k]
    else:
        words[w] = 'x7' if what == 'word' else '1e30'
        rows[k] = ' '.join(words)
    p = 'dam_%d_%s_%s' % (s, what, f)
    with open(p, 'w') as fh:
        fh.write(''.join(rows))
    return LOADERS[f][s % len(LOADERS[f])](p)


@op('odd.damaged_mat', 'io load slow odd', .6, part=C(*MATPARTS), what=C('del', 'del', 'vector', 'empty'), s=SEED)
def _(W, a, part, what, s):
    import h5py
    p = 'dam_%d_%s_%s.mat' % (s, what, part.replace('/', '-'))
    shutil.copyfile('small.mat' if s % 2 else 'small1.mat', p)
    with h5py.File(p, 'r+') as h:
        del h[part]
        if what != 'del':
            h[part] = np.arange(3.) if what == 'vector' else np.zeros((0, 0))
    return ch.load_CHAOS_matfile(p)


# ---- plots (excluded from concurrent use: pyplot is not thread-safe) ------------------------------
def _fig():
    import matplotlib.pyplot as plt
    f = plt.gcf()
    out = []
    for ax in f.axes:
        d = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_yscale(), len(ax.collections)]
        d += [np.array(ln.get_ydata(), dtype=float) for ln in ax.lines[:4] if len(ln.get_ydata())]
        d += [np.asarray(ln.get_xdata(orig=False), dtype=float) for ln in ax.lines[:4] if len(ln.get_ydata())]
        for cmesh in ax.collections:
            arr = cmesh.get_array()
            if arr is not None:
                d.append(np.array(arr, dtype=float))
                d.append(list(cmesh.get_clim()))
        out.append(d)
    sz = list(f.get_size_inches())
    plt.close('all')
    return [sz, out]


def _clear():
    import matplotlib.pyplot as plt
    plt.close('all')      # figures left over by an interrupted plot


@op('plot.spectrum', 'plot cfg', .3, m=C(0, 1), t=TIME)
def _(W, a, m, t):
    _clear()
    W.bm[m].plot_power_spectrum(a.time(dict(t, k='s', r='in')))
    return _fig()


@op('plot.pu_spectrum', 'plot', .3, s=SEED, n=C(3, 5))
def _(W, a, s, n):
    _clear()
    pu.plot_power_spectrum(a.vec(s, -5, 50, (n,)))
    return _fig()


@op('plot.maps', 'plot slow file cfg', .1, m=C(0, 1), t=TIME, deriv=C(None, 1), nmax=C(None, 1))
def _(W, a, m, t, deriv, nmax):
    _clear()
    W.bm[m].plot_maps(a.time(dict(t, k='s', r='in')), 6371.2, deriv=deriv, nmax=nmax)
    return _fig()


@op('plot.maps_pu', 'plot slow file cfg', .15, s=SEED, proj=C(None, None), vmax=C(None, 5.))
def _(W, a, s, proj, vmax):
    th, ph = a.reg('pth', lambda: np.linspace(1, 179, 5)), a.reg('pph', lambda: np.linspace(-180, 180, 6))
    kw = {} if vmax is None else dict(vmax=vmax)
    _clear()
    pu.plot_maps(th, ph, a.vec(s, -9, 9, (5, 6)), **kw)
    return _fig()


@op('plot.series', 'plot cfg', .2, s=SEED, n=C(3, 4))
def _(W, a, s, n):
    _clear()
    pu.plot_timeseries(a.vec(s, 0, 1000, (n,)), a.vec(s + 1, -5, 5, (n,)))
    return _fig()


@op('plot.external', 'plot slow chaos file', .1, c=C(0, 1), ref=C(None, 'all', 'GSM', 'SM'), source=C(None, 'internal', 'all'))
def _(W, a, c, ref, source):
    _clear()
    W.chaos[c].plot_maps_external(1010.5, 6371.2, reference=ref, source=source)
    return _fig()


@op('plot.series_bm', 'plot cfg', .15, m=C(0, 1, 3), deriv=C(None, 1), nmax=C(None, 1))
def _(W, a, m, deriv, nmax):
    _clear()
    W.bm[m].plot_timeseries(6371.2, 40., 50., deriv=deriv, nmax=nmax)
    return _fig()


@op('plot.tdep', 'plot slow chaos file', .15, c=C(0, 1), what=C('series', 'maps', 'static'), deriv=C(None, 1))
def _(W, a, c, what, deriv):
    _clear()
    m = W.chaos[c]
    if what == 'series':
        m.plot_timeseries_tdep(6371.2, 40., 50., deriv=deriv)
    elif what == 'maps':
        m.plot_maps_tdep(1010.5, 6371.2, nmax=1, deriv=deriv)
    else:
        m.plot_maps_static(6371.2, nmax=3)
    return _fig()


@op('plot.layout', 'plot slow file', .1, what=C('series', 'series2', 'maps', 'maps2', 'external'), s=SEED)
def _(W, a, what, s):
    _clear()
    x = a.vec(s, -9, 9, (3,))
    th, ph = a.reg('pth3', lambda: np.linspace(10, 170, 3)), a.reg('pph3', lambda: np.linspace(-170, 170, 3))
    z = a.vec(s, -9, 9, (3, 3))
    if what == 'series':
        pu.plot_timeseries(x, x, layout=(2, 2))
    elif what == 'series2':
        pu.plot_timeseries(x, x, x, layout=(2, 1), titles=['a', 'b'], ylabel='y')
    elif what == 'maps':
        pu.plot_maps(th, ph, z, layout=(2, 2))
    elif what == 'maps2':
        pu.plot_maps(th, ph, z, z, layout=(2, 1), label='l', titles=['a', 'b'], limiter=lambda q: 3.)
    else:
        W.chaos[0].plot_maps_external(1010.5, 6371.2, reference='bad')
    return _fig()


@op('plot.nio', 'plot', .1)
def _(W, a):
    return np.array(pu.nio_colormap()(np.linspace(0, 1, 5)))


# ---- generation ----------------------------------------------------------------------------------
def select(include='eval', exclude=()):
    inc = set(include.split()) if isinstance(include, str) else set(include)
    return [o for o in OPS.values() if (o.tags & inc) and not (o.tags & set(exclude))]


def gen_pick(r, pool):
    return r.choices(pool, [x.weight for x in pool])[0]


def gen(r, pool):
    return gen_op(r, gen_pick(r, pool))


def gen_op(r, o):
    return dict(op=o.name, args={k: s(r) for k, s in o.params.items()})


def twin(r, d, k=1):
    """The same call with k arguments drawn anew; value seeds preferably change while shapes stay."""
    o = OPS[d['op']]
    n = json.loads(json.dumps(d))
    if n.pop('like', None) is None and r.random() < 0.25:
        n['like'] = [r.choice(LIKE), r.choice([0, 0, 1, 2])]
        return n
    names = list(o.params)
    if not names:
        return n
    for _ in range(k):
        p = r.choice(names)
        v = n['args'].get(p)
        if isinstance(v, dict) and 's' in v and r.random() < 0.7:
            v['s'] = r.randrange(1000)
        else:
            n['args'][p] = o.params[p](r)
    return n


def call(W, d, a=None):
    """Execute; returns (outcome, raw result). Outcome: ('ok', encoded) or ('exc', type, text)."""
    a = a or Args()
    a.like = d.get('like')
    try:
        raw = OPS[d['op']].fn(W, a, **d['args'])
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:300]), None
    return ('ok', enc(raw)), raw
