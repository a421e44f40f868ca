"""C13: results do not depend on the clock or the time zone; creation stamps are the moment of creation in UTC."""
import datetime as dt
import os
import re
import sys
import time

from sim import core, io, net, ops, world
from . import c02, c09

ZONES = ('UTC', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XYZ+11:59', 'ABC-13:45', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NST3:30NDT,M3.2.0,M11.1.0')
MOMENTS = ('1971-01-01T00:00:01', '1999-12-31T23:59:59.999999', '2000-01-01T00:00:00', '2000-02-29T12:00:00', '2016-12-31T23:59:59', '2024-03-10T06:59:59', '2024-03-31T00:59:59',
           '2024-10-27T01:30:00', '2024-11-03T05:30:00', '2025-12-31T20:00:00', '2038-01-19T03:14:08', '2099-07-01T00:00:00', '2106-02-07T06:28:16', '2000-01-01T00:00:00.000001')
NS = 10 ** 9
BASE = dict(start='2020-06-01T12:00:00', step=1000, jumps=[], tz='UTC')


def ns(text):
    d = dt.datetime.fromisoformat(text).replace(tzinfo=dt.timezone.utc) - dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
    return (d.days * 86400 + d.seconds) * NS + d.microseconds * 1000


def stamp_ns(text):
    """Stamp text -> ns, read as UTC unless it says otherwise; None if it is not a time."""
    m = re.search(r'(\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(?:\.\d+)?)([+-]\d\d:?\d\d)?', text)
    if not m:
        return None
    d = dt.datetime.fromisoformat(m.group(1) + (m.group(2) or '+00:00')) - dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
    return (d.days * 86400 + d.seconds) * NS + d.microseconds * 1000


class CHECK(core.Check):
    pid = 'C13'
    runs = dict(quick=5500, thorough=220000)
    wall = dict(quick=230, thorough=3000)
    rule = 'calls executed under a clock (start, rate, jumps) and time zone that differ from the base run'
    distinct_by = 'calls with arguments, clock, time zone'
    assumptions = ['the stamp that MATLAB-files carry in their header is written by hdf5storage and not judged; modification times kept by the file system neither',
                   'a stamp without UTC offset is read as UTC, as labelled',
                   'the moment of creation is any moment during the call (clock jumps included), to one second']
    real = 'all public calls; C library time-zone conversion'
    stub = 'clock_gettime, gettimeofday, time (LD_PRELOAD shim); TZ variable'
    shrinkable = ('steps',)

    def setup(self):
        world.fixtures()

    def gen(self, r, i, tier):
        pool = ops.select('eval io load save', ('plot', 'slow') if r.random() < 0.9 else ())
        steps = []
        for _ in range(r.choice([1, 2, 3, 4])):
            k = r.random()
            if k < 0.3:
                s = dict(k='stamp', d=r.choice(['shc', 'shc', 'raw', 'model', 'model', 'load', 'str']), s=r.randrange(1000))
            elif k < 0.4:
                s = dict(k='other', d=r.choice(['refresh', 'fetch', 'conf']))
            elif k < 0.55:
                s = dict(k='op', d=ops.gen_op(r, ops.OPS[r.choice(['du.mjd2000', 'du.timestamp', 'du.dyear_to_mjd', 'du.mjd_to_dyear', 'cu.sun_position', 'du.load_RC_dat', 'cu.igrf_dipole',
                                                                  'cu.zenith', 'cu.local_time', 'cu.base_gsm'])]))
            else:
                s = dict(k='op', d=ops.gen(r, pool))
            if s['k'] == 'op' and r.random() < 0.45:
                o = ops.OPS[s['d']['op']]
                f = str(s['d']['args'].get('f', ''))
                sw = ([x for x in c02.SWAPS if x[0] == f] if f else []) or (
                    c02.SWAPS[:1] + c02.SWAPS[3:4] if 'rc' in o.tags else c02.SWAPS[2:6] if 'ext' in o.tags else c02.SWAPS[:7] if 'file' in o.tags else [])
                if sw:
                    # the file of this call is replaced and the call repeated (its time stamp need not be that of the clock)
                    x = r.choice(sw)
                    self.time(r, s)
                    steps += [s, dict(k='file', dst=x[0], src=x[1], keep=r.random() < 0.5, inplace=r.random() < 0.5, mtime=r.choice([None, None] + list(MOMENTS)))]
                    s = dict(k='op', d=s['d'])
                    if r.random() < 0.6:
                        s.update(clock=steps[-2]['clock'], tz=steps[-2]['tz'])
                        steps.append(s)
                        continue
            self.time(r, s)
            steps.append(s)
        fresh = r.random() < 0.06
        if fresh:
            steps[0]['tz'] = r.choice(ZONES[1:])
        return dict(steps=steps, fresh=fresh)

    def time(self, r, s):
        s['clock'] = dict(start=r.choice(MOMENTS), step=r.choice([1, 1000, 10 ** 6, NS, 3600 * NS, 0]), jumps=[
            [r.choice([1, 1, 2, 3, 5]), r.choice([1, -1]) * r.choice([NS, 3600 * NS, 86400 * NS, 366 * 86400 * NS])] for _ in range(r.choice([0, 0, 1, 1, 2]))])
        s['tz'] = r.choice(ZONES)

    def do(self, world_, ops_, W, s):
        if s['k'] == 'op':
            o = ops_.call(W, s['d'])[0]
            return o, None
        d = s['d']
        try:
            if s['k'] == 'stamp':
                p = 'stamp.shc'
                if d in ('shc', 'raw'):
                    if d == 'shc':
                        W.bm[s['s'] % 5].to_shc(p)
                    else:
                        world_.du.save_shcfile([1., 2.], world_.rs(s['s']).normal(size=(2, 8)), order=2, filepath=p)
                    lines = open(p).read().split('\n')
                    got = [ln for ln in lines if 'reated' in ln]
                    return ('ok', [ln for ln in lines if 'reated' not in ln]), got[0] if len(got) == 1 else 'stamp lines: %s' % got
                if d == 'load':
                    m = world_.ch.load_CHAOS_shcfile('model.shc')
                else:
                    m = world_.make_chaos(s['s'], nsat=1)
                if d == 'str':
                    t = str(m)
                    return ('ok', re.sub(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)?(\+00:00)?', 'STAMP', t)), t
                return ('ok', world_.enc(m)), m.timestamp
            if d == 'conf':
                world_.cp.basicConfig.save('c.json')
                world_.cp.basicConfig.load('c.json')
                return ('ok', open('c.json').read()), None

            def serve(path):
                return (200, {}, c09.listing('good', 'x.dat')) if path == c09.PATH else (200, {}, c09.data('good', 5, 30))
            with net.Net(serve) as n:
                if d == 'fetch':
                    return ('ok', [world_.enc(world_.du.load_RC_datfile()), n.log]), None
                world_.du.save_RC_h5file('r.h5')
                import h5py
                with h5py.File('r.h5', 'r') as h:
                    return ('ok', [{k: h[k][:] for k in h}, n.log]), None
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:200]), None

    def driver(self, scn, root, base):
        def run(emit):
            w, o = world, ops
            first = next((s for s in scn['steps'] if 'tz' in s and not base), dict(clock=BASE, tz='UTC'))
            if scn['fresh']:
                fix = world._fixdir
                for m in [m for m in sys.modules if m.split('.')[0] == 'chaosmagpy' or m in ('sim.world', 'sim.ops')]:
                    del sys.modules[m]
                self.zone(first['tz'])
                L = io.lib()
                L.sim_clock(1, ns(first['clock']['start']), 5 * NS, first['clock']['step'])
                import importlib
                import matplotlib
                matplotlib.colormaps.unregister('nio')
                import sim
                del sim.world, sim.ops
                w = importlib.import_module('sim.world')
                o = importlib.import_module('sim.ops')
                w._fixdir = fix
                L.sim_clock(0, 0, 0, 0)
            w.enter(root)
            W = w.World()
            L = io.lib()
            out = []
            for s in scn['steps']:
                if s['k'] == 'file':
                    c02.CHECK.swap(root, s)
                    if s['mtime']:
                        os.utime(os.path.join(root, s['dst']), ns=(ns(s['mtime']),) * 2)
                    out.append((('ok', None), None, 0))
                    continue
                c = BASE if base else s['clock']
                self.zone('UTC' if base else s['tz'])
                with io.Clock(ns(c['start']), c['step'], c['jumps']):
                    oc, st = self.do(w, o, W, s)
                    n = L.sim_clock_reads()
                out.append((oc, st, n))
            self.zone('UTC')
            return out
        return core.fork_run(run, cpu=100)

    def zone(self, tz):
        os.environ['TZ'] = tz
        time.tzset()

    def execute(self, scn):
        res = core.Result()
        both = []
        for base in (True, False):
            with core.Scratch() as root:
                world.populate(root)
                c = self.driver(scn, root, base)
                if c.status != 'done':
                    res.violate('hang', 'calls ended with %s (%s)' % (c.status, 'base' if base else 'varied clock'))
                    return res
                both.append(c.result)
        res.sig = core.sig(scn)
        res.nontrivial = True
        for k, s in enumerate(scn['steps']):
            (a, sa, na), (b, sb, nb) = both[0][k], both[1][k]
            if s['k'] == 'file':
                res.count('file replaced')
                continue
            c = s['clock']
            res.simtime += nb * c['step'] / NS
            res.count('fault:time zone %s' % s['tz'].split(',')[0])
            res.count('fault:clock at another time')
            if c['jumps'] and nb >= c['jumps'][0][0]:
                res.count('fault:clock jump %s during the call' % ('forward' if c['jumps'][0][1] > 0 else 'backward'))
            if nb:
                res.count('call reads the clock')
            res.log.append([b[0], bool(sb), world.brief(b[1]) if b[0] == 'ok' else b[1]])
            e = world.same_outcome(b, a, rtol=0, atol=0)
            if e:
                res.violate('clock-dependent', '%s under %s, TZ %s: %s' % (s['d'], c, s['tz'], e))
            if s['k'] == 'stamp' and b[0] != 'ok':
                res.violate('wrong-stamp', '%s: %s' % (s['d'], b))
            for stamp, n, cl in ((sa, na, BASE), (sb, nb, c)):
                if stamp is None:
                    continue
                t = stamp_ns(stamp)
                ok, x = [], ns(cl['start'])
                for i in range(n + 1):
                    if i:
                        x += sum(by for at, by in cl['jumps'] if at == i) + cl['step']
                    ok.append(x)
                if t is None or not any(abs(t - x) <= NS for x in ok):
                    res.violate('wrong-stamp', '%s: stamp %r, clock went from %s to %s, TZ %s' % (s['d'], stamp, cl['start'], dt.datetime.fromtimestamp(
                        ok[-1] / 1e9, dt.timezone.utc).isoformat(), s['tz']))
        return res
