"""C15: loading is all-or-nothing under read faults, repeatable, and never alters files."""
import contextlib
import errno
import hashlib
import os
import pathlib
import sys

import numpy as np

from sim import core, io, ops, world
from sim.world import ch, cp, du, enc

# loader -> kind of file
LOADERS = dict(bm_shc='shc', bm_shc_leap='shc', chaos_shc='shc', chaos_from_shc='shc', raw_shc='shc', covobs='covobs', gufm='gufm', cals='cals', igrf='igrf',
               mat='mat', from_mat='mat', mat_sats='mat', raw_mat='mat', raw_mat_vars='mat', mat5='mat5', raw_mat5='mat5', rc='rc', rc_dates='rc', conf='conf')
END = dict(shc='.shc', covobs='.txt', gufm='.txt', cals='.txt', igrf='.txt', mat='.mat', mat5='.mat', rc='.dat', conf='.json')
WEIGHT = dict(mat=.5, from_mat=.5, mat_sats=.4)
TEXT = ('shc', 'covobs', 'gufm', 'cals', 'igrf', 'rc', 'conf')
MUT = ('open-write', 'write', 'unlink', 'rename', 'truncate', 'mkdir', 'escape', 'link')
_ref = {}


@contextlib.contextmanager
def suppressed(log):
    """Records the exceptions that the readers of hdf5storage discard."""
    old = contextlib.suppress

    class Recorder(old):
        def __exit__(self, t, v, tb):
            done = super().__exit__(t, v, tb)
            if done and t is not None and 'hdf5storage' in sys._getframe(1).f_code.co_filename:
                log.append(t.__name__)
            return done
    contextlib.suppress = Recorder
    try:
        yield
    finally:
        contextlib.suppress = old


def load(how, path, sats):
    if how == 'conf':
        before = dict(cp.basicConfig)
        cp.basicConfig.load(path)
        now = world.config_snapshot()
        dict.update(cp.basicConfig, before)     # the files set different keys
        return now
    if how in ('mat_sats',):
        return ch.load_CHAOS_matfile(path, satellites=sats)
    return dict(bm_shc=ch.BaseModel.from_shc, bm_shc_leap=lambda p: ch.BaseModel.from_shc(p, leap_year=True), chaos_shc=ch.load_CHAOS_shcfile,
                chaos_from_shc=ch.CHAOS.from_shc, raw_shc=du.load_shcfile, covobs=ch.load_CovObs_txtfile, gufm=ch.load_gufm1_txtfile,
                cals=ch.load_CALS7K_txtfile, igrf=ch.load_IGRF_txtfile, mat=ch.load_CHAOS_matfile, from_mat=ch.CHAOS.from_mat, raw_mat=du.load_matfile,
                raw_mat_vars=lambda p: du.load_matfile(p, ['pp', 'g']), mat5=ch.load_CHAOS_matfile, raw_mat5=du.load_matfile, rc=du.load_RC_datfile,
                rc_dates=lambda p: du.load_RC_datfile(p, parse_dates=True))[how](path)


HURT = ('word', 'cut', 'drop', 'twice', 'swap', 'huge', 'byte', 'lost')


def hurt(kind, data, frac, how):
    n = int(frac * len(data))
    if kind not in TEXT or how == 'cut':
        return data[:n]
    if how == 'byte':
        return data[:n] + b'\xff' + data[n + 1:]
    if how in ('drop', 'twice', 'swap'):
        rows = data.splitlines(True)
        k = int(frac * len(rows))
        if how == 'swap':
            rows[k], rows[k - 1] = rows[k - 1], rows[k]
        else:
            rows[k:k + 1] = [] if how == 'drop' else [rows[k]] * 2
        return b''.join(rows)
    n = data.find(b' ', n) if data.find(b' ', n) >= 0 else n
    m = data.find(b' ', n + 1) if how == 'lost' else n
    return data[:n] + {'word': b' word ', 'huge': b' 1e30 ', 'lost': b' '}[how] + data[max(m, n):]


def strip(o):
    """Loaded MAT files carry a header with the platform and date (hdf5storage, scipy): not data."""
    if isinstance(o, dict):
        return {k: v for k, v in o.items() if not (isinstance(k, str) and k.startswith('__'))}
    return o


class CHECK(core.Check):
    pid = 'C15'
    runs = dict(quick=9000, thorough=360000)
    wall = dict(quick=230, thorough=3000)
    rule = 'run with at least one load in which a read fault took effect, or a file replaced between two loads of it'
    distinct_by = 'loaders, file contents, faults, order of loads'
    assumptions = ['a reader may try again after a disk error; it must then return the complete contents or raise',
                   'file contents change only between loads']
    real = 'all loaders; HDF5, h5py, hdf5storage, scipy.io, NumPy and pandas text readers'
    stub = 'system calls below libc where a fault is planned (LD_PRELOAD shim)'
    shrinkable = ('steps',)

    def setup(self):
        world.fixtures()

    def gen(self, r, i, tier):
        names = sorted(LOADERS)
        w = [WEIGHT.get(n, 1.) for n in names]
        base = [r.choices(names, w)[0] for _ in range(r.choice([1, 1, 2]))]
        steps = []
        for k in range(r.choice([1, 2, 2, 3, 4])):
            how = r.choice(base)
            st = dict(how=how, file=r.choice([0, 0, 0, 1]), fault=None, replace=None, as_path=r.random() < 0.15, abs=r.random() < 0.2, nsat=r.choice([3, 3, 1]), hurt=None)
            q = r.random()
            soft = dict(on=['read'], nth=r.choice([1, 1, 2, 3, r.randrange(1, 40)]), action=r.choice(['short', 'short', 'eintr']), arg=r.choice([1, 2, 3, 7, 64, 1000, r.randrange(1, 9000)]),
                        times=r.choice([1, 1, 3, 30, 300]))
            if r.random() < 0.5:
                soft['frac'] = r.random()
            if q < 0.27:
                st['fault'] = [soft]
            elif q < 0.37:
                st['hurt'] = r.choice([r.random(), r.random(), r.random() ** 3, 0.97])
                st['how_hurt'] = r.choice(HURT)
                st['part'] = r.choice([None] + ops.MATPARTS)
            elif q < 0.75:
                on = r.choice(['open-read', 'read', 'read', 'read', 'read'])
                st['fault'] = [dict(on=[on], nth=r.choice([1, 1, 2, 3, 4, r.randrange(1, 40)]), action='error', times=r.choice([1, 1, 2, 10 ** 6, 10 ** 6]),
                                    arg=r.choice([errno.EIO, errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ENOMEM] if on == 'open-read' else [errno.EIO, errno.ESTALE, errno.EINVAL]))]
                if r.random() < 0.6:
                    st['fault'][0].update(frac=r.random(), times=r.choice([1, 1, 10 ** 6]))
                if r.random() < 0.2:
                    st['fault'].append(soft)
            if k and r.random() < 0.25:
                st['replace'] = r.choice(['rewrite', 'rename'])
            steps.append(st)
        size = r.choice([0, 0, 1, 1, 2])
        return dict(steps=steps, seed=r.randrange(5), size=size)

    # ---- files ------------------------------------------------------------------------------
    def content(self, kind, seed, size, lost=None):
        """Bytes of file `kind` number `seed` (built once), a MAT-file possibly without one of its parts."""
        d = os.path.join(core.scratch_base(), 'c15')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d-%d' % (kind, seed, size) + ('' if lost is None else '-' + lost.replace('/', '-')))
        if not os.path.exists(path):
            tmp = path + '.%d%s' % (os.getpid(), END[kind])

            def run(emit):
                world.enter(d, False)      # seeds the names hdf5storage draws
                self.build(tmp, kind, seed, size)
                if lost:
                    import h5py
                    with h5py.File(tmp, 'r+') as h:
                        del h[lost]
            c = core.fork_run(run)
            if c.status != 'done':
                raise core.HarnessError('building %s ended with %s' % (path, c.status))
            os.rename(tmp, path)
        return open(path, 'rb').read()

    def build(self, tmp, kind, seed, size):
        n = (2, 9, 16)[size]
        if kind in ('mat', 'mat5'):
            m = world.make_chaos(100 + seed, nt=(2, 4, 6)[size], ns=(4, 8, 14)[size], order=3 + seed % 3, pieces=(3, 6, 12)[size], nsat=3)
            with world.quiet():
                if kind == 'mat':
                    m.save_matfile(tmp)
                else:
                    from . import c08
                    c08.mat_v5(tmp, m)
        elif kind == 'conf':
            v = {**cp.basicConfig, 'params.r_surf': 6000. + seed, 'params.dipole': [float(seed), 2., 3.], 'params.CHAOS_version': '7.%d' % seed, 'file.RC_index': None}
            for k in ((), ('params.dipole',), ('params.r_surf',), ('params.r_surf', 'params.CHAOS_version'), ('params.CHAOS_version', 'file.GSM_spectrum'))[seed]:
                del v[k]
            import json
            txt = json.dumps({k: np.asarray(x).tolist() if isinstance(x, np.ndarray) else x for k, x in v.items()})
            open(tmp, 'w').write(txt + ' ' * (20, 9000, 40000)[size])
        else:
            txt = dict(shc=lambda: world.shc_text(seed, nmax=n, order=1 + seed % 4, pieces=1 + seed % 4), covobs=lambda: world.covobs_text(seed, n), gufm=lambda: world.gufm_text(seed, n),
                       cals=lambda: world.cals_text(seed, n), igrf=lambda: world.igrf_text(seed, n, 3 + seed), rc=lambda: world.rc_dat_text(seed, (30, 400, 3000)[size]))[kind]()
            open(tmp, 'w').write(txt)

    def name(self, st):
        k = LOADERS[st['how']]
        return '%s%d%s' % (k, st['file'], END[k])

    def reference(self, how, seed, size, nsat):
        key = (how, seed, size, nsat)
        if key not in _ref:
            kind = LOADERS[how]
            with core.Scratch() as root:
                p = 'r' + END[kind]
                open(os.path.join(root, p), 'wb').write(self.content(kind, seed, size))

                def run(emit):
                    world.enter(root, False)
                    disk = io.Disk(root)
                    with disk:
                        o = self.outcome(how, p, nsat)
                    return o, [dict(op=j['op'], path=j['path']) for j in disk.journal() if j['path'] == p]
                c = core.fork_run(run)
            if c.status != 'done':
                raise core.HarnessError('reference ended with %s' % c.status)
            _ref[key] = c.result
        return _ref[key]

    def outcome(self, how, path, nsat):
        sats = None if nsat == 3 and how != 'mat_sats' else ['sat%d' % k for k in range(nsat)]
        try:
            o = load(how, path, sats)
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:150])
        return ('ok', self.neutral(enc(strip(o))))

    def neutral(self, o):
        """Without names that are taken from the file name and creation stamps."""
        if isinstance(o, dict):
            return {k: self.neutral(v) for k, v in o.items() if k not in ('name', 'timestamp', 'version', 'SHC')}
        if isinstance(o, (list, tuple)):
            return [self.neutral(x) for x in o]
        return o

    def execute(self, scn):
        res = core.Result()
        res.sig = core.sig(scn)
        size = scn['size']
        cur, plan = {}, []      # contents of each file as the steps go
        for st in scn['steps']:
            f = self.name(st)
            if f not in cur:
                cur[f] = (scn['seed'] + st['file']) % 5
                first = True
            else:
                first = False
            if st['replace'] and not first:
                cur[f] = (cur[f] + 2) % 5
            kind = LOADERS[st['how']]
            ref, journal = self.reference(st['how'], cur[f], size, st['nsat'])
            st['fault'] = io.resolve(st['fault'] or [], journal)
            data = self.content(kind, cur[f], size)
            if st['hurt'] is not None:
                if kind == 'mat' and st.get('part'):
                    data = self.content(kind, cur[f], size, st['part'])
                else:
                    data = hurt(kind, data, st['hurt'], st.get('how_hurt', 'word'))
            plan.append((f, kind, cur[f], ref, data))
        with core.Scratch() as root:
            for (f, kind, s, ref, data) in reversed(plan):      # the first contents win
                open(os.path.join(root, f), 'wb').write(data)

            def run(emit):
                world.enter(root, False)
                disk = io.Disk(root)
                out = []
                for st, (f, kind, s, ref, data) in zip(scn['steps'], plan):
                    old = open(f, 'rb').read()
                    if old != data:
                        if st['replace'] == 'rename':
                            open(f + '.new', 'wb').write(data)
                            os.rename(f + '.new', f)
                        else:
                            open(f, 'wb').write(data)
                    conf = world.config_snapshot()
                    p = os.path.abspath(f) if st['abs'] else f
                    if st['as_path']:
                        p = pathlib.Path(p)
                    before = listing()
                    disk.clear_journal()
                    disk.plan([dict(q, path='=' + f) for q in st['fault'] or []])
                    drop = []
                    with suppressed(drop), disk:
                        o = self.outcome(st['how'], p, st['nsat'])
                    j = disk.journal()
                    disk.clear()
                    bad = [x['op'] + ' ' + x['path'] for x in j if x['op'] in MUT]
                    after = listing()
                    bad += ['changed: ' + k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)]
                    now = world.config_snapshot()
                    conf_e = None if kind == 'conf' and o[0] == 'ok' else world.same(now, conf)
                    out.append((o, io.injected(j), bad, conf_e, drop if o[0] == 'ok' else []))
                return out
            c = core.fork_run(run)
            if c.status != 'done':
                res.violate('process-dies' if c.status.startswith('signal') else 'hang', 'loading ended with %s' % c.status)
                return res
            seen = {}
            for k, (st, (f, kind, s, ref, data), (o, fired, bad, conf_e, drop)) in enumerate(zip(scn['steps'], plan, c.result)):
                what = 'load %d of %d (%s, faults %s)' % (k + 1, len(plan), st['how'], fired)
                for q in fired:
                    res.count('fault:' + q)
                if f in seen and seen[f] != s:
                    res.count('fault:file replaced between loads')
                    res.nontrivial = True
                seen[f] = s
                res.nontrivial |= bool(fired)
                if st['hurt'] is not None:
                    res.count('fault:damaged file' + (', load raised' if o[0] == 'exc' else ', load returned'))
                    res.nontrivial |= o[0] == 'exc'
                res.log.append([o[0] if o[0] == 'ok' else o[:2], sorted(fired), world.brief(ref[1]) if ref[0] != 'ok' else 'ok'])
                if bad:
                    res.violate('files-altered', '%s: %s' % (what, bad[:4]))
                if conf_e:
                    res.violate('configuration-changed', '%s: %s' % (what, conf_e))
                hard = [q for q in fired if q.startswith('error')]
                if st['hurt'] is not None:       # what a damaged file gives is judged by C08 and C10
                    continue
                if not hard or o[0] == 'ok':
                    e = world.same_outcome(o, ref)
                    if e:
                        cls = 'partial-result' if hard or fired else 'later-load-affected'
                        res.violate(cls, '%s: %s%s' % (what, e, '; %s discarded by hdf5storage' % drop if drop and hard else ''))
                        continue
                if hard and o[0] == 'ok':
                    if any(q['action'] == 'error' and q['nth'] == 1 and q.get('frac') is None and q['times'] > 100 for q in st['fault']) and len(st['fault']) == 1:
                        res.violate('fault-ignored', '%s: returned although the file cannot be read' % what)
                    else:
                        res.count('retried')
        return res


def listing():
    d = {}
    for dirpath, dirs, files in os.walk('.'):
        for x in dirs:
            d[os.path.join(dirpath, x)] = 'dir'
        for x in files:
            p = os.path.join(dirpath, x)
            s = os.lstat(p)
            d[p] = (s.st_size, s.st_mtime_ns, s.st_mode, hashlib.sha256(open(p, 'rb').read()).hexdigest()[:12])
    return d
