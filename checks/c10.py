"""C10: faults of data files never become wrong field values."""
import errno
import os
import shutil

import numpy as np

from sim import core, io, ops, sched, world
from sim.world import enc

ROLE = {'rc': 'file.RC_index', 'gsm': 'file.GSM_spectrum', 'sm': 'file.SM_spectrum', 'cond': 'file.Earth_conductivity'}
CHOICE = dict(rc=['rc.h5', 'rc.h5', 'rc.dat', 'rc.dat', 'rc1.h5', 'rc1.dat'], gsm=['gsm.npz', 'gsm.npz', 'gsm0b.npz', 'gsm_real.npz'],
              sm=['sm.npz', 'sm.npz', 'sm0b.npz', 'sm_real.npz'], cond=['cond.dat', 'cond1.dat'])
POOL = ('chaos.synth_coeffs_gsm', 'chaos.synth_values_gsm', 'chaos.synth_coeffs_sm', 'chaos.synth_coeffs_sm', 'chaos.synth_values_sm',
        'chaos.call', 'cu.rotate_fft', 'cu.q_response', 'chaos.synth_coeffs_sm', 'chaos.synth_coeffs_sm')
USES = {'chaos.synth_coeffs_gsm': ['gsm'], 'chaos.synth_values_gsm': ['gsm'], 'chaos.synth_coeffs_sm': ['rc', 'rc', 'sm'],
        'chaos.synth_values_sm': ['rc', 'rc', 'sm'], 'chaos.call': ['rc', 'gsm', 'sm'], 'cu.rotate_fft': ['cond'], 'cu.q_response': ['cond']}
ARRAYS = ('frequency', 'spectrum', 'frequency_ind', 'spectrum_ind', 'scaled', 'dipole')


class CHECK(core.Check):
    pid = 'C10'
    runs = dict(quick=9000, thorough=360000)
    wall = dict(quick=200, thorough=3000)
    rule = 'evaluation that reads data files, with a fault or damage that took effect, RC values given, another form of the index, or times at the bounds'
    distinct_by = 'call with arguments, files, fault'
    assumptions = ['text data files carry no length: a text file cut at the end of a row is a valid shorter file',
                   'an error that is retried with the right result needs no exception',
                   'equal means to 1e-9 relative']
    real = 'chaosmagpy.chaos, coordinate_utils, data_utils; numpy.load, zipfile, pandas, h5py, HDF5'
    stub = 'system calls below libc where a fault is planned; damage applied to the files'
    shrinkable = ('faults',)

    def setup(self):
        world.fixtures()

    def gen(self, r, i, tier):
        d = ops.gen_op(r, ops.OPS[r.choice(POOL)])
        a = d['args']
        mode = r.choice(['io', 'io', 'io', 'damage', 'damage', 'soft', 'given', 'form', 'bounds'])
        if mode in ('form', 'bounds'):
            d = ops.gen_op(r, ops.OPS['chaos.synth_coeffs_sm' if mode == 'bounds' else r.choice(['chaos.synth_coeffs_sm', 'chaos.synth_values_sm', 'chaos.call'])])
            a = d['args']
        if mode == 'given':
            d = ops.gen_op(r, ops.OPS[r.choice(['chaos.synth_coeffs_sm', 'chaos.synth_values_sm', 'chaos.call'])])
            a = d['args']
            a['rc'] = 's'
            for k in ('t', 'g'):
                if k in a:
                    a[k]['r'] = r.choice(['rc', 'in', 'out'])
        elif 'rc' in a and r.random() < 0.8:
            a['rc'] = None
        if mode != 'given':
            for k in ('t', 'g'):
                if k in a and r.random() < 0.9:
                    a[k]['r'] = 'rc'
        if 'q' in a:
            a['q'] = None
        role = 'rc' if mode in ('given', 'form', 'bounds') else r.choice(USES[d['op']])
        if mode in ('io', 'damage', 'soft') and r.random() < 0.05:
            role = r.choice(list(ROLE))
        scn = dict(d=d, mode=mode, role=role, files={k: r.choice(v) for k, v in CHOICE.items()}, warm=r.random() < 0.3, faults=[], damage=None)
        f = scn['files'][role]
        kind = mode if mode != 'given' else r.choice(['io', 'damage'])
        if kind == 'io':
            on = r.choice(['open-read', 'read', 'read', 'read'])
            scn['faults'] = [dict(on=[on], path='=' + f, nth=r.choice([1, 1, 2, 3, r.randrange(1, 20)]), action='error', times=r.choice([1, 2, 10 ** 6, 10 ** 6]),
                                  arg=r.choice([errno.EIO, errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ENOMEM] if on == 'open-read' else [errno.EIO, errno.ESTALE]))]
        elif kind == 'soft':
            scn['faults'] = [dict(on=['read'], path=r.choice(['', '=' + f]), nth=r.choice([1, 1, 2, 3, r.randrange(1, 20)]), action=r.choice(['short', 'eintr']),
                                  arg=r.choice([1, 2, 7, 100, 1000]), times=r.choice([1, 2, 20])) for _ in range(r.choice([1, 1, 2, 3]))]
        if scn['faults'] and r.random() < 0.6:
            scn['faults'][0]['frac'] = r.random()
        if kind == 'damage':
            c = ['missing', 'missing', 'directory', 'empty', 'garbage', 'kind']
            if not f.endswith('.dat'):
                c += ['cut', 'cut', 'cut', 'field', 'field']
            if role in ('gsm', 'sm'):
                c += ['dipole', 'dipole', 'flip']
            if f == 'rc.dat' or f == 'rc1.dat':
                c += ['word', 'html', 'comments', 'short row', 'short row', 'joined rows', 'joined rows']
            if role == 'cond':
                c += ['word', 'word', 'html', 'comments', 'short row', 'joined rows']
            scn['damage'] = [r.choice(c), r.choice([r.random(), r.random() ** 4, 1 - r.random() ** 4]), r.randrange(1000)]
        elif kind == 'bounds':
            scn['at'] = [r.choice(['first', 'last']), r.choice([0., 0., 1e-9, 1e-7, 1e-5, .01, 1., 1000.]), r.choice(['s', 'v', 'v', 'm']), r.choice(['inside', 'inside', 'outside', 'outside']),
                         r.choice(['external', 'internal', None])]
        return scn

    # ---- pieces ---------------------------------------------------------------------------------
    def config(self, scn):
        return {ROLE[k]: v for k, v in scn['files'].items()}

    def populate(self, root):
        world.populate(root)
        d = world.fixtures()
        for n in ('gsm_real.npz', 'sm_real.npz'):
            os.symlink(os.path.join(d, n), os.path.join(root, n))

    def hurt(self, scn, name):
        """Damages the file; returns a function that repairs it. Runs with cwd = root, disk seam off."""
        how, frac, seed = scn['damage']
        keep = name + '.keep'
        os.rename(name, keep)
        data = open(keep, 'rb').read()
        if how == 'directory':
            os.mkdir(name)
        elif how == 'empty':
            open(name, 'w').close()
        elif how == 'garbage':
            open(name, 'wb').write(bytes(range(256)) * 40)
        elif how == 'kind':
            src = 'sm0b.npz' if 'rc' in name or 'cond' in name else ['rc.h5', 'rc.dat'][seed % 2]
            shutil.copyfile(src + '.keep' if not os.path.exists(src) else src, name)
        elif how == 'cut':
            open(name, 'wb').write(data[:min(len(data) - 1, int(frac * len(data)))])
        elif how == 'flip':     # a few bytes of a compressed-archive member: the archive carries checksums
            b = bytearray(data)
            with np.load(keep) as z:
                info = z.zip.getinfo(['spectrum.npy', 'frequency.npy', 'spectrum_ind.npy', 'frequency_ind.npy'][seed % 4])
                at = info.header_offset + 30 + len(info.filename) + 200 + int(frac * (info.compress_size - 300))
            b[at] ^= 0x5a
            open(name, 'wb').write(bytes(b))
        elif how in ('field', 'dipole'):
            if name.endswith('.npz'):
                with np.load(keep) as z:
                    d = dict(z)
                if how == 'dipole':
                    d['dipole'] = [np.array(world.DIPOLES[1]), d['dipole'] * (1 + 1e-12), d['dipole'] * 2, -d['dipole'], d['dipole'] + [0, 0, 1e-3]][seed % 5]
                else:
                    d.pop(ARRAYS[seed % 6])
                np.savez(name + '.tmp.npz', **d)
                os.rename(name + '.tmp.npz', name)
            else:
                import h5py
                shutil.copyfile(keep, name)
                with h5py.File(name, 'a') as h:
                    k = ['time', 'RC_e', 'RC_i'][seed % 3]
                    v = h[k][:]
                    del h[k]
                    if seed % 2:
                        h[k] = v[:-1 - seed % 3]
        elif how == 'short row':
            t = data.decode().rstrip()
            rows = t.split('\n')
            n = 3 + int(frac * (len(rows) - 4))
            w = rows[n].split()
            open(name, 'w').write('\n'.join(rows[:n] + [' '.join(w[:1 + seed % (len(w) - 1)])]))
        elif how == 'joined rows':
            rows = data.decode().rstrip().split('\n')
            n = 3 + int(frac * (len(rows) - 5))
            rows[n:n + 2] = [rows[n].rstrip() + ' ' + rows[n + 1]]
            open(name, 'w').write('\n'.join(rows) + '\n')
        elif how in ('word', 'html', 'comments'):
            t = data.decode().split('\n')
            if how == 'word':
                k = 3 + int(frac * (len(t) - 5))
                w = t[k].split()
                seed %= min(4, len(w))
                w[seed] = '?' + w[seed]
                t[k] = ' '.join(w)
            open(name, 'w').write({'html': '<html><body><h1>Not found</h1>\n<p>sorry, no data</p></body></html>', 'comments': '# a\n# b\n'}.get(how, '\n'.join(t)))

        def repair():
            if os.path.isdir(name):
                os.rmdir(name)
            elif os.path.exists(name):
                os.unlink(name)
            os.rename(keep, name)
        return repair

    def call(self, W, scn, name=None):
        if scn['mode'] != 'bounds':
            return ops.call(W, scn['d'])[0]
        at, by, shape, side, source = scn['at']
        f = scn['files']['rc'].replace('.h5', '.dat')
        t = world.rc_table(1 if '1' in f else 0)[0]
        lo, hi = float('%.6f' % t[0]), float('%.6f' % t[-1])
        sign = 1 if side == 'inside' else -1
        x = lo + sign * by if at == 'first' else hi - sign * by
        if shape == 'v':
            x = np.array([1010., 1020., x, 1030.])
        elif shape == 'm':
            x = np.array([[1010., x], [1020., 1030.]])
        try:
            return ('ok', enc(W.chaos[scn['d']['args']['c']].synth_coeffs_sm(x, source=source)))
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:200])

    def execute(self, scn):
        res = core.Result()
        with core.Scratch() as root:
            self.populate(root)
            name = scn['files'][scn['role']]

            def ref(emit):
                world.enter(root, self.config(scn))
                W = world.take()
                disk = io.Disk(root)
                with disk:
                    o = self.call(W, scn)
                return o, [dict(op=j['op'], path=j['path']) for j in disk.journal()]
            c = core.fork_run(ref)
            if c.status != 'done':
                raise core.HarnessError('reference ended with %s' % c.status)
            want, done = c.result
            scn = dict(scn, faults=io.resolve(scn['faults'], done))
            opened = sorted({j['path'] for j in done if j['op'] == 'open-read'})
            needed = any(p.endswith('/' + name) or p == name or os.path.basename(p) == name for p in opened)
            res.log.append([want[0] if want[0] == 'ok' else want[:3], needed])
            res.sig = core.sig(scn)
            getattr(self, 'do_' + ('form' if scn['mode'] == 'form' else 'bounds' if scn['mode'] == 'bounds' else 'fault'))(scn, root, name, want, needed, res)
        return res

    def do_bounds(self, scn, root, name, want, needed, res):
        at, by, shape, side, source = scn['at']
        inside = side == 'inside' or by == 0.
        res.nontrivial = True
        res.count('fault:time %s the period' % ('inside' if inside else 'outside'))
        if inside and want[0] != 'ok' and by < 700:
            res.violate('inside-refused', 'time %s %g of the RC period (%s) refused: %s' % (at, by, name, want))
        if not inside and want[0] == 'ok':
            res.violate('outside-accepted', 'time %g outside the %s of the RC period (%s) gave %s' % (by, at, name, world.brief(want[1])))
        if inside and want[0] == 'ok' and not np.all(np.isfinite(want[1])):
            res.violate('not-finite', 'time inside the period gave %s' % world.brief(want[1]))

    def do_form(self, scn, root, name, want, needed, res):
        other = name.replace('.h5', '.dat') if name.endswith('.h5') else name.replace('.dat', '.h5')

        def run(emit):
            world.enter(root, dict(self.config(scn), **{'file.RC_index': other}))
            return self.call(world.take(), scn)
        c = core.fork_run(run)
        got = c.result if c.status == 'done' else ('exc', c.status, '')
        res.nontrivial = needed
        res.count('fault:form of the index swapped')
        e = world.same_outcome(got, want)
        if e:
            res.violate('forms-differ', '%s against %s: %s' % (other, name, e))

    def do_fault(self, scn, root, name, want, needed, res):
        def run(emit):
            world.enter(root, self.config(scn))
            W = world.take()
            if scn['warm']:
                self.call(W, scn)
            disk = io.Disk(root)
            repair = self.hurt(scn, name) if scn['damage'] else None
            disk.plan(scn['faults'])
            with disk:
                o1 = self.call(W, scn)
            j = disk.journal()
            if repair:
                repair()
            disk.clear()
            with disk:
                o2 = self.call(W, scn)
            return o1, o2, io.injected(j), [x['path'] for x in j if x['op'] == 'open-read'], [x for x in j if x['op'] in (
                'open-write', 'write', 'unlink', 'rename', 'truncate', 'mkdir', 'escape', 'link')][:3]
        c = core.fork_run(run)
        if c.status != 'done':
            res.violate('process-dies', 'evaluation ended with %s (%s %s)' % (c.status, scn['faults'], scn['damage']))
            return
        o1, o2, fired, paths, writes = c.result
        what = '%s %s' % (name, scn['damage'] or fired)
        res.log.append([o1[0] if o1[0] == 'ok' else o1[:2], o2[0], sorted(fired)])
        for k in fired:
            res.count('fault:' + k)
        if scn['damage']:
            res.count('fault:file ' + scn['damage'][0])
        if writes:
            res.violate('files-altered', str(writes))
        soft = bool(fired) and all(k.startswith(('short', 'eintr')) for k in fired)
        hit = bool(fired) or bool(scn['damage'])
        res.nontrivial = hit and (needed or scn['mode'] == 'given')
        e = world.same_outcome(o1, want)
        if scn['mode'] == 'given':
            if any(os.path.basename(p) == name for p in paths):
                res.violate('rc-file-used', 'RC values were given, but %s was opened' % name)
        if not hit or soft or not needed:
            if e:
                res.violate('result-changed', '%s: %s' % (what, e))
        elif want[0] == 'ok' and o1[0] == 'ok':
            f = scn['faults'][0] if scn['faults'] else None
            must = scn['damage'][0] not in ('cut', 'field') if scn['damage'] else f['nth'] == 1 and f['times'] > 100
            if e:
                res.violate('wrong-values', '%s: returned %s' % (what, e))
            elif must:
                res.violate('fault-ignored', '%s: evaluation returned although the file cannot be used' % what)
            else:
                res.count('harmless or retried')
        elif want[0] == 'exc' and o1[0] == 'ok':
            res.violate('wrong-values', '%s: returned %s, fault-free call raises %s' % (what, world.brief(o1[1]), want[1]))
        e = world.same_outcome(o2, want)
        if e:
            res.violate('no-recovery', 'after %s the same evaluation: %s' % (what, e))
