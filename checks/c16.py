"""C16: refreshing the RC-index replaces the file in one step, also for programs that are reading it."""
import errno
import os
import random
import re
import shutil

import numpy as np

from sim import core, io, ops, procs, world
from sim.world import du, same
from . import c09

SPECS = ('gsm.npz', 'sm.npz', 'cond.dat', 'coast.zip')
CALLS = ('chaos.synth_coeffs_sm', 'chaos.synth_coeffs_sm', 'chaos.synth_values_sm')
KINDS = ('crash_before', 'crash_after', 'crash_torn', 'error', 'error', 'error_after_part', 'disk_full', 'short', 'eintr', 'sigint')


def write_version(path, src):
    """The RC-index file a source describes, without the code under test."""
    import h5py
    rows = [ln.split() for ln in src.decode().splitlines() if ln.strip() and not ln.startswith('#')]
    with h5py.File(path, 'w') as f:
        for k, c in enumerate(('time', 'RC', 'RC_e', 'RC_i')):
            f.create_dataset(c, data=np.array([float(w[k]) for w in rows]))
        d = f.create_dataset('flag', (len(rows),), dtype='S1')
        d[:] = np.array([w[4] for w in rows]).astype('bytes')


def content(path):
    import h5py
    try:
        with h5py.File(path, 'r') as f:
            return {k: np.array(f[k]) for k in f}
    except Exception as e:
        return 'cannot be read: %s %s' % (type(e).__name__, str(e)[:150])


def agrees(a, b):
    if isinstance(a, str) or isinstance(b, str) or sorted(a) != sorted(b):
        return False
    return all(a[k].shape == b[k].shape and (np.array_equal(a[k], b[k]) if a[k].dtype.kind == 'S' else
                                              np.allclose(a[k], b[k], rtol=1e-14, atol=1e-300, equal_nan=True)) for k in a)


def orderable(ops_, first):
    """Is there one order of the operations, consistent with real time, in which every read sees the last write?

    ops_: (kind 'r'|'w', start, end or None, versions seen | version, must)
    """
    n = len(ops_)
    seen = set()

    def rec(done, cur):
        if all(done >> k & 1 or not ops_[k][4] for k in range(n)):
            return True
        if (done, cur) in seen:
            return False
        seen.add((done, cur))
        for k in range(n):
            if done >> k & 1:
                continue
            o = ops_[k]
            # no unfinished operation that had to happen earlier
            if any(not done >> j & 1 and ops_[j][4] and ops_[j][2] is not None and ops_[j][2] < o[1] for j in range(n) if j != k):
                continue
            if o[0] == 'w' and rec(done | 1 << k, o[3]):
                return True
            if o[0] == 'r' and cur in o[3] and rec(done | 1 << k, cur):
                return True
        return False
    return rec(0, first)


class CHECK(core.Check):
    pid = 'C16'
    runs = dict(quick=2000, thorough=80000)
    wall = dict(quick=200, thorough=3300)
    rule = 'at least two processes switched while a refresh was running, or a fault in a refresh took effect'
    distinct_by = 'programs, fault plan and switch sequence'
    assumptions = ['rename() replaces a name in one step (POSIX)', 'process death loses user-space buffers but not what the kernel accepted',
                   'files are read by their own name: HDF5 refuses a symbolic link whose target is replaced while it opens it',
                   'an evaluation of one source (external or internal) reads the file once; the sum of both is two evaluations']
    real = 'chaosmagpy.data_utils, chaosmagpy.chaos, pandas, h5py, HDF5, files on disk, several real processes'
    stub = 'process scheduling (a baton at every file operation); system calls below libc where the plan injects faults'
    shrinkable = ('explicit', 'readers', 'writers', 'faults')

    def setup(self):
        world.fixtures()

    def gen(self, r, i, tier):
        k = r.choice([0, 1, 1, 1, 2, 2, 3])
        readers = []
        for _ in range(k):
            calls = []
            for _ in range(r.choice([1, 2, 3]) if k > 1 else r.choice([1, 2, 4])):
                d = ops.gen_op(r, ops.OPS[r.choice(CALLS)])
                d['args'].update(rc=None, source=r.choice(['external', 'internal']), c=r.choice([0, 2]))
                calls.append(d)
            readers.append(calls)
        writers = []
        for _ in range(r.choice([1, 1, 1, 2]) if k else r.choice([1, 2])):
            writers.append([dict(seed=r.randrange(10 ** 6), n=r.choice([1440, 1440, 1450, 2600, 60, 1, 9000]), style=r.choice(c09.STYLES),
                                 data=r.choice(['good'] * 8 + ['html', 'word'])) for _ in range(r.choice([1, 1, 2]))])
        prevn = r.choice([1440, 5000])
        for ws in writers:
            for w in ws:
                if r.random() < 0.35:       # the new index continues the old one, or is a part of it
                    w.update(seed=1, n=prevn + r.choice([24, 24, 1, 1000, 0, -24]), style='plain')
        faults = []
        if r.random() < 0.55:
            a = r.choice(KINDS)
            w = r.randrange(len(writers))
            if a == 'disk_full':
                f = dict(action=a, arg=r.choice([0, 100, r.randrange(40000)]))
            else:
                on = r.choice([['write'], ['write'], ['close-write'], ['open-write'], ['rename'], ['write', 'rename', 'open-write', 'close-write', 'unlink', 'truncate', 'link', 'sync']])
                if a in ('short', 'error_after_part', 'crash_torn', 'eintr'):
                    on = ['write']
                f = dict(on=on, path='', nth=r.choice([1, 1, 2, 3, 4]), action=a, times=r.choice([1, 1, 10 ** 6]) if a == 'error' else 1,
                         arg=r.choice([errno.EIO, errno.ENOSPC, errno.EACCES]) if a == 'error' else r.choice([1, 100, 4000]))
            faults = [dict(f, w=w)]
        kind = r.choice(['pct', 'rand', 'rand', 'rand'])
        st = dict(kind=kind, seed=r.randrange(2 ** 31))
        if kind == 'pct':
            st.update(d=r.choice([1, 2, 3, 4]), length=r.choice([20, 60, 150]))
        else:
            st['p'] = r.choice([0.7, 0.4, 0.15])
        return dict(readers=readers, writers=writers, faults=faults, prev=r.choice(['valid', 'valid', 'valid', 'valid', 'long', 'garbage', None]),
                    prevn=prevn, dest=r.choice(['rc.h5', 'rc.h5', 'sub/RC.h5', 'a b.h5', 'noext'] + ['link.h5'] * (not readers)), strategy=st)

    def execute(self, scn):
        res = core.Result()
        with core.Scratch() as root:
            self.run(scn, root, res)
        res.sig = core.sig([scn['readers'], scn['writers'], scn['faults'], scn['prev'], scn['dest'], res.extra.get('explicit')])
        return res

    def run(self, scn, root, res):
        dest = os.path.join(root, scn['dest'])
        for d in ('sub', 'tmp', 'ref', 'src'):
            os.makedirs(os.path.join(root, d))
        for n in SPECS:
            shutil.copyfile(os.path.join(world.fixtures(), n), os.path.join(root, n))
        # version 0: the previous file; then one per refresh
        vers = []
        jobs = []
        for w, ws in enumerate(scn['writers']):
            for k, s in enumerate(ws):
                name = 'src/%d.%d.dat' % (w, k)
                src = c09.data(s['data'], s['seed'], s['n'], s['style'])
                open(os.path.join(root, name), 'wb').write(src)
                jobs.append((w, k, name, s['data'] == 'good'))
                vers.append(src if s['data'] == 'good' else None)

        def build(emit):
            prev = os.path.join(root, 'ref', '0')
            if scn['prev'] in ('valid', 'long'):
                write_version(prev, c09.data('good', 1, scn['prevn']))
                if scn['prev'] == 'long':
                    open(prev, 'ab').write(b'tail' * 20000)
            elif scn['prev'] == 'garbage':
                open(prev, 'wb').write(b'garbage' * 100)
            for k, s in enumerate(vers):
                if s is not None:
                    write_version(os.path.join(root, 'ref', str(k + 1)), s)
        core.fork_run(build)
        refs = {0: os.path.join(root, 'ref', '0') if scn['prev'] else None}
        refs.update({k + 1: os.path.join(root, 'ref', str(k + 1)) for k, s in enumerate(vers) if s is not None})
        place = os.path.join(root, 'sub', 'target.h5') if scn['dest'] == 'link.h5' else dest
        if scn['dest'] == 'link.h5':
            os.symlink('sub/target.h5', dest)
        if refs[0]:
            shutil.copyfile(refs[0], place)
        expect = self.references(scn, root, refs, place)
        if refs[0]:
            shutil.copyfile(refs[0], place)
        elif os.path.exists(place):
            os.unlink(place)
        sub = os.path.basename(scn['dest'])
        fns = [self.reader(root, scn, calls, sub) for calls in scn['readers']] + \
            [self.writer(root, scn, w, jobs) for w in range(len(scn['writers']))]
        states, last = [], [None]
        nread = len(fns) - len(scn['writers'])

        def watch(step):
            try:
                b = open(dest, 'rb').read()
            except FileNotFoundError:
                b = None
            if b != last[0] or not states:
                last[0] = b
                states.append((step, b))
        ps, taken, trace, exhausted = procs.run(fns, scn['strategy'], scn.get('explicit'), watch=watch)
        res.extra = dict(explicit=taken)
        if exhausted:
            res.violate('hang', 'more than %d steps' % procs.STEPS)
            return
        res.log = [[t, a, b] for t, (a, b) in enumerate((c, [x[0], re.sub('[0-9a-f]{32}', 'UUID', x[1])]) for c, x in trace)][:400]
        self.judge(scn, root, res, ps, nread, jobs, refs, expect, states, taken, trace)

    def references(self, scn, root, refs, place):
        """Outcome of each call with each version of the file, in pristine processes."""
        ds = [d for c in scn['readers'] for d in c]
        out = {}
        for v, p in refs.items():
            if p is None or not ds:
                continue
            shutil.copyfile(p, place)

            def run(emit):
                world.enter(root, {'file.RC_index': scn['dest']})
                W = world.take()
                return [ops.call(W, d)[0] for d in ds]
            c = core.fork_run(run)
            if c.status != 'done':
                raise core.HarnessError('reference: %s %s' % (c.status, c.error))
            out[v] = c.result
        return out

    def reader(self, root, scn, calls, sub):
        def run(emit, gate):
            if scn['prev'] is None:
                world.enter(root, {'file.RC_index': 'ref'})
                dict.__setitem__(world.cp.basicConfig, 'file.RC_index', scn['dest'])
            else:
                world.enter(root, {'file.RC_index': scn['dest']})
            W = world.take()
            with io.Disk(root):
                gate.on(sub)
                gate.mark()
                for k, d in enumerate(calls):
                    emit(('start', k))
                    o = ops.call(W, d)[0]
                    emit(('end', k, o))
                    gate.mark()
                gate.off()
        return run

    def writer(self, root, scn, w, jobs):
        faults = [f for f in scn['faults'] if f['w'] == w]
        mine = [(k, name) for w_, k, name, _ in jobs if w_ == w]

        def run(emit, gate):
            _, wl = world.enter(root, False, emit=emit)
            disk = io.Disk(root)
            disk.plan(faults)
            with disk:
                gate.on('')
                gate.mark()
                for k, name in mine:
                    wl.items.clear()
                    emit(('start', k))
                    try:
                        du.save_RC_h5file(scn['dest'], read_from=name)
                        out = 'returned'
                    except Exception as e:
                        out = 'raised %s: %s' % (type(e).__name__, str(e)[:200])
                    except KeyboardInterrupt:
                        out = 'interrupted'
                    emit(('end', k, out, [x[1] for x in wl.items]))
                    if out == 'interrupted':
                        break
                    gate.mark()
                gate.off()
            return disk.journal()
        return run

    def judge(self, scn, root, res, ps, nread, jobs, refs, expect, states, taken, trace):
        hist, log = [], []
        hurt = False
        for w, p in enumerate(ps[nread:]):
            fired = io.injected(p.result) if p.status == 'done' and p.result else {}
            for k in fired:
                res.count('fault:' + k)
            if p.status == 'crash':
                res.count('fault:' + scn['faults'][0]['action'])
                hurt = True
            elif p.status != 'done':
                res.violate('process-dies', 'writer ended with %s' % p.status)
                return
            if p.status == 'done':
                esc = [x for x in p.result if x['op'] == 'escape']
                if esc:
                    res.violate('other-file-touched', str(esc[:2]))
            hard = [k for k in fired if k.startswith(('error', 'disk_full')) and 'read' not in k]
            cur, said = None, ''
            for step, ev in p.events:
                if ev[0] == 'start':
                    cur, said = (ev[1], step), ''
                elif ev[0] == 'print':
                    said += ev[1]
                elif ev[0] == 'end':
                    self.refresh(res, hist, w, cur, step, ev[2], 'Successfully' in said, ev[3], jobs, hard)
                    hurt |= ev[2] == 'interrupted'
                    log.append([w, ev[1], ev[2], 'Successfully' in said])
                    cur = None
            if cur:
                self.refresh(res, hist, w, cur, None, 'died', 'Successfully' in said, [], jobs, hard)
                log.append([w, cur[0], 'died'])
        flat = 0
        for q, p in enumerate(ps[:nread]):
            if p.status != 'done':
                res.violate('process-dies', 'reader ended with %s' % p.status)
                return
            start = {}
            for step, ev in p.events:
                if ev[0] == 'start':
                    start[ev[1]] = step
                else:
                    d = scn['readers'][q][ev[1]]
                    seen = [v for v in expect if not same(ev[2], expect[v][flat + ev[1]], rtol=0, atol=0)]
                    if ev[2][0] == 'exc' and (scn['prev'] is None or scn['prev'] == 'garbage') and 0 not in seen:
                        seen.append(0)      # there was nothing to read
                    log.append([q, ev[1], sorted(seen)])
                    if not seen:
                        res.violate('mixed-read', '%s during a refresh gives %s, which no complete file gives' % (d['op'], str(ev[2])[:200]))
                    hist.append(['r', (start[ev[1]], q, 2 * ev[1]), (step, q, 2 * ev[1] + 1), tuple(seen), True])
            flat += len(scn['readers'][q])
        res.log.append(log)
        # what the name stood for, after every step
        have = self.contents(scn, root, [b for _, b in states], refs)
        for (step, b), v in zip(states, have):
            if not v:
                res.violate('torn-file', 'after step %d the file is no complete version: %s' % (step, have.why[states.index((step, b))]))
                break
        if not res.violations:
            # the final content is one more read
            end = (10 ** 9, -1, 0)
            hist.append(['r', end, end, tuple(have[-1]) if have[-1] else (0,), True])
            if not orderable([tuple(h) for h in hist], 0):
                res.violate('not-atomic', 'no order of the refreshes explains the values read: %s' % str(hist)[:900])
        left = sorted(os.path.relpath(os.path.join(b, f), root) for b, _, fs in os.walk(root) for f in fs)
        extra = [p for p in left if p != scn['dest'] and p not in SPECS and p.split('/')[0] not in ('src', 'ref', 'tmp') and p != 'sub/target.h5']
        if extra and not hurt and not any(k for k in res.counts if k.startswith('fault:error:unlink')):
            res.violate('leftover', str(extra[:3]))
        res.count('steps', len(trace))
        res.count('switches', len(taken))
        res.count('reads', sum(len(c) for c in scn['readers']))
        res.count('states of the file', len(states))
        res.nontrivial = any(k.startswith('fault:') for k in res.counts) or len(taken) > 2 * len(ps)

    def refresh(self, res, hist, w, cur, step, out, announced, warns, jobs, hard):
        k, at = cur
        v = 1 + [j[:2] for j in jobs].index((w, k))
        good = jobs[v - 1][3]
        s, e = (at, nn(w), 2 * k), (step, nn(w), 2 * k + 1) if step is not None else None
        if out.startswith('raised'):
            res.violate('refresh-raises', out)
        if announced:
            if not good:
                res.violate('announced-but-failed', 'source without data was announced as saved')
            else:
                hist.append(['w', s, e, v, True])
        elif out == 'returned':
            if not warns:
                res.violate('no-warning', 'a refresh that saved nothing says nothing')
            elif good and not hard:
                res.violate('refresh-fails', 'no fault, but not saved: %s' % warns[:2])
            # reported as failed: has no effect
        elif good:
            hist.append(['w', s, e, v, False])

    def contents(self, scn, root, blobs, refs):
        """For each state of the file the versions it is a complete copy of."""
        uniq = []
        for b in blobs:
            if b is not None and b not in uniq:
                uniq.append(b)

        def run(emit):
            want = {v: content(p) for v, p in refs.items() if p}
            out = []
            for b in uniq:
                q = os.path.join(root, 'tmp', 'state')
                open(q, 'wb').write(b)
                got = content(q)
                m = [v for v in want if agrees(got, want[v])]
                out.append((m, None if m else got if isinstance(got, str) else 'columns %s' % {k: x.shape for k, x in got.items()}))
            return out
        c = core.fork_run(run)
        if c.status != 'done':
            raise core.HarnessError('contents: %s %s' % (c.status, c.error))
        prev = open(refs[0], 'rb').read() if refs[0] else None
        out = States()
        for k, b in enumerate(blobs):
            if b is None:
                m, why = ([0] if scn['prev'] is None and not any(blobs[:k]) else []), 'the file is gone'
            else:
                m, why = c.result[uniq.index(b)]
                if b == prev:
                    m = sorted(set(m) | {0})
            out.append(m)
            out.why[k] = why
        return out


class States(list):
    def __init__(self):
        self.why = {}


def nn(w):
    return 1000 + w
