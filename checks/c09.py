"""C09: refreshing the RC-index: a failed refresh leaves the old file, a success is real."""
import errno
import faulthandler
import os
import random
import shutil
import sys

import numpy as np

from sim import core, io, net, world
from sim.world import du

PATH = '/files/magnetic-models/RC/current/'
LISTINGS = ('good', 'good', 'good', 'rows', 'nohref', 'nodate', 'empty', 'blank', 'binary', 'text', 'missing file')
DATA = ('good', 'good', 'good', 'good', 'word', 'html', 'empty', 'comments', 'binary', 'short row', 'short row', 'joined rows', 'joined rows', 'extra column')
STYLES = ('plain', 'plain', 'plain', 'duplicates', 'unsorted', 'crlf', 'no newline', 'blank lines', 'comments', 'tabs', 'exponents', 'large', 'one flag', 'constant', 'holes')


def listing(kind, name):
    row = lambda i, n: '<tr><td>x</td><td><a href="%s">%s</a></td><td> 2024-0%d-01 10:00 </td></tr>' % (n, n, i + 1)  # noqa: E731
    rows = [row(i, 'other_%d.dat' % i) for i in range(4)] + [row(4, name)] + [row(5, 'later.dat')]
    if kind == 'rows':
        rows = rows[:3]
    if kind == 'nohref':
        rows[4] = '<tr><td>x</td><td>gone</td><td> today </td></tr>'
    if kind == 'nodate':
        rows[4] = '<tr><td>x</td><td><a href="%s">f</a></td></tr>' % name
    if kind == 'missing file':
        rows[4] = row(4, 'not_there.dat')
    if kind == 'empty':
        return b''
    if kind == 'blank':
        return b'<html><body></body></html>'
    if kind == 'binary':
        return bytes(range(256)) * 4
    if kind == 'text':
        return b'Service temporarily unavailable'
    return ('<html><body><table>%s</table></body></html>' % ''.join(rows)).encode()


def styled(t, style, seed):
    r = random.Random(seed)
    head, rows = t.split('\n')[:2], t.split('\n')[2:-1]
    if style == 'duplicates':       # some rows twice, some times twice with other values
        k = r.randrange(len(rows))
        w = rows[k].split()
        rows[k:k + 1] = [rows[k], rows[k], ' '.join([w[0], '7.50', '5.25', '2.25', 'P'])]
    elif style == 'unsorted':
        r.shuffle(rows)
    elif style == 'blank lines':
        rows.insert(r.randrange(len(rows)), '')
    elif style == 'comments':
        rows.insert(r.randrange(len(rows)), '# provisional from here')
    elif style == 'tabs':
        rows = ['  ' + '\t'.join(x.split()) + ' ' for x in rows]
    elif style == 'exponents':
        rows = [' '.join('%.7e' % float(w) if k < 4 else w for k, w in enumerate(x.split())) for x in rows]
    elif style == 'large':
        rows = [' '.join('99999.00' if k in (1, 2) and r.random() < .3 else '-0.00' if k == 3 else w for k, w in enumerate(x.split())) for x in rows]
    elif style == 'one flag':
        rows = [x[:-1] + 'D' for x in rows]
    elif style == 'constant':
        rows = [' '.join([x.split()[0], '1', '1', '0', 'D']) for x in rows]
    elif style == 'holes':
        rows = [x for x in rows if r.random() < .8] or rows
    t = '\n'.join(head + rows) + ('' if style == 'no newline' else '\n')
    return t.replace('\n', '\r\n') if style == 'crlf' else t


def data(kind, seed, n, style='plain'):
    t = styled(world.rc_dat_text(seed, n=n), style, seed)
    if kind == 'short row':
        t = world.rc_dat_text(seed, n=n)[:-1]
        last = t.rindex('\n') + 1
        return t[:random.Random(seed).randrange(last + 1, len(t) - 1)].rstrip().encode()
    if kind in ('joined rows', 'extra column'):
        rows = t.split('\n')
        q = [k for k, x in enumerate(rows) if x.strip() and x.strip()[0] != '#']
        if kind == 'joined rows' and len(q) > 1:
            k = random.Random(seed).choice(q[:-1] + q[:1])
            rows[k:k + 2] = [rows[k].rstrip() + ' ' + rows[k + 1]]
        else:
            for k in q:
                rows[k] = rows[k].rstrip() + [' 0', ' x'][seed % 2]
        t = '\n'.join(rows)
    if kind == 'word':
        lines = t.split('\n')
        k = random.Random(seed).choice([q for q, x in enumerate(lines) if x.strip() and x[0] != '#'])
        w = lines[k].split()
        w[seed % 4] = 'n/a?'
        lines[k] = ' '.join(w)
        t = '\n'.join(lines)
    return {'html': b'<html><body><h1>Error</h1><p>try again later</p></body></html>', 'empty': b'', 'comments': b'# nothing\n# here\n',
            'binary': bytes(range(256)) * 9}.get(kind) or t.encode() if kind not in ('empty',) else b''


class CHECK(core.Check):
    pid = 'C09'
    runs = dict(quick=9000, thorough=360000)
    wall = dict(quick=220, thorough=3000)
    rule = 'refresh with at least one network, source or disk fault, or a crash, that took effect'
    distinct_by = 'source, fault plan, previous file'
    assumptions = ['transfers announce their length or are chunked (HTTP/1.1), so that truncation is visible',
                   'a server that never answers is not a failure (no timeout is documented)',
                   'process death loses user-space buffers but not what the kernel accepted']
    real = 'chaosmagpy.data_utils, requests, urllib3, http.client, urllib, lxml, pandas, h5py, HDF5'
    stub = 'socket module (sim/net.py: name lookup, connections, HTTP server); system calls below libc where the plan injects faults'
    shrinkable = ('faults', 'conns', 'earlier')

    def setup(self):
        world.fixtures()

    def gen(self, r, i, tier):
        scn = dict(src=r.choice(['net', 'net', 'net', 'file']), listing='good', data='good', conns=[], dns=None, faults=[],
                   style=r.choice(STYLES), seed=r.randrange(10 ** 6), n=r.choice([1, 5, 60, 60, 400, 400, 12000 if r.random() < 0.3 else 150000 if r.random() < 0.03 else 60]),
                   keep=r.random() < 0.5, prev=r.choice(['valid', 'valid', 'valid', None, 'garbage', 'long']), name=r.choice(['RC_1997-2024_v4.dat', 'x.dat']),
                   dest=r.choice(['RC_index.h5', 'RC_index.h5', 'sub/RC.h5', 'a b.h5', 'no dir/RC.h5', 'noext']), act='none', ackat=None)
        what = r.choice(['net', 'net', 'net', 'source', 'disk', 'disk', 'ack', 'ack', 'crash', 'none', 'soft'])
        if scn['src'] == 'file' and what in ('net', 'soft'):
            what = 'read'
        scn['what'] = what
        if what == 'net':
            k = r.choice([0, 1])
            c = r.choice([dict(connect=r.choice(['refused', 'timeout', 'unreachable'])), dict(send='reset'),
                          dict(end=r.choice(['reset', 'eof']), frac=r.choice([r.random(), r.random(), 0.0, 0.999]), framing=r.choice(['length', 'chunked'])),
                          dict(status=r.choice([404, 500, 503, 403, 429])), dict(garbage=r.choice(['binary', 'text'])), 'dns'])
            if c == 'dns':
                scn['dns'] = r.choice([-2, -3, -5])
            else:
                scn['conns'] = [{}] * k + [c]
        elif what == 'source':
            scn['listing'] = r.choice(LISTINGS) if scn['src'] == 'net' else 'good'
            scn['data'] = r.choice(DATA[4:]) if scn['listing'] == 'good' else 'good'
            if scn['src'] == 'file' and r.random() < 0.3:
                scn['data'] = 'gone'
        elif what == 'read':
            scn['faults'] = [dict(on=[r.choice(['read', 'read', 'open-read'])], path='source.dat', nth=r.choice([1, 1, 2]), action=r.choice(['error', 'error', 'short', 'eintr']),
                                  arg=r.choice([5, 13, 24]), times=r.choice([1, 3]))]
        elif what == 'soft' or r.random() < 0.3:
            scn['conns'] = [dict(framing=r.choice(['length', 'chunked']), chunk=r.choice([7, 100, 5000]), piece=r.choice([1 if scn['n'] < 100 else 50, 11, 1000]),
                                 delay=r.choice([0, 0, 30])) for _ in range(2)]
        if what in ('disk', 'crash'):
            a = r.choice(['error', 'error', 'disk_full', 'short', 'eintr', 'error_after_part']) if what == 'disk' else r.choice(
                ['crash_before', 'crash_after', 'crash_torn'])
            sub = os.path.basename(scn['dest'])
            if a == 'disk_full':
                scn['faults'] = [dict(action=a, arg=r.choice([0, 100, r.randrange(20000)]))]
            else:
                on = r.choice(['write', 'write', 'write', 'close-write', 'open-write', 'rename']) if a in ('error', 'crash_before', 'crash_after') else 'write'
                scn['faults'] = [dict(on=[on], path=sub, nth=r.choice([1, 1, 2, 3, r.randrange(1, 20)]) if on == 'write' else r.choice([1, 1, 2]), action=a,
                                      arg=r.choice([errno.EIO, errno.ENOSPC, errno.EACCES, 100]), times=r.choice([1, 1, 10 ** 6 if a in ('error', 'error_after_part') else 5]))]
            scn['act'] = a
        if scn['n'] == 150000:
            for x in scn['conns']:
                if 'piece' in x:
                    x.update(chunk=70000, piece=9000)
        scn['earlier'] = [dict(seed=r.randrange(10 ** 6), n=r.choice([1, 5, 60]), same=r.random() < 0.6, style=r.choice(STYLES), src=r.choice(['net', 'file']),
                               fail=r.choice([None, None, 'refused', 'html'])) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))]
        if r.random() < 0.2:        # the new index continues the old one, or is a part of it
            scn.update(seed=0, style='plain', n=r.choice([1440, 1464, 1441, 1416, 5000]))
            for e in scn['earlier']:
                if r.random() < 0.5:
                    e.update(seed=0, n=r.choice([60, 1440, 2000]), style='plain')
        if what == 'ack':
            scn['act'], scn['ackat'] = 'ack', r.choice(['print', 'print', 'return'])
        return scn

    def files(self, scn, root):
        out = {}
        for b, _, fs in os.walk(root):
            for f in fs:
                p = os.path.relpath(os.path.join(b, f), root)
                if p != scn['dest'] and not p.startswith('tmp' + os.sep):
                    out[p] = open(os.path.join(b, f), 'rb').read()
        return out

    def execute(self, scn):
        res = core.Result()
        with core.Scratch() as root:
            for d in ('sub', 'tmp'):
                os.makedirs(os.path.join(root, d))
            src = data(scn['data'], scn['seed'], scn['n'], scn['style'])
            if scn['src'] == 'file' and scn['data'] != 'gone':
                open(os.path.join(root, 'source.dat'), 'wb').write(src)
            open(os.path.join(root, 'keep.h5'), 'w').write('bystander')
            dest = os.path.join(root, scn['dest'])
            if scn['prev'] and os.path.isdir(os.path.dirname(dest)):
                if scn['prev'] == 'garbage':
                    open(dest, 'wb').write(b'garbage' * 100)
                else:
                    shutil.copy(os.path.join(world.fixtures(), 'rc.h5'), dest)
                    if scn['prev'] == 'long':
                        open(dest, 'ab').write(b'tail' * 50000)
            old = open(dest, 'rb').read() if os.path.exists(dest) else None
            before = self.files(scn, root)
            early = self.refresh(scn, root, dest, old, src, res)
            after = self.files(scn, root)
            before.update(early)
            ch = [p for p in before if after.get(p) != before[p]] + [p for p in after if p not in before and scn['act'][:5] != 'crash' and scn['act'] != 'ack']
            if ch:
                res.violate('other-file-touched', str(ch))
        res.sig = core.sig(scn)
        res.nontrivial = any(k.startswith('fault:') for k in res.counts)
        return res

    def warm(self, e, scn, root):
        """An earlier refresh in the same process, to the same or to another file."""
        body = data('html' if e['fail'] == 'html' else 'good', e['seed'], e['n'], e['style'])
        if e['src'] == 'file':
            open('early.dat', 'wb').write(body)

        def serve(path):
            if path == PATH:
                return 200, {'Content-Type': 'text/html'}, listing('good', scn['name'])
            return 200, {'Content-Type': 'text/plain'}, body
        with net.Net(serve, [dict(connect='refused')] * 9 if e['fail'] == 'refused' else [], None, scn.get('keep')):
            try:
                du.save_RC_h5file(scn['dest'] if e['same'] else 'early.h5', read_from='early.dat' if e['src'] == 'file' else None)
            except Exception as x:
                print('earlier refresh raised', x)
        if e['src'] == 'file':
            os.unlink('early.dat')

    def refresh(self, scn, root, dest, old, src, res):
        def serve(path):
            if path == PATH:
                return 200, {'Content-Type': 'text/html'}, listing(scn['listing'], scn['name'])
            if path == PATH + scn['name']:
                return 200, {'Content-Type': 'text/plain'}, src
            return 404, {'Content-Type': 'text/html'}, b'<html><body>not found</body></html>'

        def run(emit):
            crash = False

            def on(ev):
                emit(ev)
                if crash and scn['ackat'] == 'print' and 'Successfully' in ev[1]:
                    os._exit(137)
            _, wl = world.enter(root, False, emit=on)
            lost = []
            sys.unraisablehook = lambda u: lost.append('%s in %s' % (type(u.exc_value).__name__, str(u.object or u.err_msg)[:120]))
            faulthandler.enable(trace, all_threads=False)
            for e in scn.get('earlier', ()):
                self.warm(e, scn, root)
            if scn.get('earlier'):
                emit(('before', {p: open(p, 'rb').read() if os.path.exists(p) else None for p in (scn['dest'], 'early.h5')}))
                wl.items.clear()
                lost.clear()
            crash = scn['act'] == 'ack'
            disk = io.Disk(root)
            disk.plan(scn['faults'])
            with disk, net.Net(serve, scn['conns'], scn['dns'], scn.get('keep')) as n:
                try:
                    du.save_RC_h5file(scn['dest'], read_from='source.dat' if scn['src'] == 'file' else None)
                    out = 'returned'
                    emit(('returned',))
                    if crash:
                        os._exit(137)
                except Exception as e:
                    out = 'raised %s: %s' % (type(e).__name__, str(e)[:200])
            return out, disk.journal(), n.fired, n.log, n.now, [w[1] for w in wl.items], lost
        with open(root + '.trace', 'w+') as trace:
            try:
                c = core.fork_run(run)
                trace.seek(0)
                tr = trace.read()
            finally:
                os.unlink(root + '.trace')
        early = {}
        events = c.events
        for k, ev in enumerate(c.events):
            if ev[0] == 'before':
                old, events = ev[1][scn['dest']], c.events[k + 1:]
                early = {} if ev[1]['early.h5'] is None else {'early.h5': ev[1]['early.h5']}
                res.count('state:earlier refreshes', len(scn['earlier']))
        said = ''.join(e[1] for e in events if e[0] == 'print')
        announced = 'Successfully' in said
        res.log.append([c.status, announced])
        if c.status.startswith('signal'):
            frames = [ln.strip().split('/')[-1] for ln in tr.split('\n') if 'File' in ln][:3]
            hard = scn['act'] in ('error', 'disk_full', 'error_after_part')
            res.violate('process-dies', '%s%s; last Python frames %s' % ('native crash in HDF5 after a disk error, ' if hard else '', c.status, frames))
            return early
        if c.status not in ('done', 'crash'):
            res.violate('hang', 'refresh ended with %s' % c.status)
            return early
        good_source = scn['listing'] == 'good' and scn['data'] == 'good'
        if c.status == 'crash':
            res.count('fault:crash ' + (scn['act'] if scn['act'] != 'ack' else 'at acknowledgement (%s)' % scn['ackat']))
            # a return without any warning is an acknowledgement as well, but only the announcement is promised
            if announced:
                self.complete(scn, root, src, res)
            return early
        out, j, nf, nlog, now, warns, lost = c.result
        res.simtime = now
        fired = io.injected(j)
        for k in list(nf) + list(fired):
            res.count('fault:' + k)
        if not good_source:
            res.count('fault:source ' + (scn['listing'] if scn['listing'] != 'good' else 'data ' + scn['data']))
        res.log.append([out, sorted(nf), sorted(fired), nlog[:6], len(warns)])
        if any(x['op'] == 'escape' for x in j):
            res.violate('other-file-touched', str([x for x in j if x['op'] == 'escape'][:2]))
        hard_net = list(nf)
        hard_read = [k for k in fired if k.startswith('error') and ('read' in k)]
        hard_write = [k for k in fired if k.startswith(('error', 'disk_full')) and 'read' not in k]
        now_bytes = open(dest, 'rb').read() if os.path.exists(dest) else None
        if out != 'returned':
            res.violate('refresh-raises', '%s (%s %s %s)' % (out, hard_net, fired, scn['data']))
        no_dir = scn['dest'].startswith('no dir')
        if not good_source or hard_net or hard_read:
            why = '%s %s %s' % (hard_net, hard_read, '' if good_source else (scn['listing'], scn['data']))
            if announced:
                res.violate('announced-but-failed', why)
            if now_bytes != old:
                res.violate('old-file-damaged', '%s; %s' % (why, 'file is gone' if now_bytes is None else '%d bytes before, %d now' % (
                    len(old or b''), len(now_bytes))))
            if not warns:
                res.violate('no-warning', why)
            return early
        if hard_write or no_dir:
            if announced:
                n = len(res.violations)
                self.complete(scn, root, src, res)
                if len(res.violations) > n or any('close' in k for k in hard_write) or no_dir:
                    del res.violations[n:]
                    res.violate('error-discarded' if lost else 'announced-but-failed', 'disk error %s; %s' % (hard_write, lost[:2]))
                else:
                    res.count('disk error retried')
            elif not warns:
                res.violate('no-warning', 'disk error %s' % hard_write)
            if not announced and now_bytes != old:
                res.violate('old-file-damaged', 'disk error %s; %s' % (hard_write, 'file is gone' if now_bytes is None else '%d bytes before, %d now' % (
                    len(old or b''), len(now_bytes))))
            return early
        if not announced:
            res.violate('refresh-fails', 'no fault, but not announced: %s' % warns[:2])
            return early
        if any("Can't save" in w for w in warns):
            res.violate('refresh-fails', 'announced and warned: %s' % warns[:2])
        self.complete(scn, root, src, res)
        return early

    def complete(self, scn, root, src, res):
        rows = [ln.split() for ln in src.decode().splitlines() if ln.strip() and not ln.startswith('#')]

        def run(emit):
            import h5py
            try:
                with h5py.File(os.path.join(root, scn['dest']), 'r') as f:
                    got = {k: np.array(f[k]) for k in f}
            except Exception as e:
                return 'cannot be read: %s %s' % (type(e).__name__, str(e)[:150])
            if sorted(got) != sorted(('time', 'RC', 'RC_e', 'RC_i', 'flag')):
                return 'columns %s' % sorted(got)
            for k, col in enumerate(('time', 'RC', 'RC_e', 'RC_i')):
                want = np.array([float(w[k]) for w in rows])
                g = got[col]
                if g.shape != want.shape:
                    return '%s has %s values, source %s' % (col, g.shape, want.shape)
                if g.dtype.kind != 'f' or not np.allclose(g, want, rtol=1e-14, atol=1e-300, equal_nan=True):
                    return '%s differs from the source by %.3g' % (col, np.max(np.abs(g - want)))
            fl = [x.decode() if isinstance(x, bytes) else str(x) for x in got['flag']]
            if fl != [w[4] for w in rows]:
                return 'flags differ'
            return None
        c = core.fork_run(run)
        if c.status != 'done' or c.result:
            res.violate('file-incomplete', c.result if c.status == 'done' else 'reading ended with ' + c.status)
        else:
            res.count('complete files verified')
