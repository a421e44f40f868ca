"""C05: configuration files: saved means complete, torn means rejected."""
import os

from sim import core, io, sched, world
from sim.world import cp
from . import common as cm

FILES = ('rc.h5', 'gsm.npz', 'a b.dat', 'ünï.dat', 'sub/x.dat', 'qu"ote\\.dat')


def mk(root):
    os.makedirs(os.path.join(root, 'sub'), exist_ok=True)
    for f in FILES:
        open(os.path.join(root, f), 'w').write('x')


class CHECK(core.Check):
    pid = 'C05'
    runs = dict(quick=22000, thorough=880000)
    wall = dict(quick=150, thorough=3000)
    rule = 'save or load with at least one injected fault, crash or truncation that took effect'
    distinct_by = 'configuration contents + fault plan'
    assumptions = ['process death loses user-space buffers but not what the kernel accepted (no power loss)',
                   'paths are compared by their text; vectors by their numbers']
    real = 'chaosmagpy.config_utils, json, Python text I/O'
    stub = 'system calls below libc where the plan injects faults (LD_PRELOAD shim)'

    def gen(self, r, i, tier):
        sets = [['file.RC_index', ['raw', 'rc.h5']]]
        for k in r.sample(cm.KEYS, r.choice([0, 1, 3, 6, 12])):
            v = cm.gen_value(r, k, FILES, good=1.0)
            sets.append([k, v])
        scn = dict(steps=sets, mode=r.choice(['save', 'save', 'save', 'trunc']),
                   prev=r.choice([None, None, 'short', 'long', 'valid']), dest=r.choice(['cfg.json', 'cfg.json', 'new dir/cfg.json', 'sub/cfg.json']),
                   bufsplit=r.random() < 0.2)
        # what the process that loads the file had set before
        scn['reader'] = [[k, cm.gen_value(r, k, FILES, good=1.0)] for k in r.sample(cm.KEYS, r.choice([0, 0, 2, 6]))]
        if scn['mode'] == 'save':
            act = r.choice(['none', 'ack', 'ack', 'crash', 'crash', 'error', 'error', 'disk_full', 'short', 'eintr', 'error_after_part', 'interrupt', 'sigint'])
            f = None
            if act == 'crash':
                f = dict(on=r.choice([['write'], ['write'], ['close-write'], ['open-write']]), nth=1,
                         action=r.choice(['crash_before', 'crash_after', 'crash_torn']), arg=r.randrange(0, 900))
                if f['action'] == 'crash_torn':
                    f['on'] = ['write']
            elif act == 'error':
                f = dict(on=[r.choice(['write', 'write', 'close-write', 'open-write'])], nth=1, action='error',
                         arg=r.choice([5, 28, 122, 13]))
            elif act == 'disk_full':
                f = dict(action='disk_full', arg=r.randrange(0, 900))
            elif act in ('short', 'eintr'):
                f = dict(on=['write'], nth=1, action=act, arg=r.choice([1, 7, 100, 500]), times=r.choice([1, 2, 5]))
            elif act == 'error_after_part':
                f = dict(on=['write'], nth=1, action='error_after_part', arg=5, times=1)
            elif act == 'sigint':
                f = dict(on=[r.choice(['write', 'close-write', 'open-write'])], nth=1, action='sigint', times=1)
            elif act == 'interrupt':
                scn['line'] = [r.randrange(1, 45), r.choice(['MemoryError', 'KeyboardInterrupt'])]
            if f and f.get('nth') and r.random() < 0.2:
                f['nth'] = r.choice([2, 2, 3, 5, 9])
            scn['act'] = act
            scn['faults'] = [f] if f else []
        else:
            scn['cut'] = r.choice([0.0, r.random(), r.random(), 0.9999, 0.98])
            scn['rfault'] = r.choice([None, None, 'error', 'open', 'short', 'eintr', 'missing', 'noread'])
        return scn

    def execute(self, scn):
        res = core.Result()
        with core.Scratch() as root:
            mk(root)
            if scn['dest'].startswith('new'):
                pass      # directory missing: saving must raise
            path = os.path.join(root, scn['dest'])
            if scn['prev'] and os.path.isdir(os.path.dirname(path)):
                open(path, 'w').write({'short': '{', 'long': 'y' * 5000, 'valid': '{"params.r_surf": 1.0}'}[scn['prev']])
            others = self.others(root, scn['dest'])
            if scn['mode'] == 'save':
                self.save(scn, root, res)
            else:
                self.trunc(scn, root, res)
            if self.others(root, scn['dest']) != others:
                res.violate('other-file-touched', str(sorted(set(self.others(root, scn['dest'])) ^ set(others))))
        res.sig = core.sig(scn)
        res.nontrivial = any(k.startswith('fault:') for k in res.counts)
        return res

    @staticmethod
    def others(root, dest):
        out = []
        for b, _, fs in os.walk(root):
            for f in fs:
                p = os.path.relpath(os.path.join(b, f), root)
                if p != dest:
                    out.append((p, open(os.path.join(b, f), 'rb').read()))
        return sorted(out)

    @staticmethod
    def apply(scn, which='steps'):
        for k, v in scn.get(which, ()):
            cp.basicConfig[k] = cm.value(v)

    def save(self, scn, root, res):
        crash_at_ack = scn['act'] == 'ack'

        def writer(emit):
            os.chdir(root)
            self.apply(scn)
            want = cm.snap()
            emit(('want', want))
            disk = io.Disk(root)
            import sys

            def on(ev):
                emit(ev)
                if crash_at_ack and 'Saved' in ev[1]:
                    os._exit(137)
            sys.stdout = world.Stdout(on)
            disk.plan(scn['faults'])
            with disk:
                try:
                    if scn.get('line'):
                        sched.interrupt_at(lambda: cp.basicConfig.save(scn['dest']), scn['line'][0], cm.EXC[scn['line'][1]])
                    else:
                        cp.basicConfig.save(scn['dest'])
                except (Exception, KeyboardInterrupt) as e:
                    out = ('raised', type(e).__name__, str(e))
                else:
                    out = ('returned',)
                    emit(('returned',))
                    if crash_at_ack:
                        os._exit(137)
                finally:
                    pass
            return out, disk.journal()
        c = core.fork_run(writer)
        want = next(e[1] for e in c.events if e[0] == 'want')
        acked = any(e[0] == 'returned' or (e[0] == 'print' and 'Saved' in e[1]) for e in c.events)
        announced = any(e[0] == 'print' and 'Saved' in e[1] for e in c.events)
        res.log.append([c.status, acked])
        if c.status not in ('done', 'crash'):
            res.violate('hang', 'save ended with %s' % c.status)
            return
        fired = {}
        raised = False
        if c.status == 'done':
            out, j = c.result
            fired = io.injected(j)
            raised = out[0] == 'raised'
            res.log.append([out, [[x['op'], x['path'], x['req'], x['res'], x['err'], x['inj']] for x in j]])
            if any(x['op'] == 'escape' for x in j):
                res.violate('other-file-touched', str([x for x in j if x['op'] == 'escape'][:2]))
        else:
            fired = {scn['faults'][0]['action'] if scn['faults'] else 'crash_at_ack': 1}
        for k, n in fired.items():
            res.count('fault:' + k, n)
        hard = any(k.startswith('error') or k.startswith('disk_full') for k in fired)
        stopped = raised and (c.result[0][1] == 'KeyboardInterrupt' or c.result[0][2] == 'injected')
        if stopped and scn['act'] == 'interrupt':
            res.count('fault:' + c.result[0][1])
        if raised and announced and not stopped:
            res.violate('announced-but-raised', str(scn['faults']))
        if hard and not raised and c.status == 'done':
            res.violate('error-swallowed', 'write fault %s, save returned' % fired)
        if not hard and raised and not stopped and not scn['dest'].startswith('new'):
            res.violate('save-fails', 'save raised %s without a hard fault (%s)' % (c.result[0][1], fired))
        if c.status == 'crash':
            acked = acked and True
        # a fresh process reads the file
        if acked:
            res.count('acknowledged')
            self.reload(scn, root, res, want, must=True)
        elif os.path.exists(os.path.join(root, scn['dest'])):
            # not acknowledged: whatever is there must not half-load
            self.reload(scn, root, res, want, must=False)

    def reload(self, scn, root, res, want, must, faults=()):
        def reader(emit):
            os.chdir(root)
            import warnings
            warnings.simplefilter('ignore')
            self.apply(scn, 'reader')
            before = cm.snap()
            disk = io.Disk(root)
            disk.plan(faults)
            with disk:
                try:
                    cp.basicConfig.load(scn['dest'])
                    e = None
                except Exception as x:
                    e = type(x).__name__
            return e, before, cm.snap(), disk.journal()
        c = core.fork_run(reader)
        if c.status != 'done':
            res.violate('hang', 'load ended with %s' % c.status)
            return None
        e, before, after, j = c.result
        res.log.append(['reload', e])
        if e and cm.diff(before, after):
            res.violate('failed-load-changed', 'load raised %s but %s changed' % (e, cm.diff(before, after)))
        if must:
            if e:
                res.violate('saved-not-loadable', 'acknowledged file does not load: %s' % e)
            elif cm.diff(after, want):
                d = cm.diff(after, want)
                res.violate('saved-not-restored', '%s: loaded %s, saved %s' % (d, [world.brief(after.get(q)) for q in d], [world.brief(want.get(q)) for q in d]))
        elif not e and not self.plausible(scn, after, want, before):
            res.violate('torn-file-accepted', 'partial file loaded; differs from saved in %s' % cm.diff(after, want))
        return e, j, before, after

    def plausible(self, scn, after, want, before):
        """A file left by an unacknowledged save may be complete, or still be the previous valid file."""
        if not cm.diff(after, want):
            return True
        if scn['prev'] == 'valid' and not cm.diff(after, dict(before, **{'params.r_surf': 1.0})):
            return True
        return False

    def trunc(self, scn, root, res):
        """Save undisturbed, then truncate or make it unreadable."""
        if scn['dest'].startswith('new'):
            os.makedirs(os.path.join(root, 'new dir'))

        def writer(emit):
            os.chdir(root)
            import sys
            sys.stdout = world.Stdout()
            self.apply(scn)
            cp.basicConfig.save(scn['dest'])
            return cm.snap()
        want = core.fork_run(writer).result
        path = os.path.join(root, scn['dest'])
        data = open(path, 'rb').read()
        rf = scn['rfault']
        if rf is None:
            body = data.rstrip()
            n = min(int(scn['cut'] * len(body)), len(body) - 1)
            open(path, 'wb').write(data[:n])
            res.count('fault:truncated')
            out = self.reload(scn, root, res, want, must=False)
            if out and out[0] is None:
                res.violate('torn-file-accepted', 'truncated to %d of %d bytes' % (n, len(data)))
            return
        if rf == 'missing':
            os.unlink(path)
            res.count('fault:missing')
        faults = {'error': [dict(on=['read'], path='cfg.json', nth=1, action='error', arg=5)],
                  'open': [dict(on=['open-read'], path='cfg.json', nth=1, action='error', arg=24)],
                  'noread': [dict(on=['open-read'], path='cfg.json', nth=1, action='error', arg=13)],
                  'short': [dict(on=['read'], path='cfg.json', nth=1, action='short', arg=11, times=50)],
                  'eintr': [dict(on=['read'], path='cfg.json', nth=1, action='eintr', times=3)], 'missing': []}[rf]
        soft = rf in ('short', 'eintr')
        out = self.reload(scn, root, res, want, must=soft, faults=faults)
        if out:
            for k, n in io.injected(out[1]).items():
                res.count('fault:' + k, n)
            if not soft and out[0] is None:
                res.violate('unreadable-accepted', 'read fault %s but load returned' % rf)
