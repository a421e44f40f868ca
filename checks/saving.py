"""Shared machinery of the checks on saving: crash at the acknowledgement, write faults, reload in a fresh process."""
import errno
import faulthandler
import os
import sys

from sim import core, io, sched, world


class SaveCheck(core.Check):
    """A subclass defines prepare(), save(), judge() and the text that announces success."""
    announce = ()
    dest_key = 'dest'
    hdf5 = False         # files are written through HDF5
    max_nth = 6          # upper bound for the number of the affected write
    retry_ok = False     # an error that is retried successfully need not surface
    shrinkable = ('faults', 'bystanders')

    # ---- scenario pieces ---------------------------------------------------------------------
    def gen_faults(self, r, scn):
        act = r.choice(['none', 'ack', 'ack', 'ack', 'crash', 'crash', 'error', 'error', 'disk_full', 'short', 'eintr',
                        'error_after_part', 'multi', 'interrupt', 'sigint'])
        scn['act'] = act
        scn['ackat'] = r.choice(['print', 'return']) if act == 'ack' else None
        sub = os.path.basename(scn['dest'])
        nth = r.choice([1, 1, 2, r.randrange(1, self.max_nth + 1), r.randrange(1, self.max_nth + 1)])
        f = []
        if act == 'crash':
            a = r.choice(['crash_before', 'crash_after', 'crash_torn', 'crash_torn'])
            on = ['write'] if a == 'crash_torn' else [r.choice(['write', 'write', 'write', 'close-write', 'open-write'])]
            f = [dict(on=on, path=sub, nth=nth if on == ['write'] else r.choice([1, 1, 2, 3]), action=a, arg=r.randrange(0, 3000))]
        elif act == 'error':
            on = r.choice(['write', 'write', 'write', 'close-write', 'open-write'])
            f = [dict(on=[on], path=sub, nth=nth if on == 'write' else r.choice([1, 1, 2, 3]), action='error',
                      arg=r.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES]), times=r.choice([1, 1, 3, 10 ** 6]))]
        elif act == 'disk_full':
            f = [dict(action='disk_full', arg=r.choice([0, r.randrange(0, 2000), r.randrange(0, self.size_hint)]))]
        elif act in ('short', 'eintr'):
            f = [dict(on=['write'], path=sub, nth=nth, action=act, arg=r.choice([1, 7, 100, 1000]), times=r.choice([1, 2, 5]))]
        elif act == 'error_after_part':
            f = [dict(on=['write'], path=sub, nth=nth, action='error_after_part', arg=r.choice([1, 5, 100]), times=1)]
        elif act == 'multi':
            f = [dict(on=['write'], path=sub, nth=r.randrange(1, self.max_nth + 1), action=r.choice(['short', 'eintr']),
                      arg=r.choice([1, 7, 100]), times=r.choice([1, 2, 5])) for _ in range(r.choice([2, 3]))]
        elif act == 'sigint':
            on = r.choice(['write', 'write', 'close-write', 'open-write'])
            f = [dict(on=[on], path=sub, nth=nth if on == 'write' else 1, action='sigint', times=1)]
        scn['line'] = [r.choice([r.random(), r.random(), 1 - r.random() ** 3]), r.choice(['MemoryError', 'MemoryError', 'KeyboardInterrupt'])] if act == 'interrupt' else None
        if f and f[0].get('on') and r.random() < self.place:
            f[0]['frac'] = r.random()
        scn['faults'] = f
        scn['bystanders'] = r.choice([[], ['model.shc'], ['other.dat', 'x.mat'], ['CHAOS.mat', 'RC_index.h5', 'sub/keep']])

    size_hint = 20000
    place = 0.4          # share of the faults placed at a fraction of the operations of an undisturbed save

    # ---- to be defined -----------------------------------------------------------------------
    def prepare(self, scn, root):
        """Files present before the save."""

    def config(self, scn):
        return False

    def save(self, scn, out):
        """Runs in the writer; returns a picklable description used by judge (or None)."""
        raise NotImplementedError

    def judge(self, scn, info):
        """Runs in a fresh process, cwd = root: yield (class, detail) for everything wrong with an acknowledged file."""
        raise NotImplementedError

    def judge_unacked(self, scn, root, res):
        """Optional: the state left by a save that did not succeed."""

    def may_raise(self, scn):
        """Saving is documented to be refused for this scenario."""
        return False

    # ---- execution ---------------------------------------------------------------------------
    def files(self, scn, root):
        out = {}
        for b, _, fs in os.walk(root):
            for f in fs:
                p = os.path.relpath(os.path.join(b, f), root)
                if p != os.path.normpath(scn['dest']) and not p.startswith('tmp' + os.sep):
                    out[p] = open(os.path.join(b, f), 'rb').read()
        return out

    def writer(self, scn, root):
        def run(emit):
            crash = scn['act'] == 'ack'

            def on(ev):
                emit(ev)
                if crash and scn['ackat'] == 'print' and any(a in ev[1] for a in self.announce):
                    os._exit(137)
            world.enter(root, self.config(scn), emit=on)
            lost = []
            sys.unraisablehook = lambda u: lost.append('%s in %s' % (type(u.exc_value).__name__, str(u.object or u.err_msg)[:120]))
            faulthandler.enable(trace, all_threads=False)
            disk = io.Disk(root)
            disk.plan(scn['faults'])
            call = self.before(scn)
            with disk:
                try:
                    if scn['act'] == 'dry':
                        info, n = sched.count_lines(lambda: call(scn))
                        emit(('lines', n))
                    elif scn['act'] == 'interrupt':
                        info, _ = sched.interrupt_at(lambda: call(scn), scn['line'][0], dict(MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt)[scn['line'][1]])
                    else:
                        info = call(scn)
                except (Exception, KeyboardInterrupt) as e:
                    out = ('raised', type(e).__name__, str(e)[:200])
                else:
                    out = ('returned', info)
                    emit(('returned', info))
                    if crash:
                        os._exit(137)
            return out, disk.journal(), lost
        with open(root + '.trace', 'w+') as trace:
            try:
                c = core.fork_run(run)
                trace.seek(0)
                return c, trace.read()
            finally:
                os.unlink(root + '.trace')

    def before(self, scn):
        """Hook: build objects before the disk seam is switched on; returns the callable to run under faults."""
        return self.save

    def execute(self, scn):
        res = core.Result()
        with core.Scratch() as root:
            os.makedirs(os.path.join(root, 'sub'))
            os.makedirs(os.path.join(root, 'tmp'))
            for b in scn.get('bystanders', []):
                if os.path.normpath(b) != os.path.normpath(scn['dest']):
                    open(os.path.join(root, b), 'w').write('bystander ' + b)
            self.prepare(scn, root)
            before = self.files(scn, root)
            if scn['act'] == 'interrupt' or any('frac' in f for f in scn['faults']):
                with core.Scratch('dry') as other:
                    for d in ('sub', 'tmp'):
                        os.makedirs(os.path.join(other, d))
                    self.prepare(scn, other)
                    c, _ = self.writer(dict(scn, faults=[], act='dry'), other)
                    if c.status == 'done':
                        scn = dict(scn, faults=io.resolve(scn['faults'], c.result[1]))
                        n = [e[1] for e in c.events if e[0] == 'lines']
                        if scn.get('line') and n:
                            scn['line'] = [1 + int(scn['line'][0] * n[0]), scn['line'][1]]
            c, trace = self.writer(scn, root)
            if c.status.startswith('signal'):
                frames = [ln.strip().split('/')[-1] for ln in trace.split('\n') if 'File' in ln][:3]
                hard = scn['act'] in ('error', 'disk_full', 'error_after_part')
                res.violate('process-dies', '%s%s; last Python frames %s; faults %s' % (
                    'native crash in HDF5 after a disk error, ' if hard and self.hdf5 else '', c.status, frames, [
                        (f.get('on', ''), f['action']) for f in scn['faults']]))
                res.log.append([c.status])
                res.count('fault:' + scn['act'])
                return res
            if c.status not in ('done', 'crash'):
                res.violate('hang', 'save ended with %s' % c.status)
                return res
            said = ''.join(e[1] for e in c.events if e[0] == 'print')
            announced = any(a in said for a in self.announce)
            ret = [e for e in c.events if e[0] == 'returned']
            raised, fired, lost = False, {}, []
            if c.status == 'done':
                out, j, lost = c.result
                fired = io.injected(j)
                raised = out[0] == 'raised'
                res.log.append([out[:2] if raised else out[0], len(j), announced])
                res.log.append([[x['op'], x['path'], x['req'], x['res'], x['err'], x['inj']] for x in j if x['inj']][:20])
                esc = [x for x in j if x['op'] == 'escape']
                if esc:
                    res.violate('other-file-touched', 'outside the scratch directory: %s' % esc[:2])
            else:
                fired = {scn['faults'][0]['action'] if scn['faults'] else 'crash_at_acknowledgement_' + str(scn['ackat']): 1}
            for k, n in fired.items():
                res.count('fault:' + k, n)
            after = self.files(scn, root)
            touched = [p for p in before if after.get(p) != before[p]]
            if touched:
                res.violate('other-file-touched', 'changed or removed: %s' % touched)
            new = [p for p in after if p not in before]
            if new and c.status == 'done' and not raised:
                res.violate('other-file-touched', 'left behind: %s' % new)
            hard = any(k.startswith(('error', 'disk_full')) for k in fired)
            refused = self.may_raise(scn)
            stopped = raised and ('injected' in c.result[0][2] or c.result[0][1] == 'KeyboardInterrupt')
            if stopped and scn['act'] == 'interrupt':
                res.count('fault:' + c.result[0][1])
            if raised and announced and not stopped:
                res.violate('announced-but-raised', '%s; %s' % (c.result[0], fired))
            if raised and not hard and not refused and not stopped:
                res.violate('save-fails', 'save raised %s without a disk error (%s)' % (c.result[0][1:], fired))
            acked = bool(ret) or (announced and (stopped or not raised))
            res.log.append([c.status, acked])
            if acked:
                res.count('acknowledged')
                n = len(res.violations)
                self.check_ack(scn, root, res, ret[0][1] if ret else None)
                if hard and not raised and c.status == 'done':
                    bad = res.violations[n:]
                    if bad or not self.retry_ok or any('close' in k for k in fired):
                        del res.violations[n:]
                        res.violate('error-discarded' if lost else 'error-swallowed', 'disk error %s, save returned; %s%s' % (
                            fired, 'discarded: %s; ' % lost[:2] if lost else '', bad[:1]))
                    else:
                        res.count('disk error retried')
            else:
                res.count('not acknowledged')
                self.judge_unacked(scn, root, res)
        res.sig = core.sig(scn)
        res.nontrivial = any(k.startswith('fault:') for k in res.counts)
        return res

    def check_ack(self, scn, root, res, info):
        def run(emit):
            world.enter(root, self.config(scn))
            return list(self.judge(scn, info))
        c = core.fork_run(run)
        if c.status != 'done':
            res.violate('hang', 'reload ended with %s' % c.status)
            return
        for cls, detail in c.result:
            res.violate(cls, detail)
        res.log.append(['reload', [v[0] for v in c.result]])
