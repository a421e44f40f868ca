"""C03: a temporary configuration override is always undone."""
import os

from sim import core, ops, sched, world
from sim.world import cp, enc
from . import common as cm


class Stop(Exception):
    pass


class CHECK(core.Check):
    pid = 'C03'
    runs = dict(quick=18000, thorough=720000)
    wall = dict(quick=150, thorough=3000)
    rule = ('scenario signature (programs, schedule, injected exits) with at least one override block entered and left '
            'by something other than falling off its end, or two blocks interleaved')
    distinct_by = 'task programs + schedule + injected exits'
    assumptions = ['interrupts arrive inside blocks, not inside the few bytecodes of the context manager\'s own exit',
                   'on entry means: the value in force immediately before the with statement']
    real = 'chaosmagpy.config_utils and every evaluation called inside a block'
    stub = 'event loop (the simulator drives generators and coroutines itself)'
    shrinkable = ('tasks', 'schedule')

    def setup(self):
        world.fixtures()

    # ---- generation -------------------------------------------------------------------------
    def body(self, r, depth, keys):
        out = []
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < (0.85 if depth == 0 else 0.36) and depth < 4:
                key = r.choice(keys)
                if r.random() < 0.04:
                    key = 'no.such'
                    out.append(dict(k='with', key=key, val=['raw', 1.0], body=[]))
                    continue
                out.append(dict(k='with', key=key, val=cm.gen_value(r, key, good=0.85), body=self.body(r, depth + 1, keys)))
            elif k < 0.5:
                out.append(dict(k='yield'))
            elif k < 0.60:
                key = r.choice(keys)
                out.append(dict(k='set', key=key, val=cm.gen_value(r, key, good=0.9)))
            elif k < 0.68:
                out.append(dict(k='edit', key=r.choice(list(cm.VECTORS))))
            elif k < 0.75:
                out.append(dict(k='vanish', file=r.choice(['rc.h5', 'gsm.npz', 'cond.dat', 'sm.npz', 'coast.zip'])))
            elif k < 0.87:
                out.append(dict(k='raise', exc=r.choice(list(cm.EXC))))
            elif k < 0.90:
                out.append(dict(k='reset'))
            elif k < 0.93:
                out.append(dict(k='return'))
            else:
                out.append(dict(k='call', d=ops.gen(r, ops.select('cfg', ('plot', 'slow'))),
                                at=r.choice([None, r.randrange(1, 120)]), exc=r.choice(['KeyboardInterrupt', 'MemoryError'])))
        return out

    def gen(self, r, i, tier):
        keys = r.sample(cm.KEYS, r.choice([1, 2, 4, 8]))
        if r.random() < 0.5:
            keys.append(r.choice(cm.FILES))
        tasks = [dict(style=r.choice(['gen', 'coro', 'plain', 'decor', 'stack']), body=self.body(r, 0, keys))
                 for _ in range(r.choice([1, 1, 2, 3]))]
        schedule = []
        for _ in range(r.randrange(3, 14)):
            schedule.append([r.randrange(len(tasks)), r.choice(['next', 'next', 'next', 'next', 'throw', 'close']),
                             r.choice(['ValueError', 'KeyboardInterrupt', 'Cancelled', 'MemoryError'])])
        return dict(tasks=tasks, schedule=schedule, end=r.choice(['close', 'drop', 'next', 'throw']))

    # ---- one run ----------------------------------------------------------------------------
    def execute(self, scn):
        with core.Scratch() as root:
            world.populate(root)
            for f in ('a b.dat', 'ünï.dat'):
                open(os.path.join(root, f), 'w').close()
            c = core.fork_run(lambda emit: self.child(root, scn, emit))
        res = core.Result()
        if c.status != 'done':
            res.violate('hang', 'status %s' % c.status)
            return res
        log, viol, counts = c.result
        res.log = log
        res.violations = viol
        res.counts = counts
        res.sig = core.sig(scn)
        res.nontrivial = counts.get('fault:left by exception', 0) + counts.get('interleaved exits', 0) + \
            counts.get('fault:left by close', 0) > 0
        return res

    def child(self, root, scn, emit):
        out, wl = world.enter(root)
        W = world.take()
        bc = cp.basicConfig
        log, viol, counts = [], [], {}
        active = []

        def count(k):
            counts[k] = counts.get(k, 0) + 1

        def with_block(tid, node, run_body):
            """Generator: one override block, watched from outside."""
            key = node['key']
            val = cm.value(node['val'])
            before = cm.snap()
            last = left = None
            mark = object()
            entered = False
            how = 'end'
            try:
                with bc.context(key, val):
                    entered = True
                    active.append(mark)
                    count('blocks entered')
                    ok, want = cm.accepts(key, val)
                    if ok and not cm.csame(cm.cenc(bc[key]), cm.cenc(want)):
                        viol.append(('override-not-in-force', '%s = %r inside the block, expected %r' % (key, cm.cenc(bc[key]), want)))
                    if not ok:
                        viol.append(('invalid-override-accepted', '%s = %r' % (key, node['val'])))
                    for k in cm.diff(before, cm.snap()):
                        if k != key:
                            viol.append(('override-changed-other', '%s changed by overriding %s' % (k, key)))
                    try:
                        r = yield from run_body(tid, node['body'])
                    except BaseException as e:
                        left = e
                        raise
                    finally:
                        last = cm.snap()
                    return r
                viol.append(('exception-discarded', '%r that ended the block of %s' % (left, key)))
                return None
            except GeneratorExit:
                how = 'close'
                raise
            except BaseException as e:
                how = 'exception'
                if left is not None and e is not left:
                    viol.append(('exception-replaced', '%r that ended the block of %s became %r' % (left, key, e)))
                if not entered:
                    d = cm.diff(before, cm.snap())
                    count('fault:override refused')
                    log.append(['refused', key, type(e).__name__])
                    if d:
                        viol.append(('refused-override-changed', '%s refused (%s) but %s changed' % (key, type(e).__name__, d)))
                    ok, _ = cm.accepts(key, val)
                    if key in before and ok and isinstance(e, (ValueError, KeyError, TypeError, OSError)):
                        viol.append(('valid-override-refused', '%s = %r refused: %r' % (key, node['val'], e)))
                raise
            finally:
                if entered:
                    if active and active[-1] is not mark:
                        count('interleaved exits')
                    if mark in active:
                        active.remove(mark)
                    if how != 'end':
                        count('fault:left by ' + how)
                    now = cm.cenc(bc[key]) if key in bc else '<gone>'
                    good = key in bc and cm.csame(now, before[key])
                    log.append(['left', key, how, good])
                    if not good:
                        viol.append(('not-restored', '%s left by %s: value %s, on entry %s' % (
                            key, how, world.brief(now), world.brief(before[key]))))
                    for k in cm.diff(last, cm.snap()) if last else ():
                        if k != key:
                            viol.append(('exit-changed-other', '%s changed when the override of %s was left' % (k, key)))

        def run_body(tid, body):
            for n in body:
                k = n['k']
                if k == 'with':
                    try:
                        r = yield from with_block(tid, n, run_body)
                        if r == 'return':
                            return 'return'
                    except (KeyError, ValueError, FileNotFoundError, TypeError) as e:
                        if n.get('outer'):
                            raise
                        log.append([tid, 'caught', type(e).__name__])
                elif k == 'yield':
                    yield
                elif k == 'set':
                    try:
                        bc[n['key']] = cm.value(n['val'])
                    except (KeyError, ValueError, OSError, TypeError):
                        pass
                elif k == 'edit':
                    try:
                        bc[n['key']][0] += 1
                    except Exception:
                        pass
                elif k == 'reset':
                    bc.fullreset()
                elif k == 'vanish':
                    count('fault:file vanished')
                    if os.path.exists(os.path.join(root, n['file'])):
                        os.unlink(os.path.join(root, n['file']))
                elif k == 'raise':
                    raise cm.EXC[n['exc']]('simulated')
                elif k == 'return':
                    return 'return'
                elif k == 'call':
                    if n['at'] is None:
                        ops.call(W, n['d'])
                    else:
                        fired = False
                        try:
                            _, fired = sched.interrupt_at(lambda: ops.call(W, n['d']), n['at'], cm.EXC[n['exc']])
                        except BaseException:
                            count('fault:interrupt inside a call')
                            raise

        class Switch:
            def __await__(self):
                yield

        def make(tid, t):
            st = t['style']
            if st == 'coro':
                async def coro():
                    g = run_body(tid, t['body'])
                    # drive the generator, surfacing its switch points as awaits
                    v = None
                    while True:
                        try:
                            g.send(None)
                        except StopIteration as e:
                            return e.value
                        try:
                            await Switch()
                        except GeneratorExit:
                            g.close()
                            raise
                        except BaseException as e:
                            try:
                                g.throw(e)
                            except StopIteration as s:
                                return s.value
                            await Switch()
                return coro()
            if st in ('gen', 'stack'):
                return run_body(tid, t['body'])

            def plain():
                # run to completion at the first step
                for _ in run_body(tid, t['body']):
                    pass
                yield
            if st == 'decor':
                return self.decorated(tid, t, bc, run_body, viol, log, count)
            return plain()

        gens = {}
        for i, t in enumerate(scn['tasks']):
            gens[i] = make(i, t)

        def step(i, act, exc):
            g = gens.get(i)
            if g is None:
                return
            try:
                if act == 'next':
                    g.send(None)
                elif act == 'throw':
                    g.throw(cm.EXC[exc]('simulated'))
                else:
                    g.close()
                    gens.pop(i)
            except BaseException as e:
                gens.pop(i, None)
                log.append([i, act, 'ended', type(e).__name__])
        for i, act, exc in scn['schedule']:
            if i < len(scn['tasks']):
                step(i, act, exc)
        for i in list(gens):
            e = scn['end']
            if e == 'drop':
                import gc
                gens.pop(i)
                gc.collect()
            elif e == 'close':
                step(i, 'close', None)
            elif e == 'throw':
                step(i, 'throw', 'Cancelled')
            else:
                for _ in range(60):
                    step(i, 'next', None)
                step(i, 'close', None)
        return log, viol, counts

    @staticmethod
    def decorated(tid, t, bc, run_body, viol, log, count):
        """The override used as a decorator and through an ExitStack."""
        import contextlib
        key = 'params.r_surf'
        before = cm.cenc(bc[key])

        def body():
            for _ in run_body(tid, t['body']):
                pass
        try:
            with contextlib.ExitStack() as st:
                st.enter_context(bc.context(key, 10.0))
                inner = cm.cenc(bc['params.r_cmb'])
                try:
                    bc.context('params.r_cmb', 5.0)(body)()
                finally:
                    if not cm.csame(cm.cenc(bc['params.r_cmb']), inner):
                        viol.append(('not-restored', 'params.r_cmb after decorated call'))
        finally:
            if not cm.csame(cm.cenc(bc[key]), before):
                viol.append(('not-restored', 'params.r_surf after ExitStack'))
        yield
