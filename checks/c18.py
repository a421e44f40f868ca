"""C18: copies of a model, also in another process, are equal to it and independent of it."""
import copy
import pickle

from sim import core, ops, sched, world
from sim.world import enc, same
from . import c02
from . import common as cm

HOW = ('deepcopy', 'deepcopy', 'pickle', 'pickle', 'pypickle', 'copy')


def transport(obj, how, proto):
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    if how == 'copy':
        return copy.copy(obj)
    return (pickle._dumps if how == 'pypickle' else pickle.dumps)(obj, proto)


def receive(x):
    return pickle.loads(x) if isinstance(x, bytes) else x


class CHECK(core.Check):
    pid = 'C18'
    runs = dict(quick=3000, thorough=120000)
    wall = dict(quick=200, thorough=3300)
    rule = 'a copy made after calls, edits or interrupts on the model, or while another thread was using it, and evaluated'
    distinct_by = 'history, way of copying, calls and switch sequence'
    assumptions = ['threads switch between source lines of chaosmagpy, copy and pickle', 'a shallow copy (copy.copy) shares its arrays, as everywhere in Python',
                   'the receiving process has the same configuration and data files']
    real = 'chaos (BaseModel, CHAOS) and everything its evaluations use, copy, pickle, NumPy; a second real process'
    stub = 'thread scheduling (sys.settrace batons)'
    shrinkable = ('explicit', 'steps', 'during', 'after')

    def setup(self):
        world.fixtures()
        self.pool = {}
        for w, tag in (('bm', 'bm'), ('chaos', 'chaos')):
            self.pool[w] = [o for o in ops.select(tag, ('plot', 'slow')) if ('m' if w == 'bm' else 'c') in o.params]

    def op(self, r, which, i):
        d = ops.gen_op(r, r.choices(self.pool[which[0]], [o.weight for o in self.pool[which[0]]])[0])
        d['args']['m' if which[0] == 'bm' else 'c'] = which[1]
        if 'out' in d['args']:
            d['args']['out'] = i
        return d

    def edit(self, r, which, shallow=False):
        how = ['scale', 'assign', 'breaks', 'shift', 'shape'] if not shallow else ['assign', 'breaks', 'shape']
        return dict(k='model', which=which, how=r.choice(how), s=r.randrange(100))

    def gen(self, r, i, tier):
        which = r.choice([['bm', 0], ['bm', 1], ['bm', 3], ['chaos', 0], ['chaos', 2]])
        how = r.choice(HOW if which[0] == 'bm' else HOW[:-1])
        steps = []
        for k in range(r.choice([0, 1, 2, 3, 4])):
            if r.random() < 0.3:
                steps.append(self.edit(r, which))
            else:
                st = dict(k='call', d=self.op(r, which, k))
                if r.random() < 0.25:
                    st.update(at=r.choice([r.randrange(1, 12), r.randrange(1, 80), r.randrange(1, 400)]), exc=r.choice(['KeyboardInterrupt', 'MemoryError']))
                    if r.random() < 0.4:
                        st.update(depth=r.choice([1, 1, 2]), at=r.choice([r.randrange(1, 15), r.randrange(1, 60)]))
                steps.append(st)
        during = [self.op(r, which, 50 + k) for k in range(r.choice([0, 0, 1, 1, 2]))]
        after = []
        for k in range(r.choice([2, 3, 4, 5])):
            on = r.choice(['copy', 'copy', 'orig'])
            if k and r.random() < 0.35:
                after.append(dict(self.edit(r, which, how == 'copy'), on=on))
            else:
                after.append(dict(k='call', d=self.op(r, which, 100 + k), on=on))
        kind = r.choice(['pct', 'rand', 'rand'])
        st = dict(kind=kind, seed=r.randrange(2 ** 31))
        if kind == 'pct':
            st.update(d=r.choice([1, 2, 3, 5]), length=r.choice([60, 300, 1500]))
        else:
            st['p'] = r.choice([0.5, 0.2, 0.08, 0.03])
        return dict(which=which, how=how, proto=r.choice([2, 3, 4, 5]), steps=steps, during=during, after=after, strategy=st,
                    far=how in ('pickle', 'pypickle') and r.random() < 0.6, twice=r.random() < 0.2)

    @staticmethod
    def put(W, which, obj):
        setattr(W, which[0], list(getattr(W, which[0])))
        getattr(W, which[0])[which[1]] = obj

    def execute(self, scn):
        res = core.Result()
        which = scn['which']
        with core.Scratch() as root, core.Scratch('q') as ref:
            world.populate(root)
            world.populate(ref)
            c = core.fork_run(lambda emit: self.owner(root, scn, emit), cpu=100)
            if c.status != 'done':
                res.violate('hang', 'ended with %s' % c.status)
                return res
            r = c.result
            outs = r['outs']
            for k, n in r['counts'].items():
                res.count(k, n)
            if r['blob'] is not None:
                far = core.fork_run(lambda emit: self.far(root, scn, r['blob']), cpu=100)
                if far.status != 'done':
                    res.violate('hang', 'other process ended with %s' % far.status)
                    return res
                outs += far.result
                res.count('copies sent to another process')
            before = [s for s in scn['steps'] if s['k'] == 'model']
            for kind, i, got in outs:
                if kind == 'failed':
                    res.violate('copy-fails', '%s of %s: %s' % (scn['how'], which, got))
                    continue
                want = self.pristine(ref, scn, kind, i, before)
                d = world.same_outcome(got, want) if kind in ('after', 'during') else same(got, want, rtol=1e-14, atol=0)
                res.log.append([kind, i, d])
                res.count('outcomes compared')
                if d:
                    if kind == 'end':
                        res.violate('contents-shared', 'at the end the %s (%s of %s) has other contents: %s' % (i, scn['how'], which, d))
                    elif kind == 'made':
                        res.violate('copy-differs', '%s of %s differs from it: %s' % (scn['how'], which, d))
                    elif kind == 'during':
                        res.violate('disturbed', '%s while the model is copied (%s): %s (alone)' % (scn['during'][i], scn['how'], d))
                    else:
                        a = scn['after'][i]
                        res.violate('copy-evaluates-differently' if a['on'] == 'copy' else 'original-affected',
                                    '%s on the %s (%s%s): %s (in a pristine process)' % (a['d'], a['on'], scn['how'], ', another process' if scn['far'] else '', d))
            res.extra = dict(explicit=r['taken'])
            res.sig = core.sig([which, scn['how'], scn['steps'], scn['during'], scn['after'], r['switches']])
            res.nontrivial = bool(scn['steps'] or r['switches'] > 1)
        return res

    def pristine(self, root, scn, kind, i, before):
        which = scn['which']

        def run(emit):
            world.enter(root)
            W = world.take()
            for s in before:
                c02.CHECK.edit(W, s)
            if kind == 'made':
                return enc(getattr(W, which[0])[which[1]])
            if kind == 'end':
                for s in scn['after']:
                    if s['k'] == 'model' and s['on'] == i:
                        c02.CHECK.edit(W, s)
                return enc(getattr(W, which[0])[which[1]])
            if kind == 'during':
                return ops.call(W, scn['during'][i])[0]
            a = scn['after'][i]
            for s in scn['after'][:i]:
                if s['k'] == 'model' and s['on'] == a['on']:
                    c02.CHECK.edit(W, s)
            return ops.call(W, a['d'])[0]
        c = core.fork_run(run, cpu=100)
        return c.result if c.status == 'done' else ('exc', c.status, '')

    def owner(self, root, scn, emit):
        world.enter(root)
        W = world.take()
        which = scn['which']
        counts = {}
        for s in scn['steps']:
            if s['k'] == 'model':
                c02.CHECK.edit(W, s)
                counts['state:model edited'] = counts.get('state:model edited', 0) + 1
            elif 'at' in s:
                exc = cm.EXC[s['exc']]
                try:
                    _, fired = sched.interrupt_at(lambda: ops.call(W, s['d']), s['at'], exc, s.get('depth'))
                except exc as e:
                    if 'injected' not in str(e):
                        raise
                    fired = True
                if fired:
                    counts['fault:' + s['exc']] = counts.get('fault:' + s['exc'], 0) + 1
            else:
                ops.call(W, s['d'])
        obj = getattr(W, which[0])[which[1]]

        def make():
            try:
                x = transport(obj, scn['how'], scn['proto'])
                if scn['twice']:
                    x = transport(receive(x), scn['how'], scn['proto'])
                return ('ok', x)
            except Exception as e:
                return ('exc', '%s: %s' % (type(e).__name__, str(e)[:200]))
        taken, nsw = [], 0
        outs = []
        if scn['during']:
            s = sched.Scheduler([make] + [lambda d=d: ops.call(W, d)[0] for d in scn['during']], scn['strategy'], scn.get('explicit'),
                                also=(copy.__file__, pickle.__file__))
            stat = [0]

            def on_switch(me, target):
                stat[0] += not s.done[0]
            s.on_switch = on_switch
            r = s.run()
            made, taken, nsw = r[0], s.taken, len(s.switches)
            outs += [('during', k, x) for k, x in enumerate(r[1:])]
            if stat[0]:
                counts['fault:preemption while copying'] = stat[0]
        else:
            made = make()
        blob = None
        if made[0] != 'ok':
            outs.append(('failed', 0, str(made[1:])))
        elif scn['far']:
            blob = made[1]
            outs += self.use(W, scn, W, None)
        else:
            try:
                obj2 = receive(made[1])
            except Exception as e:
                outs.append(('failed', 0, '%s: %s' % (type(e).__name__, str(e)[:200])))
            else:
                W2 = copy.copy(W)
                self.put(W2, which, obj2)
                outs.append(('made', 0, enc(obj2)))
                outs += self.use(W, scn, W, W2)
        return dict(outs=outs, blob=blob, counts=counts, taken=taken, switches=nsw)

    def use(self, W, scn, orig, cop):
        out = []
        for i, a in enumerate(scn['after']):
            w = orig if a['on'] == 'orig' else cop
            if w is None:
                continue
            if a['k'] == 'model':
                c02.CHECK.edit(w, a)
            else:
                out.append(('after', i, ops.call(w, a['d'])[0]))
        w, q = scn['which']
        return out + [('end', name, enc(getattr(x, w)[q])) for name, x in (('orig', orig), ('copy', cop)) if x is not None]

    def far(self, root, scn, blob):
        world.enter(root)
        W = world.take()
        try:
            obj = pickle.loads(blob)
        except Exception as e:
            return [('failed', 0, '%s: %s' % (type(e).__name__, str(e)[:200]))]
        self.put(W, scn['which'], obj)
        return [('made', 0, enc(obj))] + self.use(W, scn, None, W)
