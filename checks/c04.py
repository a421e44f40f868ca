"""C04: the configuration store stays valid, atomic and resettable."""
import json
import os

import numpy as np

from sim import core, sched, world
from sim.world import cp
from . import common as cm

LIB = os.path.join(core.REPO, 'chaosmagpy', 'lib')
# the documented defaults (module documentation of config_utils), written down independently of the code
DEFAULTS = {'params.r_surf': 6371.2, 'params.r_cmb': 3485.0, 'params.dipole': np.array([-29442.0, -1501.0, 4797.1]),
            'params.ellipsoid': np.array([6378.137, 6356.752]), 'params.CHAOS_version': '7.18',
            'params.cdf_to_mjd': 730485, 'file.RC_index': os.path.join(LIB, 'RC_index.h5'),
            'file.GSM_spectrum': os.path.join(LIB, 'frequency_spectrum_gsm.npz'),
            'file.SM_spectrum': os.path.join(LIB, 'frequency_spectrum_sm.npz'),
            'file.Earth_conductivity': os.path.join(LIB, 'Earth_conductivity.dat'),
            'file.shp_coastline': os.path.join(LIB, 'ne_110m_coastline.zip'), 'plots.figure_width': 6.3}
FILES = ('rc.h5', 'gsm.npz', 'cond.dat', 'sm.npz', 'coast.zip', 'a b.dat')


class CHECK(core.Check):
    pid = 'C04'
    runs = dict(quick=36000, thorough=1440000)
    wall = dict(quick=150, thorough=3000)
    rule = 'operation sequence with at least one operation that failed or was interrupted'
    distinct_by = 'operation sequence'
    assumptions = ['an operation stopped by an interrupt may leave each parameter at its old or its new value (both valid)',
                   'the version string default 7.18 and other defaults are those of this commit\'s documentation']
    real = 'chaosmagpy.config_utils (module-level store)'
    stub = 'none (files in a scratch directory)'

    def gen_file(self, r):
        n = r.choice([0, 1, 2, 3, 5])
        d = {}
        for _ in range(n):
            k = r.choice(cm.KEYS) if r.random() < 0.93 else 'bad.key'
            v = cm.gen_value(r, k, FILES, good=0.85) if k != 'bad.key' else ['raw', 1]
            d[k] = v[1] if v[0] != 'obj' else {'a': 1}
        t = json.dumps(d)
        m = r.random()
        if m < 0.12:
            t = t[:r.randrange(len(t))]
        elif m < 0.2:
            t = r.choice(['[]', '[1, 2]', 'null', '3', '"x"', '', '{}{}', '\x00'])
        return t

    def gen_op(self, r, depth=0):
        k = r.random()
        key = r.choice(cm.KEYS) if r.random() < 0.95 else r.choice(['bad', 'params', '', 'PARAMS.R_SURF'])
        if k < 0.3:
            o = dict(k='set', key=key, val=cm.gen_value(r, key, FILES) if key in cm.KEYS else ['raw', 1.0],
                     alias=r.random() < 0.5)
        elif k < 0.42:
            o = dict(k='reset', key=key)
        elif k < 0.52:
            o = dict(k='fullreset')
        elif k < 0.72:
            o = dict(k='load', text=self.gen_file(r), file=r.choice(['cfg.json', 'cfg.json', 'cfg.json', 'missing.json', '.']))
        elif k < 0.82:
            o = dict(k='edit', key=r.choice(list(cm.VECTORS)), by=r.choice([1.0, 0.5, -3.0]))
        elif k < 0.88:
            o = dict(k='vanish', file=r.choice(FILES))
        elif k < 0.92:
            o = dict(k='appear', file=r.choice(FILES))
        elif depth < 2:
            o = dict(k='with', key=key, val=cm.gen_value(r, key, FILES) if key in cm.KEYS else ['raw', 1.0],
                     body=[self.gen_op(r, depth + 1) for _ in range(r.randrange(0, 4))],
                     exc=r.choice([None, 'ValueError', 'KeyboardInterrupt']))
        else:
            o = dict(k='fullreset')
        if o['k'] in ('set', 'reset', 'fullreset', 'load') and r.random() < 0.15:
            o['at'] = r.randrange(1, 25)
            o['exc'] = r.choice(['KeyboardInterrupt', 'MemoryError'])
        return o

    def gen(self, r, i, tier):
        return dict(steps=[self.gen_op(r) for _ in range(r.choice([3, 8, 8, 20]))], fresh=r.random() < 0.5)

    def execute(self, scn):
        with core.Scratch() as root:
            for f in FILES:
                open(os.path.join(root, f), 'w').write('x')
            c = core.fork_run(lambda emit: self.child(root, scn))
        res = core.Result()
        if c.status != 'done':
            res.violate('hang', 'status %s' % c.status)
            return res
        res.log, res.violations, res.counts = c.result
        res.sig = core.sig(scn)
        res.nontrivial = any(k.startswith('fault:') for k in res.counts)
        return res

    def child(self, root, scn):
        os.chdir(root)
        import warnings
        warnings.simplefilter('ignore')
        bc = cp.basicConfig
        log, viol, counts = [], [], {}

        def count(k):
            counts[k] = counts.get(k, 0) + 1
        if not scn['fresh']:
            for k, f in zip(cm.FILES, FILES):
                bc[k] = f
        model = cm.snap()         # expected contents
        if scn['fresh']:
            for k in cm.diff(model, {k: cm.cenc(v) for k, v in DEFAULTS.items()}):
                viol.append(('default-wrong', 'initial %s = %r' % (k, model.get(k))))
        sources = []              # arrays the harness assigned from

        def plan(o):
            """(must_succeed or None if free, new expected contents) for one store operation."""
            k = o['k']
            if k == 'set':
                if o['key'] not in cm.KEYS:
                    return False, model
                ok, v = cm.accepts(o['key'], o['_v'])
                return ok, dict(model, **{o['key']: cm.cenc(v)}) if ok else model
            if k == 'reset':
                if o['key'] not in cm.KEYS:
                    return False, model
                v = DEFAULTS[o['key']]
                if o['key'] in cm.FILES and not os.path.exists(v):
                    return None, dict(model, **{o['key']: v})
                return True, dict(model, **{o['key']: cm.cenc(v)})
            if k == 'fullreset':
                return True, {q: cm.cenc(v) for q, v in DEFAULTS.items()}
            if k == 'load':
                if o['file'] != 'cfg.json':
                    return False, model
                try:
                    d = json.loads(o['text'])
                except ValueError:
                    return False, model
                if not isinstance(d, dict):
                    return (None if not d and isinstance(d, list) else False), model
                new = dict(model)
                for q, v in d.items():
                    if q not in cm.KEYS:
                        return False, model
                    ok, w = cm.accepts(q, v)
                    if not ok:
                        return False, model
                    new[q] = cm.cenc(w)
                return True, new

        def judge(o, must, new, failed, interrupted):
            nonlocal model
            now = cm.snap()
            if interrupted:
                bad = [q for q in set(now) | set(model) if q not in now or not (
                    cm.csame(now[q], model[q]) or cm.csame(now[q], new[q]))]
                if bad:
                    viol.append(('interrupted-invalid', '%s interrupted: %s neither old nor new' % (o['k'], bad)))
                model = now
            elif failed is None:
                if must is False:
                    viol.append(('invalid-accepted', '%s %s %s succeeded' % (o['k'], o.get('key', o.get('text')), o.get('val'))))
                d = cm.diff(now, new)
                if d:
                    viol.append(('wrong-contents', 'after %s %s: %s = %s, expected %s' % (
                        o['k'], o.get('key', ''), d, [world.brief(now.get(q)) for q in d], [world.brief(new.get(q)) for q in d])))
                model = now
            else:
                d = cm.diff(now, model)
                if d:
                    viol.append(('failed-but-changed', '%s %s failed with %s but %s changed' % (
                        o['k'], o.get('key', o.get('text', '')), failed, d)))
                if must is True:
                    viol.append(('valid-refused', '%s %s %s refused: %s' % (o['k'], o.get('key', ''), o.get('val', o.get('text', '')), failed)))
                model = now

        def act(o):
            if o['k'] == 'set':
                bc[o['key']] = o['_v']
            elif o['k'] == 'reset':
                bc.reset(o['key'])
            elif o['k'] == 'fullreset':
                bc.fullreset()
            elif o['k'] == 'load':
                bc.load(o['file'])

        def run(o):
            nonlocal model
            k = o['k']
            if k in ('set', 'reset', 'fullreset', 'load'):
                if k == 'set':
                    o = dict(o, _v=cm.value(o['val']))
                if k == 'load':
                    open('cfg.json', 'w').write(o['text'])
                must, new = plan(o)
                failed, interrupted = None, False
                try:
                    if 'at' in o:
                        exc = cm.EXC[o['exc']]
                        try:
                            sched.interrupt_at(lambda: act(o), o['at'], exc)
                        except exc as e:
                            if 'injected' not in str(e):
                                raise
                            interrupted = True
                            count('fault:interrupt ' + k)
                    else:
                        act(o)
                except Exception as e:
                    failed = type(e).__name__
                    if 'at' in o and 'injected' in str(e):
                        # a MemoryError that the operation turned into an error of its own: it has failed
                        count('fault:interrupt ' + k)
                        must = None
                    else:
                        count('fault:refused ' + k)
                judge(o, must, new, failed, interrupted)
                log.append([k, failed, interrupted])
                if k == 'set' and o['alias'] and isinstance(o['_v'], (np.ndarray, list)) and failed is None and not interrupted:
                    v = o['_v']
                    try:
                        v[0] = v[0] + 1000
                    except Exception:
                        return
                    sources.append(v)
                    count('edited source')
                    if cm.diff(cm.snap(), model):
                        viol.append(('aliases-source', '%s changed when the assigned object was edited' % o['key']))
                        model = cm.snap()
            elif k == 'edit':
                v = bc[o['key']]
                if isinstance(v, np.ndarray):
                    try:
                        v[0] = v[0] + o['by']
                        count('edited in place')
                    except Exception:
                        return
                now = cm.snap()
                d = [q for q in cm.diff(now, model) if q != o['key']]
                if d:
                    viol.append(('edit-leaks', 'in-place edit of %s changed %s' % (o['key'], d)))
                for s in sources:
                    if s is v:
                        viol.append(('aliases-source', o['key']))
                model = now
            elif k == 'vanish':
                if os.path.exists(o['file']):
                    os.unlink(o['file'])
                    count('fault:file vanished')
            elif k == 'appear':
                open(o['file'], 'w').write('x')
            elif k == 'with':
                v = cm.value(o['val'])
                ok, w = cm.accepts(o['key'], v) if o['key'] in cm.KEYS else (False, None)
                before = model
                entered = False
                try:
                    with bc.context(o['key'], v):
                        entered = True
                        judge(dict(k='override', key=o['key'], val=o['val']), ok, dict(model, **{o['key']: cm.cenc(w)}) if ok else model, None, False)
                        for q in o['body']:
                            run(q)
                        if o['exc']:
                            raise cm.EXC[o['exc']]('simulated')
                except (Exception, KeyboardInterrupt) as e:
                    if not entered:
                        count('fault:refused override')
                        judge(dict(k='override', key=o['key'], val=o['val']), ok, model, type(e).__name__, False)
                        return
                    if 'simulated' not in str(e):
                        raise
                    count('fault:exception in block')
                judge(dict(k='leaving override', key=o['key']), None, dict(model, **{o['key']: before[o['key']]}), None, False)

        for o in scn['steps']:
            run(o)
        # whatever happened, a full reset gives the documented defaults
        bc.fullreset()
        for q in cm.diff(cm.snap(), {x: cm.cenc(v) for x, v in DEFAULTS.items()}):
            viol.append(('reset-not-default', 'after fullreset %s = %s' % (q, world.brief(cm.cenc(bc.get(q))))))
        for q in cm.KEYS:
            if q in cm.FILES and not os.path.exists(DEFAULTS[q]):
                continue
            bc.reset(q)
            if not cm.csame(cm.cenc(bc[q]), cm.cenc(DEFAULTS[q])):
                viol.append(('reset-not-default', 'after reset %s = %s' % (q, world.brief(cm.cenc(bc[q])))))
        return log, viol, counts
