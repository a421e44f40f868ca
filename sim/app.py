"""Command dispatch (runs inside the prepared interpreter)."""
import argparse
import importlib
import os
import sys

IDS = ['C%02d' % i for i in range(1, 20)]


def get(pid):
    return importlib.import_module('checks.%s' % pid.lower()).CHECK()


def main(args):
    from . import core
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('what', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--digests')
    a = ap.parse_args(args)
    if a.cmd == 'check':
        rc, agg, mm = core.check_main(get(a.what[0]), a.tier, a.seed, a.workers, a.runs)
        if a.digests:
            import json
            json.dump({str(k): v for k, v in sorted(agg['digests'].items())}, open(a.digests, 'w'), indent=0)
        return rc
    if a.cmd == 'replay':
        import json
        return core.replay(get(json.load(open(a.what[0]))['property']), a.what[0])
    if a.cmd == 'run':
        # one run, verbosely
        import json
        c = get(a.what[0])
        core.prepare(c)
        i = int(a.what[1])
        scn = json.loads(json.dumps(c.gen(core.rng_for(a.seed, c.pid, i), i, a.tier)))
        r = c.execute(scn)
        print(json.dumps(scn, indent=1)[:4000])
        for x in r.log:
            print(x)
        print(r.violations, r.counts, r.digest())
        core.scratch_cleanup()
        return 0
    raise SystemExit('unknown command')
