"""Try the planted bugs in /verif/seeded: build, stable tests, demonstration, then this property's quick check.

usage: seeded.py [--no-tests] [--runs N] [ID...]     (works in a scratch copy; /repo is not touched)
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import time
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedcopy'


def sh(cmd, cwd, timeout=1200, **env):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', **env),
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else e.stdout or '')


def stable(copy):
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    x = os.path.join(copy, '.junit.xml')
    sh('for i in $(seq 100); do echo %s/tests/data/CHAOS_test.mat; done | /opt/venv/bin/python -m pytest -s -q -p no:cacheprovider '
       '--timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s tests' % (copy, x), copy, PYTHONPATH=copy)
    ok = {t.get('classname') + '::' + t.get('name') for t in ET.parse(x).iter('testcase')
          if not any(c.tag in ('failure', 'error', 'skipped') for c in t)}
    os.remove(x)
    return want - ok


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--no-check', action='store_true')
    ap.add_argument('--runs', default=None)
    ap.add_argument('--check', default=None)
    a = ap.parse_args()
    for i in a.ids or sorted(os.listdir(os.path.join(V, 'seeded'))):
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        shutil.rmtree(S, ignore_errors=True)
        sh('cp -a /repo %s' % S, '/')
        demo = '/tmp/seeddemo'
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        out = [i, meta['property']]
        clean = sh('bash %s/demo.sh' % demo, S, 300)
        ap_ = sh('git apply --whitespace=nowarn %s/patch.diff && %s -m compileall -q chaosmagpy' % (d, '/opt/venv/bin/python'), S)
        if ap_.returncode:
            print(i, 'PATCH DOES NOT APPLY', ap_.stdout[:500], flush=True)
            continue
        if not a.no_tests:
            bad = stable(S)
            out.append('tests ok' if not bad else 'TESTS FAIL %s' % sorted(bad))
        dirty = sh('bash %s/demo.sh' % demo, S, 300)
        out.append('demo clean=%d patched=%d%s' % (clean.returncode, dirty.returncode, '' if clean.returncode == 0 != dirty.returncode else ' DEMO BAD\n' + clean.stdout[-600:] + '\n---\n' + dirty.stdout[-600:]))
        if not a.no_check:
            t = time.time()
            r = sh('python3 verif.py check %s --tier quick %s' % (a.check or meta['property'], '--runs ' + a.runs if a.runs else ''), V, CMP_REPO=S)
            v = [ln for ln in r.stdout.splitlines() if ln.startswith('VIOLATION')]
            out.append(('caught' if r.returncode == 1 and v else 'MISSED') + ' rc=%d %ds %s' % (r.returncode, time.time() - t, v[:1]))
            if r.returncode not in (0, 1):
                out.append(r.stdout[-1500:])
        print(' | '.join(out), flush=True)
    shutil.rmtree(S, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
