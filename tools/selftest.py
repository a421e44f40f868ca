"""Determinism: the same runs with other worker counts and hash seeds must give the same event logs.

usage: selftest.py [RUNS] [SEEDS] [CHECK...]
"""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(runs=200, seeds=2, *ids):
    bad = 0
    for pid in ids or ['C%02d' % i for i in range(1, 21)]:
        for seed in range(1, int(seeds) + 1):
            got = []
            for workers, hs in ((8, '0'), (3, '0'), (8, '1'), (1, '7')) if seed == 1 else ((8, '0'), (5, '3')):
                with tempfile.TemporaryDirectory() as d:
                    p = os.path.join(d, 'd.json')
                    r = subprocess.run([sys.executable, 'verif.py', 'check', pid, '--runs', str(runs), '--seed', str(seed), '--workers', str(workers), '--digests', p],
                                       cwd=V, env=dict(os.environ, CMP_HASHSEED=hs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    got.append((workers, hs, r.returncode, json.load(open(p)) if os.path.exists(p) else {}))
            ref = got[0][3]
            for w, hs, rc, d in got[1:]:
                diff = [k for k in ref if d.get(k) != ref[k]]
                print(pid, 'seed', seed, 'workers', w, 'hash seed', hs, 'rc', rc, '%d runs, %d differ' % (len(d), len(diff)), diff[:5], flush=True)
                bad += bool(diff) or rc != 0
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:]))
