#!/usr/bin/env python3
"""Entry point: deterministic simulation of ChaosMagPy under /repo.

  verif.py setup                          build the shim
  verif.py check C01 [--tier T] [--seed N] [--runs N] [--workers N]
  verif.py replay FILE                    re-execute a replay file (exit 1 if the violation reproduces)
  verif.py selftest [C01 ...]             determinism proof: event logs over workers/hash seeds
"""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
BUILD = os.path.join(VERIF, 'build')
SHIM_SRC = os.path.join(VERIF, 'sim', 'shim.c')


def build_shim():
    import hashlib
    h = hashlib.sha256(open(SHIM_SRC, 'rb').read()).hexdigest()[:16]
    so = os.path.join(BUILD, 'shim-%s.so' % h)
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = so + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-shared', '-fPIC', '-o', tmp, SHIM_SRC, '-ldl'], check=True)
        os.rename(tmp, so)
    return so


def launch(args):
    so = build_shim()
    env = dict(os.environ)
    env.update(LD_PRELOAD=so, CMP_SHIM=so, PYTHONHASHSEED=env.get('CMP_HASHSEED', '0'), OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', CMP_CHILD='1',
               TZ='UTC', LC_ALL='C.UTF-8', HDF5_USE_FILE_LOCKING='TRUE', PYTHONUNBUFFERED='1', PYTHONUTF8='1')
    for k in ('PYTHONPATH', 'PYTHONWARNINGS', 'PYTHONOPTIMIZE', 'http_proxy', 'https_proxy', 'HTTP_PROXY', 'HTTPS_PROXY'):
        env.pop(k, None)
    env.setdefault('MPLCONFIGDIR', os.path.join(BUILD, 'mpl'))
    os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
    os.execve(PY, [PY, '-B', os.path.abspath(__file__)] + args, env)


def main():
    args = sys.argv[1:]
    if not args or args[0] == 'setup':
        print(build_shim())
        if args:
            # warm matplotlib's font cache inside our build directory
            subprocess.run([PY, '-c', 'import matplotlib.font_manager'], check=False,
                           env=dict(os.environ, MPLCONFIGDIR=os.path.join(BUILD, 'mpl'), MPLBACKEND='Agg'))
        return 0
    if os.environ.get('CMP_CHILD') != '1':
        launch(args)
    sys.path.insert(0, VERIF)
    from sim import app
    return app.main(args)


if __name__ == '__main__':
    sys.exit(main())
