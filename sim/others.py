"""Other interpreters (hash seed, optimisation level, locale, working directory) that run simulated processes on request."""
import ctypes
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import time

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# name: (interpreter options, environment)
KINDS = {
    'plain': ([], dict(PYTHONHASHSEED='11')),
    'hash': ([], dict(PYTHONHASHSEED='4242', HOME=None, USER=None, LANG=None)),
    '-O': (['-O'], dict(PYTHONHASHSEED='7')),
    '-OO': (['-OO'], dict(PYTHONHASHSEED='99')),
    'ascii': ([], dict(PYTHONHASHSEED='123', LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='ascii')),
    'dev': (['-X', 'dev'], dict(PYTHONHASHSEED='5', PYTHONMALLOC='malloc', MALLOC_PERTURB_='165')),
}


def _msg(c, data):
    c.sendall(struct.pack('<I', len(data)) + data)


def _get(c):
    b = b''
    while len(b) < 4:
        d = c.recv(4 - len(b))
        if not d:
            raise EOFError
        b += d
    n = struct.unpack('<I', b)[0]
    out = bytearray()
    while len(out) < n:
        d = c.recv(n - len(out))
        if not d:
            raise EOFError
        out += d
    return bytes(out)


class Others:
    """Start the interpreters; run(kind, check, args) has CHECK.<fn>(*args) executed in a forked process of one of them."""

    def __init__(self, pid, kinds=tuple(KINDS)):
        from . import world
        self.base = os.path.join(core.scratch_base(), 'other')
        os.makedirs(self.base, exist_ok=True)
        self.procs = {}
        for k in kinds:
            opts, env = KINDS[k]
            e = dict(os.environ)
            e.update(env)
            for n in [n for n, v in env.items() if v is None]:
                e.pop(n, None)
            e['CMP_SERVE'] = pickle.dumps((VERIF, pid, self.path(k), world.fixtures(), os.getpid())).hex()
            self.procs[k] = subprocess.Popen([sys.executable, '-B'] + opts + ['-c', 'import os,pickle,sys\nv=pickle.loads(bytes.fromhex(os.environ["CMP_SERVE"]))\n'
                                             'sys.path.insert(0,v[0])\nfrom sim import others\nothers.serve(*v[1:])'], env=e, cwd='/', stdin=subprocess.DEVNULL,
                                             stdout=subprocess.DEVNULL if not os.environ.get('CMP_STDERR') else None,
                                             stderr=subprocess.DEVNULL if not os.environ.get('CMP_STDERR') else None)
        t = time.monotonic() + 150
        for k in kinds:
            while not os.path.exists(self.path(k)):
                if self.procs[k].poll() is not None or time.monotonic() > t:
                    raise core.HarnessError('interpreter %s did not start' % k)
                time.sleep(0.02)

    def path(self, k):
        return os.path.join(self.base, k.strip('-') + '.sock')

    def run(self, kind, fn, *args):
        c = socket.socket(socket.AF_UNIX)
        c.settimeout(core.WALL + 30)
        try:
            c.connect(self.path(kind))
            _msg(c, pickle.dumps((fn, args), 4))
            r = pickle.loads(_get(c))
        except (OSError, EOFError) as e:
            raise core.HarnessError('interpreter %s: %s %s' % (kind, type(e).__name__, e))
        finally:
            c.close()
        if isinstance(r, str):
            raise core.HarnessError('interpreter %s: %s' % (kind, r))
        return r


def serve(pid, path, fix, parent):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # ends with the check
    if os.getppid() != parent:
        os._exit(0)
    import gc
    from . import app, world
    check = app.get(pid)
    world._fixdir = fix
    world._proto = world.World()
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + '.new')
    s.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    gc.collect()
    gc.freeze()
    os.rename(path + '.new', path)
    while True:
        c, _ = s.accept()
        if os.fork():
            c.close()
            continue
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        s.close()
        try:
            fn, args = pickle.loads(_get(c))
            try:
                r = core.fork_run(getattr(check, fn)(*args))
                r = dict(status=r.status, result=r.result, error=r.error)
            except core.HarnessError as e:
                r = str(e)
            _msg(c, pickle.dumps(r, 4))
        finally:
            os._exit(0)
