"""Pieces shared by the checks."""
import json
import os
import pathlib

import numpy as np

from sim import core, io, ops, sched, world
from sim.world import cp, enc, same

FLOATS = ('params.r_surf', 'params.r_cmb', 'plots.figure_width')
VECTORS = {'params.dipole': 3, 'params.ellipsoid': 2}
FILES = ('file.RC_index', 'file.GSM_spectrum', 'file.SM_spectrum', 'file.Earth_conductivity', 'file.shp_coastline')
OTHER = ('params.CHAOS_version', 'params.cdf_to_mjd')
KEYS = FLOATS + tuple(VECTORS) + FILES + OTHER


def value(v):
    """JSON description -> Python object handed to the configuration."""
    t, x = v
    return {'raw': lambda: x, 'arr': lambda: np.array(x), 'tuple': lambda: tuple(x), 'path': lambda: pathlib.Path(x),
            'npf': lambda: np.float64(x), 'npi': lambda: np.int64(x), 'int32': lambda: np.array(x, dtype=np.int32),
            'f32': lambda: np.array(x, dtype=np.float32), 'obj': object, 'bytes': lambda: x.encode()}[t]()


def shift(a, by):
    """Add to an array in place."""
    a[...] = a + by


def gen_value(r, key, files=('rc.h5', 'gsm.npz', 'cond.dat', 'a b.dat', 'ünï.dat'), good=0.75):
    """A value description for key; usually one its documented rule accepts."""
    ok = r.random() < good
    if key in FLOATS:
        return r.choice([['raw', round(r.uniform(1, 9000), 3)], ['raw', r.randrange(1, 9000)], ['npf', r.uniform(1, 9e3)],
                         ['raw', '%.2f' % r.uniform(1, 9e3)], ['raw', r.choice([1e-300, 1.7e308, 0.1, 1 / 3])]]) if ok else \
            r.choice([['raw', 'abc'], ['raw', None], ['raw', [1.0, 2.0]], ['obj', 0]])
    if key in VECTORS:
        n = VECTORS[key]
        x = [r.uniform(-9e3, 9e3) for _ in range(n)]
        return r.choice([['raw', x], ['arr', x], ['tuple', x], ['int32', [int(q) for q in x]], ['f32', x]]) if ok else \
            r.choice([['raw', x + [1.0]], ['raw', x[:1]], ['raw', 3.0], ['arr', [x, x]], ['raw', []], ['raw', None]])
    if key in FILES:
        return r.choice([['raw', r.choice(files)], ['raw', r.choice(files)], ['path', r.choice(files)], ['raw', None],
                         ['raw', 'None']]) if ok else r.choice([['raw', 'missing.file'], ['path', 'no/such'], ['raw', '']])
    if key == 'params.CHAOS_version':
        return r.choice([['raw', '7.%d' % r.randrange(30)], ['raw', 7.5], ['raw', 'v8.1-beta é']]) if ok else \
            r.choice([['raw', 'abc'], ['raw', 7], ['raw', None], ['raw', '']])
    return r.choice([['raw', r.randrange(10 ** 6)], ['npi', r.randrange(10 ** 6)], ['raw', '730000']]) if ok else \
        r.choice([['raw', 'x'], ['raw', None], ['raw', [1]]])


def accepts(key, v):
    """The documented rule: (accepted, stored value). Independent of the code under test."""
    try:
        if key in FLOATS:
            return (True, float(v)) if not isinstance(v, (list, type(None))) else (False, None)
        if key in VECTORS:
            a = np.array(v)
            return (a.ndim == 1 and a.size == VECTORS[key]), a
        if key in FILES:
            if v is None or v == 'None':
                return True, None
            return os.path.exists(v), v
        if key == 'params.CHAOS_version':
            import re
            return bool(re.search(r'\d+\.\d+', str(v))), str(v)
        if key == 'params.cdf_to_mjd':
            return True, int(v)
    except Exception:
        pass
    return False, None


def cenc(v):
    """Configuration value -> comparable form (paths by their text)."""
    return os.fsdecode(v) if isinstance(v, (os.PathLike, bytes)) else enc(v)


def csame(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and bool(np.all(a == b))
    return type(a) is type(b) and (a == b or (a != a and b != b)) if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) else False


def snap():
    return {k: cenc(v) for k, v in cp.basicConfig.items()}


def diff(a, b):
    """Keys whose values differ."""
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not csame(a[k], b[k]))


EXC = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'SystemExit': SystemExit,
       'StopIteration': StopIteration, 'GeneratorExit': GeneratorExit, 'OSError': OSError, 'RuntimeError': RuntimeError,
       'KeyError': KeyError, 'StopAsyncIteration': StopAsyncIteration}


class Cancelled(BaseException):
    """Stands for asyncio.CancelledError (a BaseException)."""


EXC['Cancelled'] = Cancelled


def reference(root, config, d, prepare=None, lines=False):
    """Outcome of one call in a pristine process."""
    def run(emit):
        out, wl = world.enter(root, config)
        W = world.take()
        if prepare:
            prepare(W)
        a = ops.Args()
        if lines:
            said = world.Said(out, wl)
            (o, _), n = sched.count_lines(lambda: ops.call(W, d, a))
            return o, n, said.get(root)
        return ops.call(W, d, a)[0], 0
    return core.fork_run(run).result
