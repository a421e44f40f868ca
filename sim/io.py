"""Python face of the LD_PRELOAD shim (the I/O, crash and clock seam)."""
import ctypes
import errno
import os

OPENR, OPENW, READ, WRITE, CLOSER, CLOSEW, SYNC, TRUNC, RENAME, UNLINK, MKDIR, ESCAPE, LINK = [1 << i for i in range(13)]
KIND = {OPENR: 'open-read', OPENW: 'open-write', READ: 'read', WRITE: 'write', CLOSER: 'close-read',
        CLOSEW: 'close-write', SYNC: 'sync', TRUNC: 'truncate', RENAME: 'rename', UNLINK: 'unlink',
        MKDIR: 'mkdir', ESCAPE: 'escape', LINK: 'link'}
MASK = {v: k for k, v in KIND.items()}
MUTATING = OPENW | WRITE | TRUNC | RENAME | UNLINK | MKDIR | LINK
ANY = 0xffff & ~ESCAPE
ERR, SHORT, EINTR, CRASH_BEFORE, CRASH_AFTER, CRASH_TORN, SIGINT, ERR_AFTER_PART, CALLBACK = range(1, 10)
ACTION = {'error': ERR, 'short': SHORT, 'eintr': EINTR, 'crash_before': CRASH_BEFORE, 'crash_after': CRASH_AFTER,
          'crash_torn': CRASH_TORN, 'sigint': SIGINT, 'error_after_part': ERR_AFTER_PART, 'callback': CALLBACK}
ACTION_NAME = {v: k for k, v in ACTION.items()}
ACTION_NAME[99] = 'disk_full'

_lib = None


def lib():
    global _lib
    if _lib is None:
        path = os.environ.get('CMP_SHIM')
        _lib = ctypes.CDLL(path)
        L = ctypes.c_long
        _lib.sim_path.restype = ctypes.c_char_p
        for f in ('sim_alloc_seen', 'sim_alloc_fired', 'sim_plan_fired', 'sim_opcount', 'sim_njournal', 'sim_jtotal', 'sim_clock_reads'):
            getattr(_lib, f).restype = L
        _lib.sim_plan_add.argtypes = [ctypes.c_int, ctypes.c_char_p, L, ctypes.c_int, L, L]
        _lib.sim_capacity.argtypes = [L]
        _lib.sim_alloc.argtypes = [L, L, L]
        _lib.sim_budget.argtypes = [L]
        _lib.sim_jget.argtypes = [L, ctypes.POINTER(L)]
        _lib.sim_clock.argtypes = [ctypes.c_int] + [ctypes.c_longlong] * 3
        _lib.sim_clock_jump.argtypes = [L, ctypes.c_longlong]
        _lib.sim_gate.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p]
        _lib.sim_clock_now.restype = ctypes.c_longlong
    return _lib


class Disk:
    """The simulated disk below `root` for the current process."""

    def __init__(self, root):
        self.root = root
        self.L = lib()
        self.L.sim_reset(root.encode())

    def __enter__(self):
        self.L.sim_on(1)
        return self

    def __exit__(self, *a):
        self.L.sim_on(0)

    def plan(self, faults, budget=200000):
        """faults: list of dicts {on: [kinds], path, nth, action, arg, times}"""
        self.L.sim_plan_clear()
        self.L.sim_budget(budget)
        for f in faults:
            if f.get('action') == 'disk_full':
                self.L.sim_capacity(int(f['arg']))
                continue
            mask = 0
            for k in f['on']:
                mask |= MASK[k]
            self.L.sim_plan_add(mask, f.get('path', '').encode(), int(f.get('nth', 1)), ACTION[f['action']],
                                int(f.get('arg', 0)), int(f.get('times', 1)))

    def clear(self):
        self.L.sim_plan_clear()

    def journal(self):
        out = []
        buf = (ctypes.c_long * 7)()
        for i in range(self.L.sim_njournal()):
            self.L.sim_jget(i, buf)
            k, p, fd, err, req, res, inj = list(buf)
            out.append(dict(op=KIND.get(k, str(k)), path=self.L.sim_path(p).decode(), fd=fd, err=err, req=req,
                            res=res, inj=inj))
        return out

    def clear_journal(self):
        self.L.sim_jclear()

    def open_files(self):
        buf = (ctypes.c_int * 4096)()
        n = self.L.sim_openfds(buf, 4096)
        return sorted((buf[i], self.L.sim_path(self.L.sim_fdpath(buf[i])).decode()) for i in range(n))


class Memory:
    """Allocations of at least `least` bytes by the present thread: the nth and following (`times`) fail; nth 0: counted."""

    def __init__(self, least, nth=0, times=1):
        self.args = (least, nth, times)
        self.seen = self.fired = 0

    def __enter__(self):
        self.L = lib()
        self.L.sim_alloc(*self.args)
        return self

    def __exit__(self, *a):
        self.seen, self.fired = self.L.sim_alloc_seen(), self.L.sim_alloc_fired()
        self.L.sim_alloc(0, 0, 0)


def resolve(faults, journal):
    """Faults placed at a fraction of the operations an undisturbed run makes: fills in nth."""
    out = []
    for f in faults:
        f = dict(f)
        if f.get('frac') is not None and 'on' in f:
            p = f.get('path', '')
            n = sum(1 for j in journal if j['op'] in f['on'] and (j['path'] == p[1:] if p[:1] == '=' else p in j['path']))
            f['nth'] = 1 + int(f['frac'] * n) if n else 1
        out.append(f)
    return out


def injected(journal):
    """Which faults actually fired, by kind."""
    out = {}
    for j in journal:
        if j['inj']:
            name = ACTION_NAME.get(j['inj'], str(j['inj']))
            if name in ('error',):
                name = 'error:%s:%s' % (j['op'], errno.errorcode.get(j['err'], j['err']))
            else:
                name = '%s:%s' % (name, j['op'])
            out[name] = out.get(name, 0) + 1
    return out


class Clock:
    def __init__(self, start_ns, step_ns=1000, jumps=()):
        self.args = (start_ns, step_ns, list(jumps))

    def __enter__(self):
        s, st, j = self.args
        lib().sim_clock(1, s, 5 * 10**9, st)
        for at, by in j:
            lib().sim_clock_jump(at, by)
        return self

    def __exit__(self, *a):
        lib().sim_clock(0, 0, 0, 0)

    @property
    def now(self):
        return lib().sim_clock_now()
