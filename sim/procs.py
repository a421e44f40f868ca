"""Several real processes under one scheduler: each stops before every file operation until it is granted."""
import errno
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import core, io

STEPS = 6000


class Proc:
    def __init__(self):
        self.status, self.result, self.error, self.events = None, None, None, []
        self.buf = bytearray()
        self.at = None          # (kind, path) of the operation it waits for


class Gate:
    """Given to the function of each process: gate(sub) makes operations on paths containing sub wait."""

    def __init__(self, req, ok):
        self.req, self.ok = req, ok

    def on(self, sub):
        io.lib().sim_gate(self.req, self.ok, sub.encode())

    def off(self):
        io.lib().sim_gate(-1, -1, b'')

    def mark(self):
        """A scheduling point that is no file operation."""
        os.write(self.req, struct.pack('<i60s', 0, b'mark'))
        os.read(self.ok, 1)


def _fork(fn, cpu):
    r, w = core._pipe()
    rq, wq = core._pipe()
    rk, wk = core._pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            for f in (r, rq, wk):
                os.close(f)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            if not os.environ.get('CMP_STDERR'):
                os.dup2(core._devnull(), 2)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

            def emit(obj):
                core._wall(w, pickle.dumps(('ev', obj), 4))
            try:
                data = pickle.dumps(('res', fn(emit, Gate(wq, rk))), 4)
            except BaseException:
                data = pickle.dumps(('err', traceback.format_exc()), 4)
            io.lib().sim_gate(-1, -1, b'')
            core._wall(w, data)
        except BaseException:
            code = 98
        finally:
            os._exit(code)
    for f in (w, wq, rk):
        os.close(f)
    p = Proc()
    p.pid, p.r, p.rq, p.wk = pid, r, rq, wk
    return p


def _advance(p, deadline):
    """Let p run until it waits at its next operation or ends."""
    fds = [p.r, p.rq]
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            os.kill(p.pid, signal.SIGKILL)
            raise core.HarnessError('process exceeded wall limit')
        for f in select.select(fds, [], [], left)[0]:
            if f == p.rq:
                m = os.read(f, 64)
                if m:
                    while len(m) < 64:
                        m += os.read(f, 64 - len(m))
                    p.at = (io.KIND.get(struct.unpack('<i', m[:4])[0], 'mark'), m[4:].rstrip(b'\0').decode(errors='replace'))
                    return
                fds.remove(f)
            else:
                d = os.read(f, 1 << 20)
                if d:
                    p.buf += d
                else:
                    fds.remove(f)
        if not fds:
            break
    _, st = os.waitpid(p.pid, 0)
    p.at = None
    for f in (p.r, p.rq, p.wk):
        os.close(f)
    _parse(p)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        p.status = 'cpu' if s == signal.SIGXCPU else 'signal:%d' % s
    else:
        e = os.WEXITSTATUS(st)
        p.status = {137: 'crash', 97: 'budget'}.get(e, 'exit:%d' % e)
        if e == 0:
            p.status = 'error' if p.error else 'done'
    if p.status == 'error':
        raise core.HarnessError('process raised:\n' + str(p.error))


def _parse(p):
    """Take complete messages out of the buffer."""
    while len(p.buf) >= 4:
        n = struct.unpack('<I', bytes(p.buf[:4]))[0]
        if len(p.buf) < 4 + n:
            break
        kind, obj = pickle.loads(bytes(p.buf[4:4 + n]))
        del p.buf[:4 + n]
        if kind == 'ev':
            p.events.append((p.clock, obj))
        elif kind == 'res':
            p.result = obj
        else:
            p.error = obj


def run(fns, strategy, explicit=None, cpu=60, wall=60, watch=None):
    """Run the functions fn(emit, gate) as processes, one at a time; returns (procs, taken, trace, exhausted).

    Events carry the number of the step during which they arrived. explicit: [[step, process], ...] switches of an
    earlier run. taken: the switches of this run in the same form. watch(step) is called after every step.
    """
    rng = random.Random(strategy['seed'])
    ps, step = [], 0
    taken, trace = [], []
    deadline = time.monotonic() + wall
    exhausted = False
    prio = list(range(len(fns)))
    rng.shuffle(prio)
    changes = sorted(rng.randrange(1, max(2, strategy.get('length', 60))) for _ in range(strategy.get('d', 0)))
    try:
        for fn in fns:
            p = _fork(fn, cpu)
            p.clock = 0
            ps.append(p)
            _advance(p, deadline)
            _parse(p)
        if watch:
            watch(0)
        cur = None
        plan = {s: t for s, t in explicit} if explicit is not None else None
        while True:
            live = [i for i, p in enumerate(ps) if p.at is not None]
            if not live:
                break
            step += 1
            if step > STEPS:
                exhausted = True
                break
            want = cur if cur in live else None
            if plan is not None:
                want = plan[step] if plan.get(step) in live else want if want is not None else live[0]
            elif strategy['kind'] == 'pct':
                while changes and changes[0] <= step:
                    changes.pop(0)
                    top = max(live, key=lambda i: prio[i])
                    prio[top] = min(prio) - 1
                want = max(live, key=lambda i: prio[i])
            elif want is None or rng.random() < strategy['p']:
                want = rng.choice(live)
            if want != cur:
                taken.append([step, want])
            cur = want
            p = ps[cur]
            trace.append([cur, list(p.at)])
            for q in ps:
                q.clock = step
            os.write(p.wk, b'x')
            _advance(p, deadline)
            _parse(p)
            if watch:
                watch(step)
    finally:
        for p in ps:
            if p.status is None:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                    os.waitpid(p.pid, 0)
                except OSError as e:
                    if e.errno not in (errno.ESRCH, errno.ECHILD):
                        raise
                for f in (p.r, p.rq, p.wk):
                    try:
                        os.close(f)
                    except OSError:
                        pass
    return ps, taken, trace, exhausted
