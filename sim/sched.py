"""Deterministic thread scheduler: real threads, parked and released one at a time at traced lines/bytecodes.

Only the thread holding the baton runs. At every traced event inside chaosmagpy (source line or bytecode) the
scheduler may pass the baton to another runnable thread. The decision comes from the seeded strategy or, on
replay, from an explicit {step: thread} map; the map of decisions actually taken is recorded.
"""
import _thread
import ast
import contextlib
import os
import random
import sys
import threading

from .core import REPO

PKG = os.path.join(REPO, 'chaosmagpy') + os.sep
_active = None            # running Scheduler
_RealLock, _RealRLock = threading.Lock, threading.RLock


class Deadlock(BaseException):
    pass


class SimLock:
    """Lock for the code under test; blocks cooperatively inside a simulation."""

    def __init__(self, reentrant=False):
        self._re, self._owner, self._n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._n += 1
                return True
            if not blocking:
                return False
            s = _active
            if s is None or not s.block_on(self):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('lock is never released')

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0 or not self._re:
            self._owner, self._n = None, 0

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.lock' object")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()


def _caller_is_under_test():
    return sys._getframe(2).f_globals.get('__name__', '').startswith('chaosmagpy')


def _lock():
    return SimLock() if _caller_is_under_test() else _RealLock()


def _rlock(*a):
    return SimLock(True) if _caller_is_under_test() else _RealRLock()


@contextlib.contextmanager
def simulated_locks():
    """From here on locks created by the code under test are simulated ones."""
    threading.Lock, threading.RLock = _lock, _rlock
    yield


class Strategy:
    """Seeded choice of preemptions. kinds: 'rand' (geometric gaps), 'pct' (few change points), 'none'."""

    def __init__(self, spec):
        self.spec = spec
        self.rng = random.Random(spec.get('seed', 0))
        k = spec.get('kind', 'none')
        self.kind = k
        if k == 'rand':
            self.next = 1 + self._gap()
        elif k == 'pct':
            L = max(2, spec.get('length', 1000))
            self.points = set(self.rng.randrange(1, L) for _ in range(spec.get('d', 3)))

    def _gap(self):
        p = self.spec.get('p', 0.05)
        u = self.rng.random()
        import math
        return 1 + int(math.log(max(u, 1e-12)) / math.log(1 - p)) if p < 1 else 1

    def decide(self, step, others):
        if not others:
            return None
        if self.kind == 'rand':
            if step >= self.next:
                self.next = step + self._gap()
                return self.rng.choice(others)
        elif self.kind == 'pct':
            if step in self.points:
                return self.rng.choice(others)
        return None

    def at_end(self, others):
        return self.rng.choice(others)


class Scheduler:
    def __init__(self, fns, strategy=None, explicit=None, opcodes=False, max_steps=600000, inject=None, names=None, also=()):
        self.also = also        # further files whose lines are switch points
        self.fns = fns
        self.n = len(fns)
        self.strategy = Strategy(strategy or {})
        self.explicit = None if explicit is None else {int(k): v for k, v in explicit}
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.inject = inject or {}
        self.step = 0
        self.lines = [0] * self.n
        self.cur = 0
        self.done = [False] * self.n
        self.waiting = [None] * self.n
        self.batons = [_thread.allocate_lock() for _ in range(self.n)]
        for b in self.batons:
            b.acquire()
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.taken = []           # decisions actually taken: [step, thread]
        self.switches = []        # (from, where, to)
        self.deadlock = False
        self.exhausted = False
        self.ident = {}
        self.on_switch = None
        self.results = [None] * self.n

    # -- called from sim threads -----------------------------------------------------------
    def runnable(self):
        return [i for i in range(self.n) if not self.done[i] and
                (self.waiting[i] is None or self.waiting[i]._owner is None)]

    def _go(self, target, me, where):
        self.taken.append([self.step, target])
        self.switches.append((me, where, target))
        self.cur = target
        self.waiting[target] = None
        if self.on_switch:
            self.on_switch(me, target)
        self.batons[target].release()
        if not self.done[me]:
            self.batons[me].acquire()

    def point(self, where='point'):
        me = self.ident.get(_thread.get_ident())
        if me is None or self.cur != me:
            return
        self.step += 1
        if self.step > self.max_steps:
            self.exhausted = True
            raise Deadlock('step budget exhausted')
        others = [i for i in self.runnable() if i != me]
        if self.explicit is not None:
            t = self.explicit.get(self.step)
            if t not in others:
                t = None
        else:
            t = self.strategy.decide(self.step, others)
        if t is not None:
            self._go(t, me, where)

    def block_on(self, lock):
        """Called by SimLock: park until the lock is free. False: outside the simulation or deadlock."""
        me = self.ident.get(_thread.get_ident())
        if me is None:
            return False
        self.step += 1
        self.waiting[me] = lock
        others = [i for i in self.runnable() if i != me]
        if not others:
            self.deadlock = True
            self.waiting[me] = None
            return False
        t = self.explicit.get(self.step) if self.explicit is not None else None
        if t not in others:
            t = others[0]
        self._go(t, me, 'lock')
        return True

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG) or frame.f_code.co_filename in self.also:
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            me = self.cur
            if event == 'line':
                self.lines[me] += 1
                inj = self.inject.get(me)
                if inj and inj[0] == self.lines[me]:
                    self.inject.pop(me)
                    raise inj[1]('injected')
            if event == 'opcode' or not self.opcodes:
                self.point((frame.f_code.co_name, frame.f_lineno))
        return self._local

    def _thread(self, i):
        self.batons[i].acquire()
        sys.settrace(self._trace)
        try:
            self.results[i] = self.fns[i]()
        except BaseException as e:  # outcome functions catch their own; this is harness or Deadlock
            self.results[i] = ('escaped', type(e).__name__, str(e))
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.step += 1
            rest = self.runnable()
            if rest:
                if self.explicit is not None:
                    t = self.explicit.get(self.step)
                    t = t if t in rest else rest[0]
                else:
                    t = self.strategy.at_end(rest)
                self._go(t, i, 'end')
            else:
                if not all(self.done):
                    self.deadlock = True
                self.finished.release()

    def run(self):
        global _active
        assert _active is None
        _active = self
        try:
            ready = _thread.allocate_lock()
            for i in range(self.n):
                def start(i=i):
                    self.ident[_thread.get_ident()] = i
                    self._thread(i)
                _thread.start_new_thread(start, ())
            # idents must be known before the first baton is passed
            import time
            while len(self.ident) < self.n:
                time.sleep(0)
            first = self.explicit.get(0, 0) if self.explicit is not None else self.strategy.at_end(list(range(self.n)))
            self.taken.append([0, first])
            self.cur = first
            self.batons[first].release()
            self.finished.acquire()
        finally:
            _active = None
        return self.results


def count_lines(fn):
    """Run fn alone under the tracer; return (result, number of traced lines)."""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def tr(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None
    sys.settrace(tr)
    try:
        r = fn()
    finally:
        sys.settrace(None)
    return r, n[0]


def interrupt_at(fn, nth, exc, depth=None):
    """Run fn, raising exc at the nth traced line inside chaosmagpy - with depth only lines of functions called that
    deep inside it count (1: of those called from outside). Returns (result or exception, fired)."""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] == nth:
                raise exc('injected')
        return local

    def tr(frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if depth is not None:
            d = 0
            while frame is not None:
                d += frame.f_code.co_filename.startswith(PKG)
                frame = frame.f_back
            if d > depth:
                return None
        return local
    sys.settrace(tr)
    try:
        return fn(), n[0] >= nth
    finally:
        sys.settrace(None)


def count_lines(fn):
    """Run fn; returns (result, number of lines executed inside chaosmagpy)."""
    n = [0]

    def local(frame, event, arg):
        n[0] += event == 'line'
        return local
    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(PKG) else None)
    try:
        return fn(), n[0]
    finally:
        sys.settrace(None)


_guarded = {}


def guarded(path):
    """Lines of a source file that are executed inside a try block."""
    if path not in _guarded:
        try:
            with open(path, encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.parse('')
        _guarded[path] = {n.lineno for t in ast.walk(tree) if isinstance(t, ast.Try) for b in t.body for n in ast.walk(b) if hasattr(n, 'lineno')}
    return _guarded[path]


def distinct_lines(fn, boost=6):
    """Run fn; returns (result, numbers of the line events that are the first or last of their source line).

    Lines inside a try block are listed `boost` times."""
    n = [0]
    first, last = {}, {}

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            k = (frame.f_code, frame.f_lineno)
            first.setdefault(k, n[0])
            last[k] = n[0]
        return local
    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(PKG) else None)
    try:
        r = fn()
    finally:
        sys.settrace(None)
    again = {at for d in (first, last) for (code, line), at in d.items() if line in guarded(code.co_filename)}
    return r, sorted(list(set(first.values()) | set(last.values())) + (boost - 1)*list(again))
