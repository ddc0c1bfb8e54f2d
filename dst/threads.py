"""Deterministic scheduling of real threads: exactly one runs at a time.

Control can change hands at every line (or bytecode) executed inside pycose and
at every call into a dependency.  The schedule is a list of [gap, thread]: after
`gap` such points, hand over to `thread` (if it can run).  When the list is used up,
or the chosen thread is done, the lowest-numbered runnable thread goes on.

In a meeting schedule [salt, k] instead, one place in k (chosen by a hash of the place) is
a meeting place: whoever reaches one hands over to the next runnable thread, so that
threads running the same code stop in the middle of it together. The hand-overs are
recorded in the first form.
"""
import os
import sys
import threading
import zlib
import _thread

from . import loader, seams

_real_lock = threading.Lock
_real_rlock = threading.RLock
_sched = [None]


# Python 3.12 delivers opcode events only to sys.settrace() calls made after the first frame asked for them:
# ask once here, so that the first simulated process sees the same events as later ones.
sys._getframe().f_trace_opcodes = True


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, n, switches, opcodes=False, meet=None):
        self.meet = meet
        self.places = {}
        self.since = 0
        self.explicit = []
        self.n = n
        self.sw = list(switches)
        self.pos = 0
        self.left = self.sw[0][0] if self.sw else -1
        self.sems = [_real_lock() for _ in range(n)]
        for s in self.sems:
            s.acquire()
        self.done_lock = _real_lock()
        self.done_lock.acquire()
        self.alive = [True] * n
        self.blocked = [False] * n
        self.ids = {}
        self.cur = 0
        self.points = 0
        self.switched = 0
        self.trace = []
        self.opcodes = opcodes
        self.prefix = os.path.join(loader.REPO, loader.PKG) + os.sep
        self.error = None
        self.dead = False

    # -------------------------------------------------- called in simulated threads
    def me(self):
        return self.ids.get(_thread.get_ident())

    def point(self, where):
        me = self.me()
        if me is None:
            return
        self.points += 1
        self.since += 1
        if self.meet:
            p = self.places.get(where)
            if p is None:
                p = self.places[where] = zlib.crc32(("%s/%s" % (self.meet[0], where)).encode()) % self.meet[1] == 0
            if p:
                for d in range(1, self.n):
                    t = (me + d) % self.n
                    if self.alive[t] and not self.blocked[t]:
                        self.switch(me, where, t)
                        break
            return
        if self.left < 0:
            return
        if self.left > 0:
            self.left -= 1
            return
        target = self.sw[self.pos][1] % self.n
        self.pos += 1
        self.left = self.sw[self.pos][0] if self.pos < len(self.sw) else -1
        if target != me and self.alive[target] and not self.blocked[target]:
            self.switch(me, where, target)

    def switch(self, me, where, target):
        self.explicit.append([self.since - 1, target])
        self.since = 0
        self.switched += 1
        self.trace.append((me, where, target))
        self.hand(me, target)

    def hand(self, me, target):
        self.cur = target
        self.sems[target].release()
        self.sems[me].acquire()
        if self.dead:
            raise SystemExit

    def pick(self, but=None):
        for t in range(self.n):
            if self.alive[t] and not self.blocked[t] and t != but:
                return t
        return None

    def wait_blocked(self):
        """The current thread waits for a lock another simulated thread holds."""
        me = self.me()
        self.blocked[me] = True
        t = self.pick()
        if t is None:
            self.error = Deadlock("all threads wait for one another")
            self.dead = True
            for o in range(self.n):
                if o != me:
                    try:
                        self.sems[o].release()
                    except RuntimeError:
                        pass
            self.done_lock.release()
            raise SystemExit
        self.hand(me, t)

    def unblock(self):
        for t in range(self.n):
            self.blocked[t] = False

    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.prefix) or frame.f_code.co_name in ("<lambda>", "<genexpr>"):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        name = frame.f_code.co_name

        def local(fr, ev, arg):
            if ev == "opcode" or (ev == "line" and not self.opcodes):
                self.point((name, fr.f_lineno))
            return local
        return local

    # -------------------------------------------------- driving
    def run(self, fns):
        threads = []

        def body(t):
            self.ids[_thread.get_ident()] = t
            self.sems[t].acquire()
            try:
                if not self.dead:
                    sys.settrace(self._tracer)
                    try:
                        fns[t]()
                    finally:
                        sys.settrace(None)
            except SystemExit:
                return
            except BaseException as e:
                if self.error is None:
                    self.error = e
            self.alive[t] = False
            nxt = self.pick()
            if nxt is None:
                if any(self.alive) and not self.dead:
                    self.unblock()          # a lock was left held by a finished thread: let the waiter find out
                    nxt = self.pick()
                if nxt is None:
                    self.done_lock.release()
                    return
            self.cur = nxt
            self.sems[nxt].release()
        saved = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = _real_lock, _real_rlock
        for t in range(self.n):
            th = threading.Thread(target=body, args=(t,), daemon=True)
            threads.append(th)
            th.start()
        threading.Lock, threading.RLock = saved
        _sched[0] = self
        seams.S.hook = self.point
        seams.S.armed = True
        try:
            self.sems[0].release()
            while not self.done_lock.acquire(timeout=1):
                pass                        # lets the watchdog's signal through
        finally:
            seams.S.hook = None
            seams.S.armed = False
            _sched[0] = None
        if not self.dead:
            for th in threads:
                th.join(5)
        if self.error is not None:
            raise self.error


class CoopLock:
    """threading.Lock for code under test: waiting hands control to another simulated thread."""

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _sched[0]
        if s is None or s.me() is None:
            return self._l.acquire(blocking, timeout)
        s.point(("lock", 0))
        while True:
            if self._l.acquire(False):
                return True
            if not blocking:
                return False
            s.wait_blocked()

    def release(self):
        self._l.release()
        s = _sched[0]
        if s is not None:
            s.unblock()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    def __init__(self):
        super().__init__()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if super().acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            super().release()


class coop_locks:
    """While active, locks created (by the code under test) cooperate with the scheduler."""

    def __enter__(self):
        threading.Lock, threading.RLock = CoopLock, CoopRLock

    def __exit__(self, *a):
        threading.Lock, threading.RLock = _real_lock, _real_rlock


class ThreadEntropy:
    """One stream per simulated thread, so that draws do not depend on the interleaving."""

    def __init__(self, seed, label, sched_ids):
        self.seed, self.label, self.ids = seed, label, sched_ids
        self.streams = {}

    def _s(self):
        t = self.ids.get(_thread.get_ident(), "main")
        if t not in self.streams:
            self.streams[t] = seams.Stream(self.seed, "%s.t%s" % (self.label, t))
        return self.streams[t]

    def __call__(self, n):
        return self._s()(n)

    def pad(self, n):
        return self._s().pad(n)
