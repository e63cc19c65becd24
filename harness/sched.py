"""Deterministic scheduling of real threads.

`install()` (before psygnal is imported) replaces the locks of `threading`, so that a
`Sched` can run several threads one at a time and switch between them wherever it likes:
at every line (or bytecode instruction) of psygnal that is executed, and when a lock is
taken or released. A thread that cannot go on hands over to another; when none can go on
that is a deadlock, which is reported.
"""

from __future__ import annotations

import _thread
import os
import sys
import threading

ACTIVE = None
REAL_LOCK = _thread.allocate_lock
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "psygnal") + os.sep


class Deadlock(BaseException):
    pass


class SLock:
    """Stand-in of threading.Lock and RLock."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _free(self, me):
        return self.owner is None or (self.reentrant and self.owner == me)

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = ACTIVE
        t = s.by_ident.get(me) if s is not None else None
        if t is None:
            if not self._free(me):
                if not blocking or timeout >= 0:
                    return False
                raise Deadlock("a lock that is never released")
        else:
            s.point()
            while not self._free(me):
                if not blocking or (timeout is not None and timeout >= 0 and not s.others(t)):
                    return False
                s.block(t, self)
        self.owner = me
        self.count += 1
        return True

    __enter__ = acquire

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != _thread.get_ident()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s = ACTIVE
            if s is not None and _thread.get_ident() in s.by_ident:
                s.point()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        c, self.count = self.count, 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c

    def _at_fork_reinit(self):
        self.__init__()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.RLock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


class SRLock(SLock):
    reentrant = True


REAL_LOCKS = [(n, getattr(threading, n)) for n in ("Lock", "RLock")]


def install():
    threading.Lock = SLock
    threading.RLock = SRLock


def in_threads():
    """Threads themselves keep using real locks."""
    for n, v in REAL_LOCKS:
        setattr(threading, n, v)


class T:
    def __init__(self, name):
        self.name = name
        self.sem = REAL_LOCK()
        self.sem.acquire()
        self.state = "ready"
        self.lock = None
        self.thread = None


class Sched:
    """mean: how many steps a thread takes on average before it is preempted (0: never)."""

    def __init__(self, ch, mean=0, opcodes=False, at=()):
        self.ch, self.mean, self.opcodes = ch, mean, opcodes
        self.by_ident = {}
        self.threads = []
        self.step = 0
        self.dead = False
        self.errors = []
        self.at = list(at)
        self.next = 0
        self.plan()

    def plan(self):
        if self.at:
            self.next = self.at.pop(0)
        elif self.mean:
            self.next = self.step + 1 + self.ch.choose(2 * self.mean)
        else:
            self.next = 1 << 60

    # ---------------------------------------------------------------- tracing
    def trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(SRC):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.step += 1
            if self.step >= self.next:
                self.switch()
        return self.local

    # ---------------------------------------------------------------- switching
    def point(self):
        self.step += 1
        if self.step >= self.next:
            self.switch()

    def runnable(self, t):
        return t.state == "ready" or (t.state == "blocked" and t.lock._free(t.thread.ident))

    def others(self, t):
        return [o for o in self.threads if o is not t and self.runnable(o)]

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def switch(self):
        self.plan()
        t = self.me()
        if t is None:
            return
        o = self.others(t)
        if o:
            self.hand(t, self.ch.pick(o))

    def hand(self, t, o):
        o.state = "ready"
        o.sem.release()
        t.sem.acquire()
        if self.dead and t.state != "done":
            raise Deadlock("deadlock")

    def block(self, t, lock):
        t.state, t.lock = "blocked", lock
        o = self.others(t)
        if not o:
            self.dead = True
            raise Deadlock("deadlock")
        self.hand(t, self.ch.pick(o))
        t.state, t.lock = "ready", None

    def finish(self, t):
        """The thread has ended: let another one go on."""
        t.state = "done"
        sys.settrace(None)
        self.by_ident.pop(t.thread.ident, None)
        rest = [o for o in self.threads if o.state != "done"]
        o = [x for x in rest if self.runnable(x)]
        if not o and rest:
            self.dead = True
            o = rest
        if o:
            n = self.ch.pick(o)
            n.state = "ready"
            n.sem.release()
        else:
            self.over.release()

    def run(self, bodies):
        """bodies: (name, function); the first is run in the current thread."""
        global ACTIVE
        self.over = REAL_LOCK()
        self.over.acquire()
        in_threads()

        def body(t, f, wait):
            try:
                if wait:
                    t.sem.acquire()
                if self.dead:
                    raise Deadlock("deadlock")
                sys.settrace(self.trace)
                f()
            except BaseException as e:
                sys.settrace(None)
                self.errors.append((t.name, e))
            finally:
                sys.settrace(None)

        todo = []
        for i, (name, f) in enumerate(bodies):
            t = T(name)
            if i == 0:
                t.thread = threading.current_thread()
            else:

                def go(t=t, f=f):
                    body(t, f, True)
                    self.finish(t)

                t.thread = threading.Thread(target=go, daemon=True, name=name)
            todo.append((t, f))
            self.threads.append(t)
        self.on_threads({t.name: t.thread for t, _ in todo})
        for t, _ in todo[1:]:
            t.thread.start()
            self.by_ident[t.thread.ident] = t
        t0, f0 = todo[0]
        self.by_ident[t0.thread.ident] = t0
        install()
        ACTIVE = self
        try:
            body(t0, f0, False)
            self.finish(t0)
            self.over.acquire()
        finally:
            ACTIVE = None
            in_threads()
            for t in self.threads[1:]:
                t.thread.join(10)

    def on_threads(self, threads):
        pass
