"""Driver of the automatic draining of a thread's queue by a Qt timer (psygnal.qt).

Two threads with Qt event loops of their own, and short-lived ones that emit. Only one of
them acts at a time, so what happens is determined by the program: while its timer is
active, an event loop executes everything that waits; otherwise nothing."""

from __future__ import annotations

import gc
import os
import queue
import sys
import threading
import time

os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")

from psygnal import EmitLoopError, Signal, emit_queued  # noqa: E402
from psygnal.qt import start_emitting_from_queue, stop_emitting_from_queue  # noqa: E402
from qtpy.QtCore import QCoreApplication, QEventLoop, Qt  # noqa: E402

APP = QCoreApplication.instance() or QCoreApplication([])
WAIT = 20.0  # (seconds; only reached when draining does not work)


class Boom(Exception):
    pass


class Obj:
    s1 = Signal(int)


class Sentinel:
    s = Signal()


class Meth:
    def __init__(self, f, gone):
        self.f = f
        self.gone = gone

    def __del__(self):
        self.gone()

    def meth(self, x):
        self.f(x)


class Worker:
    """A thread that lives as long as the process, and does what it is told to."""

    def __init__(self):
        self.todo, self.done = queue.SimpleQueue(), queue.SimpleQueue()
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        self.loop = QEventLoop()  # (timers need one in their thread)
        while True:
            f = self.todo.get()
            try:
                f()
                self.done.put(None)
            except BaseException as e:
                self.done.put(e)

    def do(self, f):
        self.todo.put(f)
        e = self.done.get(timeout=60)
        if e is not None:
            raise e


WORKER = None


class QtProg:
    def __init__(self, params, ch, rec):
        global WORKER
        if WORKER is None or not WORKER.thread.is_alive():
            WORKER = Worker()
        self.p, self.ch, self.rec = params, ch, rec
        rec.h.update(threads=["main", "t1", "late"], signals=["s1"])
        self.obj = Obj()
        self.thr = {"main": threading.main_thread(), "t1": WORKER.thread}
        self.names_of = {v: k for k, v in self.thr.items()}
        self.logging = True
        self.cbs = {n: self.make(n) for n in params.get("cbs", ["f1", "m1", "f2"])}
        self.stack = {t: ["top"] for t in rec.h["threads"]}
        self.depth = dict.fromkeys(self.stack, 0)
        self.on = {"main": False, "t1": False}
        self.n = 0
        self.budget = params["nops"]

    def make(self, name):
        def f(x):
            self.called(name, x)

        if name[0] == "f":
            return f
        return Meth(f, lambda: self.rec.log("gone", cb=name, t=self.cur()) if self.logging else None)

    def cur(self):
        return self.names_of.get(threading.current_thread(), "late")

    # ---------------------------------------------------------------- callbacks
    def called(self, name, x):
        t = self.cur()
        self.rec.log("cb", t=t, cb=name, a=x, src="?")
        self.calls += 1
        self.stack[t].append("cb")
        self.depth[t] += 1
        boom = False
        try:
            if self.depth[t] <= 2:
                for _ in range(self.ch.weighted(self.p["inner"])):
                    try:
                        self.one(t, self.p["in_ops"])
                    except EmitLoopError:
                        if self.ch.chance(0.5):
                            boom = True
                            raise
            if self.ch.chance(self.p.get("boom", 0)):
                boom = True
                raise Boom
        finally:
            self.depth[t] -= 1
            self.stack[t].pop()
            self.rec.log("cbend", t=t, r="boom" if boom else "ok")

    calls = 0

    # ---------------------------------------------------------------- operations
    def do(self, t, op, f, s="s1", cb="", tgt="", a=0):
        self.rec.log("op", t=t, op=op, s=s, cb=cb, tgt=tgt, a=a)
        self.stack[t].append(op)
        r, ex = "ok", None
        try:
            v = f()
            if op in ("len", "contains"):
                r = str(v)
        except (ValueError, KeyError):
            r = "ValueError"
        except EmitLoopError as e:
            r, ex = "err", e
        except Exception as e:
            r = type(e).__name__
        self.stack[t].pop()
        self.rec.log("ret", t=t, op=op, r=r)
        if ex is not None and self.depth[t]:
            raise ex.with_traceback(None)

    def one(self, t, ops):
        if self.budget <= 0:
            return
        self.budget -= 1
        op = self.ch.weighted(ops)
        sig = self.obj.s1
        cb = self.ch.pick(sorted(self.cbs))
        if op == "kill":
            if cb[0] == "m" and len(self.cbs) > 1:
                self.cbs.pop(cb)
            return
        f = self.cbs[cb].meth if cb[0] == "m" else self.cbs[cb]
        if op == "emit":
            self.n += 1
            n = self.n
            self.do(t, "emit", lambda: sig.emit(n), a=n)
        elif op == "late":
            # a thread that emits and ends (not while an emission holds the lock of the signal)
            if any("emit" in s for s in self.stack.values()):
                return
            th = threading.Thread(target=lambda: self.one("late", [("emit", 1)]), daemon=True)
            th.start()
            th.join(60)
        elif op == "connect":
            tgt = self.ch.weighted([("", 0.5), ("main", 2), ("current", 0.5), ("t1", 1.5)])
            kw = {} if not tgt else {"thread": self.ch.pick(["main", self.thr["main"]]) if tgt == "main" else "current" if tgt == "current" else self.thr[tgt]}
            how = self.ch.weighted([("connect", 3), ("connect_unique", 1), ("connect_strict", 1)])
            if how != "connect":
                kw["unique"] = True if how == "connect_unique" else "raise"
            # (the late thread does not connect)
            self.do(t, how, lambda: sig.connect(f, **kw), cb=cb, tgt=t if tgt == "current" else tgt)
        elif op == "disconnect":
            self.do(t, "disconnect", lambda: sig.disconnect(f, missing_ok=True), cb=cb)
        elif op == "drain":
            if t not in self.thr:
                return
            if self.ch.chance(0.5):
                self.do(t, "drain", emit_queued, tgt=t)
            else:
                who = self.ch.pick(["main", "t1"])
                self.do(t, "drain", lambda: emit_queued(self.thr[who]), tgt=who)
        elif op == "start":
            if t not in self.thr:
                return
            msec = self.ch.pick([0, 0, 1, 3])
            kw = {}
            if self.ch.chance(0.3):
                kw["timer_type"] = self.ch.pick([Qt.TimerType.CoarseTimer, Qt.TimerType.PreciseTimer])
            if self.ch.chance(0.3):
                kw["thread"] = self.thr[t]
            self.on[t] = True
            self.do(t, "start", lambda: start_emitting_from_queue(msec, **kw), tgt=t)
        elif op == "stop":
            if t not in self.thr:
                return
            self.on[t] = False
            self.do(t, "stop", stop_emitting_from_queue if self.ch.chance(0.6) else lambda: stop_emitting_from_queue(self.thr[t]), tgt=t)
        elif op == "spin":
            if t in self.thr and not self.depth[t]:
                self.do(t, "spin", lambda: self.spin(t), tgt=t)

    def spin(self, t):
        """Process the events of this thread until everything that waits has been executed."""
        loop = QEventLoop()
        hook, sys.excepthook = sys.excepthook, lambda tp, e, tb: self.hooked(t, e)
        try:
            global WAIT
            end = time.monotonic() + WAIT
            before = -1
            while self.on[t] and before != self.calls:
                before = self.calls
                # a call that is put behind all others
                seen = []
                own = Sentinel()
                own.s.connect(lambda: seen.append(1), thread=self.thr[t])
                th = threading.Thread(target=own.s.emit, daemon=True)
                th.start()
                th.join(60)
                while not seen and self.on[t]:
                    loop.processEvents(QEventLoop.ProcessEventsFlag.AllEvents)
                    if time.monotonic() > end:
                        WAIT = 0.5  # (the check fails anyway)
                        self.rec.log("unexpected", msg="the timer is active, but calls that wait are not executed")
                        raise RuntimeError("stuck")
                    time.sleep(0.0002)
            stop = time.monotonic() + (0.004 if not self.on[t] else 0)
            while time.monotonic() < stop:
                loop.processEvents(QEventLoop.ProcessEventsFlag.AllEvents)
        finally:
            sys.excepthook = hook

    def hooked(self, t, e):
        ok = isinstance(e, EmitLoopError)
        self.rec.log("hook", t=t, r="err" if ok else type(e).__name__)

    # ---------------------------------------------------------------- the program
    def at(self, t, f):
        if t == "main":
            f()
        elif t == "t1":
            WORKER.do(f)
        else:
            th = threading.Thread(target=f, daemon=True)
            th.start()
            th.join(60)

    def go(self):
        gc.disable()
        try:
            for _ in range(self.p.get("pre", 2)):
                self.one("main", [("connect", 1)])
            for _ in range(self.p["top"]):
                t = self.ch.weighted([("main", 3), ("t1", 2)])
                self.at(t, lambda: self.one(t, self.p["ops"]))
            self.p = dict(self.p, boom=0, inner=[(0, 1)])
            self.budget = 50
            for t in ("main", "t1"):
                self.at(t, lambda: self.one(t, [("spin", 1)]))
            # started once more, everything is delivered
            for t in ("main", "t1"):
                self.at(t, lambda: self.one(t, [("start", 1)]))
                self.at(t, lambda: self.one(t, [("spin", 1)]))
                self.at(t, lambda: self.one(t, [("stop", 1)]))
            self.at("t1", lambda: self.one("t1", [("emit", 1)]))
            self.at("main", lambda: self.one("main", [("spin", 1)]))
            for t in ("main", "t1"):
                self.do("main", "drain", lambda: emit_queued(self.thr[t]), tgt=t)
        finally:
            self.logging = False
            for t in ("main", "t1"):
                self.at(t, stop_emitting_from_queue)
                self.at(t, self.discard)
            gc.enable()

    def discard(self):
        self.p = dict(self.p, boom=0, inner=[(0, 1)])
        while True:
            try:
                return emit_queued()
            except EmitLoopError:
                pass


QT = dict(
    ops=[("emit", 4), ("connect", 1), ("disconnect", 0.6), ("late", 3), ("drain", 0.6), ("start", 2), ("stop", 1.5), ("spin", 4), ("kill", 0.3)],
    in_ops=[("emit", 2), ("late", 2), ("connect", 0.5), ("disconnect", 0.5), ("drain", 0.7), ("start", 0.5), ("stop", 0.5)],
    inner=[(0, 5), (1, 2), (2, 1)], nops=26, top=14, pre=2,
)


def run(profile, params, ch, rec):
    QtProg(params, ch, rec).go()


def jobs(profile, tier, seed):
    n = 300 if tier == "quick" else 4000
    yield {"kind": "random", "name": "C10.qt", "count": n, "params": QT}
    yield {"kind": "random", "name": "C10.qt.boom", "count": n, "params": dict(QT, boom=0.25)}
