"""Driver of throttled and debounced functions, in virtual time.

`threading.Timer` is replaced by a stand-in that lets the program decide when its function
runs: when it is due, or (as happens with threads) a while later, also after a cancel that
came too late. The clocks of `time` are virtual too.
"""

from __future__ import annotations

import inspect
import sys
import threading
import time as _time

import psygnal
import psygnal._throttler as mod
from psygnal import Signal, debounced, throttled

US = 1_000_000
CUR = None
REAL = {n: getattr(_time, n) for n in ("monotonic", "perf_counter", "time")}


class FakeTimer:
    """Stand-in of threading.Timer."""

    def __init__(self, interval, function, args=None, kwargs=None):
        self.interval, self.function = interval, function
        self.args, self.kwargs = list(args or ()), dict(kwargs or {})
        self.state = "new"
        self.daemon = False
        self.name = "fake"
        self.finished = threading.Event()

    def start(self):
        if self.state != "new":
            if self.state == "cancelled":
                self.state = "done"  # starts, and ends at once
                return
            raise RuntimeError("threads can only be started once")
        self.state = "waiting"
        self.due = CUR.now + round(self.interval * US)
        CUR.timers.append(self)

    def cancel(self):
        self.finished.set()
        if self.state in ("new", "waiting"):
            self.state = "cancelled"
            if self in CUR.timers:
                CUR.timers.remove(self)
        # one that has expired runs its function all the same

    def is_alive(self):
        # (a timer that was cancelled or whose function is running, is still alive for a while)
        return self.state in ("waiting", "expired", "running")

    isAlive = is_alive

    def join(self, timeout=None):
        pass


def install():
    threading.Timer = FakeTimer
    for m in (mod, psygnal):
        for n, v in list(vars(m).items()):
            if v is REAL_TIMER:
                setattr(m, n, FakeTimer)
    for n in REAL:
        setattr(_time, n, fake_clock)
    for n, v in list(vars(mod).items()):
        if v in REAL.values():
            setattr(mod, n, fake_clock)


def uninstall():
    threading.Timer = REAL_TIMER
    for n, v in REAL.items():
        setattr(_time, n, v)


def fake_clock():
    # (calls from elsewhere, as of the driver, do not matter)
    return 1000 + CUR.now / US


REAL_TIMER = threading.Timer


class Boom(Exception):
    pass


class ThrottleProg:
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.now = 0
        self.timers = []
        self.late = []
        self.depth = 0
        self.n = 0
        self.T = 10_000
        self.budget = params["nops"]

    def start(self):
        ch = self.ch
        kind = ch.pick(self.p.get("kinds", ["throttler", "debouncer"]))
        leading = ch.pick([True, False])
        self.rec.h.update(kind=kind, leading=leading, T=self.T)
        run = self.run

        def func(*args, **kwargs):
            """the doc"""
            run(args, kwargs)

        def func1(x: int) -> str:
            """the doc"""
            run((x,), {})

        if self.p.get("emit"):
            func = func1
        dec = throttled if kind == "throttler" else debounced
        ms = self.T // 1000
        how = ch.choose(3) if self.p.get("how", True) else 0
        if how == 0:
            self.f = dec(func, timeout=ms, leading=leading)
        elif how == 1:
            self.f = dec(timeout=ms, leading=leading)(func)
        else:
            cls = mod.Throttler if kind == "throttler" else mod.Debouncer
            self.f = cls(func, ms, "leading" if leading else "trailing")
        if self.p.get("attrs"):
            for a in ("__name__", "__doc__", "__module__", "__qualname__", "__wrapped__"):
                g, w = getattr(self.f, a, None), func if a == "__wrapped__" else getattr(func, a)
                self.rec.log("is", what=a, got="same" if g == w else repr(g), want="same")
            self.rec.log("is", what="signature", got=str(inspect.signature(self.f)), want=str(inspect.signature(func)))
        self.sig = None
        if self.p.get("emit"):
            class E:
                s = Signal(int, str)

            self.obj = E()
            self.sig = self.obj.s
            self.sig.connect(self.f)

    # ---------------------------------------------------------------- the function
    def run(self, args, kwargs):
        self.rec.log("run", a=self.show(args, kwargs))
        self.depth += 1
        boom = False
        try:
            if self.depth <= self.p.get("depth", 2):
                for _ in range(self.ch.weighted(self.p["inner"])):
                    self.step(self.p["in_ops"])
            boom = self.ch.chance(self.p.get("boom", 0))
        finally:
            self.depth -= 1
            self.rec.log("endrun", r="boom" if boom else "ok")
        if boom:
            raise Boom

    def show(self, args, kwargs):
        return f"{list(args)}{sorted(kwargs.items())}"

    # ---------------------------------------------------------------- operations
    def tick(self, d):
        """time passes; expired timers run, or wait for their turn"""
        end = self.now + d
        while True:
            due = [t for t in self.timers if t.due <= end]
            if not due:
                break
            t = min(due, key=lambda t: t.due)
            self.timers.remove(t)
            if self.now < t.due:
                self.to(t.due)
            t.state = "expired"
            self.late.append(t)
            if not self.ch.chance(self.p.get("late", 0)):
                self.fire(t)
            # (what ran may have taken its time)
            end = max(end, self.now)
        if self.now < end:
            self.to(end)

    def to(self, now):
        self.now = now
        self.rec.log("tick", now=now, late=[t.due for t in self.late])

    def fire(self, t):
        self.late.remove(t)
        self.rec.log("fire", due=t.due)
        t.state = "running"
        r = "ok"
        try:
            t.function(*t.args, **t.kwargs)
        except Boom:
            r = "boom"
        t.state = "done"
        t.finished.set()
        self.rec.log("ret", op="fire", r=r)

    def op(self, name, f):
        r = "ok"
        try:
            f()
        except Boom:
            r = "boom"
        except psygnal.EmitLoopError as e:
            r = "boom" if isinstance(e.__cause__, Boom) else "other"
        self.rec.log("ret", op=name, r=r)

    def step(self, ops):
        if self.budget <= 0:
            return
        self.budget -= 1
        self.tick(1)  # no two things happen at the same time
        op = self.ch.weighted(ops)
        getattr(self, "op_" + op)()

    def op_call(self):
        self.n += 1
        args, kw = (self.n,), {}
        if not self.sig and self.p.get("how", True):
            v = self.ch.choose(4)
            if v == 1:
                args, kw = (), {"x": self.n}
            elif v == 2:
                args = ()
            elif v == 3:
                args, kw = (self.n, 0), {"y": None}
        self.rec.log("call", a=self.show(args, kw))
        if self.sig and self.ch.chance(0.5):
            self.op("call", lambda: self.sig.emit(self.n, "rest"))
        else:
            self.op("call", lambda: self.f(*args, **kw))

    def op_cancel(self):
        self.rec.log("cancel")
        self.op("cancel", lambda: self.f.cancel())

    def op_flush(self):
        self.rec.log("flush")
        self.op("flush", lambda: self.f.flush())

    def op_wait(self):
        self.tick(self.ch.pick([self.T, self.T // 2, 3 * self.T, self.T - 2, 10]))

    def op_waitT(self):
        self.tick(self.T)

    def op_waith(self):
        self.tick(self.T // 2)

    def op_late(self):
        if self.late:
            self.fire(self.ch.pick(self.late))


ALL = [("call", 6), ("wait", 5), ("cancel", 1.2), ("flush", 1.2), ("late", 1.5)]
ENUM = [("call", 1), ("waith", 1), ("cancel", 1), ("flush", 1), ("waitT", 1)]


def run(profile, params, ch, rec):
    global CUR
    p = CUR = ThrottleProg(params, ch, rec)
    install()
    try:
        p.start()
        while p.budget > 0:
            p.step(params["ops"])
        while p.late:
            p.fire(p.late[0])
        p.depth = 99
        for _ in range(3):
            p.tick(2 * p.T)
            while p.late:
                p.fire(p.late[0])
        p.f.cancel()
    finally:
        uninstall()


NRAND = {"quick": 1200, "thorough": 40000}


def jobs(profile, tier, seed):
    n = NRAND[tier]
    base = dict(ops=ALL, in_ops=ALL, inner=[(0, 6), (1, 2), (3, 1)], nops=25)
    yield {"kind": "random", "name": "C11.plain", "count": n, "params": dict(base, attrs=True)}
    yield {"kind": "random", "name": "C11.boom", "count": n // 2, "params": dict(base, boom=0.2, late=0.3)}
    yield {"kind": "random", "name": "C11.late", "count": n, "params": dict(base, late=0.5)}
    yield {"kind": "random", "name": "C11.emit", "count": n // 4, "params": dict(base, late=0.1, emit=True, attrs=True)}
    for i, k in enumerate(["throttler", "debouncer"]):
        e = dict(ops=ENUM, in_ops=[("call", 1), ("cancel", 1)], inner=[(0, 1)], kinds=[k], how=False)
        yield {"kind": "enum", "name": f"C11.enum.{k}", "limit": {"quick": 2500, "thorough": 80000}[tier], "params": dict(e, nops=4 if tier == "quick" else 6)}
        yield {"kind": "enum", "name": f"C11.nested.{k}", "limit": {"quick": 1500, "thorough": 50000}[tier], "params": dict(e, nops=4, inner=[(0, 1), (1, 1)], depth=1)}
