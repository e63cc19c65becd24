"""Driver of several threads, under the deterministic scheduler."""

from __future__ import annotations

import gc
import threading
from functools import partial

import sched

sched.install()

import psygnal  # noqa: E402
from psygnal import EmitLoopError, Signal, emit_queued  # noqa: E402

sched.in_threads()


class Boom(Exception):
    pass


class Obj:
    s1 = Signal(int)


class Obj2:
    s1 = Signal(int)


class Meth:
    def __init__(self, f, gone):
        self.f = f
        self.gone = gone

    def __del__(self):
        self.gone()

    def __call__(self, x):
        self.f(x)

    def meth(self, x):
        self.f(x)

    def pre(self, p, x):
        self.f(x)

    @property
    def at(self):
        return None

    @at.setter
    def at(self, x):
        self.f(x)

    def __setitem__(self, k, x):
        self.f(x)


# ways to refer to an object weakly, by the first letter of the name
WEAK = {
    "m": lambda o: o.meth,
    "p": lambda o: partial(o.pre, "P"),
    "a": lambda o: partial(setattr, o, "at"),
    "w": lambda o: partial(o.__setattr__, "at"),
    "k": lambda o: partial(o.__setitem__, "k"),
}


class ThreadProg(sched.Sched):
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.names = ["main", "t1", "t2"][: params.get("threads", 3)]
        sigs = ["s1", "s2"][: params.get("signals", 1)]
        rec.h.update(threads=[*self.names, "late"], signals=sigs)
        self.objs = {"s1": Obj(), "s2": Obj2()}
        self.sigs = {n: self.objs[n].s1 for n in sigs}
        self.who = {id(o): n for n, o in self.objs.items()}
        self.live = self.logging = True
        self.fixed = {}
        self.cbs = {n: self.make(n, i) for i, n in enumerate(params.get("cbs", ["f1", "m1", "o1", "m2"]))}
        self.n = 0
        self.held = {t: [] for t in self.names}  # emissions under way, per thread
        self.depth = {t: 0 for t in self.names}
        self.budget = params["nops"]
        super().__init__(ch, ch.pick(params.get("mean", [0])), ch.chance(params.get("opcodes", 0)), params.get("at", ()))

    ready = False

    def make(self, name, i):
        def f(x):
            self.called(name, x)

        if name[0] == "f":
            return f
        # (a callable object, that is referred to strongly, or a method, that is not)
        m = Meth(f, lambda: self.rec.log("gone", cb=name, t=self.cur()) if self.logging else None)
        return m

    def on_threads(self, threads):
        self.thr = threads
        self.names_of = {t: n for n, t in threads.items()}

    def cur(self):
        return self.names_of[threading.current_thread()]

    def src(self):
        e = Signal.current_emitter()
        o = Signal.sender()
        n = next((n for n, s in self.sigs.items() if s is e), "" if e is None else "other")
        m = self.who.get(id(o), "" if o is None else "other")
        return n if n == m else f"{n}/{m}"

    # ---------------------------------------------------------------- callbacks
    def called(self, name, x):
        t = self.cur()
        drained = self.stack[t][-1] == "drain"
        self.rec.log("cb", t=t, cb=name, a=x, src="?" if drained else self.src())
        self.stack[t].append("cb")
        self.depth[t] += 1
        boom = None
        try:
            self.pause()
            if self.live and self.depth[t] <= self.p.get("depth", 2):
                for _ in range(self.ch.weighted(self.p["inner"])):
                    try:
                        self.one(t, self.p["in_ops"])
                    except (EmitLoopError, Boom) as e:
                        if self.ch.chance(0.5):
                            boom = e
                            raise
                    if not drained and self.ch.chance(0.3):
                        self.rec.log("sender", t=t, src=self.src())
            if self.ch.chance(self.p.get("boom", 0)):
                boom = Boom()
                raise boom
        finally:
            self.depth[t] -= 1
            self.stack[t].pop()
            self.rec.log("cbend", t=t, r="boom" if boom else "ok")

    def pause(self):
        self.point()

    # ---------------------------------------------------------------- operations
    def do(self, t, op, f, s="s1", cb="", tgt="", a=0):
        self.rec.log("op", t=t, op=op, s=s, cb=cb, tgt=tgt, a=a)
        self.stack[t].append(op)
        self.point()
        r, ex = "ok", None
        try:
            v = f()
            if op in ("len", "contains"):
                r = str(v)
        except (ValueError, KeyError) as e:
            r = "ValueError"
        except EmitLoopError as e:
            r, ex = "err", e
        except Exception as e:
            r, ex = type(e).__name__, None
        self.stack[t].pop()
        self.rec.log("ret", t=t, op=op, r=r)
        if ex is not None and self.depth[t]:
            raise ex.with_traceback(None)

    def allowed(self, t):
        # (taking the locks of two signals in different orders is a deadlock of the program's)
        h = max(self.held[t], default="s1")
        return [s for s in self.sigs if s >= h]

    def one(self, t, ops):
        if self.budget <= 0:
            return
        self.budget -= 1
        op = self.ch.weighted(ops)
        s = self.ch.pick(self.allowed(t))
        sig = self.sigs[s]
        cb = self.ch.pick(sorted(self.cbs)[: self.p.get("ncbs", 4)])
        if op == "kill":
            if cb[0] in WEAK and len(self.cbs) > 1:
                self.cbs.pop(cb)
            return
        f = None if op == "emit" else WEAK[cb[0]](self.cbs[cb]) if cb[0] in WEAK else self.cbs[cb]
        if op == "emit":
            self.n += 1
            n = self.n
            self.held[t].append(s)
            try:
                self.do(t, "emit", (lambda: sig.emit(n)) if n % 2 else (lambda: sig(n)), s=s, a=n)
            finally:
                self.held[t].pop()
        elif op == "connect":
            tgt = self.ch.weighted(self.p.get("tgt", [("", 1)]))
            if self.p.get("fixed"):
                # (which of several connections of a callback is removed is left open when another one is dying)
                tgt = self.fixed.setdefault(cb, tgt if tgt != "current" else "")
            kw = {}
            name = tgt
            if tgt == "main":
                kw["thread"] = self.ch.pick(["main", self.thr["main"]])
            elif tgt == "current":
                kw["thread"], name = "current", t
            elif tgt:
                if tgt not in self.thr:
                    tgt = name = "main"
                kw["thread"] = self.thr[tgt]
            how = self.ch.weighted([("connect", 3), ("connect_unique", 1), ("connect_strict", 1)] if not self.p.get("uniq") or not self.ready else [("connect_unique", 1)])
            if how != "connect":
                kw["unique"] = True if how == "connect_unique" else "raise"
            self.do(t, how, lambda: sig.connect(f, **kw), s=s, cb=cb, tgt=name)
        elif op == "disconnect":
            strict = self.ch.chance(0.5)
            self.do(t, "disconnect_strict" if strict else "disconnect", lambda: sig.disconnect(f, missing_ok=not strict), s=s, cb=cb)
        elif op == "disconnect_all":
            self.do(t, op, sig.disconnect, s=s)
        elif op == "len":
            self.do(t, op, lambda: len(sig), s=s)
        elif op == "contains":
            self.do(t, op, lambda: f in sig, s=s, cb=cb)
        elif op == "drain":
            who = t if self.ch.chance(0.6) else self.ch.pick(self.names)
            self.drain(t, who)

    def drain(self, t, who):
        if who == t and self.ch.chance(0.5):
            self.do(t, "drain", emit_queued, tgt=who)
        else:
            th = self.thr[who]
            self.do(t, "drain", lambda: emit_queued(th), tgt=who)

    def late(self):
        """Another thread, that got the identifier of one that has ended."""
        idents = {self.thr[t].ident for t in self.names[1:]}

        def body():
            if threading.get_ident() not in idents:
                return
            done.append(1)
            self.names_of[threading.current_thread()] = "late"
            self.stack["late"] = ["top"]
            self.depth["late"] = 0
            self.held["late"] = []
            for s in self.sigs:
                self.n += 1
                self.do("late", "emit", lambda s=s: self.sigs[s].emit(self.n), s=s, a=self.n)
            self.do("late", "drain", emit_queued, tgt="late")

        done = []
        for _ in range(8):
            t = threading.Thread(target=body, daemon=True)
            t.start()
            t.join(20)
            if done:
                break

    # ---------------------------------------------------------------- the program
    def go(self):
        self.stack = {t: ["top"] for t in self.names}
        per = self.p.get("ops")

        def body(t):
            def f():
                for _ in range(self.p.get("per", 4)):
                    self.one(t, per)

            return f

        def first():
            # connections made before the others start
            save, self.next = self.next, 1 << 60
            for _ in range(self.p.get("pre", 3)):
                self.one("main", [("connect", 1)])
            self.ready = True
            self.next = self.step + max(save, 1) if save < 1 << 60 else save
            body("main")()

        # the others start when the first one is preempted, or has ended
        self.run([("main", first), *((t, body(t)) for t in self.names[1:])])
        for name, e in self.errors:
            self.rec.log("unexpected", msg=f"{type(e).__name__} in {name}: {e}"[:200])
            return
        # the end: nothing is left to be done
        self.names_of = {threading.current_thread(): "main"}
        self.budget = 1000
        self.depth["main"] = 0
        self.live, self.p = False, dict(self.p, boom=0)
        if self.p.get("late"):
            self.late()
        for who in self.names:
            self.drain("main", who)
        for s in self.sigs:
            self.do("main", "len", lambda s=s: len(self.sigs[s]), s=s)
            self.n += 1
            self.do("main", "emit", lambda s=s: self.sigs[s].emit(self.n), s=s, a=self.n)
        for who in self.names:
            self.drain("main", who)
        self.rec.log("sender", t="main", src=self.src())
        self.logging = False


C09 = dict(
    ops=[("emit", 5), ("connect", 3), ("disconnect", 3), ("disconnect_all", 0.4), ("len", 0.5), ("contains", 0.5), ("kill", 0.4)],
    in_ops=[("emit", 2), ("connect", 2), ("disconnect", 2), ("disconnect_all", 0.3), ("len", 0.5)],
    inner=[(0, 5), (1, 2), (2, 1)], nops=16, per=4, pre=3,
)
C10 = dict(
    ops=[("emit", 5), ("connect", 2), ("disconnect", 1), ("drain", 4), ("kill", 0.2)],
    in_ops=[("emit", 2), ("connect", 1), ("disconnect", 1), ("drain", 1.5)],
    inner=[(0, 5), (1, 2), (2, 1)], nops=18, per=5, pre=4, tgt=[("", 1), ("main", 2), ("current", 1), ("t1", 2), ("t2", 1)], late=True,
)
C06 = dict(C09, signals=2, ops=[("emit", 6), ("connect", 2), ("disconnect", 1)], in_ops=[("emit", 4), ("connect", 1)], inner=[(0, 2), (1, 2), (2, 1)], pre=5)
C07 = dict(
    C10, cbs=["m1", "p1", "a1", "w1", "k1", "f1"], ncbs=6, late=False, fixed=True, pre=6, nops=20,
    ops=[("emit", 5), ("connect", 2), ("disconnect", 1), ("drain", 2), ("kill", 4), ("len", 1), ("contains", 1)],
    in_ops=[("emit", 2), ("connect", 1), ("disconnect", 1), ("drain", 1), ("kill", 3)],
)
PROFILES = {"C09": C09, "C10": C10, "C06": C06, "C07": C07}
NRAND = {"quick": 900, "thorough": 20000}


def run(profile, params, ch, rec):
    sched.install()
    # (the garbage collector kills weak references before the objects report their end)
    gc.disable()
    try:
        p = ThreadProg(params, ch, rec)
        p.go()
    finally:
        p.logging = False
        gc.enable()
        sched.in_threads()


def jobs(profile, tier, seed):
    base = PROFILES[profile]
    n = NRAND[tier]
    yield {"kind": "random", "name": f"{profile}.seq", "count": n // 2, "params": dict(base, mean=[300, 1000], boom=0.05)}
    yield {"kind": "random", "name": f"{profile}.lines", "count": n, "params": dict(base, mean=[4, 15, 60, 200])}
    yield {"kind": "random", "name": f"{profile}.boom", "count": n // 2, "params": dict(base, mean=[10, 50, 200], boom=0.15)}
    yield {"kind": "random", "name": f"{profile}.two", "count": n // 2, "params": dict(base, mean=[10, 50], threads=2, ncbs=2, per=6)}
    if profile == "C07":
        yield {"kind": "random", "name": "C07.opcodes", "count": n // 2, "params": dict(base, mean=[15, 60, 300], opcodes=1)}
        return
    kill = dict(base, mean=[10, 40, 120], cbs=["m1", "m2", "f1", "m3"], opcodes=0.5, per=5, nops=22, fixed=True)
    kill["ops"] = [*base["ops"], ("kill", 1.5)]
    yield {"kind": "random", "name": f"{profile}.kill", "count": n // 2, "params": kill}
    if profile == "C09":
        race = dict(kill, mean=[5, 20, 60], pre=5, per=2, nops=11, threads=2)
        race["ops"] = [("disconnect", 4), ("kill", 3), ("connect", 1), ("emit", 1)]
        yield {"kind": "random", "name": "C09.race", "count": n, "params": race}
        # others die while a connection is looked up
        dying = dict(race, cbs=["m1", "m2", "f1", "m3", "f2"], ncbs=5, pre=7, nops=15, uniq=True)
        dying["ops"] = [("connect", 4), ("contains", 4), ("kill", 4), ("emit", 1)]
        yield {"kind": "random", "name": "C09.dying", "count": n, "params": dying}
    yield {"kind": "random", "name": f"{profile}.opcodes", "count": n // 2, "params": dict(base, mean=[15, 60, 300], opcodes=1)}
