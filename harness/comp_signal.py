"""Driver of the signal component: programs over SignalInstance's public interface.

Every program works with a few signals and a universe of callbacks. What a callback does
while it runs is drawn from the same source of choices as the top level of the program.
"""

from __future__ import annotations

import gc
import warnings
import weakref
from functools import partial

from drive import Hang, StopProgram

from psygnal import EmitLoopError, Signal, SignalInstance

NOLIM = 99
NA = object()
ERR_TYPES = [
    ValueError, KeyError, StopIteration, AssertionError, ReferenceError, AttributeError,
    TypeError, OSError, RuntimeError, IndexError, Exception, LookupError, NotImplementedError,
]
BASE_TYPES = [KeyboardInterrupt, SystemExit, GeneratorExit, BaseException]


def mk_exc(kind, vid, choice):
    base = {"u": ERR_TYPES, "b": BASE_TYPES, "r": [RecursionError]}[kind]
    t = base[choice.choose(len(base))] if kind != "r" and not choice.exhaustive else base[0]
    # (one that cannot be printed is an error like any other)
    ns = {} if choice.exhaustive or kind == "r" or not choice.chance(0.1) else {"__str__": unprintable}
    e = type("X" + t.__name__, (t,), ns)(vid)
    e.vid = vid
    return e


def unprintable(self, *_):
    raise LookupError("cannot be printed, has no truth value")


class Val(str):
    """An argument that cannot be printed."""

    __repr__ = unprintable


def exc_id(e):
    """<<kind, id>> of an exception that reached the program."""
    if isinstance(e, EmitLoopError):
        c = e.__cause__
        return ["e", c.vid if hasattr(c, "vid") else f"cause:{type(c).__name__}"]
    if isinstance(e, RecursionError):
        c = e
        while c is not None and not hasattr(c, "vid"):
            c = c.__cause__
        return ["r", getattr(c, "vid", f"{type(e).__name__}")]
    if isinstance(e, (Hang, StopProgram)):
        raise e
    vid = getattr(e, "vid", None)
    if vid is None:
        return ["?", f"{type(e).__name__}:{e}"]
    return ["u" if isinstance(e, Exception) else "b", vid]


class Through(Exception):
    """Raised in the body of a context, caught right outside."""


DECL = "abcdef"


class Recv:
    """An object with methods that take different numbers of arguments."""

    def __init__(self, prog, oid):
        self._p = weakref.ref(prog)
        self._o = oid
        self._d = {}

    def _r(self, name, args):
        p = self._p()
        p.called(f"{self._o}.{name}", [a for a in args if a is not NA])

    def m0(self):
        self._r("m0", ())

    def m1(self, a=NA):
        self._r("m1", (a,))

    def m2(self, a=NA, b=NA):
        self._r("m2", (a, b))

    def mv(self, *args):
        self._r("mv", args)

    def mp(self, x, *args):  # connected through a partial
        self._r("mp", (x, *args))

    @property
    def at(self):
        return None

    @at.setter
    def at(self, v):
        self._r("at", v if type(v) is tuple else (v,))

    @property
    def at2(self):
        return None

    @at2.setter
    def at2(self, v):
        self._r("at2", v if type(v) is tuple else (v,))

    def __setitem__(self, k, v):
        self._r(f"[{k}]", v if type(v) is tuple else (v,))

    def __call__(self, *args):
        self._r("()", args)


def _twin(name):
    def meth(self, *args):
        self._r(name, args)

    meth.__name__ = "twin"  # two methods that share their __name__
    return meth


Recv.tw1 = _twin("tw1")
Recv.tw2 = _twin("tw2")


class EqRecv(Recv):
    """All instances are equal, and none can be hashed."""

    def __eq__(self, other):
        return isinstance(other, EqRecv)

    __hash__ = None

    def __len__(self):
        return 0  # (falsy)


class NoRef:
    """Cannot be weakly referenced."""

    __slots__ = ("_d", "_flag", "_o", "_p")

    def __init__(self, prog, oid, flag):
        self._p = weakref.ref(prog)
        self._o = oid
        self._flag = flag

    def __del__(self):
        self._flag.append(1)

    _r = Recv._r
    m1 = Recv.m1
    mv = Recv.mv
    at = Recv.at
    __setitem__ = Recv.__setitem__
    __call__ = Recv.__call__


class Sink(list):
    """`append` of this is a builtin method."""


# name -> (cap, preset args)
METHODS = {
    "m0": (0, []), "m1": (1, []), "m2": (2, []), "mv": (NOLIM, []), "()": (NOLIM, []),
    "mp": (NOLIM, ["P"]), "at": (NOLIM, []), "at2": (NOLIM, []), "[k]": (NOLIM, []), "[j]": (NOLIM, []),
    "tw1": (NOLIM, []), "tw2": (NOLIM, []),
}
SETTERS = ("at", "at2", "[k]", "[j]")


class Prog:
    def __init__(self, params, choice, rec):
        self.p = params
        self.ch = choice
        self.rec = rec
        self.budget = params.get("budget", 40)
        self.depth = 0
        self.nval = 0
        self.nexc = 0
        self.running = []  # ids of running callbacks
        self.objs = {}
        self.owners = {}
        self.flags = {}
        self.sigs = {}
        self.owner_of = {}
        self.funcs = {}
        self.cbs = {}  # id -> dict(key, cap, obj, pre, tgt, unref, kind)
        self.sink = None
        self.sink_seen = 0
        self.paused_ctx = []
        self.handles = []
        self.bodies = 0

    # -------------------------------------------------------- logging
    def log(self, k, **kw):
        self.poll()
        if len(self.rec.e) > self.p.get("maxev", 250):
            self.budget = 0
        self.rec.log(k, **kw)

    def poll(self):
        s = self.sink
        if s is not None:
            while self.sink_seen < len(s):
                v = s[self.sink_seen]
                self.sink_seen += 1
                self.rec.log("cb", c="sink.append", a=[v] if isinstance(v, str) else ["?"])
                self.rec.log("ret", c="sink.append")

    # -------------------------------------------------------- set-up
    def add_cb(self, cid, key, cap, obj="none", pre=(), tgt="", unref=False, kind="func"):
        self.cbs[cid] = {
            "id": cid, "key": key, "cap": cap, "obj": obj, "pre": list(pre), "tgt": tgt, "unref": unref,
        }
        self.kinds[cid] = kind

    def setup(self):
        p, ch = self.p, self.ch
        self.kinds = {}
        modes = p.get("modes", ["immediate"])
        self.modes = {}
        nsig = p.get("nsig", 1)
        for i in range(nsig):
            sid = f"s{i}"
            mode = modes[ch.choose(len(modes))] if len(modes) > 1 else modes[0]
            self.modes[sid] = mode
            how = p.get("owner", ["class"])
            how = how[ch.choose(len(how))] if len(how) > 1 else how[0]
            if how == "none":
                self.sigs[sid] = SignalInstance((str, str, str), name=sid, reemission=mode)
                self.owner_of[sid] = "none"
            elif how == "shared" and self.owners:
                oid = next(iter(self.owners))
                owner = self.owners[oid]
                self.sigs[sid] = SignalInstance((str, str, str), name=sid, instance=owner, reemission=mode)
                self.owner_of[sid] = oid
            else:
                cls = type(
                    f"Owner{i}",
                    (),
                    {"sig": Signal(str, str, str, reemission=mode), "__slots__": ("__weakref__",)}
                    if how == "slots"
                    else {"sig": Signal(str, str, str, reemission=mode)},
                )
                if how in ("bool", "len"):  # no truth value; a false one
                    setattr(cls, f"__{how}__", unprintable if how == "bool" else lambda self: 0)
                owner = cls()
                oid = f"w{i}"
                self.owners[oid] = owner
                self.sigs[sid] = owner.sig
                self.owner_of[sid] = oid
        self.blk = dict.fromkeys(self.sigs, False)
        self.pau = dict.fromkeys(self.sigs, False)
        for k in p.get("funcs", ["f1", "f2", "fv", "fp"]):
            self.mk_func(k)
        for i, names in enumerate(p.get("objs", [])):
            oid = f"o{i}"
            cls = Recv
            if names[0] == "EQ":
                cls, names = EqRecv, names[1:]
            if names[0] == "NOREF":
                names = names[1:]
                flag = []
                self.objs[oid] = NoRef(self, oid, flag)
                self.flags[oid] = flag
                unref = True
            else:
                self.objs[oid] = cls(self, oid)
                unref = False
            for nm in names:
                cap, pre = METHODS[nm]
                cid = f"{oid}.{nm}"
                self.add_cb(cid, cid, cap, oid, pre, "", unref, "setter" if nm in SETTERS else "meth")
        if p.get("sink"):
            self.sink = Sink()
            self.add_cb("sink.append", "sink.append", 1, "sink", (), "", False, "sink")
        for a, b in p.get("relay", []):
            if f"s{b}" in self.sigs:
                self.add_cb(f"->s{b}{a}", f"->s{b}{a}", NOLIM, "none", (), f"s{b}", False, "relay" + a)
        for n in p.get("bad", []):
            self.add_cb(n, "", 0, "none", (), "", False, "bad")
        self.rec.h.update(
            sigs=[
                {"id": s, "mode": self.modes[s], "obj": self.owner_of[s]} for s in self.sigs
            ],
            cbs=list(self.cbs.values()),
            groups=[],
        )

    def mk_func(self, k):
        prog = weakref.ref(self)

        def called(args):
            prog().called(k, [a for a in args if a is not NA])

        if k == "f0":
            f = lambda: called(())  # noqa: E731
            cap, pre = 0, ()
        elif k == "f1":

            def f(a=NA):
                called((a,))

            cap, pre = 1, ()
        elif k == "f2":
            f = lambda a=NA, b=NA: called((a, b))  # noqa: E731
            cap, pre = 2, ()
        elif k.startswith("fv"):

            def f(*args):
                called(args)

            cap, pre = NOLIM, ()
        elif k == "fk":

            def f(a=NA, *args, key=None, **kw):
                called((a, *args))

            cap, pre = NOLIM, ()
        elif k == "fp":  # partial application of a function: same key as fq

            def f(*args):
                # whether called with or without the preset argument
                if args and args[0] == "P":
                    prog().called("fp", list(args))
                else:
                    prog().called("fq", list(args))

            self.funcs["fq"] = f
            self.add_cb("fq", "fq", NOLIM)
            self.funcs["fp"] = f
            self.add_cb("fp", "fq", NOLIM, pre=["P"], kind="partial")
            return
        elif k == "fkw":  # partial with a keyword

            def f(*args, kw=None):
                called(args)

            self.funcs[k] = partial(f, kw=1)
            self.keepf = f
            self.add_cb(k, k, NOLIM)
            return
        elif k == "cm":  # class method

            class C:
                @classmethod
                def f(cls, a=NA):
                    called((a,))

            self.funcs[k] = C.f
            self.add_cb(k, k, 1)
            return
        elif k == "st":

            class D:
                @staticmethod
                def f(a=NA, b=NA):
                    called((a, b))

            self.funcs[k] = D.f
            self.add_cb(k, k, 2)
            return
        else:
            raise ValueError(k)
        self.funcs[k] = f
        self.add_cb(k, k, cap, "none", pre)

    def callable_of(self, cid, conn=False):
        """A callable for that id (nothing here keeps objects alive)."""
        kind = self.kinds[cid]
        if kind == "bad":
            return {"bad:int": 5, "bad:str": "abc", "bad:obj": object()}[cid]
        if kind == "partial":
            return partial(self.funcs[cid], "P")
        if kind == "func":
            return self.funcs[cid]
        if kind == "sink":
            return self.sink.append
        if kind.startswith("relay"):
            s = self.sigs[self.cbs[cid]["tgt"]]
            return s.emit if kind == "relay" else s
        oid, nm = cid.split(".", 1)
        o = self.objs[oid]
        if nm == "()":
            return o
        if nm == "mp":
            return partial(o.mp, "P")
        if nm in ("at", "at2"):
            return partial(setattr, o, nm)
        if nm.startswith("["):
            return partial(o.__setitem__, nm[1:-1])
        return getattr(o, nm)

    def alive(self, cid):
        o = self.cbs[cid]["obj"]
        return o in ("none",) or (o == "sink" and self.sink is not None) or o in self.objs

    # -------------------------------------------------------- callbacks
    def called(self, cid, args):
        self.log("cb", c=cid, a=[a if isinstance(a, str) else "?" + repr(a)[:40] for a in args])
        self.running.append(cid)
        try:
            self.body(cid)
        except (Hang, StopProgram):
            raise
        except BaseException as e:
            self.running.pop()
            self.log("raise", c=cid, x=exc_id(e))
            raise
        self.running.pop()
        self.log("ret", c=cid)

    def body(self, cid):
        p = self.p
        if self.budget <= 0:
            return
        self.bodies += 1
        pb = p.get("pbody", 0.5)
        if self.ch.exhaustive:
            pb = 0.5
        if not self.ch.chance(pb):
            return
        self.depth += 1
        try:
            n = 1 + (self.ch.choose(p.get("maxbody", 3)) if p.get("maxbody", 3) > 1 else 0)
            if self.depth <= p.get("maxdepth", 4):
                for _ in range(n):
                    if self.budget <= 0:
                        break
                    self.one_op(p["body"], True)
            r = self.ch.weighted(list(p.get("exc", {"": 1}).items()))
            if r:
                self.do_raise(r)
        finally:
            self.depth -= 1

    def do_raise(self, kind):
        self.nexc += 1
        raise mk_exc(kind, f"x{self.nexc}", self.ch)

    # -------------------------------------------------------- ops
    def vals(self):
        n = self.p.get("nargs") or ([1, 2, 3] if self.p.get("sink") else [0, 1, 2, 3])
        n = n[self.ch.choose(len(n))] if len(n) > 1 else n[0]
        self.nval += 1
        mk = Val if not self.ch.exhaustive and self.ch.chance(0.05) else str
        return [mk(f"v{self.nval}{DECL[i]}") for i in range(n)]

    def sig(self):
        ids = list(self.sigs)
        return ids[self.ch.choose(len(ids))] if len(ids) > 1 else ids[0]

    def cbid(self, pred=lambda c: True):
        ids = [c for c in self.cbs if self.alive(c) and pred(c)]
        if not ids:
            return None
        return ids[self.ch.choose(len(ids))] if len(ids) > 1 else ids[0]

    def one_op(self, weights, nested):
        self.budget -= 1
        op = self.ch.weighted(list(weights.items()))
        getattr(self, "op_" + op)(nested)

    def after_exc(self, e, nested):
        """An emission raised in program code: swallow it, or let it through."""
        prop = self.ch.chance(self.p.get("propagate", 0.5)) if nested else False
        if prop:
            raise e
        tb_clear(e)

    def op_emit(self, nested, m=None, s=None):
        s = s or self.sig()
        ms = self.p.get("emit", ["emit"])
        m = m or (ms[self.ch.choose(len(ms))] if len(ms) > 1 else ms[0])
        a = self.vals()
        self.log("emit", s=s, m=m, a=a)
        sg = self.sigs[s]
        try:
            if m == "emit":
                if len(a) == 3 and self.p.get("checked"):
                    sg.emit(*a, check_nargs=True, check_types=True)
                else:
                    sg.emit(*a)
            elif m == "call":
                sg(*a)
            else:
                sg.emit_fast(*a)
        except (Hang, StopProgram):
            raise
        except BaseException as e:
            self.log("emitx", x=exc_id(e))
            self.after_exc(e, nested)
            return
        self.log("emitret")

    def op_connect(self, nested):
        cid = self.cbid()
        if cid is None:
            return
        s = self.sig()
        cb = self.cbs[cid]
        if cb["tgt"]:
            # no cycles of relays
            if cb["tgt"] == "s0":
                return
            s = f"s{int(cb['tgt'][1:]) - 1}"
        sg = self.sigs[s]
        ps = self.p.get("prios", [0])
        prio = ps[self.ch.choose(len(ps))] if len(ps) > 1 else ps[0]
        uqs = self.p.get("uniq", ["no"])
        uq = uqs[self.ch.choose(len(uqs))] if len(uqs) > 1 else "no"
        mxs = self.p.get("maxargs", [NOLIM])
        if len(mxs) > 1:
            # explicit limits that the callback can live with
            low = 1 if self.p.get("sink") else 0
            cap = 1 if self.kinds[cid] == "sink" else cb["cap"]
            mxs = [m for m in mxs if m == NOLIM or low <= m <= cap]
        mx = mxs[self.ch.choose(len(mxs))] if len(mxs) > 1 else mxs[0]
        pol = "ignore"
        if cb["unref"]:
            pol = ["warn", "raise", "ignore"][self.ch.choose(3)]
        kind = self.kinds[cid]
        cn = True
        nm = cid.split(".", 1)[-1]
        how = "connect"
        if kind == "setter":
            how = ["set", "connect"][self.ch.choose(2)] if self.p.get("psetter") else "set"
            if how == "connect":
                # partial(setattr, obj, name) takes one value
                cn = True
                mx = 1
            else:
                uq, cn = "no", False
        elif kind != "bad" and cb["cap"] == NOLIM and self.p.get("nocheck") and self.ch.chance(0.3):
            cn = False
        w, r = 0, "ok"
        f = self.callable_of(cid)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                if how == "set":
                    kw = dict(maxargs=None if mx == NOLIM else mx, on_ref_error=pol, priority=prio)
                    if nm.startswith("["):
                        sg.connect_setitem(self.objs[cb["obj"]], nm[1:-1], **kw)
                    else:
                        sg.connect_setattr(self.objs[cb["obj"]], nm, **kw)
                else:
                    kw = dict(
                        priority=prio,
                        max_args=None if mx == NOLIM else mx,
                        unique={"no": False, "yes": True, "raise": "raise"}[uq],
                        on_ref_error=pol,
                    )
                    if not cn:
                        kw["check_nargs"] = False
                    if self.p.get("decorator") and self.ch.chance(0.3):
                        ret = sg.connect(**kw)(f)
                    else:
                        ret = sg.connect(f, **kw)
                    if ret is not f:
                        r = "wrong-return"
                    ret = None
            except (Hang, StopProgram):
                raise
            except Exception as e:
                r = type(e).__name__
                tb_clear(e)
            w = sum("weakref" in str(x.message) for x in ws)
            ws.clear()
        f = None
        self.log("connect", s=s, c=cid, p=prio, mx=mx, cn=cn, uq=uq, pol=pol, w=w, r=r)

    def op_disconnect(self, nested):
        cid = self.cbid(lambda c: self.kinds[c] != "bad")
        if cid is None:
            return
        s = self.sig()
        sg = self.sigs[s]
        mo = not (self.ch.chance(0.4) if self.p.get("strict", 1) else False)
        kind = self.kinds[cid]
        nm = cid.split(".", 1)[-1]
        r = "ok"
        try:
            if kind == "setter" and self.ch.chance(0.5):
                o = self.objs[self.cbs[cid]["obj"]]
                if nm.startswith("["):
                    sg.disconnect_setitem(o, nm[1:-1], missing_ok=mo)
                else:
                    sg.disconnect_setattr(o, nm, missing_ok=mo)
                o = None
            else:
                sg.disconnect(self.callable_of(cid), missing_ok=mo)
        except Exception as e:
            r = type(e).__name__
            tb_clear(e)
        o = None
        self.log("disconnect", s=s, c=cid, mo=mo, r=r)

    def op_disconnect_all(self, nested):
        s = self.sig()
        self.sigs[s].disconnect()
        self.log("disconnect_all", s=s)

    def op_len(self, nested):
        s = self.sig()
        self.log("len", s=s, n=len(self.sigs[s]))

    def op_in(self, nested):
        cid = self.cbid(lambda c: self.kinds[c] != "bad")
        if cid is None:
            return
        s = self.sig()
        self.log("in", s=s, c=cid, r=self.callable_of(cid) in self.sigs[s])

    def op_sender(self, nested):
        em, ob = Signal.current_emitter(), Signal.sender()
        e = next((s for s, g in self.sigs.items() if g is em), "none" if em is None else "other")
        o = next((w for w, g in self.owners.items() if g is ob), "none" if ob is None else "other")
        em = ob = None
        self.log("sender", e=e, o=o)

    def op_pause(self, nested):
        s = self.sig()
        self.sigs[s].pause()
        self.pau[s] = True
        self.log("pause", s=s)

    def reducer(self):
        rs = self.p.get("reducers", ["none"])
        red = rs[self.ch.choose(len(rs))] if len(rs) > 1 else rs[0]
        init = ["i0"] if red in ("icat", "ilast") else []
        args = {
            "none": (),
            "cat": (lambda a, b: (*a, *b),),
            "last": (lambda a, b: b,),
            "first": (lambda a, b: a,),
            "icat": (lambda a, b: (*a, *b), ("i0",)),
            "ilast": (lambda a, b: b, ("i0",)),
            "all": (lambda q: tuple(x for a in q for x in a),),
            "ends": (lambda q: (*list(q)[0], *list(q)[-1]),),
        }[red]
        return red, init, args

    def op_resume(self, nested):
        ss = [s for s in self.sigs if not self.blk[s]]
        if not ss:
            return
        s = ss[self.ch.choose(len(ss))] if len(ss) > 1 else ss[0]
        red, init, args = self.reducer()
        self.log("resume", s=s, red=red, init=init)
        self.pau[s] = False
        self.finish_resume(lambda: self.sigs[s].resume(*args), nested)

    def finish_resume(self, f, nested):
        try:
            f()
        except (Hang, StopProgram):
            raise
        except BaseException as e:
            self.log("resumex", x=exc_id(e))
            self.after_exc(e, nested)
            return
        self.log("resumeret")

    def op_block(self, nested):
        s = self.sig()
        self.sigs[s].block()
        self.blk[s] = True
        self.log("block", s=s)

    def op_unblock(self, nested):
        s = self.sig()
        self.unblock(s)

    def unblock(self, s):
        self.sigs[s].unblock()
        self.blk[s] = False
        self.log("unblock", s=s)

    def op_with_blocked(self, nested):
        s = self.sig()
        through = self.ch.chance(0.3) if self.p.get("through", 1) else False
        try:
            was = self.blk[s]
            with self.sigs[s].blocked():
                self.log("enter_blocked", s=s)
                self.blk[s] = True
                try:
                    self.ctx_body(through)
                finally:
                    self.log("exit_blocked", s=s)
                    self.blk[s] = was
        except Through:
            pass

    def ctx_body(self, through):
        n = 1 + (self.ch.choose(3) if not self.ch.exhaustive else 0)
        self.depth += 1
        try:
            for _ in range(n):
                if self.budget > 0 and self.depth < 6:
                    self.one_op(self.p.get("ctx") or self.p["top"], False)
        finally:
            self.depth -= 1
        if through:
            raise Through

    def op_with_paused(self, nested):
        s = self.sig()
        red, init, args = self.reducer()
        through = self.ch.chance(0.3) if self.p.get("through", 1) else False
        self.pending = None

        was = self.pau[s]

        def leave():
            # the replay of a blocked signal is not specified
            if self.blk[s]:
                self.unblock(s)
            self.log("exit_paused", s=s, red=red, init=init)
            if not was:
                self.pau[s] = False

        def run():
            with self.sigs[s].paused(*args):
                self.log("enter_paused", s=s)
                self.pau[s] = True
                self.ctx_body(through)
                leave()

        def run_through():
            ctx = self.sigs[s].paused(*args)
            ctx.__enter__()
            self.log("enter_paused", s=s)
            self.pau[s] = True
            try:
                self.ctx_body(True)
            except Through as e:
                leave()
                ctx.__exit__(Through, e, e.__traceback__)

        self.finish_resume(run_through if through else run, nested)

    def op_kill(self, nested):
        busy = {self.cbs[c]["obj"] for c in self.running}
        ids = [o for o in self.objs if o not in busy and (o not in self.flags or not self.running)]
        if not ids:
            return
        o = ids[self.ch.choose(len(ids))] if len(ids) > 1 else ids[0]
        self.poll()
        if o in self.flags:
            flag = self.flags[o]
            del self.objs[o]
            gc.collect()
            dead = bool(flag)
        else:
            ref = weakref.ref(self.objs[o])
            del self.objs[o]
            if ref() is not None:
                gc.collect()
            dead = ref() is None
        self.log("kill", o=o, dead=dead)

    def op_killsink(self, nested):
        if self.sink is None:
            return
        self.poll()
        ref = weakref.ref(self.sink)
        self.sink = None
        if ref() is not None:
            gc.collect()
        self.rec.log("kill", o="sink", dead=ref() is None)

    def op_killowner(self, nested):
        ids = list(self.owners)
        if not ids:
            return
        w = ids[self.ch.choose(len(ids))] if len(ids) > 1 else ids[0]
        ref = weakref.ref(self.owners[w])
        del self.owners[w]
        if ref() is not None:
            gc.collect()
        self.log("killowner", o=w, dead=ref() is None)

    def op_recur(self, nested):
        if nested:
            return
        ss = [
            s for s, g in self.sigs.items()
            if not len(g) and not self.blk[s] and not self.pau[s]
        ]
        if not ss:
            return
        s = ss[self.ch.choose(len(ss))] if len(ss) > 1 else ss[0]
        sg = self.sigs[s]
        fast = self.p.get("fast_recur", True) and self.ch.chance(0.3)

        def again(*a):
            (sg.emit_fast if fast else sg.emit)("r")

        sg.connect(again)
        try:
            (sg.emit_fast if fast else sg.emit)("r")
            r = "none"
        except (Hang, StopProgram):
            raise
        except BaseException as e:
            r = "RecursionError" if isinstance(e, RecursionError) else type(e).__name__
            tb_clear(e)
        if self.modes[s] == "latest-only" and not fast and r == "none":
            r = "none-latest"
        sg.disconnect(again)
        self.log("recur", r=r, s=s)

    def op_badmode(self, nested):
        r = "ok"
        bad = ["bogus", "", "latest_only", "immediately", None, 0][self.ch.choose(6)]
        try:
            if self.ch.chance(0.5):
                SignalInstance((), reemission=bad)
            else:
                cls = type("E", (), {"s": Signal(reemission=bad)})
                cls().s.emit()
        except Exception as e:
            r = type(e).__name__
            tb_clear(e)
        self.log("badmode", r=r)


def tb_clear(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        e = e.__cause__ or e.__context__


def run(profile, params, choice, rec):
    p = Prog(params, choice, rec)
    p.setup()
    for name, cids in params.get("pre", {}).items():
        pass
    for pre in params.get("connect", []):
        # (signal index, callback id, priority)
        s, cid, prio = pre
        p.sigs[f"s{s}"].connect(p.callable_of(cid), priority=prio)
        p.log("connect", s=f"s{s}", c=cid, p=prio, mx=NOLIM, cn=True, uq="no", pol="warn", w=0, r="ok")
    n0 = params.get("preconn", 0)
    for _ in range(n0):
        p.op_connect(False)
    n = params.get("nops", 10)
    for _ in range(n):
        if p.budget <= 0:
            break
        p.one_op(params["top"], False)
    # at the end: nothing is pending, and every signal still delivers to everyone
    if params.get("final", True):
        p.budget = 0
        for s, sg in p.sigs.items():
            if p.blk[s]:
                p.unblock(s)
            if p.pau[s]:
                p.pau[s] = False
                p.log("resume", s=s, red="none", init=[])
                p.finish_resume(sg.resume, False)
            p.op_sender(False)
            p.op_emit(False, "emit", s)
            p.log("len", s=s, n=len(sg))
        p.op_sender(False)
    p.poll()


# ------------------------------------------------------------------ profiles

ALLF = ["f0", "f1", "f2", "fv", "fk", "fp", "fkw", "cm", "st"]
OBJS = [["m0", "m2", "mp", "at"], ["EQ", "m1", "mv", "[k]"], ["EQ", "m1", "()", "at2"]]
MODES = ["immediate", "queued", "latest-only"]

P = {}
P["C01"] = [
    dict(
        name="mix", w=3, nsig=2, modes=["immediate", "immediate", "queued"], funcs=ALLF, objs=OBJS, sink=True,
        relay=[("", 1)], emit=["emit", "call", "fast", "emit"], prios=[0, 0, 1, -1, 5, 2], checked=True,
        maxargs=[NOLIM, NOLIM, NOLIM, 0, 1, 2, 3], nocheck=True, decorator=True, preconn=8, nops=12, budget=40,
        top=dict(emit=6, connect=3, disconnect=2, len=1), body=dict(emit=1, connect=3, disconnect=4, disconnect_all=0.3),
        pbody=0.35, maxdepth=3,
    ),
    dict(
        name="many", w=1, nsig=1, modes=["immediate"], funcs=ALLF, objs=[["m0", "m1", "m2", "mv", "mp", "at", "[k]", "()", "tw1", "tw2"]] * 3,
        sink=True, emit=["emit", "call", "fast"], prios=[0, 1, 2, 3, -1, -7], preconn=30, nops=5, budget=24,
        top=dict(emit=6, connect=1, disconnect=1), body=dict(emit=0.4, connect=2, disconnect=4), pbody=0.2, maxdepth=2,
    ),
    dict(
        name="disc", w=2, nsig=1, modes=MODES, funcs=["f1", "fv", "fv2", "fv3"], emit=["emit", "fast", "emit"], prios=[0, 0, 1],
        nargs=[1, 2], preconn=5, nops=6, budget=30, top=dict(emit=6, connect=2), body=dict(connect=2, disconnect=5, disconnect_all=1, emit=1),
        pbody=0.7, maxbody=3, maxdepth=3,
    ),
]
P["C02"] = [
    dict(
        name="book", w=3, nsig=1, funcs=ALLF, objs=[["m0", "m1", "mp", "at", "at2", "[k]", "[j]", "tw1", "tw2"], ["EQ", "m1", "mv", "at", "[k]", "()"], ["EQ", "m1", "at", "[k]", "()"]],
        sink=True, bad=["bad:int", "bad:str", "bad:obj"], prios=[0, 0, 1, -1], uniq=["no", "no", "yes", "raise"],
        maxargs=[NOLIM, NOLIM, 1, 2], decorator=True, psetter=True, nops=30, budget=40, pbody=0.1,
        top=dict(connect=8, disconnect=5, len=3, emit=3, disconnect_all=0.4, **{"in": 3}), body=dict(connect=2, disconnect=2, len=1, **{"in": 1}),
    ),
    dict(
        name="small", w=2, nsig=2, funcs=["fp", "f1"], objs=[["m1", "at", "tw1", "tw2"], ["EQ", "m1", "at"]], relay=[("", 1), ("()", 1)],
        prios=[0, 1], uniq=["no", "yes", "raise"], psetter=True, nops=25, budget=40, pbody=0.1,
        top=dict(connect=7, disconnect=6, len=2, emit=2, disconnect_all=0.2, **{"in": 3}), body=dict(connect=2, disconnect=2),
    ),
]
P["C03"] = [
    dict(
        name="re", w=4, nsig=1, modes=MODES, funcs=["f1", "fv", "fv2", "fv3"], emit=["emit", "emit", "call"], nargs=[1], prios=[0, 0, 1],
        preconn=4, nops=4, budget=22, top=dict(emit=6, connect=1), body=dict(emit=5, connect=0.7, disconnect=0.7), pbody=0.5, maxbody=2,
        exc={"": 14, "u": 1}, propagate=0.5, maxdepth=5,
    ),
    dict(
        name="two", w=2, nsig=2, modes=MODES, funcs=["f1", "fv", "fv2"], relay=[("", 1)], emit=["emit", "emit", "fast"], nargs=[1],
        preconn=5, nops=4, budget=22, top=dict(emit=6, connect=1, badmode=0.3), body=dict(emit=5, sender=1, disconnect=0.5), pbody=0.5,
        exc={"": 20, "u": 1}, maxdepth=5,
    ),
]
P["C04"] = [
    dict(
        name="bp", w=3, nsig=2, modes=["immediate", "immediate", "queued", "latest-only"], funcs=["f1", "fv", "fv2"], relay=[("", 1)],
        emit=["emit", "call", "fast"], nargs=[1, 2], preconn=4, nops=16, budget=45, reducers=["none", "none", "cat", "last", "first", "icat", "ilast", "all", "ends"],
        top=dict(emit=8, pause=1.5, resume=2.5, block=0.7, unblock=1.3, with_blocked=1, with_paused=2.5, connect=0.5),
        body=dict(emit=3, pause=1.5, resume=1.5, with_blocked=0.7, with_paused=1), pbody=0.25, maxbody=2, exc={"": 8, "u": 1}, maxdepth=3,
    ),
    dict(
        name="one", w=2, nsig=1, modes=MODES, funcs=["f1", "fv"], emit=["emit", "fast", "call"], nargs=[1], preconn=2, nops=14, budget=40,
        reducers=["none", "none", "cat", "all"],
        top=dict(emit=6, pause=2, resume=2, with_paused=2, with_blocked=1, block=0.3, unblock=0.6),
        body=dict(emit=3, pause=3, resume=3, with_paused=1), pbody=0.4, maxbody=2, exc={"": 6, "u": 1, "b": 0.3}, maxdepth=3,
    ),
]
P["C05"] = [
    dict(
        name="exc", w=4, nsig=2, modes=MODES, owner=["class", "class", "none", "slots", "bool", "len"], funcs=["f1", "fv", "fv2"], objs=[["m1", "at", "[k]"]], relay=[("", 1), ("()", 1)], emit=["emit", "emit", "call", "fast"],
        nargs=[1], prios=[0, 0, 1], preconn=6, nops=7, budget=30, top=dict(emit=8, sender=1, connect=0.5, with_paused=1, recur=0.15),
        body=dict(emit=4, sender=1, connect=0.2, disconnect=0.3), pbody=0.5, maxbody=2, exc={"": 5, "u": 3, "b": 1, "r": 0.7}, propagate=0.6, maxdepth=4,
    ),
    dict(
        name="rec", w=0.4, nsig=3, modes=MODES[:2], funcs=["f1", "fv"], emit=["emit"], nargs=[1], preconn=2, nops=8, budget=12,
        top=dict(emit=2, recur=5, sender=2), body=dict(emit=1, sender=1), pbody=0.2, exc={"": 5, "u": 1}, maxdepth=3,
    ),
]
P["C06"] = [
    dict(
        name="send", w=4, nsig=3, modes=MODES, owner=["class", "none", "shared", "slots", "len"], funcs=["f1", "fv"], objs=[["m1"]], relay=[("", 1), ("", 2)],
        emit=["emit", "emit", "call", "fast"], nargs=[1], preconn=7, nops=8, budget=34, top=dict(emit=6, sender=2, block=0.3, unblock=0.5, with_paused=0.7, killowner=0.15),
        body=dict(emit=4, sender=6, with_blocked=0.3, killowner=0.1), pbody=0.7, maxbody=3, exc={"": 6, "u": 1, "b": 0.3}, propagate=0.5, maxdepth=4,
    ),
]
P["C07"] = [
    dict(
        name="weak", w=4, nsig=2, modes=["immediate", "queued", "latest-only"], owner=["class", "slots", "none"], funcs=["f1", "fp"], sink=True,
        objs=[["m1", "mp", "at"], ["EQ", "m1", "[k]", "()"], ["NOREF", "m1", "at", "[k]"], ["m1", "tw1", "tw2"]], emit=["emit", "call", "fast"],
        nargs=[1, 2], prios=[0, 0, 1], psetter=True, preconn=9, nops=14, budget=36,
        top=dict(emit=5, connect=3, kill=1.5, killsink=0.3, killowner=0.4, len=1, disconnect=1, sender=0.3),
        body=dict(kill=3, emit=1, connect=1, disconnect=1, killowner=0.3), pbody=0.35, maxbody=2, exc={"": 8, "u": 1}, maxdepth=3,
    ),
    dict(
        name="die", w=2, nsig=1, modes=["immediate", "queued", "latest-only"], funcs=["f1"], objs=[["m1"], ["m1"], ["m1"], ["m1", "()"], ["at"]],
        emit=["emit", "fast"], nargs=[1], prios=[0, 0, 1], preconn=9, nops=6, budget=24, top=dict(emit=5, kill=1, len=1), body=dict(kill=4, emit=1), pbody=0.6, maxbody=2, maxdepth=3,
    ),
]
# exhaustive small programs: budgets bound the number of operations
E = {}
E["C01"] = [
    dict(name=f"e-{m}", nsig=1, funcs=["f1", "fv"], emit=[m], nargs=[1], connect=[(0, "f1", 0), (0, "fv", 0), (0, "f1", 1)],
         nops=1, budget=3, top=dict(emit=1), body=dict(connect=1, disconnect=1), maxbody=1, prios=[0, 1], strict=0, maxdepth=2)
    for m in ("emit", "fast")
]
E["C02"] = [
    dict(name="e", nsig=1, funcs=["fp"], nargs=[1], nops=4, budget=4, top={"connect": 1, "disconnect": 1, "in": 1}, body=dict(emit=1),
         uniq=["no", "yes"], prios=[0, 1])
]
E["C03"] = [
    dict(name=f"e-{m}", nsig=1, modes=[m], funcs=["f1", "fv"], nargs=[1], connect=[(0, "f1", 0), (0, "fv", 0)], nops=1, budget=4,
         top=dict(emit=1), body=dict(emit=1), maxbody=2, exc={"": 1}, maxdepth=3)
    for m in MODES
]
E["C04"] = [
    dict(name="e", nsig=1, funcs=["f1"], nargs=[1], connect=[(0, "f1", 0)], nops=5, budget=6,
         top=dict(emit=1, pause=1, resume=1), body=dict(emit=1, pause=1, resume=1), maxbody=1, exc={"": 1}, maxdepth=2),
    dict(name="ec", nsig=1, funcs=["f1"], nargs=[1], connect=[(0, "f1", 0)], nops=2, budget=5, reducers=["none", "cat"],
         top=dict(with_paused=1, with_blocked=1), ctx=dict(emit=1, with_paused=1, with_blocked=1, block=1, pause=1), body=dict(emit=1), maxbody=1, through=0, maxdepth=2),
]
E["C05"] = [
    dict(name=f"e-{m}", nsig=1, modes=[m], funcs=["f1", "fv"], nargs=[1], connect=[(0, "f1", 0), (0, "fv", 0)], nops=2, budget=4,
         top=dict(emit=1), body=dict(emit=1), maxbody=1, exc={"": 1, "u": 1, "b": 1}, propagate=0.5, maxdepth=3)
    for m in MODES
]
E["C06"] = [
    dict(name="e", nsig=2, funcs=["f1", "fv"], nargs=[1], connect=[(0, "f1", 0), (1, "fv", 0)], emit=["emit"], nops=1, budget=5,
         top=dict(emit=1), body=dict(emit=1, sender=1), maxbody=2, exc={"": 1, "u": 1}, propagate=0.5, maxdepth=3)
]
E["C07"] = [
    dict(name="e", nsig=1, funcs=[], objs=[["m1"], ["m1"], ["at"]], nargs=[1], connect=[(0, "o0.m1", 0), (0, "o1.m1", 0)], nops=4, budget=5,
         top=dict(emit=1, kill=1), body=dict(kill=1), maxbody=2, maxdepth=2)
]
NRAND = {"quick": 1500, "thorough": 60000}
NENUM = {"quick": 1200, "thorough": 60000}


def jobs(profile, tier, seed):
    tot = sum(p["w"] for p in P[profile])
    for p in P[profile]:
        n = int(NRAND[tier] * p["w"] / tot)
        yield {"kind": "random", "name": f"{profile}.{p['name']}", "count": n, "params": p}
    for p in E.get(profile, []):
        yield {"kind": "enum", "name": f"{profile}.{p['name']}", "limit": NENUM[tier], "params": p}
