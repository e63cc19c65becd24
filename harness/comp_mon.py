"""Driver of event monitors: objects of all shapes, emissions around and inside of monitors."""

from __future__ import annotations

import contextlib
import functools
import io
import sys
import warnings
from dataclasses import dataclass, field
from typing import ClassVar

import attrs
import msgspec

from psygnal import EmissionInfo, EventedModel, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance, evented
from psygnal.containers import EventedDict, EventedList, EventedSet, SelectableEventedList
from psygnal.utils import iter_signal_instances, monitor_events

PUB = ["s", "alpha", "z9", "Sig", "changed", "m_"]
PRIV = ["_s", "_alpha", "__priv", "_Z"]


class Boom(Exception):
    pass


class MonProg:
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.n = 0
        self.objs = []  # (name, object, {sid: signal}, kind, extra)
        self.sigs = {}  # sid -> signal
        self.ids = {}  # id(signal) -> sid
        self.members = {}  # relay's sid -> members
        self.relay = {}  # member -> relay's sid
        self.cons = {}  # id -> (sid, callback)
        self.mons = []  # active ones: (id, context, kind)
        self.active = []  # signals whose emissions are under way
        self.held = {}
        self.depth = 0
        self.over = False

    def new(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # ---------------------------------------------------------------- objects
    def op_obj(self, kind=None):
        # (making an object may emit, before the signals are known)
        if len(self.objs) >= 4 or self.active or any(x[3] is None for x in self.mons):
            return
        kind = kind or self.ch.pick(self.p.get("kinds") or list(KINDS))
        name = self.new("o")
        obj, found, extra = KINDS[kind](self.ch)
        # found: (signal or group, names)
        out = []
        for s, names in found:
            vis = "pub" if any(not n.startswith("_") for n in names) else "priv"
            if isinstance(s, SignalGroup):
                rel = s.all
                rid = self.new("s")
                mem = []
                for m in s:
                    mid = self.new("s")
                    mem.append(mid)
                    self.reg(mid, s[m])
                    self.relay[mid] = rid
                self.reg(rid, rel)
                self.members[rid] = mem
                whole = names == ["*"]
                for mid in mem:
                    out.append({"id": mid, "vis": "pub" if whole else "no", "relay": rid, "members": []})
                out.append({"id": rid, "vis": "no" if whole else vis, "relay": "", "members": mem})
            else:
                sid = self.new("s")
                self.reg(sid, s)
                out.append({"id": sid, "vis": vis, "relay": "", "members": []})
        self.objs.append((name, obj, kind, extra))
        self.rec.log("obj", o=name, sigs=out)

    def reg(self, sid, s):
        self.sigs[sid] = s
        self.ids[id(s)] = sid

    # ---------------------------------------------------------------- callbacks
    def op_con(self):
        if not self.sigs or self.active or len(self.cons) > 8:
            return
        sid = self.ch.pick(list(self.sigs))
        i = self.new("c")

        def cb(*args):
            self.rec.log("cb", id=i)
            self.depth += 1
            try:
                if not self.over and self.depth < 4 and self.ch.chance(0.35):
                    self.ch.weighted([(self.op_emit, 4), (self.op_change, 2), (self.op_globmon, 1), (self.op_iter, 0.3), (self.op_count, 0.3)])()
            finally:
                self.depth -= 1
            self.rec.log("cbend")

        self.sigs[sid].connect(cb)
        self.cons[i] = (sid, cb)
        self.rec.log("con", sig=sid, id=i)

    def op_dis(self):
        if not self.cons or self.active:
            return
        i = self.ch.pick(list(self.cons))
        sid, cb = self.cons.pop(i)
        self.sigs[sid].disconnect(cb)
        self.rec.log("dis", sig=sid, id=i)

    # ---------------------------------------------------------------- emissions
    def reach(self, sids):
        return {*sids, *(self.relay[s] for s in sids if s in self.relay)}

    def emitting(self, what, do):
        """Log the emission, make it, and log its end."""
        touched = self.reach([w["sig"] for w in what])
        if touched & set(self.active):
            return
        self.active += touched
        old = self.current if hasattr(self, "current") else []
        self.current = what
        self.rec.log("emit", what=what)
        self.ended(do, touched)
        self.current = old

    def ended(self, do, touched):
        r = "ok"
        try:
            do()
        except Exception as e:
            r = type(e).__name__
        self.rec.log("done", r=r)
        for t in touched:
            self.active.remove(t)

    def op_emit(self):
        sids = [s for s in self.sigs if s not in self.members]
        if not sids:
            return
        sid = self.ch.pick(sids)
        s = self.sigs[sid]
        args = tuple(self.ch.choose(50) for _ in range(len(s.signature.parameters)))
        self.emitting([{"sig": sid, "a": [repr(a) for a in args]}], lambda: s(*args) if self.ch.chance(0.2) else s.emit(*args))

    def op_change(self):
        """Use the object instead of its signals."""
        pool = [o for o in self.objs if o[3]]
        if not pool:
            return
        name, obj, kind, extra = self.ch.pick(pool)
        # (nothing of it may be held back: contents would be of several times)
        got = extra(self.ch, obj)
        if got is None:
            return
        evs, do = got
        what = [{"sig": self.ids[id(s)], "a": [repr(a) for a in args]} for s, args in evs]
        if any(w["sig"] in self.held for w in what):
            return
        self.emitting(what, do)

    def op_hold(self):
        if not self.sigs or self.active:
            return
        sid = self.ch.pick(list(self.sigs))
        s = self.sigs[sid]
        how = self.held.get(sid)
        if how is None:
            if sid in self.members or self.ch.chance(0.6):
                s.pause()
                self.held[sid] = "pause"
                self.rec.log("hold", sig=sid, what="pause")
            else:
                s.block()
                self.held[sid] = "block"
                self.rec.log("hold", sig=sid, what="block")
        elif how == "block":
            s.unblock()
            del self.held[sid]
            self.rec.log("hold", sig=sid, what="unblock")
        else:
            del self.held[sid]
            touched = self.reach([sid])
            self.active += touched
            self.rec.log("resume", sig=sid)
            self.ended(s.resume, touched)

    # ---------------------------------------------------------------- monitors
    def report(self, m, signal, args):
        sid = self.ids.get(id(signal), "?")
        if sid in self.members and len(args) == 1 and type(args[0]) is EmissionInfo:
            inner = args[0]
            self.rec.log("rep", m=m, sig=sid, a=[self.ids.get(id(inner.signal), "?"), *(repr(a) for a in inner.args)], rel=True)
        else:
            self.rec.log("rep", m=m, sig=sid, a=[repr(a) for a in args], rel=False)

    def logger(self, m, how, o):
        def tell(info):
            if type(info) is not EmissionInfo:
                self.rec.log("rep", m=m, sig="not an emission", a=[], rel=False)
            else:
                self.report(m, info.signal, info.args)

        class L:
            def __call__(s, info):
                tell(info)

            def method(s, info):
                tell(info)

            @classmethod
            def clsm(c, info):
                tell(info)

            @staticmethod
            def stat(info):
                tell(info)

        class Falsy(L):
            def __bool__(s):
                return False

            def __len__(s):
                return 0

        if how == "old":

            def old(name, args):
                # (signals are known by name only: those of this object)
                sid = next((i for i, n in self.oldnames(o) if n == name), "?")
                self.report(m, self.sigs.get(sid), args)

            return old
        return {
            "func": tell,
            "object": L(),
            "falsy": Falsy(),
            "method": L().method,
            "classm": L.clsm,
            "static": L.stat,
            "partial": functools.partial(lambda x, info: tell(info), 1),
            "lambda": lambda info: tell(info),
            "many": lambda *infos: tell(*infos),
        }[how]

    def oldnames(self, o):
        return [(self.ids[id(s)], s.name) for s in iter_signal_instances(o[1], True) if id(s) in self.ids]

    def op_mon(self):
        if not self.objs or self.active or len(self.mons) >= 4:
            return
        o = self.ch.pick(self.objs)
        self.monitor(o)

    def op_globmon(self):
        self.monitor(None)

    def monitor(self, o):
        ch = self.ch
        if len(self.mons) >= 5:
            return
        m = self.new("m")
        how = ch.weighted([("func", 3), ("object", 1), ("falsy", 0.5), ("method", 1.5), ("classm", 0.5), ("static", 0.5), ("partial", 1), ("lambda", 1), ("many", 0.5), ("old", 0.7), ("print", 0.7)])
        bad = ""
        if how == "print" and (o is None or o[2] not in PRINTABLE or any(x[2] == "print" for x in self.mons)):
            how = "func"
        if how == "old":
            if o is None:
                bad = "ValueError"
            elif o[2] not in PRINTABLE:
                how = "func"
        priv = o is not None and ch.chance(0.4)
        if o is not None and o[2] == "broken":
            bad = "Boom"
        kw = {}
        if how != "print":
            kw["logger"] = self.logger(m, how, o)
        if priv or ch.chance(0.2):
            kw["include_private_attrs"] = priv
        r = "ok"
        out = contextlib.redirect_stdout(Lines(self, m, o)) if how == "print" else contextlib.nullcontext()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                if o is None:
                    ctx = monitor_events(**kw) if ch.chance(0.7) else monitor_events(None, **kw)
                else:
                    ctx = monitor_events(o[1], **kw)
                ctx.__enter__()
            except (ValueError, Boom) as e:
                r = type(e).__name__
        if how == "old" and o is not None and not bad and not any(w.category is UserWarning for w in ws):
            r = "no warning"
        self.rec.log("mon", m=m, o=o[0] if o else "", priv=priv, bad=bad, r=r)
        if r == "ok":
            out.__enter__()
            self.mons.append((m, ctx, how, o, out, self.depth))

    def op_unmon(self):
        # (monitors of the process end in the opposite order; those of objects in any)
        pool = [x for x in self.mons if x[3] is not None] if not self.active else []
        globs = [x for x in self.mons if x[3] is None]
        if globs and not self.active:
            pool.append(globs[-1])
        if not pool:
            return
        x = self.ch.pick(pool)
        self.unmon(x)

    def unmon(self, x):
        self.mons.remove(x)
        m, ctx, how, o, out, _ = x
        out.__exit__(None, None, None)
        raised = self.ch.chance(0.3)
        r = "ok"
        if raised:
            try:
                if ctx.__exit__(RuntimeError, RuntimeError("body"), None):
                    r = "swallowed the error"
            except RuntimeError:
                pass
        else:
            ctx.__exit__(None, None, None)
        self.rec.log("unmon", m=m)

    def op_iter(self):
        pool = [o for o in self.objs if o[2] != "broken"]
        if not pool:
            return
        o = self.ch.pick(pool)
        priv = self.ch.chance(0.5)
        got = [self.ids.get(id(s), "?") for s in (iter_signal_instances(o[1], priv) if priv or self.ch.chance(0.2) else iter_signal_instances(o[1]))]
        self.rec.log("iter", o=o[0], priv=priv, got=got)

    def op_count(self):
        for sid in sorted({self.ch.pick(list(self.sigs)) for _ in range(4)}) if self.sigs else ():
            self.rec.log("count", sig=sid, n=len(self.sigs[sid]))

    def go(self):
        self.rec.h["kind"] = self.p.get("name", "")
        self.op_obj()
        ops = [(getattr(self, "op_" + n), w) for n, w in self.p["ops"]]
        for _ in range(self.p.get("nops", 40)):
            self.ch.weighted(ops)()
        self.over = True
        while self.mons:
            x = [y for y in self.mons if y[3] is not None] or self.mons[-1:]
            self.unmon(x[0])
        self.op_count()
        for sid in list(self.sigs)[:6]:
            if sid not in self.members and sid not in self.held and self.relay.get(sid) not in self.held:
                s = self.sigs[sid]
                args = tuple(range(len(s.signature.parameters)))
                self.emitting([{"sig": sid, "a": [repr(a) for a in args]}], lambda s=s, args=args: s.emit(*args))
        for sid in self.sigs:
            self.rec.log("count", sig=sid, n=len(self.sigs[sid]))
        SignalInstance._debug_hook = None
        self.rec.log("end")


class Lines(io.TextIOBase):
    """Standard output: what the default logger prints."""

    def __init__(self, prog, m, o):
        self.prog, self.m, self.o, self.buf = prog, m, o, ""

    def write(self, s):
        self.buf += s
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            for sid, n in self.prog.oldnames(self.o):
                if line.startswith(n + ".emit(") and line.endswith(")"):
                    body = line[len(n) + 6 : -1].rstrip(",")
                    self.prog.rec.log("rep", m=self.m, sig=sid, a=[x.strip() for x in body.split(",") if x], rel=False)
                    break
            else:
                self.prog.rec.log("rep", m=self.m, sig="?", a=[line], rel=False)
        return len(s)


# ---------------------------------------------------------------- shapes of objects
def sig(ch):
    return Signal(*[int] * ch.choose(3))


def plain(ch, base=(), ns=None, init=None):
    """A class with some public and private signals, perhaps inherited, with aliases."""
    names = list(dict.fromkeys([ch.pick(PUB), ch.pick(PUB), ch.pick(PRIV)][: 1 + ch.choose(3)]))
    if ch.chance(0.3):
        names = [n for n in names if n.startswith("_")] or ["_only"]
    ns = dict(ns or {})
    for n in names:
        ns[n] = sig(ch)
    alias = {}
    if ch.chance(0.3):
        n = ch.pick(names)
        a = ch.pick(["_alias", "another", "a0"])
        ns[a] = ns[n]
        alias[n] = a
    if base and ch.chance(0.5):
        base = (type("Base", base, ns),)
        ns = {}
        if ch.chance(0.4):
            n = ch.pick(names)
            if n not in alias:
                ns[n] = sig(ch)
    cls = type("C", base or (object,), ns)
    return cls, names, alias


def found(o, names, alias):
    return [(getattr(o, n), [n] + ([alias[n]] if n in alias else [])) for n in names]


def k_plain(ch):
    cls, names, alias = plain(ch, (object,))
    o = cls()
    return o, found(o, names, alias), None


def k_slots(ch):
    cls, names, alias = plain(ch, (), {"__slots__": ("x", "__weakref__") if ch.chance(0.5) else ("x",)})
    o = cls()
    return o, found(o, names, alias), None


def k_props(ch):
    """Attributes that are missing, properties that give a signal, other attributes."""

    def missing(self):
        raise AttributeError("no")

    own = SignalInstance((int,), name="own")
    cls, names, alias = plain(ch, (object,), {"none": property(missing), "val": 3, "gives": property(lambda self: own), "text": "s", "many": [own], "SigT": Signal})
    o = cls()
    return o, [*found(o, names, alias), (own, ["gives"])], None


def k_inst(ch):
    """Signals that are stored in the object."""

    class C:
        s = Signal(int)

    o = C()
    a, b = SignalInstance((int,), name="a"), SignalInstance((), name="b")
    o.a, o._b = a, b
    got = [(o.s, ["s"]), (a, ["a"]), (b, ["_b"])]
    if ch.chance(0.5):
        o.c = a
    if ch.chance(0.5):
        o._d = o.s
    return o, got, None


def k_broken(ch):
    """An attribute that raises: it can't be monitored."""

    def bad(self):
        raise Boom

    cls, names, alias = plain(ch, (object,), {ch.pick(["aa", "zz", "mm"]): property(bad)})
    o = cls()
    return o, found(o, names, alias), None


def k_eq(ch):
    """An object that is equal to everything, falsy, and not hashable."""
    cls, names, alias = plain(ch, (object,), {"__eq__": lambda s, o: True, "__hash__": None, "__bool__": lambda s: False, "__len__": lambda s: 0})
    o = cls()
    return o, found(o, names, alias), None


class G(SignalGroup):
    a = Signal(int)
    b = Signal(int, int)


class GU(SignalGroup, strict=True):
    a = Signal(int)
    b = Signal(int)


def k_group(ch):
    g = ch.pick([G, GU])(None)
    return g, [(g, ["*"])], None


def k_groupattr(ch):
    """A group (and perhaps a signal, and a second name of the group)."""
    pub, second = ch.chance(0.7), ch.chance(0.4)
    n = "events" if pub else "_events"

    class C:
        s = Signal(int)

        def __init__(self):
            setattr(self, n, G(self))
            if second:
                self.zz = getattr(self, n)

    o = C()
    return o, [(o.s, ["s"]), (getattr(o, n), [n, "zz"] if second else [n])], None


def changes(both=True):
    def extra(ch, o):
        n = ch.pick(["x", "y"])
        old, v = getattr(o, n), ch.choose(100)
        if v == old:
            v += 1000
        # (a field nobody listens to need not emit)
        if not len(o.events[n]):
            return None
        return [(o.events[n], (v, old) if both else (v,))], lambda: setattr(o, n, v)

    return extra


def k_data(ch):
    kind = ch.pick(["dc", "desc", "attrs", "msgspec", "slots"])
    if kind == "dc":

        @evented
        @dataclass
        class D:
            x: int = 0
            y: int = 0
            s: ClassVar[Signal] = Signal(int)
    elif kind == "slots":

        @dataclass(slots=True, weakref_slot=True)
        class D:
            x: int = 0
            y: int = 0
            s: ClassVar[Signal] = Signal(int)
            events: ClassVar = SignalGroupDescriptor()

    elif kind == "desc":

        @dataclass
        class D:
            x: int = 0
            y: int = 0
            s: ClassVar[Signal] = Signal(int)
            events: ClassVar = SignalGroupDescriptor()

    elif kind == "attrs":

        @evented
        @attrs.define(slots=False)
        class D:
            x: int = 0
            y: int = 0
            s: ClassVar[Signal] = Signal(int)
    else:

        @evented
        class D(msgspec.Struct, weakref=True, dict=True):
            x: int = 0
            y: int = 0
            s: ClassVar[Signal] = Signal(int)

    o = D()
    return o, [(o.s, ["s"]), (o.events, ["events"])], changes()


def k_model(ch):
    if ch.chance(0.5):

        class M(EventedModel):
            x: int = 0
            y: int = 0
    else:

        class M(EventedModel):
            x: int = 0
            y: int = 0
            sig: ClassVar[Signal] = Signal(int)

    o = M()
    return o, [(o.events, ["events"]), *([(o.sig, ["sig"])] if hasattr(M, "sig") else [])], changes(False)


def k_set(ch):
    o = EventedSet([1, 2, 3])

    def extra(ch, o):
        how = ch.pick(["add", "discard", "update", "clear"])
        vals = [ch.choose(6) for _ in range(1 + ch.choose(2))]
        cur = list(o)
        if how == "add":
            new = vals[:1]
            ev = tuple(v for v in new if v not in cur), ()
            return ([(o.events.items_changed, ev)] if ev[0] else []), lambda: o.add(new[0])
        if how == "discard":
            ev = (), tuple(v for v in vals[:1] if v in cur)
            return ([(o.events.items_changed, ev)] if ev[1] else []), lambda: o.discard(vals[0])
        if how == "update":
            ev = tuple(dict.fromkeys(v for v in vals if v not in cur)), ()
            return ([(o.events.items_changed, ev)] if ev[0] else []), lambda: o.update(vals)
        if len(cur) > 1:
            return None  # (the order is not ours to tell)
        return ([(o.events.items_changed, ((), tuple(cur)))] if cur else []), o.clear

    return o, [(o.events, ["events"])], extra


def k_dict(ch):
    o = EventedDict({"a": 1})

    def extra(ch, o):
        k, v = ch.pick("abc"), ch.choose(50)
        e = o.events
        if k in o:
            if ch.chance(0.4):
                old = o[k]
                return [(e.removing, (k,)), (e.removed, (k, old))], lambda: o.__delitem__(k)
            v += 100
            if o[k] == v:
                return None
            return [(e.changing, (k,)), (e.changed, (k, o[k], v))], lambda: o.__setitem__(k, v)
        return [(e.adding, (k,)), (e.added, (k, v))], lambda: o.__setitem__(k, v)

    return o, [(o.events, ["events"])], extra


def k_list(ch):
    o = EventedList([1])

    def extra(ch, o):
        e, v, n = o.events, 100 + ch.choose(50), len(o)
        if n and ch.chance(0.4):
            i = ch.choose(n)
            return [(e.removing, (i,)), (e.removed, (i, o[i]))], lambda: o.__delitem__(i)
        return [(e.inserting, (n,)), (e.inserted, (n, v))], lambda: o.append(v)

    return o, [(o.events, ["events"])], extra


KINDS = {
    "plain": k_plain, "slots": k_slots, "props": k_props, "inst": k_inst, "broken": k_broken, "eq": k_eq, "group": k_group, "groupattr": k_groupattr,
    "data": k_data, "model": k_model, "set": k_set, "dict": k_dict, "list": k_list,
}
PRINTABLE = {"plain", "slots", "eq", "group"}

OPS = [("obj", 0.6), ("con", 2), ("dis", 0.7), ("emit", 5), ("change", 4), ("hold", 1), ("mon", 2), ("globmon", 1), ("unmon", 1.5), ("iter", 1), ("count", 1)]
NRAND = {"quick": 4000, "thorough": 60000}


def run(profile, params, ch, rec):
    try:
        MonProg(params, ch, rec).go()
    finally:
        SignalInstance._debug_hook = None


def jobs(profile, tier, seed):
    n = NRAND[tier]
    yield {"kind": "random", "name": "C25.all", "count": n, "params": {"ops": OPS}}
    for k in KINDS:
        yield {"kind": "random", "name": f"C25.{k}", "count": n // 16, "params": {"ops": OPS, "kinds": [k], "nops": 25}}
