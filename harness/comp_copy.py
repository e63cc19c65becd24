"""Driver of pickles and copies: objects with signals and containers, before and after."""

from __future__ import annotations

import copy
import pickle
import warnings
from dataclasses import dataclass
from functools import partial

from psygnal import EmissionInfo, EventedModel, Signal, SignalGroup, SignalInstance, evented
from psygnal.containers import EventedDict, EventedList, EventedOrderedSet, EventedSet, SelectableEventedList

PROG = None


# ---------------------------------------------------------------- what can be pickled
class Own:
    s = Signal(int, description="something")
    t = Signal(int, int, name="other", reemission="queued", check_nargs_on_connect=False)
    u = Signal(int, reemission="latest-only", check_types_on_connect=True)
    v = Signal()


class SlotsOwn:
    __slots__ = ("_s", "_u", "__weakref__", "x")
    s = Signal(int)
    u = Signal(int, reemission="queued", check_types_on_connect=True, description="u")

    def __eq__(self, o):
        return type(o) is SlotsOwn

    __hash__ = object.__hash__


class EqOwn(Own):
    def __eq__(self, o):
        return type(o) is type(self)

    __hash__ = None


class Grp(SignalGroup):
    a = Signal(int, description="a of the group")
    b = Signal(int, int, name="bee")
    connect = Signal(int)  # (the name of a method)


class Child:
    s = Signal(int)


class Holder:
    def __init__(self):
        self.events = Grp(self)
        self.other = 3


class Model(EventedModel):
    x: int = 0
    y: int = 0


@evented
@dataclass
class Data:
    x: int = 0
    y: int = 0


class MyList(EventedList):
    """(with an attribute, and pickled like any object)"""

    mark = 0


class MyDict(EventedDict):
    mark = 0


def _fun(name):
    def f(*args):
        PROG.called(name, args)

    f.__name__ = f.__qualname__ = name
    return f


f0, f1, f2, q0, q1 = (_fun(n) for n in ("f0", "f1", "f2", "q0", "q1"))


class Target:
    def __init__(self, name):
        self.name = name

    def method(self, *args):
        PROG.called(self.name, args)

    def __deepcopy__(self, memo):
        raise RuntimeError("what is held weakly is not copied")

    def __reduce__(self):
        raise RuntimeError("what is held weakly is not pickled")


class CopyProg:
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.n = self.v = 0
        self.objs = {}  # name -> dict(obj, kind, sigs: name -> sid, busy)
        self.sigs, self.ids, self.names = {}, {}, {}
        self.relay, self.members, self.lists = {}, {}, {}
        self.cons = {}  # sid -> {f: callable}
        self.held = {}
        self.active = []
        self.depth = 0
        self.mute = None
        self.w = {n: Target(n) for n in ("w0", "w1")}
        self.local = {n: _fun(n) for n in ("l0",)}
        self.local["l0"].__qualname__ = "nowhere.l0"

    def new(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # ---------------------------------------------------------------- objects
    def signals(self, obj, kind):
        """The signals of an object by name: (signal, name of its group's relay, of its list)."""
        if kind == "sig":
            return {"s": (obj, "", "")}
        if kind == "own":
            return {n: (getattr(obj, n), "", "") for n in (("s", "u") if isinstance(obj, SlotsOwn) else ("s", "t", "u", "v"))}
        g = obj if kind == "grp" else obj.events
        out = {n: (g[n], "*", "") for n in g}
        out["*"] = (g.all, "", "")
        if kind == "child":
            for i, c in enumerate(obj):
                out[f"{i}.s"] = (c.s, "", "child_event")
        return out

    def props(self, s):
        def nine(a, b, c, d, e, f, g, h, i):
            pass

        def text(a: str = "", *args):
            pass

        def ok(f):
            try:
                s.connect(f)
                s.disconnect(f)
            except ValueError:
                return False
            return True

        return {"name": str(s.name), "desc": str(s.description), "sig": str(s.signature), "mode": "?", "nargs": not ok(nine), "types": not ok(text)}

    def register(self, o, obj, kind, mapped=None):
        """Give the signals of a new object their ids; returns name -> id."""
        all_ = mapped if mapped is not None else self.signals(obj, kind)
        ids = {n: self.new("s") for n in all_}
        for n, (s, rel, lst) in all_.items():
            sid = ids[n]
            self.sigs[sid], self.ids[id(s)], self.names[sid] = s, sid, (o, n)
            self.cons[sid] = {}
            if rel:
                self.relay[sid] = ids[rel]
                self.members.setdefault(ids[rel], []).append(sid)
            if lst:
                self.lists[sid] = ids[lst]
        self.objs[o] = {"obj": obj, "kind": kind, "sigs": ids, "busy": False}
        return ids

    def op_obj(self):
        ch = self.ch
        if len(self.objs) >= 6 or self.active:
            return
        kind = ch.pick(self.p.get("kinds") or ["sig", "own", "own", "grp", "holder", "list", "dict", "set", "sel", "child", "model", "data"])
        o = self.new("o")
        c, mode = [], {}
        if kind == "sig":
            mode["s"] = ch.pick(["immediate", "queued", "latest-only"])
            obj = SignalInstance((int,) if ch.chance(0.5) else (int, int), name=ch.pick(["", "n"]), description=ch.pick(["", "d"]), reemission=mode["s"], check_nargs_on_connect=ch.chance(0.6), check_types_on_connect=ch.chance(0.3))
        elif kind == "own":
            obj = ch.pick([Own, EqOwn])()
            mode = {"s": "immediate", "t": "queued", "u": "latest-only", "v": "immediate"}
        elif kind == "grp":
            obj = Grp(None)
        elif kind == "holder":
            obj, kind = Holder(), "holder"
        elif kind == "list":
            c = [self.val() for _ in range(ch.choose(4))]
            obj = ch.pick([EventedList, MyList])(c)
            if type(obj) is MyList:
                obj.mark = 5
        elif kind == "sel":
            c = [self.val() for _ in range(ch.choose(4))]
            obj = SelectableEventedList()
            for x in c:
                obj.append(x)
        elif kind == "dict":
            c = [[k, self.val()] for k in "ab"[: ch.choose(3)]]
            obj = ch.pick([EventedDict, MyDict])({k: v for k, v in c}, basetype=int)
        elif kind == "set":
            c = [self.val() for _ in range(ch.choose(4))]
            obj = ch.pick([EventedSet, EventedOrderedSet])(c)
        elif kind == "child":
            n = 1 + ch.choose(2)
            obj, c = EventedList([Child() for _ in range(n)], child_events=True), [n]
        elif kind == "model":
            obj, c = Model(), [["x", 0], ["y", 0]]
        else:
            obj, c = Data(), [["x", 0], ["y", 0]]
        ids = self.register(o, obj, kind)
        self.rec.log("obj", o=o, kind=kind, c=c, sigs=[
            {"id": ids[n], "n": n, "relay": self.relay.get(ids[n], ""), "list": self.lists.get(ids[n], ""), "members": self.members.get(ids[n], []),
             "p": {**self.props(s), "mode": mode.get(n, "?")}}
            for n, (s, _, _) in self.signals(obj, kind).items()
        ])
        self.modes = {**getattr(self, "modes", {}), **{ids[n]: m for n, m in mode.items()}}
        if kind == "sel" and c:
            # (what was put in last is selected)
            self.rec.log("op", o=o, op="select", v=c[-1], key="")
            self.rec.log("done", r="ok", x="ok")

    def val(self):
        self.v += 1
        return self.v

    # ---------------------------------------------------------------- connections
    def fun(self, f):
        if f in ("q0", "q1"):
            return partial(globals()[f], f"p{f[1]}")
        if f in self.w:
            return self.w[f].method
        return self.local.get(f) or globals()[f]

    def op_con(self):
        ch = self.ch
        if not self.sigs or self.active:
            return
        sid = ch.pick(list(self.sigs))
        f = ch.weighted([("f0", 3), ("f1", 3), ("f2", 2), ("q0", 1), ("q1", 1), ("w0", 1), ("w1", 0.7), ("l0", 0.2)])
        if f in self.cons[sid]:
            return
        whole = sid in self.members or sid in self.lists.values()
        # (who made a call must be seen from its arguments)
        mx = -1 if whole else ch.weighted([(-1, 5), (0, 1), (1, 1)])
        prio = ch.pick([0, 0, 0, 1, 5, -2])
        kw = {}
        if mx >= 0:
            kw["max_args"] = mx
        if prio:
            kw["priority"] = prio
        self.sigs[sid].connect(self.fun(f), **kw)
        self.cons[sid][f] = mx
        self.rec.log("con", sig=sid, f=f, prio=prio, max=mx, pre=[f"p{f[1]}"] if f[0] == "q" else [], weak=f[0] == "w", local=f[0] == "l")

    def op_dis(self):
        if not self.sigs or self.active:
            return
        sid = self.ch.pick(list(self.sigs))
        f = self.ch.pick(list(self.cons[sid]) or ["f0"])
        r = "ok"
        try:
            self.sigs[sid].disconnect(self.fun(f), missing_ok=False)
        except ValueError:
            r = "ValueError"
        for x in [sid, *self.members.get(sid, [])]:
            self.cons[x].pop(f, None)
        self.rec.log("dis", sig=sid, f=f, r=r)

    # ---------------------------------------------------------------- callbacks
    def sid(self, s):
        return "@" + self.ids.get(id(s), "?")

    def enc(self, args):
        if len(args) == 1 and type(args[0]) is EmissionInfo:
            return [self.sid(args[0].signal), *self.enc(args[0].args)]
        if len(args) == 4 and isinstance(args[2], SignalInstance):
            idx, obj, em, a = args
            o, n = self.names.get(self.ids.get(id(em)), ("", ""))
            lst = self.objs[o]["obj"] if o else None
            fine = o and em.instance is obj and lst[idx] is obj
            return ["child" if fine else "child?", self.sid(em), *self.enc(a)]
        return [x if isinstance(x, str) else repr(x) for x in args]

    def called(self, f, args):
        if self.mute is not None:
            return
        pre = []
        if f[0] == "q":
            pre, args = [args[0]], args[1:]
        self.rec.log("cb", f=f, a=pre + self.enc(args))
        self.depth += 1
        if not self.over and self.depth < 3 and self.ch.chance(0.35):
            self.ch.weighted([(self.op_copy, 4), (self.op_emit, 2), (self.op_use, 1)])()
        self.depth -= 1
        self.rec.log("cbend")

    # ---------------------------------------------------------------- emissions
    def reach(self, sid):
        l = self.lists.get(sid)
        return [x for x in (sid, self.relay.get(sid), l, self.relay.get(l)) if x]

    def doing(self, do, touched, x="ok"):
        self.active += touched
        r = "ok"
        try:
            do()
        except Exception as e:
            r = type(e).__name__
        for t in touched:
            self.active.remove(t)
        self.rec.log("done", r=r, x=x)

    def op_emit(self, sid=None):
        pool = [s for s in self.sigs if s not in self.members and s not in self.lists.values()]
        # (what a set or list announces is not emitted by hand)
        pool = [s for s in pool if self.objs[self.names[s][0]]["kind"] not in ("list", "dict", "set", "sel") and (self.objs[self.names[s][0]]["kind"] != "child" or s in self.lists)]
        if sid is None:
            if not pool:
                return
            sid = self.ch.pick(pool)
        t = self.reach(sid)
        if set(t) & set(self.active):
            return
        s = self.sigs[sid]
        args = [self.ch.choose(50) for _ in s.signature.parameters]
        self.rec.log("emit", sig=sid, a=[repr(a) for a in args])
        self.doing(lambda: s.emit(*args), t)

    def op_use(self):
        """Use a container or a model."""
        ch = self.ch
        pool = [o for o, d in self.objs.items() if d["kind"] in ("list", "dict", "set", "sel", "model", "data") and not set(d["sigs"].values()) & {*self.active, *self.held}]
        if not pool:
            return
        o = ch.pick(pool)
        d = self.objs[o]
        obj, kind = d["obj"], d["kind"]
        v, key, x = self.val(), "", "ok"
        if kind in ("list", "sel"):
            op = ch.pick(["append", "append", "pop", "put"] + (["select"] * 2 if kind == "sel" else []))
            if not len(obj) and op != "append":
                return
            if op == "select":
                v = ch.pick(list(obj))
            do = {"append": lambda: obj.append(v), "pop": lambda: obj.pop(0), "put": lambda: obj.__setitem__(0, v), "select": lambda: obj.selection.add(v)}[op]
        elif kind == "dict":
            key = ch.pick("abc")
            op = ch.pick(["set", "del", "set", "bad"])
            if op == "del" and key not in obj:
                return
            if op == "bad":
                x = "TypeError"
            do = {"set": lambda: obj.__setitem__(key, v), "del": lambda: obj.__delitem__(key), "bad": lambda: obj.__setitem__(key, "text")}[op]
        elif kind == "set":
            op = ch.pick(["add", "discard"])
            if ch.chance(0.6) and len(obj):
                v = ch.pick(sorted(obj))
            do = {"add": lambda: obj.add(v), "discard": lambda: obj.discard(v)}[op]
        else:
            op, key = "field", ch.pick("xy")
            do = lambda: setattr(obj, key, v)  # noqa: E731
        d["busy"] = True
        self.rec.log("op", o=o, op=op, v=v, key=key)
        self.doing(do, list(d["sigs"].values()), x)
        d["busy"] = False
        self.content(o)

    def content(self, o):
        d = self.objs[o]
        obj, kind = d["obj"], d["kind"]
        if kind not in ("list", "dict", "set", "sel", "model", "data"):
            return
        sel = []
        if kind in ("list", "sel"):
            c = list(obj)
            if kind == "sel":
                sel = sorted(obj.selection)
        elif kind == "dict":
            c = [[k, v] for k, v in obj.items()]
        elif kind == "set":
            c = sorted(obj)
        else:
            c = [["x", obj.x], ["y", obj.y]]
        self.rec.log("content", o=o, c=c, sel=sel)

    def op_hold(self):
        """Block or pause a signal, or undo it."""
        ch = self.ch
        pool = [s for s in self.sigs if self.objs[self.names[s][0]]["kind"] in ("sig", "own", "grp", "holder")]
        if self.active or not pool:
            return
        sid = ch.pick(pool)
        s = self.sigs[sid]
        how = self.held.get(sid)
        if how == "group":
            return
        if how is None:
            what = ch.pick(["pause", "block"])
            if what == "block" and any(self.held.get(m) for m in self.members.get(sid, [])):
                return
            if what == "block" and sid in self.relay:
                return
            (s.pause if what == "pause" else s.block)()
            self.held[sid] = what
            if what == "block":
                for m in self.members.get(sid, []):
                    self.held[m] = "group"
            self.rec.log("hold", sig=sid, what=what)
        elif how == "block":
            s.unblock()
            for m in [sid, *self.members.get(sid, [])]:
                self.held.pop(m, None)
            self.rec.log("hold", sig=sid, what="unblock")
        else:
            del self.held[sid]
            self.rec.log("resume", sig=sid)
            self.doing(s.resume, self.reach(sid))

    # ---------------------------------------------------------------- copies
    def op_copy(self):
        ch = self.ch
        if len(self.objs) >= 9:
            return
        pool = [o for o, d in self.objs.items() if not d["busy"]]
        if not pool:
            return
        o = ch.pick(pool)
        d = self.objs[o]
        obj, kind = d["obj"], d["kind"]
        hows = {"sig": ["pickle", "deep"], "own": ["pickle", "deep"], "grp": ["pickle", "deep"], "holder": ["pickle", "deep"], "child": ["pickle", "deep"], "model": ["deep", "copy"], "data": ["deep"]}.get(kind, ["pickle", "deep", "copy"])
        how = ch.pick(hows)
        if how != "pickle" and kind not in ("sig", "own") and set(self.held) & set(d["sigs"].values()):
            return
        only = kind == "own" and ch.chance(0.2)
        src = obj
        if only:
            n = ch.pick(list(d["sigs"]))
            src = self.sigs[d["sigs"][n]]
        pair = ch.chance(0.2)
        r, new = "ok", None
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                if how == "pickle":
                    proto = ch.pick([2, 3, 4, 5])
                    if pair:
                        a, new = pickle.loads(pickle.dumps([src, src], proto))
                        if a is not new:
                            r = "two objects"
                    else:
                        new = pickle.loads(pickle.dumps(src, proto))
                elif how == "deep":
                    if pair:
                        a, new = copy.deepcopy([src, src])
                        if a is not new:
                            r = "two objects"
                    else:
                        new = src.model_copy(deep=True) if kind == "model" and ch.chance(0.5) else copy.deepcopy(src)
                elif kind == "model":
                    new = src.model_copy() if ch.chance(0.5) else copy.copy(src)
                else:
                    new = src.copy() if ch.chance(0.5) else copy.copy(src)
            except (pickle.PicklingError, AttributeError):
                r = "error"
        no = self.new("o")
        ids, fresh, eq = {}, True, True
        if r == "ok":
            fresh = new is not src and type(new) is type(src) and getattr(new, "mark", 0) == getattr(src, "mark", 0) or (how == "copy" and hasattr(src, "mark"))
            if kind in ("list", "dict", "set", "sel", "model", "data"):
                eq = bool(new == src)
            if only or kind == "sig":
                ids = self.register(no, new, "sig", {n if only else next(iter(d["sigs"])): (new, "", "")})
            else:
                ids = self.register(no, new, kind)
            keeps = how == "pickle" or kind in ("sig", "own")
            for n, s2 in ids.items():
                s1 = d["sigs"][n]
                if keeps or "." in n:
                    self.cons[s2] = {f: m for f, m in self.cons[s1].items() if f[0] != "w"}
                    if s1 in self.held:
                        self.held[s2] = self.held[s1]
                if s1 in self.modes:
                    self.modes[s2] = self.modes[s1]
        sel = sorted(new.selection) if r == "ok" and kind == "sel" else []
        self.rec.log("copy", sel=sel, o=o, new=no, how=how, only=only, r=r, fresh=bool(fresh), eq=eq, warned=any("weakly" in str(w.message) for w in ws), map=[{"n": n, "id": i} for n, i in ids.items()])
        if r != "ok":
            return
        for n, sid in ids.items():
            if only or kind == "sig":
                continue
            s = self.sigs[sid]
            own = new if kind == "own" or n == "*" or kind == "grp" else new.events if "." not in n else new[int(n[0])]
            if kind == "grp" and n == "*":
                own = None
            self.rec.log("owner", sig=sid, **{"is": s.instance is own})
        self.content(no)
        for sid in ids.values():
            if ch.chance(0.3):
                self.info(sid)

    def info(self, sid):
        s = self.sigs[sid]
        if set(self.reach(sid)) & set(self.active) or sid in self.active:
            return
        self.rec.log("info", sig=sid, p={**self.props(s), "mode": self.modes.get(sid, "?")}, n=len(s) if self.objs[self.names[sid][0]]["kind"] in ("sig", "own", "grp", "holder") else -1, has=[f for f in ("f0", "f1", "f2", "q0", "q1", "w0", "w1", "l0") if self.fun(f) in s])

    def op_info(self):
        if self.sigs:
            self.info(self.ch.pick(list(self.sigs)))

    def op_mode(self):
        """How does a signal treat emissions of its callbacks?"""
        pool = [s for s in self.sigs if s in self.modes and s not in self.active and s not in self.held]
        if not pool or self.active:
            return
        sid = self.ch.pick(pool)
        s = self.sigs[sid]
        args = [0] * len(s.signature.parameters)
        got = []
        first = []

        def a(*_):
            got.append("A")
            if not first:
                first.append(1)
                s.emit(*args)

        def b(*_):
            got.append("B")

        self.mute = got
        s.connect(a, priority=1000)
        s.connect(b, priority=-1000)
        try:
            s.emit(*args)
        finally:
            s.disconnect(a)
            s.disconnect(b)
            self.mute = None
        self.rec.log("mode", sig=sid, mode={"AABB": "immediate", "ABAB": "queued", "AAB": "latest-only"}.get("".join(got), "".join(got)))

    over = False

    def go(self):
        self.rec.h["kind"] = ""
        self.modes = {}
        self.op_obj()
        ops = [(getattr(self, "op_" + n), w) for n, w in self.p["ops"]]
        for _ in range(self.p.get("nops", 40)):
            self.ch.weighted(ops)()
        self.over = True
        for sid in list(self.sigs):
            if self.ch.chance(0.2):
                self.info(sid)
            if self.objs[self.names[sid][0]]["kind"] in ("sig", "own", "grp", "holder") and sid not in self.members:
                self.op_emit(sid)
        for o in list(self.objs):
            self.content(o)
        self.rec.log("end")


OPS = [("obj", 1), ("con", 5), ("dis", 0.7), ("emit", 4), ("use", 4), ("hold", 1.2), ("copy", 4), ("info", 0.7), ("mode", 0.6)]
NRAND = {"quick": 2400, "thorough": 60000}


def run(profile, params, ch, rec):
    global PROG
    PROG = CopyProg(params, ch, rec)
    try:
        PROG.go()
    finally:
        PROG = None


def jobs(profile, tier, seed):
    n = NRAND[tier]
    yield {"kind": "random", "name": "C24.all", "count": n, "params": {"ops": OPS}}
    for k in ("sig", "own", "grp", "holder", "list", "dict", "set", "sel", "child", "model", "data"):
        yield {"kind": "random", "name": f"C24.{k}", "count": n // 16, "params": {"ops": OPS, "kinds": [k], "nops": 30}}
