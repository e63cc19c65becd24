"""Driver of the ownership of signals: classes, objects, and what their attributes give."""

from __future__ import annotations

import gc
import threading
import weakref
from dataclasses import dataclass, make_dataclass
from typing import ClassVar

import sched

sched.install()

import attrs  # noqa: E402
import msgspec  # noqa: E402
import pydantic  # noqa: E402
import pydantic.dataclasses  # noqa: E402

from psygnal import EventedModel, Signal, SignalGroup, SignalGroupDescriptor, evented  # noqa: E402

sched.in_threads()


class Eq:
    def __eq__(self, o):
        return True

    __hash__ = None


class EqHash:
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class Ambiguous:
    """Like an array: can be neither compared nor tested."""

    def __eq__(self, o):
        raise ValueError("ambiguous")

    def __bool__(self):
        raise ValueError("ambiguous")

    def __len__(self):
        raise ValueError("ambiguous")

    def __hash__(self):
        raise ValueError("ambiguous")


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Redirect:
    def __setattr__(self, n, v):
        self.__dict__.setdefault("_store", {})[n] = v


class Refuse:
    def __setattr__(self, n, v):
        raise RuntimeError("read only")


class GetAttr:
    def __getattr__(self, n):
        return 1


# kind: (bases, namespace, weakly referenceable)
PLAIN = {
    "plain": ((), {}, True), "eq": ((Eq,), {}, True), "eqhash": ((EqHash,), {}, True), "falsy": ((Falsy,), {}, True),
    "ambiguous": ((Ambiguous,), {}, True), "redirect": ((Redirect,), {}, True), "refuse": ((Refuse,), {}, True),
    "getattr": ((GetAttr,), {}, True), "list": ((list,), {}, True), "dict": ((dict,), {}, True),
    "slots": ((), {"__slots__": ("__weakref__", "v")}, True), "slotsnw": ((), {"__slots__": ("v",)}, False),
    "slotsd": ((), {"__slots__": ("__dict__",)}, False), "int": ((int,), {}, False), "tuple": ((tuple,), {"__slots__": ()}, False),
    "exc": ((Exception,), {}, True),
}
KINDS = [*PLAIN, "dc", "dcslots", "frozen", "attrs", "attrsnw", "msgspec", "msgspecnw", "pyddc", "pyd", "evmodel", "evdc", "meta"]
MIXABLE = ["plain", "eq", "eqhash", "falsy"]


class G1(SignalGroup):
    a = Signal(int)
    b = Signal(int)


class G2(SignalGroup):
    a = Signal(int, name="a2")
    all = Signal(int)  # (a member that hides the group's own attribute)
    s1 = Signal(int)


class G3(G1):
    b = Signal(int)
    c = Signal(int)


GROUPS = {"G1": (G1, {"a": "a", "b": "b"}), "G2": (G2, {"a": "a2", "all": "all", "s1": "s1"}), "G3": (G3, {"a": "a", "b": "b", "c": "c"})}
LOGGING = [None]


class OwnProg(sched.Sched):
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.cls = {}  # name -> dict(cls, kind, spec)
        self.decl = {}  # id of a declaration -> its name
        self.keep = []  # (declarations are never freed: ids stay unique)
        self.obj = {}
        self.toks = {}  # token -> the signal or group
        self.tok_of = {}
        self.par = {}  # token of a group's member -> ...
        self.ncls = self.nobj = self.ntok = self.ncb = 0
        self.cons = {}
        self.cb = {}
        self.base = {}
        self.ghosts = {}  # id of dropped objects that their signals keep alive -> name
        self.kinds = params.get("kinds") or KINDS
        LOGGING[0] = self
        super().__init__(ch, ch.pick(params.get("mean", [0])), ch.chance(params.get("opcodes", 0)))

    def on_threads(self, threads):
        pass

    # ---------------------------------------------------------------- classes
    def declare(self, cn, attr, sig):
        if id(sig) not in self.decl:
            self.decl[id(sig)] = f"{cn}.{attr}"
            self.keep.append(sig)
        return self.decl[id(sig)]

    def members(self, attr, d, names):
        return {f"{attr}.{m}": {"d": d, "m": m, "name": n} for m, n in names.items()}

    def op_class(self):
        ch = self.ch
        if len(self.cls) >= 4:
            cn = ch.pick(sorted(self.cls))
            if not any(o["cls"] == cn for o in self.obj.values()) and not any(cn in c["bases"] for c in self.cls.values()):
                del self.cls[cn]
                self.rec.log("dropcls", cls=cn)
                gc.collect()
            return
        self.ncls += 1
        cn = f"C{self.ncls}"
        bases = []
        if self.cls and ch.chance(0.55):
            bases = [ch.pick(sorted(self.cls))]
            if self.cls[bases[0]]["kind"] in MIXABLE and ch.chance(0.4):
                more = [c for c in sorted(self.cls) if self.cls[c]["kind"] in MIXABLE and c not in bases and c not in self.cls[bases[0]]["bases"]]
                if more:
                    bases.append(ch.pick(more))
        kind = self.cls[bases[0]]["kind"] if bases else ch.pick(self.kinds)
        ns, own, groups = {}, {}, {}
        for attr in ("s1", "s2"):
            if ch.chance(0.75 if not bases else 0.4):
                name = ch.weighted([(None, 3), ("custom", 1), ("s1", 1), ("s2", 0.5)])
                ns[attr] = sig = Signal(int, name=name)
                own[attr] = {"d": self.declare(cn, attr, sig), "m": "", "name": name or attr}
        if own and ch.chance(0.3):
            # the same declaration under two names
            o = ch.pick(sorted(own))
            ns["s3"], own["s3"] = ns[o], own[o]
        if ch.chance(0.2) and self.cls:
            # another class's declaration
            other = self.cls[ch.pick(sorted(self.cls))]
            t = ch.pick(sorted(a for a in other["spec"]["attrs"] if "." not in a and a not in other["spec"]["groups"]) or [""])
            if t and isinstance(sig := getattr(other["cls"], t), Signal):
                ns["s4"], own["s4"] = sig, other["spec"]["attrs"][t]
        for attr in ("g", "h"):
            if ch.chance(0.4 if not bases else 0.25):
                gn = ch.pick(sorted(GROUPS))
                gcls, names = GROUPS[gn]
                ns[attr] = des = SignalGroupDescriptor(signal_group_class=gcls, collect_fields=False, cache_on_instance=ch.chance(0.7), patch_setattr=ch.chance(0.5), warn_on_no_fields=False)
                d = self.declare(cn, attr, des)
                own[attr] = {"d": d, "m": "", "name": ""}
                own.update(self.members(attr, d, names))
                groups[attr] = list(names)
        if kind in ("evdc", "evmodel", "dc") and not bases and kind != "dc":
            ns.pop("g", None), ns.pop("h", None)
            own = {a: v for a, v in own.items() if a.split(".")[0] not in ("g", "h")}
            groups = {}
        if kind in ("evdc", "evmodel") and bases:
            for a in ("g", "h"):
                ns.pop(a, None)
            own = {a: v for a, v in own.items() if a.split(".")[0] not in ("g", "h")}
            groups = {}
        try:
            cls, weak, extra = self.build(cn, kind, tuple(self.cls[b]["cls"] for b in bases), ns, bases)
        except TypeError as e:
            if "MRO" in str(e) or "resolution" in str(e) or "layout" in str(e):
                return
            raise
        if extra:
            attr, names = extra
            d = self.declare(cn, attr, next(c.__dict__[attr] for c in cls.__mro__ if attr in c.__dict__))
            own[attr] = {"d": d, "m": "", "name": ""}
            own.update(self.members(attr, d, names))
            groups[attr] = list(names)
        mro = [n for k in cls.__mro__ for n, x in self.cls.items() if x["cls"] is k]
        self.cls[cn] = {"cls": cls, "kind": kind, "own": own, "owng": groups, "mro": mro, "bases": mro, "weak": weak}
        spec = self.cls[cn]["spec"] = self.spec(cn)
        self.rec.log("class", cls=cn, spec=spec)

    def spec(self, cn):
        c = self.cls[cn]
        supers, groups = {}, {}
        for b in reversed([cn, *c["mro"]]):
            x = self.cls[b]
            if b == cn:
                sup = dict(supers)
            for a in x["own"]:
                # (an attribute that is declared anew has other members, or none)
                if "." not in a:
                    supers = {k: v for k, v in supers.items() if k != a and not k.startswith(a + ".")}
                    groups.pop(a, None)
            supers.update(x["own"])
            groups.update(x["owng"])
        return {"attrs": supers, "supers": sup, "weak": c["weak"], "groups": groups}

    def build(self, cn, kind, bases, ns, bnames):
        """(class, weakly referenceable, (attribute, members) of the group that is made of the fields)"""
        ch = self.ch
        sigs = dict(ns)
        ann = {n: ClassVar[object] for n in sigs}
        if kind in PLAIN:
            b, extra, weak = PLAIN[kind]
            if bases:
                if weak or kind in ("slotsnw", "tuple"):
                    extra = {"__slots__": ()} if "__slots__" in extra else {}
                    if kind == "slots" and ch.chance(0.3):
                        extra = {}  # a subclass with a dictionary
                return type(cn, bases, {**ns, **extra} if kind not in ("slotsd", "int") else {**ns, "__slots__": ()}), weak, None
            return type(cn, b, {**ns, **extra}), weak, None
        if kind == "meta":
            return type(cn, bases or (type,), ns), True, None
        if kind in ("dc", "dcslots", "frozen"):
            fields = [("v", int, 0)] if not bases else []
            c = make_dataclass(cn, fields, bases=bases, namespace=ns, slots=kind == "dcslots" and not bases, weakref_slot=kind == "dcslots" and not bases, frozen=kind == "frozen")
            return c, True, None
        if kind in ("attrs", "attrsnw"):
            c = attrs.make_class(cn, {"v": attrs.field(default=0)} if not bases else {}, bases=bases or (object,), class_body=ns, slots=True, weakref_slot=kind == "attrs", eq=ch.chance(0.5))
            return c, kind == "attrs", None
        if kind in ("msgspec", "msgspecnw"):
            kw = {"weakref": True} if kind == "msgspec" and not bases else {}
            fields = [("v", int, 0)] if not bases else []
            c = msgspec.defstruct(cn, fields, bases=bases or None, namespace={**ns, "__annotations__": ann}, **kw)
            for n, s in sigs.items():
                # (msgspec does not tell the declarations their names)
                if n not in c.__dict__:
                    setattr(c, n, s)
            return c, kind == "msgspec", None
        if kind == "pyddc":
            ns2 = {**ns, "__annotations__": {**ann, **({"v": int} if not bases else {})}, "v": 0}
            return pydantic.dataclasses.dataclass(config={"validate_assignment": True})(type(cn, bases, ns2)), True, None
        if kind == "pyd":
            ns2 = {**ns, "__annotations__": {**ann, "v": int}, "v": 0, "__module__": __name__}
            return type(pydantic.BaseModel)(cn, bases or (pydantic.BaseModel,), ns2), True, None
        x = self.fields_of(bnames) + [f"f{len(bnames)}{self.ncls}"]
        new = x[-1]
        if kind == "evmodel":
            ns2 = {**ns, "__annotations__": {**ann, new: int}, new: 0, "__module__": __name__}
            c = type(EventedModel)(cn, bases or (EventedModel,), ns2)
        else:
            ns2 = {**ns, "__annotations__": {**ann, new: int}, new: 0}
            c = dataclass(type(cn, bases, ns2))
            if not bases or ch.chance(0.4):
                c = evented(c)
        return c, True, ("events", {f: f for f in x})

    def fields_of(self, bnames):
        return [m for b in bnames for m in self.cls[b]["spec"]["groups"].get("events", [])]

    def op_look(self):
        cn = self.ch.pick(sorted(self.cls))
        c = self.cls[cn]
        sup = bool(c["bases"]) and self.ch.chance(0.4)
        names = sorted(n for n in c["spec"]["supers" if sup else "attrs"] if "." not in n)
        if not names:
            return
        n = self.ch.pick(names)
        if sup and c["kind"] == "meta":
            return
        v = getattr(super(c["cls"], c["cls"]) if sup else c["cls"], n)
        self.rec.log("look", cls=cn, n=n, sup=sup, **{"is": self.decl.get(id(v), f"?{type(v).__name__}")})

    # ---------------------------------------------------------------- objects
    def op_new(self):
        if len(self.obj) >= 6:
            return self.op_drop()
        if self.base and self.ch.chance(0.6):
            cn = self.last if self.last in self.cls else self.ch.pick(sorted(self.cls))
        else:
            cn = self.ch.pick(sorted(self.cls))
        c = self.cls[cn]
        self.nobj += 1
        on = f"o{self.nobj}"
        cls = c["cls"]
        o = cls(f"M{on}", (), {}) if c["kind"] == "meta" else cls()
        if c["kind"] == "meta" and self.ch.chance(0.5) and any(self.obj[x]["cls"] == cn for x in self.obj):
            b = self.ch.pick([x for x in sorted(self.obj) if self.obj[x]["cls"] == cn])
            o = cls(f"M{on}", (self.obj[b]["o"],), {})
            self.obj[on] = {"o": o, "cls": cn, "needs": b}
        self.obj[on] = {"o": o, "cls": cn, "needs": self.obj.get(on, {}).get("needs", "")}
        self.rec.log("new", o=on, cls=cn)
        if c["spec"]["weak"]:

            def dead(r, on=on):
                if LOGGING[0] is self:
                    self.rec.log("dead", o=on)

            self.base[on] = weakref.ref(o, dead)
        self.last = cn

    def op_drop(self):
        free = [on for on in self.obj if not any(x["needs"] == on for x in self.obj.values())]
        if not free:
            return
        on = self.ch.pick(sorted(free))
        self.rec.log("drop", o=on)
        cn = self.obj[on]["cls"]
        if on not in self.base:
            self.ghosts[id(self.obj[on]["o"])] = on
        del self.obj[on]
        self.last = cn
        if self.cls[cn]["kind"] == "meta" or self.ch.chance(0.2):
            gc.collect()
            self.rec.log("free")
        if self.ch.chance(0.6):
            # another object, most likely where that one was
            self.op_new()

    def find(self, o, n):
        for x in n.split("."):
            o = o[x] if isinstance(o, SignalGroup) else getattr(o, x)
        return o

    def acc(self, on, n, sup):
        """(called by several threads)"""
        r = self.obj[on]
        cls = self.cls[r["cls"]]["cls"]
        o = r["o"]
        try:
            s = self.find(super(cls, o) if sup else o, n)
        except Exception as e:
            self.rec.log("unexpected", msg=f"{type(e).__name__} at access of {n} of a {self.cls[r['cls']]['kind']}: {e}"[:200].replace('"', "'").replace("\n", " "))
            return None
        own = self.owner(s)
        name = "" if isinstance(s, SignalGroup) else s.name
        # (threads are not switched here)
        t = self.tok_of.get(id(s))
        if t is None:
            self.ntok += 1
            t = f"t{self.ntok}"
            self.tok_of[id(s)] = t
            self.toks[t] = s
        self.rec.log("acc", o=on, n=n, sup=sup, tok=t, name=name, owner=own)
        return t

    def owner(self, s):
        if isinstance(s, SignalGroup):
            s = s._psygnal_relay if "all" in s else s.all
        i = s.instance
        if i is None:
            return ""
        if isinstance(i, SignalGroup):
            return self.owner(i)
        for on, r in self.obj.items():
            if r["o"] is i:
                return on
        return self.ghosts.get(id(i), "?")

    def where(self):
        on = self.ch.pick(sorted(self.obj))
        spec = self.cls[self.obj[on]["cls"]]["spec"]
        sup = bool(spec["supers"]) and self.ch.chance(0.3)
        names = sorted(spec["supers" if sup else "attrs"])
        return (on, self.ch.pick(names), sup) if names else None

    def op_acc(self):
        w = self.where()
        if w:
            return self.acc(*w)

    def op_members(self):
        on = self.ch.pick(sorted(self.obj))
        spec = self.cls[self.obj[on]["cls"]]["spec"]
        if not spec["groups"]:
            return
        n = self.ch.pick(sorted(spec["groups"]))
        g = getattr(self.obj[on]["o"], n)
        how = self.ch.choose(2)
        self.rec.log("members", o=on, n=n, names=sorted(g) if how else sorted(x for x in ["a", "b", "c", "all", "s1", *spec["groups"][n]] if x in g))

    def op_owner(self):
        if self.toks:
            t = self.ch.pick(sorted(self.toks))
            self.rec.log("owner", tok=t, owner=self.owner(self.toks[t]))

    def relay(self, s):
        return s._psygnal_relay if isinstance(s, SignalGroup) else s

    def op_connect(self):
        t = self.op_acc() if self.ch.chance(0.7) or not self.toks else self.ch.pick(sorted(self.toks))
        if not t:
            return
        self.ncb += 1
        i = f"k{self.ncb}"
        s = self.toks[t]
        if isinstance(s, SignalGroup):

            def f(info):
                self.rec.log("cb", id=i, m=self.member(s, info.signal))
        else:

            def f(x):
                self.rec.log("cb", id=i, m="")

        self.cb[i] = f
        self.cons.setdefault(t, []).append(i)
        self.rec.log("connect", tok=t, id=i)
        s.connect(f)

    def member(self, g, sig):
        return next((m for m in g if g[m] is sig), "?")

    def op_disconnect(self):
        ts = sorted(t for t, c in self.cons.items() if c)
        if ts:
            t = self.ch.pick(ts)
            i = self.cons[t].pop(self.ch.choose(len(self.cons[t])))
            self.rec.log("disconnect", tok=t, id=i)
            self.toks[t].disconnect(self.cb[i])

    def op_emit(self):
        ts = sorted(t for t, s in self.toks.items() if not isinstance(s, SignalGroup))
        t = self.op_acc() if self.ch.chance(0.7) else ts and self.ch.pick(ts)
        if not t or isinstance(self.toks[t], SignalGroup):
            return
        self.rec.log("emit", tok=t)
        s = self.toks[t]
        s.emit(*((1,) if len(s.signature.parameters) == 1 else (1, 2)))
        self.rec.log("done")

    def op_count(self):
        ts = sorted(t for t, s in self.toks.items() if isinstance(s, SignalGroup) or not self.in_group(s))
        if ts:
            t = self.ch.pick(ts)
            self.rec.log("count", tok=t, n=len(self.relay(self.toks[t])))

    def in_group(self, s):
        return any(isinstance(g, SignalGroup) and any(g[m] is s for m in g) for g in self.toks.values()) or s.name in ("a", "b", "c", "all", "a2") or s.name[0] == "f"

    def op_free(self):
        gc.collect()
        self.rec.log("free")

    def op_addsig(self):
        cn = self.ch.pick(sorted(self.cls))
        c = self.cls[cn]
        if c["kind"] not in ("plain", "eq", "eqhash", "falsy", "list", "slots", "int", "refuse", "redirect", "getattr") or "n1" in c["spec"]["attrs"]:
            return
        sig = Signal(int, name=self.ch.pick([None, "n1", "s1"]))
        if self.ch.chance(0.3):
            setattr(c["cls"], "n1", sig)
            nm = ""
        else:
            # (as a class decorator would)
            setattr(c["cls"], "n1", sig)
            sig.__set_name__(c["cls"], "n1")
            nm = "n1"
        a = {"d": self.declare(cn, "n1", sig), "m": "", "name": sig.name if hasattr(sig, "name") else (sig._name or nm)}
        if a["name"] == "":
            return self.undo(c, sig)
        c["own"]["n1"] = a
        for k, x in self.cls.items():
            if k == cn or cn in x["mro"]:
                x["spec"] = self.spec(k)
                self.rec.log("class", cls=k, spec=x["spec"])

    def undo(self, c, sig):
        delattr(c["cls"], "n1")

    def op_threads(self):
        """Several threads look at the same attributes."""
        if not self.obj:
            return
        ws = [w for w in (self.where() for _ in range(3)) if w]
        if not ws:
            return
        plans = [[self.ch.pick(ws) for _ in range(1 + self.ch.choose(2))] for _ in range(2 + self.ch.choose(2))]

        def body(plan):
            return lambda: [self.acc(*w) for w in plan]

        self.by_ident, self.threads, self.errors, self.dead = {}, [], [], False
        self.mean = self.ch.pick([3, 8, 20, 60])
        self.next = self.step + 1 + self.ch.choose(2 * self.mean)
        gc.disable()
        try:
            self.run([(f"t{i}", body(p)) for i, p in enumerate(plans)])
        finally:
            gc.enable()
        for name, e in self.errors:
            self.rec.log("unexpected", msg=f"{type(e).__name__} in {name}: {e}"[:200].replace('"', "'"))

    def go(self):
        self.last = ""
        self.op_class()
        self.op_new()
        for _ in range(self.p.get("nops", 40)):
            op = self.ch.weighted(self.p["ops"])
            if op != "class" and op != "new" and not self.obj:
                op = "new"
            getattr(self, "op_" + op)()
        for on in sorted(self.obj, reverse=True):
            for n in sorted(self.cls[self.obj[on]["cls"]]["spec"]["attrs"]):
                self.acc(on, n, False)
        for on in sorted(self.obj, reverse=True):
            self.rec.log("drop", o=on)
            if on not in self.base:
                self.ghosts[id(self.obj[on]["o"])] = on
        self.obj.clear()
        gc.collect()
        self.rec.log("free")
        for t in sorted(self.toks):
            s = self.toks[t]
            self.rec.log("owner", tok=t, owner=self.owner(s))
        LOGGING[0] = None


OPS = [("class", 1), ("look", 1), ("new", 3), ("drop", 2), ("acc", 8), ("members", 1), ("owner", 1), ("connect", 3), ("disconnect", 1), ("emit", 4), ("count", 1), ("free", 0.3), ("addsig", 0.3)]
NRAND = {"quick": 2500, "thorough": 40000}


def run(profile, params, ch, rec):
    if params.get("known"):
        return known(params, rec)
    sched.install()
    try:
        OwnProg(params, ch, rec).go()
    finally:
        sched.in_threads()
        LOGGING[0] = None


def jobs(profile, tier, seed):
    n = NRAND[tier]
    yield {"kind": "random", "name": "C14.all", "count": n, "params": {"ops": OPS}}
    yield {"kind": "random", "name": "C14.reuse", "count": n // 2, "params": {"ops": [("new", 6), ("drop", 6), ("acc", 6), ("connect", 4), ("emit", 4), ("count", 1), ("class", 0.6), ("owner", 1)], "nops": 50}}
    yield {"kind": "list", "name": "known", "items": [{"known": k, "name": f"known:C14.copy:{k}"} for k in ("plain", "dataclass", "dataclass-group")]}
    few = ["slots", "slotsnw", "refuse", "plain", "dcslots", "pyddc", "msgspec", "evdc", "meta"]
    yield {"kind": "random", "name": "C14.inherit", "count": n // 2, "params": {"ops": [("class", 4), ("new", 3), ("acc", 8), ("connect", 2), ("emit", 3), ("look", 2), ("drop", 1), ("addsig", 0.5)], "kinds": few, "nops": 40}}
    yield {"kind": "random", "name": "C14.threads", "count": n // 2, "params": {"ops": [*OPS, ("threads", 6)], "nops": 25, "opcodes": 0.3}}


# ---------------------------------------------------------------- known findings
class PlainOwner:
    s1 = Signal(int)


@evented
@dataclass
class DataOwner:
    x: int = 0
    s1: ClassVar[Signal] = Signal(int)


def known(params, rec):
    """A shallow copy takes over the signals that the original has stored."""
    import copy

    cls = {"plain": PlainOwner, "dataclass": DataOwner, "dataclass-group": DataOwner}[params["known"]]
    attrs_ = {"s1": {"d": "C.s1", "m": "", "name": "s1"}, "events": {"d": "C.events", "m": "", "name": ""}}
    rec.h["kind"] = params["known"]
    rec.log("class", cls="C", spec={"attrs": attrs_, "supers": {}, "weak": True, "groups": {}})
    o1 = cls()
    n = "events" if params["known"] == "dataclass-group" else "s1"
    who = {}
    rec.log("look", cls="C", n=n, sup=False, **{"is": f"C.{n}"})

    def acc(on, o):
        s = getattr(o, n)
        t = who.setdefault(id(s), f"t{len(who)}")
        own = (s.all if n == "events" else s).instance
        rec.log("acc", o=on, n=n, sup=False, tok=t, name="" if n == "events" else s.name, owner="o1" if own is o1 else on)

    rec.log("new", o="o1", cls="C")
    acc("o1", o1)
    o2 = copy.copy(o1)
    rec.log("new", o="o2", cls="C")
    acc("o2", o2)
