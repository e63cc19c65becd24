"""Driver of objects with evented fields: evented dataclasses and evented models."""

from __future__ import annotations

import dataclasses
import gc
import operator
from typing import Any, ClassVar, Optional

import attrs
import msgspec
import numpy as np
import pydantic
from pydantic import BaseModel, ConfigDict, Field, PrivateAttr

from psygnal import EmissionInfo, EmitLoopError, EventedModel, Signal, SignalGroup, SignalGroupDescriptor, evented


class Boom(Exception):
    pass


class V:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, V) and o.n == self.n

    __hash__ = None


class Odd:
    """Cannot be compared."""

    def __eq__(self, o):
        raise RuntimeError("no comparison")

    __hash__ = None


class Nil:
    """Equals None."""

    def __eq__(self, o):
        return o is None or isinstance(o, Nil)

    __hash__ = None


POOL = {
    "nil": Nil(), "i0": 0, "i1": 1, "i2": 2, "t1": True, "f1": 1.0, "f2": 2.5, "s1": "1", "sx": "x", "none": None,
    "va": V("a"), "va2": V("a"), "vb": V("b"), "odd": Odd(), "odd2": Odd(),
    "n12": np.array([1, 2]), "m12": np.array([1, 2]), "n3": np.array([1, 2, 3]), "l12": [1, 2], "t12": (1, 2),
    "nan": float("nan"),
}
BACK = {id(v): k for k, v in POOL.items()}
REPR = {(type(v), repr(v)): k for k, v in POOL.items() if isinstance(v, (int, float, str, list, tuple))}


def tok(v):
    t = BACK.get(id(v))
    if t is None:
        t = REPR.get((type(v), repr(v)), "?" + type(v).__name__)
    return t


def tol(x, y):
    return abs(x - y) <= 1


def tru(x, y):
    return bool(x) == bool(y)


OPS = {"eq": operator.eq, "tol": tol, "array": np.array_equal, "tru": tru}


def ref_equal(op, new, old):
    """The documented rule, with its fallbacks."""
    try:
        return bool(op(new, old))
    except Exception:
        if hasattr(new, "__array__") and op is not np.array_equal:
            return bool(np.array_equal(new, old))
        return new is old


EQ = {c: {a: [b for b in POOL if ref_equal(op, POOL[a], POOL[b])] for a in POOL} for c, op in OPS.items()}


def in_list(a, b):
    """Whether two elements are equal in the comparison of two lists."""
    try:
        return POOL[a] is POOL[b] or bool(POOL[a] == POOL[b])
    except Exception:
        return False  # (then the lists cannot be compared, and are not the same)


EQ["list"] = {a: [b for b in POOL if in_list(a, b)] for a in POOL}
for c in EQ:
    EQ[c]["("] = ["("]
TYPES = {
    "int": (int, ["i0", "i1", "i2", "t1", "f1", "s1", "sx", "none"], "i0"),
    "obj": (Any, ["i0", "i1", "t1", "f1", "s1", "none", "nil", "va", "va2", "vb", "n12", "m12", "n3", "odd", "odd2", "nan"], "none"),
    "v": (Any, ["va", "va2", "vb", "none", "i0", "l12"], "va"),
    "arr": (np.ndarray, ["n12", "m12", "n3"], "n12"),
    "tol": (Any, ["i0", "i1", "i2", "none", "f2", "s1"], "i0"),
    "tru": (Any, ["none", "i0", "i1", "sx", "va", "l12", "nil"], "i0"),
}
CMP = {"int": "eq", "obj": "eq", "v": "is", "arr": "array", "tol": "tol", "tru": "tru"}


class ClassSpec:
    """A class under test, its plain twin, and what the specification is told about it."""

    def __init__(self):
        self.attrs, self.groups, self.deps = {}, {}, {}
        self.pool, self.errs, self.defaults = {}, {}, {}
        self.old, self.deferred, self.latest = True, False, False
        self.reset = []
        self.refuses_props = False

    def head(self):
        return dict(attrs=self.attrs, groups=self.groups, deps=self.deps, old=self.old, deferred=self.deferred, latest=self.latest, reset=self.reset)

    def learn(self):
        """What the plain class makes of each value."""
        for n, a in self.attrs.items():
            if a["kind"] != "field" or n not in self.pool:
                continue
            conv, errs = {}, {}
            for t in self.pool[n]:
                o = self.twin()
                try:
                    setattr(o, n, POOL[t])
                except Exception as e:
                    errs[t] = type(e).__name__
                else:
                    conv[t] = tok(getattr(o, n))
            a["conv"], self.errs[n] = conv, errs
            for q in self.attrs.values():
                # (a class may refuse to set its own properties)
                if q["kind"] == "prop" and q["of"] == [n] and q["set"] == "same" and self.refuses_props:
                    q["set"] = "no"


# ------------------------------------------------------------------ evented dataclasses
FLAVOURS = ["dc", "dcslots", "dcfrozen", "attrs", "attrsplain", "pyd", "pyddc", "msg", "msgw"]


def make_class(flavour, name, base, fields, ns, frozen_fields=()):
    """fields: {name: type key}; ns: other attributes."""
    ann = {n: TYPES[t][0] for n, t in fields.items()}
    d = {n: POOL[TYPES[t][2]] for n, t in fields.items()}
    ns = dict(ns, __module__=__name__)
    ann.update({k: ClassVar for k, v in ns.items() if isinstance(v, SignalGroupDescriptor)})
    if flavour in ("dc", "dcslots", "dcfrozen"):
        dv = {n: dataclasses.field(default_factory=lambda v=v: v) for n, v in d.items()}
        c = type(name, (base,) if base else (), {**ns, **dv, "__annotations__": ann})
        return dataclasses.dataclass(c, eq=False, **{"dcslots": {"slots": True, "weakref_slot": True}, "dcfrozen": {"frozen": True}}.get(flavour, {}))
    if flavour in ("attrs", "attrsplain"):
        dv = {
            n: attrs.field(
                default=v, alias=n,
                **({"on_setattr": attrs.setters.frozen} if n in frozen_fields else {}),
                **({"converter": int} if fields[n] == "int" else {}),
            )
            for n, v in d.items()
        }
        c = type(name, (base,) if base else (), {**ns, **dv, "__annotations__": ann})
        return attrs.define(c, eq=False, slots=flavour == "attrs")
    if flavour == "pyd":
        dv = {n: Field(default_factory=lambda v=v: v, frozen=n in frozen_fields) for n, v in d.items() if n[0] != "_"}
        ns.setdefault("model_config", ConfigDict(arbitrary_types_allowed=True, validate_assignment=True))
        ann = {k: v for k, v in ann.items() if k[0] != "_"}
        return type(BaseModel)(name, (base or BaseModel,), {**ns, **dv, "_priv": PrivateAttr(None), "__annotations__": ann})
    if flavour == "pyddc":
        dv = {n: dataclasses.field(default_factory=lambda v=v: v) for n, v in d.items()}
        c = type(name, (base,) if base else (), {**ns, **dv, "__annotations__": ann})
        return pydantic.dataclasses.dataclass(c, eq=False, config=ConfigDict(arbitrary_types_allowed=True, validate_assignment=True))
    dv = {n: msgspec.field(default_factory=lambda v=v: v) for n, v in d.items()}
    return type(msgspec.Struct)(name, (base or msgspec.Struct,), {**ns, **dv, "__annotations__": ann}, weakref=flavour == "msgw", eq=False)


def prop(field):
    return property(lambda self: getattr(self, field), lambda self, v: setattr(self, field, v))


def over_setattr(self, name, value):
    super(type(self)._over, self).__setattr__(name, value)


def data_classes(ch, p):
    """A class, maybe a subclass, of some flavour."""
    fl = ch.pick(p.get("flavours", FLAVOURS))
    names = {"a": "int", "b": "obj", "c": "arr", "v": "v", "w": "tol", "u": "tru", "k": "int"}
    chosen = [n for n in names if ch.chance(0.6)] or ["a"]
    fields = {n: names[n] for n in chosen}
    private = ch.pick(["no", "no", "hidden", "alias", "aliasprop", "plain"]) if fl != "pyd" else "no"
    if private != "no":
        fields["_p"] = "obj"
    frozen = ["k"] if fl in ("attrs", "attrsplain", "pyd") and ch.chance(0.5) else []
    aliases = {}
    if ch.chance(0.3):
        aliases[chosen[0]] = ch.pick([chosen[0] + "_changed", None])
    if private == "hidden":
        aliases["_p"] = None
    elif private in ("alias", "aliasprop"):
        aliases["_p"] = "p"
    al = dict(aliases)
    how = None
    if aliases and ch.chance(0.3):
        how = (lambda al: lambda n: al.get(n, n))(al)
    eqops = {n: {"v": operator.is_, "w": tol, "u": tru}[n] for n in ("v", "w", "u") if n in fields}
    extra = {"p": prop("_p")} if private == "aliasprop" else {}
    kw = dict(equality_operators=eqops or None, signal_aliases=(how or aliases) or None, cache_on_instance=ch.chance(0.7))
    style = ch.pick(["evented", "descriptor"])
    other = fl in ("dc", "attrsplain") and ch.chance(0.3)
    ns = dict(extra, **({"other": None} if other else {}))

    def sigs(n, groups):
        r = []
        for g, al in groups.items():
            s = al.get(n, n)
            if s is not None:
                r.append(f"{g}:{s}")
        return r

    def spec(cls, twin, fields, groups):
        c = ClassSpec()
        c.cls, c.twin = cls, twin
        for n, t in fields.items():
            nosig = fl == "pyd" and n in frozen
            c.attrs[n] = dict(kind="field", cmp=CMP[t], sigs=[] if nosig else sigs(n, groups))
            c.pool[n] = TYPES[t][1]
        if private == "aliasprop":
            # (the field is what is announced, not the property)
            c.attrs["p"] = dict(kind="prop", cmp="eq", sigs=[], get="same", set="same", of=["_p"])
        if other:
            c.attrs["other"] = dict(kind="field", cmp="eq", sigs=[])
            c.pool["other"] = TYPES["obj"][1]
        if fl == "pyd":
            c.attrs["_priv"] = dict(kind="field", cmp="eq", sigs=[])
            c.pool["_priv"] = TYPES["obj"][1]
        c.refuses_props = fl == "pyddc"
        c.groups = {g: [s for a in c.attrs.values() for s in a["sigs"] if s.startswith(g + ":")] for g in groups}
        c.learn()
        return c

    if style == "evented":
        cls = evented(make_class(fl, "Base", None, fields, ns, frozen), **kw)
    else:
        cls = make_class(fl, "Base", None, fields, dict(ns, events=SignalGroupDescriptor(**kw)), frozen)
    twin = make_class(fl, "Base", None, fields, ns, frozen)
    res = {"Base": spec(cls, twin, fields, {"events": al})}
    sub = ch.pick(["no", "plain", "alias", "ns", *(["override"] if fl != "attrsplain" and not frozen else [])]) if fl in ("dc", "attrsplain", "pyd", "msgw") else "no"
    if sub != "no":
        more = {"z": "int", "y": "obj"}
        sns, tns = {}, {}
        if sub == "override":
            sns["__setattr__"] = tns["__setattr__"] = over_setattr
        scls = make_class(fl, "Sub", cls, more, sns)
        stwin = make_class(fl, "Sub", twin, more, tns)
        if sub == "override":
            scls._over, stwin._over = scls, stwin
        groups = {"events": al}
        if sub == "alias":
            # (a new declaration: what the base class chose does not apply)
            al2 = {"z": "zed", "_p": None}
            scls = evented(scls, signal_aliases=al2, equality_operators=eqops)
            groups = {"events": al2}
        elif sub == "ns":
            scls = evented(scls, events_namespace="ev2", equality_operators=eqops)
            groups = {"events": al, "ev2": {}}
        allf = {**fields, **more}
        res["Sub"] = spec(scls, stwin, allf, groups)
    return res


# ------------------------------------------------------------------ evented models
TAB = {"i0": "s1", "i1": "s1", "i2": "sx", "t1": "s1", "f1": "s1", "s1": "sx", "sx": "sx", "none": "none"}


class PropsMixin:
    pass


def model_classes(ch, p):
    va = ch.chance(0.6)
    base_cfg = dict(arbitrary_types_allowed=True, validate_assignment=va)
    reemission = ch.pick([None, "latest-only", "immediate"])
    cfg = dict(base_cfg)
    if reemission:
        cfg["reemission"] = reemission
    names = {"a": "int", "b": "obj", "c": "arr", "k": "int", "all": "int", "connect": "obj"}
    kinds = p.get("kinds", ["plain", "props", "deps", "guess", "sub"])
    kind = ch.pick(kinds)
    chosen = [n for n in names if n in "ab" or ch.chance(0.4)]
    fields = {n: names[n] for n in chosen}
    frozen = ["k"] if "k" in fields and ch.chance(0.6) else []

    def body(fields, evented_):
        ns = {n: Field(default_factory=lambda v=POOL[TYPES[t][2]]: v, frozen=n in frozen) if t in ("arr",) else Field(POOL[TYPES[t][2]], frozen=n in frozen) for n, t in fields.items()}
        ns["__annotations__"] = {n: TYPES[t][0] for n, t in fields.items()}
        ns["_priv"] = PrivateAttr(None)
        ns["__module__"] = __name__
        return ns

    c = ClassSpec()
    c.old, c.latest = False, reemission != "immediate"
    ns = body(fields, True)
    props = {}
    mcfg = dict(cfg)
    if kind in ("props", "deps", "guess", "sub") and (kind != "sub" or ch.chance(0.5)):

        def get_pair(self):
            return [self.a, self.b]

        def set_pair(self, v):
            self.a, self.b = v

        def get_par(self):
            return POOL[TAB[tok(self.a)]]

        def set_par(self, v):
            raise AttributeError("no")

        def get_same(self):
            return self.b

        def set_same(self, v):
            self.b = v

        props = {
            "pair": (property(get_pair, set_pair), dict(get="tuple", set="tuple", of=["a", "b"])),
            "par": (property(get_par, set_par), dict(get="map", set="no", of=["a"], tab=TAB)),
            "same": (property(get_same, set_same), dict(get="same", set="same", of=["b"])),
        }
        props = {n: x for n, x in props.items() if ch.chance(0.75)} or {"pair": props["pair"]}
        mcfg["allow_property_setters"] = True
        if kind == "guess":
            mcfg["guess_property_dependencies"] = True
        if kind != "guess" and kind != "props":
            mcfg["field_dependencies"] = {n: x["of"] for n, (_, x) in props.items()}
        if kind in ("deps", "sub", "guess"):
            for n, (_, x) in props.items():
                for f in x["of"]:
                    c.deps.setdefault(f, []).append(n)
        ns.update({n: x for n, (x, _) in props.items()})
    c.deferred = bool(c.deps)
    c.subs = {}
    res = {}
    if kind == "sub":
        s = ClassSpec()
        s.old, s.latest = False, True
        sns = body({"a": "int", "b": "obj"}, True)
        sns["model_config"] = ConfigDict(**base_cfg)
        s.cls = type(EventedModel)("SubM", (EventedModel,), sns)
        s.twin = type(BaseModel)("SubM", (BaseModel,), body({"a": "int", "b": "obj"}, False) | {"model_config": ConfigDict(**base_cfg)})
        fill(s, {"a": "int", "b": "obj"}, [], {})
        res["SubM"] = s
        dflt = s.cls(a=2)
        ns["s"] = Field(default_factory=lambda: s.cls(a=2)) if ch.chance(0.5) else dflt
        ns["__annotations__"]["s"] = s.cls
        c.subs["s"] = "SubM"
    ns["model_config"] = ConfigDict(**mcfg)
    c.cls = type(EventedModel)("M", (EventedModel,), ns)
    inherit = ch.pick(["no", "no", "empty", "more", "two"])
    twin_fields = dict(fields)
    if inherit == "more":
        more = body({"z": "obj"}, True)
        c.cls = type(EventedModel)("M2", (c.cls,), more)
        twin_fields["z"] = "obj"
    elif inherit == "two":
        # (the first base is what counts)
        dns = body(fields, True)
        wrong = property(lambda self: self.b, lambda self, v: setattr(self, "b", v))
        dns.update({n: wrong for n in props})
        dns["model_config"] = ConfigDict(**base_cfg, **({"allow_property_setters": True} if props else {}))
        decoy = type(EventedModel)("Decoy", (EventedModel,), dns)
        c.cls = type(EventedModel)("M2", (c.cls, decoy), {"__module__": __name__, "__annotations__": {}})
    elif inherit == "empty":
        c.cls = type(EventedModel)("M2", (c.cls,), {"__module__": __name__, "__annotations__": {}})
    c.twin = type(BaseModel)("M", (BaseModel,), body(twin_fields, False) | {"model_config": ConfigDict(**base_cfg)})
    fill(c, twin_fields, frozen, props)
    if c.subs:
        c.attrs["s"] = dict(kind="field", cmp="eq", sigs=["events:s"], conv={})
        c.groups["events"].append("events:s")
        c.reset.append(dict(n="s", sub=True, v=[dict(n="a", sub=False, v=["i2"]), dict(n="b", sub=False, v=["none"])]))
    order = list(c.cls.model_fields)
    c.reset.sort(key=lambda r: order.index(r["n"]))
    res["M"] = c
    return res


def fill(c, fields, frozen, props):
    for n, t in fields.items():
        c.attrs[n] = dict(kind="field", cmp=CMP[t], sigs=[] if n in frozen else [f"events:{n}"])
        c.pool[n] = TYPES[t][1]
        if n not in frozen:
            c.reset.append(dict(n=n, sub=False, v=[TYPES[t][2]]))
    c.attrs["_priv"] = dict(kind="field", cmp="eq", sigs=[])
    c.pool["_priv"] = ["i0", "va", "none"]
    for n, (_, x) in props.items():
        c.attrs[n] = dict(x, kind="prop", cmp="eq", sigs=[f"events:{n}"])
    c.groups = {"events": [s for a in c.attrs.values() for s in a["sigs"]]}
    c.learn()


# ------------------------------------------------------------------ the program
class Sink:
    def __init__(self, f):
        self.__dict__.update(f=f, x=None)

    def __setattr__(self, k, v):
        self.f(v)


class Prog:
    def __init__(self, p, ch, rec, classes):
        self.p, self.ch, self.rec, self.classes = p, ch, rec, classes
        rec.h.update(eq=EQ, classes={n: c.head() for n, c in classes.items()})
        self.objs, self.cls = {}, {}
        self.names = {}  # id -> object name
        self.ls = {}  # (obj, sig) -> {id: callable}
        self.n = self.depth = 0
        self.emitting = []
        self.budget = p["nops"]

    # -- values
    def val(self, v):
        if id(v) in self.names:
            return ["@", self.names[id(v)]]
        if isinstance(v, list) and BACK.get(id(v)) is None and tok(v)[0] == "?":
            return ["(", *(tok(x) for x in v)]
        return [tok(v)]

    def content(self, o):
        ob, r = self.objs[o], {}
        for n, a in self.classes[self.cls[o]].attrs.items():
            v = getattr(ob, n)
            r[n] = ["(", *map(tok, v)] if a.get("get") == "tuple" else self.val(v)
        return r

    def all(self):
        return {o: self.content(o) for o in self.objs}

    # -- objects
    def new(self, cn, ob=None, name=None):
        c = self.classes[cn]
        if ob is None:
            ob = c.cls()
        name = name or f"o{len(self.objs)}"
        self.objs[name], self.cls[name] = ob, cn
        self.names[id(ob)] = name
        for f, sc in getattr(c, "subs", {}).items():
            self.new(sc, getattr(ob, f))
        v = {n: x for n, x in self.content(name).items() if c.attrs[n]["kind"] == "field"}
        self.rec.log("new", o=name, cls=cn, v=v)
        return name

    def group(self, o, g):
        return getattr(self.objs[o], g)

    def signal(self, o, s):
        g, n = s.split(":")
        return self.group(o, g)[n]

    def listen(self, o):
        c = self.classes[self.cls[o]]
        g = self.ch.pick(sorted(c.groups))
        glob = self.ch.chance(0.35) or not c.groups[g]
        s = "" if glob else self.ch.pick(c.groups[g])
        key = (o, s or g)
        mine = self.ls.setdefault(key, {})
        if glob and not c.groups[g]:
            return
        if mine and (glob or self.ch.chance(0.4)):
            i = self.ch.pick(sorted(mine))
            f = mine.pop(i)
            (self.group(o, g).all if glob else self.signal(o, s)).disconnect(f)
            self.rec.log("listen", o=o, sig=s, group=g, id=i, on=False)
            return
        self.n += 1
        i = f"L{self.n}"
        if glob:
            f = lambda info: self.called(i, o, f"{g}:{info.signal.name}", info.args)
            gr = self.group(o, g)
            (gr if self.ch.chance(0.5) and not {"connect", "all"} & set(gr) else gr._psygnal_relay).connect(f)
            mine[i] = f
        elif self.classes[self.cls[o]].old and self.ch.chance(0.3):
            sink = Sink(lambda v: self.called(i, o, s, (v,), one=True))
            w = self.signal(o, s).connect_setattr(sink, "x")
            self.ls.setdefault("keep", []).append(sink)
        else:
            f = lambda *a: self.called(i, o, s, a)
            self.signal(o, s).connect(f)
            mine[i] = f
        self.rec.log("listen", o=o, sig=s, group=g, id=i, on=True)

    def called(self, i, o, s, args, one=False):
        tup = any(s in a["sigs"] and a.get("get") == "tuple" for a in self.classes[self.cls[o]].attrs.values())
        self.rec.log("cb", id=i, o=o, sig=s, one=one, args=[["(", *map(tok, x)] if tup else self.val(x) for x in args], cur=self.content(o))
        self.depth += 1
        self.emitting.append((o, s))
        boom = None
        try:
            if self.depth <= self.p.get("depth", 2):
                for _ in range(self.ch.weighted(self.p.get("inner", [(0, 5), (1, 2), (2, 1)]))):
                    try:
                        self.one(nested=True)
                    except (EmitLoopError, Boom) as e:
                        if self.ch.chance(0.5):
                            raise
            if self.ch.chance(self.p.get("boom", 0)):
                raise Boom
        except BaseException as e:
            boom = e
            raise
        finally:
            self.emitting.pop()
            self.depth -= 1
            self.rec.log("cbend", r="ok" if boom is None else "boom")

    # -- operations
    def do(self, f, want=None):
        r = "ok"
        try:
            f()
        except EmitLoopError:
            r = "loop"
        except Exception as e:
            r = "err" if want in (None, type(e).__name__) else f"err: {type(e).__name__} instead of {want}"
        self.rec.log("ret", r=r, all=self.all())
        if r == "loop" and self.depth:
            raise EmitLoopError(Boom(), None)

    def pick_value(self, o, n):
        """(tokens, value, expected error)"""
        c = self.classes[self.cls[o]]
        a = c.attrs[n]
        if a["kind"] == "field" and n in getattr(c, "subs", {}):
            same = [x for x in self.objs if self.cls[x] == c.subs[n]]
            x = self.ch.pick(same)
            return ["@", x], self.objs[x], None
        if a["kind"] == "prop" and a["set"] == "tuple":
            ts = [self.ch.pick(c.pool[f]) for f in a["of"]]
            if self.ch.chance(0.08):
                ts = ts[:1]
            return ["(", *ts], [POOL[t] for t in ts], None
        t = self.ch.pick(c.pool[n if a["kind"] == "field" else a["of"][0]])
        return [t], POOL[t], c.errs.get(n, {}).get(t) if a["kind"] == "field" else None

    def one(self, nested=False):
        if self.budget <= 0:
            return
        self.budget -= 1
        op = self.ch.weighted(self.p["ops"])
        o = self.ch.pick(sorted(self.objs))
        c = self.classes[self.cls[o]]
        ob = self.objs[o]
        if op == "new":
            tops = [x for x in self.classes if x != "SubM"] if not nested else []
            if tops and len(self.objs) < 5:
                self.new(self.ch.pick(tops))
        elif op == "listen":
            if not nested:
                self.listen(o)
        elif op == "set":
            n = self.ch.pick(sorted(c.attrs))
            v, x, want = self.pick_value(o, n)
            self.rec.log("set", o=o, n=n, v=v)
            self.do(lambda: setattr(ob, n, x), want)
        elif op == "update" and not nested:
            items, d = self.items(o)
            rec = bool(getattr(c, "subs", {})) or self.ch.chance(0.8)
            if self.ch.chance(0.2) and not any(a["kind"] == "field" and not a["sigs"] and n[0] != "_" for n, a in c.attrs.items()) and self.cls[o] != "SubM":
                # from another model
                other = self.ch.pick([x for x in sorted(self.objs) if self.cls[x] == self.cls[o]])
                items, d, rec = self.from_model(other), self.objs[other], True
            self.rec.log("update", o=o, items=items, rec=rec)
            self.do(lambda: ob.update(d, recurse=rec))
        elif op == "reset" and not nested:
            self.rec.log("reset", o=o)
            self.do(ob.reset)

    def from_model(self, x):
        c = self.classes[self.cls[x]]
        r = []
        for n in type(self.objs[x]).model_fields:
            if n in getattr(c, "subs", {}):
                r.append(dict(n=n, sub=True, v=self.from_model(self.names[id(getattr(self.objs[x], n))])))
            else:
                r.append(dict(n=n, sub=False, v=self.val(getattr(self.objs[x], n))))
        return r

    def items(self, o, depth=0):
        c = self.classes[self.cls[o]]
        items, d = [], {}
        for n in sorted(c.attrs):
            if self.ch.chance(0.5):
                continue
            if n in getattr(c, "subs", {}):
                sub = self.names[id(getattr(self.objs[o], n))]
                it, x = self.items(sub)
                items.append(dict(n=n, sub=True, v=it))
                d[n] = x
            else:
                v, x, _ = self.pick_value(o, n)
                if n == "_priv":
                    continue
                items.append(dict(n=n, sub=False, v=v))
                d[n] = x
        k = self.ch.choose(len(items) + 1)
        items = items[k:] + items[:k]
        return items, {i["n"]: d[i["n"]] for i in items}

    def go(self):
        tops = [x for x in self.classes if x != "SubM"]
        for _ in range(self.p.get("nobj", 2)):
            self.new(self.ch.pick(tops))
        for _ in range(self.p.get("pre", 4)):
            self.listen(self.ch.pick(sorted(self.objs)))
        for _ in range(self.p.get("per", 12)):
            self.one()
        self.rec.log("look", all=self.all())


def run(profile, params, ch, rec):
    rec.limit = 100000
    classes = (data_classes if profile == "C15" else model_classes)(ch, params)
    two = any(len(c.groups) > 1 for c in classes.values())
    p = dict(params)
    if two:
        # (which of two groups is told first is left open)
        p["inner"] = [(0, 1)]
        p["boom"] = 0
    Prog(p, ch, rec, classes).go()


OPS15 = [("set", 8), ("listen", 2), ("new", 0.6)]
OPS16 = [("set", 8), ("listen", 2), ("new", 0.4), ("update", 0.8), ("reset", 0.4)]
OPS17 = [("set", 6), ("listen", 2), ("new", 0.4), ("update", 2.5), ("reset", 0.8)]
PROFILES = {
    "C15": dict(ops=OPS15, nops=30),
    "C16": dict(ops=OPS16, nops=30, kinds=["plain", "plain", "props", "sub", "deps"]),
    "C17": dict(ops=OPS17, nops=30, kinds=["deps", "guess", "sub", "props"]),
}
NRAND = {"quick": 1500, "thorough": 30000}


def jobs(profile, tier, seed):
    base, n = PROFILES[profile], NRAND[tier]
    yield {"kind": "random", "name": f"{profile}.calls", "count": n, "params": dict(base, inner=[(0, 1)])}
    yield {"kind": "random", "name": f"{profile}.nested", "count": n, "params": dict(base)}
    yield {"kind": "random", "name": f"{profile}.boom", "count": n // 3, "params": dict(base, boom=0.15)}
    yield {"kind": "random", "name": f"{profile}.long", "count": n // 5, "params": dict(base, nops=80, per=60, nobj=3, pre=8)}
