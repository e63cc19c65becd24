"""Driver of evented object proxies."""

from __future__ import annotations

import gc
import operator

from psygnal.containers import EventedCallableObjectProxy, EventedObjectProxy


class V:
    """Values: all equal to each other, some falsy."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, V)

    def __hash__(self):
        return 1

    def __bool__(self):
        return self.n not in ("v0", "v1")


VALS = {n: V(n) for n in ["v0", "v1", "v2", "v3", "v4", "c3", "d0", "ro"]}
VALS["none"] = None
BACK = {id(o): n for n, o in VALS.items()}
CONV = {"v3": "c3", "v4": "v0"}  # what converting properties make of a value
BAD = ["v2"]
ATTRS = {
    "x": ("plain", ""), "y": ("plain", ""), "dflt": ("default", "d0"), "conv": ("conv", ""), "picky": ("picky", ""),
    "ro": ("ro", "ro"), "wo": ("wo", ""), "_priv": ("plain", ""),
}
UNSET = object()


def tok(v):
    if v is UNSET:
        return ""
    return BACK.get(id(v), "?" + type(v).__name__)


def get(o, n):
    try:
        return o.__dict__[n]
    except KeyError:
        raise AttributeError(n) from None


class Base:
    dflt = VALS["d0"]

    @property
    def ro(self):
        return VALS["ro"]

    @property
    def conv(self):
        return get(self, "_conv")

    @conv.setter
    def conv(self, v):
        self.__dict__["_conv"] = VALS[CONV.get(BACK[id(v)], BACK[id(v)])]

    @property
    def picky(self):
        return get(self, "_picky")

    @picky.setter
    def picky(self, v):
        if BACK[id(v)] in BAD:
            raise ValueError("refused")
        self.__dict__["_picky"] = v

    def _setwo(self, v):
        self.__dict__["_wo"] = v

    wo = property(None, _setwo)

    def __call__(self, *a, **k):
        if a == ("boom",):
            raise RuntimeError("boom")
        return (len(a), sorted(k), self.__dict__.get("x"))

    def method(self, v):
        self.x = v
        return v


class ODict(Base, dict):
    def __setitem__(self, k, v):
        n = BACK[id(v)]
        if n in BAD:
            raise ValueError
        super().__setitem__(k, VALS[CONV.get(n, n)])

    __hash__ = None


class OList(Base, list):
    pass


class WODict(Base):
    """Items can be set and deleted, but not read."""

    def __init__(self):
        self.__dict__["data"] = {}

    def __setitem__(self, k, v):
        n = BACK[id(v)]
        if n in BAD:
            raise ValueError
        self.__dict__["data"][k] = VALS[CONV.get(n, n)]

    def __delitem__(self, k):
        del self.__dict__["data"][k]


class Plain(Base):
    pass


class Slots:
    """Only for the operations compared with a twin."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Slots) and o.v == self.v

    __hash__ = None


def _imm(name):
    def f(self, o):
        if o == "bad":
            raise ZeroDivisionError
        return Num(f"({self.s}{name}{o})")

    return f


class Num:
    """All operators, no in-place ones."""

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return getattr(o, "s", None) == self.s

    def __hash__(self):
        return hash(self.s)


class INum(Num):
    """All in-place operators, that change the object."""


IOPS = ["add", "sub", "mul", "matmul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift", "and", "xor", "or"]


def _ip(name):
    def f(self, o):
        if o == "bad":
            raise ZeroDivisionError
        self.s = f"({self.s}i{name}{o})"
        return self

    return f


for _n in IOPS:
    setattr(Num, f"__{_n}__", _imm(_n))
    setattr(Num, f"__r{_n}__", _imm("r" + _n))
    setattr(INum, f"__i{_n}__", _ip(_n))


class NoOps:
    def __init__(self, s):
        self.s = s


IFUN = {n: getattr(operator, "i" + n.rstrip("_")) for n in IOPS}
KEYS = {"k0": "k0", "k1": 1, "k2": None, "k3": ("a", 1)}


class ProxyProg:
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        rec.h.update(attrs={n: {"kind": k, "default": d} for n, (k, d) in ATTRS.items()}, conv=CONV, bad=BAD)
        self.px = {}
        self.x = []
        self.n = 0
        for _ in range(2):
            self.op_new()

    # ----------------------------------------------------------------
    def op_new(self):
        if len(self.px) >= 4:
            k = self.ch.pick(sorted(self.px))
            del self.px[k]
            if self.ch.chance(0.3):
                gc.collect()
            return
        self.n += 1
        nm = f"p{self.n}"
        kind = self.ch.pick(["dict", "list", "wodict", "none"])
        obj = {"dict": ODict, "list": OList, "wodict": WODict, "none": Plain}[kind]()
        if kind == "list":
            obj += [VALS["v0"], VALS["v1"], VALS["v0"]]
        call = self.ch.chance(0.5)
        p = (EventedCallableObjectProxy if call else EventedObjectProxy)(obj)
        conns = sum(len(s) for s in p.events.signals.values()) + len(p.events)
        conns -= len(p.events.signals)  # (the length of a group is the number of its signals)
        self.px[nm] = (p, obj, kind, call)
        self.rec.log("new", p=nm, kind=kind, a={n: "" for n in ATTRS}, items=self.items(nm), conns=conns)
        self.listen(nm)

    def listen(self, nm):
        p, obj, kind, call = self.px[nm]
        ev = p.events

        def rec(n, key, v, now):
            if any(q[1] is obj for q in self.px.values()):
                self.x.append({"p": nm, "n": n, "key": key, "v": v, "now": now})

        ev.attribute_set.connect(lambda name, v: rec("attribute_set", name, tok(v), tok(getattr(obj, name, UNSET))))
        ev.attribute_deleted.connect(lambda name: rec("attribute_deleted", name, "", tok(getattr(obj, name, UNSET))))
        ev.item_set.connect(lambda k, v: rec("item_set", self.key(k, kind), tok(v), self.item(obj, kind, k)))
        ev.item_deleted.connect(lambda k: rec("item_deleted", self.key(k, kind), "", self.gone(obj, kind, k)))
        ev.in_place.connect(lambda op, o: rec("in_place", op, str(o), ""))
        if hasattr(ev, "called"):
            ev.called.connect(lambda a, k: rec("called", str(len(a)), str([*a, sorted(k)]), ""))

    def key(self, k, kind=""):
        if kind == "list":
            return str(k)
        for n, o in KEYS.items():
            if o is k or (type(o) is type(k) and o == k and n != "k1"):
                return n
        return str(k)

    def item(self, obj, kind, k):
        if kind == "wodict":
            return tok(obj.__dict__["data"].get(k, UNSET))
        try:
            return tok(obj[k])
        except Exception:
            return ""

    def gone(self, obj, kind, k):
        if kind == "list":
            return "" if len(obj) == self.len0 - 1 else "still there"
        return self.item(obj, kind, k)

    def items(self, nm):
        p, obj, kind, call = self.px[nm]
        if kind == "list":
            return [tok(v) for v in obj]
        d = {} if kind == "none" else obj if kind == "dict" else obj.__dict__["data"]
        return [[self.key(k), tok(v)] for k, v in d.items()]

    def attrs(self, nm):
        p, obj, kind, call = self.px[nm]
        d = {}
        for n in ATTRS:
            a, b = getattr(obj, n, UNSET), getattr(p, n, UNSET)
            d[n] = tok(a) if a is b else f"differs {tok(a)} {tok(b)}"
        return d

    def do(self, nm, op, f, **args):
        self.x = []
        r = "ok"
        o = self.px[nm][1]
        self.len0 = len(o) if isinstance(o, list) else 0
        try:
            f()
        except (AttributeError, ValueError, TypeError, IndexError, KeyError) as e:
            r = type(e).__name__
        self.rec.log("op", p=nm, op=op, r=r, attrs=self.attrs(nm), items=self.items(nm), x=self.x, **args)

    # ---------------------------------------------------------------- operations
    def one(self):
        return self.ch.pick(sorted(self.px))

    def val(self):
        return self.ch.pick(["v0", "v1", "v2", "v3", "v4", "none"])

    def op_setattr(self):
        nm, a, v = self.one(), self.ch.pick(sorted(ATTRS)), self.val()
        if self.ch.chance(0.15):
            # the object in place
            t = tok(getattr(self.px[nm][1], a, UNSET))
            v = t if t in VALS else v
        p = self.px[nm][0]
        self.do(nm, "setattr", lambda: setattr(p, a, VALS[v]), key=a, v=v)

    def op_delattr(self):
        nm, a = self.one(), self.ch.pick(sorted(ATTRS))
        p = self.px[nm][0]
        self.do(nm, "delattr", lambda: delattr(p, a), key=a)

    def ikey(self, nm):
        p, obj, kind, call = self.px[nm]
        if kind == "list":
            n = len(obj)
            i = self.ch.choose(2 * n + 3) - n - 1
            return str(i), i, i
        k = self.ch.pick(sorted(KEYS))
        return k, KEYS[k], 0

    def op_setitem(self):
        nm = self.one()
        p = self.px[nm][0]
        k, key, i = self.ikey(nm)
        v = self.val()
        self.do(nm, "setitem", lambda: operator.setitem(p, key, VALS[v]), key=k, i=i, v=v)

    def op_delitem(self):
        nm = self.one()
        p = self.px[nm][0]
        k, key, i = self.ikey(nm)
        self.do(nm, "delitem", lambda: operator.delitem(p, key), key=k, i=i)

    def twin(self, nm, op, f, p, t, ann="", key="", v=""):
        """f on the proxy and on the twin (without proxy)"""
        self.x = []
        got = self.out(f, p)
        x = self.x
        want = self.out(f, t)
        self.rec.log("same", p=nm, op=op, got=got, want=want, x=x, ann=ann, key=key, v=v, items=self.items(nm))

    def out(self, f, o):
        try:
            r = f(o)
        except Exception as e:
            return f"!{type(e).__name__}"
        return self.show(r)

    def show(self, r):
        if isinstance(r, EventedObjectProxy) or type(r).__name__ == "ObjectProxy":
            r = r.__wrapped__
        if isinstance(r, Num):
            return f"{type(r).__name__}:{r.s}"
        if isinstance(r, V) or r is None:
            return tok(r)
        if isinstance(r, (tuple, list, set)):
            return type(r).__name__ + str([self.show(v) for v in (sorted(r) if isinstance(r, set) else r)])
        return f"{type(r).__name__}:{r}"

    def op_call(self):
        nm = self.one()
        p, obj, kind, call = self.px[nm]
        if not call:
            return  # (there is a proxy class of its own for callables)
        a = self.ch.pick([(), (1,), ("boom",), (1, 2)])
        k = self.ch.pick([{}, {"z": 1}, {"args": 2, "self_": 3}])
        # (a callable proxy announces its calls)
        self.twin(nm, "call", lambda o: o(*a, **k), p, obj, "called" if call else "", str(len(a)) if call else "", str([*a, sorted(k)]) if call else "")

    def op_read(self):
        nm = self.one()
        p, obj, kind, call = self.px[nm]
        fs = {
            "getattr": lambda o: o.dflt, "missing": lambda o: o.nothing, "len": len, "iter": lambda o: [self.show(v) for v in o],
            "bool": bool, "in": lambda o: VALS["v0"] in o, "hash": lambda o: hash(o) is not None, "str": str, "repr": lambda o: repr(o),
            "isinstance": lambda o: (isinstance(o, Base), isinstance(o, dict)), "eq": lambda o: (o == obj, o != obj, obj == o),
            "getitem": lambda o: o[0], "getkey": lambda o: o["k0"], "slice": lambda o: o[0:2], "vars": lambda o: sorted(vars(o)),
            "hasattr": lambda o: (hasattr(o, "x"), hasattr(o, "nope")), "doc": lambda o: o.__doc__, "class": lambda o: o.__class__.__name__,
            "lt": lambda o: o < [1], "add": lambda o: o + [1], "dir": lambda o: [n for n in dir(o) if n in ATTRS or n in ("method", "append")],
            "int": int, "neg": operator.neg, "index": lambda o: [1, 2][o], "iadd_none": lambda o: o.append,
        }
        n = self.ch.pick(sorted(fs))
        if n == "iadd_none":
            return
        self.twin(nm, n, fs[n], p, obj)

    def op_inplace(self):
        """In-place operators on objects of their own, and a twin."""
        kind = self.ch.pick(["INum", "Num", "list", "set", "int", "none"])
        a, b = {
            "INum": lambda: (INum("a"), INum("a")), "Num": lambda: (Num("a"), Num("a")), "list": lambda: ([1, 2], [1, 2]),
            "set": lambda: ({1, 2, 3}, {1, 2, 3}), "int": lambda: (12, 12), "none": lambda: (NoOps("a"), NoOps("a")),
        }[kind]()
        p = EventedObjectProxy(a)
        nm = self.one()
        got_x = []
        p.events.in_place.connect(lambda op, o: got_x.append({"p": nm, "n": "in_place", "key": op, "v": str(o), "now": ""}))
        for s, n in (("attribute_set", 2), ("attribute_deleted", 1), ("item_set", 2), ("item_deleted", 1)):
            getattr(p.events, s).connect(lambda *args, s=s: got_x.append({"p": nm, "n": s, "key": str(args[0]), "v": "", "now": ""}), check_nargs=False)
        for _ in range(1 + self.ch.choose(3)):
            op = self.ch.pick(IOPS)
            o = self.ch.pick({"list": [[3], (4,), 2], "set": [{2, 9}, set()], "int": [3, 2], "none": [1]}.get(kind, ["q", "r", "bad"]))
            self.x = []
            got_x.clear()
            ra, rb = UNSET, UNSET
            try:
                ra = IFUN[op](p, o)
                got = self.show(ra)
            except Exception as e:
                got = f"!{type(e).__name__}"
            x = list(got_x) + self.x
            try:
                rb = IFUN[op](b, o)
                want = self.show(rb)
            except Exception as e:
                want = f"!{type(e).__name__}"
            if want[0] == "!" and got == want:
                x = []  # (whether a failing one is announced is left open)
            # what the operator gives is the proxied object again exactly if it is the object again
            if rb is b and ra is not p:
                got += " another object"
            self.rec.log("same", p=nm, op="i" + op, got=got, want=want, x=x, ann="in_place" if want[0] != "!" else "", key=op if want[0] != "!" else "", v=str(o) if want[0] != "!" else "", items=self.items(nm))
            if kind != "none" and (rb is not b or ra is not p):
                break

    def op_method(self):
        nm = self.one()
        p, obj, kind, call = self.px[nm]
        if kind == "list":
            # methods act on the object, without announcement
            v = self.ch.pick(["v0", "v1"])
            t = OList(obj)
            self.twin(nm, "append", lambda o: (o.append(VALS[v]), len(o)), p, t)
        elif kind == "dict":
            t = ODict(obj)
            self.twin(nm, "get", lambda o: o.get("k0"), p, t)


TOP = dict(setattr=6, delattr=3, setitem=5, delitem=3, call=2, read=3, inplace=2, method=0.7, new=0.8)
NRAND = {"quick": 2500, "thorough": 50000}


def run(profile, params, ch, rec):
    p = ProxyProg(params, ch, rec)
    top = list(params["top"].items())
    for _ in range(params["nops"]):
        if not p.px:
            p.op_new()
        getattr(p, "op_" + ch.weighted(top))()


def jobs(profile, tier, seed):
    yield {"kind": "random", "name": "C23.proxy", "count": NRAND[tier], "params": dict(top=TOP, nops=30)}
