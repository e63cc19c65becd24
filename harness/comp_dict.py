"""Driver of evented dicts."""

from __future__ import annotations

import copy
import itertools
import weakref

from psygnal import EmitLoopError, Signal
from psygnal.containers import EventedDict

EVENTS = ["adding", "added", "changing", "changed", "removing", "removed"]


class Tok:
    def __init__(self, name, cls):
        self.name, self.cls = name, cls

    def __eq__(self, o):
        return self.cls == getattr(o, "cls", None)

    def __hash__(self):
        return hash(self.cls)


class Val(Tok):
    """A value of an allowed type."""

    __hash__ = None


class Val2:
    """A value of the other allowed type; every one is equal to every other."""

    cls = "V2"

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return getattr(o, "cls", None) == "V2"

    def __bool__(self):
        return False


class SubVal(Val):
    pass


class BadVal:
    def __init__(self, name):
        self.name = name


class MyDict(EventedDict):
    """A subclass with its own __init__, without basetypes."""

    def __init__(self, data=None, **kw):
        super().__init__(data, basetype=(Val, Val2), **kw)


class WithSig(EventedDict):
    extra = Signal(int)


class FailGen(Exception):
    pass


class Boom(Exception):
    """Raised by a listener."""


class Keyed:
    """Not a mapping, but has keys()."""

    def __init__(self, ps):
        self.ps = ps

    def keys(self):
        return [k for k, _ in self.ps]

    def __getitem__(self, k):
        return next(v for a, v in reversed(self.ps) if a == k)


class DictProg:
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.obj, self.ids, eq = {}, {}, {}

        def put(nm, o, cls):
            self.obj[nm], self.ids[id(o)], eq[nm] = o, nm, cls

        for i in range(5):  # keys: two pairs of equal ones, and strings
            c = f"k{i // 2}"
            put(f"K{i}", Tok(f"K{i}", c), c)
        put("kstr", "kstr", "kstr")
        put("kint", 12345678, "kint")
        put("knone", None, "knone")
        put("kunh", [], "kunh")
        self.keys = ["K0", "K1", "K2", "K3", "K4", "kstr", "kint", "knone"]
        for i in range(4):
            c = f"v{i // 2}"
            put(f"v{i}", (SubVal if i == 3 else Val)(f"v{i}", c), c)
        put("w0", Val2("w0"), "V2")
        put("w1", Val2("w1"), "V2")
        put("b0", BadVal("b0"), "b0")
        self.vals = ["v0", "v1", "v2", "v3", "w0", "w1"]
        self.kind = params.get("kind") or ch.pick(["plain", "typed", "typed", "my", "sub", "one"])
        self.typed = self.kind in ("typed", "my", "one")
        bad = []
        if self.typed:
            bad = ["b0"] + (["w0", "w1"] if self.kind == "one" else []) + ["knone", "kunh"]
            if self.kind == "one":
                self.vals = ["v0", "v1", "v2", "v3"]
        else:
            self.vals = [*self.vals, "b0", "knone"]
        rec.h.update(eq=eq, bad=bad, unhash=["kunh"])
        self.d = None
        self.x, self.g = [], []
        self.new()

    # ----------------------------------------------------------------
    def o(self, n):
        return self.obj[n]

    def tok(self, o):
        return self.ids.get(id(o), "?" + type(o).__name__)

    def content(self, d=None):
        d = self.d if d is None else d
        # (through the public interface only)
        return [[self.tok(k), self.tok(v)] for k, v in d.items()]

    def make(self, *a, **kw):
        if self.kind == "my":
            return MyDict(*a, **kw)
        if self.kind == "one":
            return EventedDict(*a, basetype=Val, **kw)
        if self.kind == "typed":
            return EventedDict(*a, basetype=self.ch.pick([(Val, Val2), [Val, Val2]]), **kw)
        if self.kind == "sub":
            return WithSig(*a, **kw)
        return EventedDict(*a, **kw)

    def new(self, pairs=None):
        if pairs is None:
            pairs, how, arg, kw = self.uarg()
        else:
            how, kw = "map", {}
            ps = [(self.o(k), self.o(v)) for k, v in pairs]
            arg = lambda: dict(ps)  # noqa: E731
        r = "ok"
        try:
            new = self.make(*([arg()] if how != "none" else []), **kw)
        except (TypeError, ValueError, FailGen) as e:
            r, new = type(e).__name__, None
        if new is None:
            if self.d is None:
                # (there must be one)
                self.rec.log("new", pairs=pairs, r=r, after=[])
                self.d = self.make()
                self.listen()
                self.rec.log("new", pairs=[], r="ok", after=self.content())
            else:
                self.rec.log("new", pairs=pairs, r=r, after=[])
            return
        self.d = new
        self.listen()
        self.rec.log("new", pairs=pairs, r=r, after=self.content())

    def listen(self):
        d = self.d
        ref = weakref.ref(d)
        self.x, self.g = [], []
        for n in EVENTS:
            getattr(d.events, n).connect(self.on(n, ref), check_nargs=False)
        d.events.connect(lambda info: self.g.append(info.signal.name) if self.d is ref() else None)
        for n in EVENTS:
            getattr(d.events, n).connect(self.boomer(n, ref), check_nargs=False)

    armed = None
    boom = ""

    def boomer(self, n, ref):
        """Listener that raises when asked to (once per operation)."""

        def cb(*args):
            if self.armed and self.armed[0] == n and self.d is ref():
                self.armed[1] -= 1
                if self.armed[1] == 0:
                    self.armed = None
                    self.boom = n
                    raise Boom

        return cb

    def on(self, n, ref):
        def cb(*args):
            if self.d is not ref():
                return
            e = {"n": n, "c": self.content(), "key": self.tok(args[0])}
            if n in ("added", "removed"):
                e["v"] = self.tok(args[1])
            elif n == "changed":
                e["old"], e["v"] = self.tok(args[1]), self.tok(args[2])
            self.x.append(e)

        return cb

    def res(self, v, t):
        if t == "l":
            return ["l", [self.tok(x) for x in v]]
        if t == "pl":
            return ["pl", [[self.tok(a), self.tok(b)] for a, b in v]]
        if t == "p":
            return ["p", [self.tok(v[0]), self.tok(v[1])]]
        if t == "t":
            return ["t", self.tok(v)]
        if v is None:
            return ["none", ""]
        if isinstance(v, bool):
            return ["b", v]
        if type(v) is int:
            return ["i", v]
        return ["?", type(v).__name__]

    def do(self, op, f, t="", **args):
        self.x, self.g = [], []
        self.boom = ""
        if self.p.get("boom") and self.ch.chance(self.p["boom"]):
            self.armed = [self.ch.pick(EVENTS), 1 + self.ch.choose(2)]
        r, res = "ok", ["none", ""]
        try:
            res = self.res(f(), t)
        except (KeyError, TypeError, ValueError, FailGen, EmitLoopError) as e:
            r = type(e).__name__
        self.armed = None
        self.rec.log("op", op=op, r=r, res=res, after=self.content(), x=self.x, g=self.g, boom=self.boom, **args)

    # ---------------------------------------------------------------- arguments
    def key(self, unh=True):
        if unh and self.ch.chance(0.04):
            return "kunh"
        if len(self.d or ()) and self.ch.chance(0.4):
            k = self.tok(self.ch.pick(list(self.d)))
            if k in self.obj:
                return k
        return self.ch.pick(self.keys)

    def val(self):
        if self.ch.chance(0.1):
            return "b0"
        if self.d is not None and len(self.d) and self.ch.chance(0.15):
            v = self.tok(self.ch.pick(list(self.d.values())))
            if v in self.obj:
                return v
        return self.ch.pick(self.vals)

    def pairs(self):
        n = self.ch.pick([0, 1, 2, 3, 4])
        # (what happens to the pairs in front of a refused one is left open)
        ps = [[self.key(False), self.ch.pick(self.vals)] for _ in range(n)]
        if ps and self.ch.chance(0.1):
            ps[0][1] = self.val()
        return ps

    def uarg(self):
        """-> (pairs as logged, how, function making the argument, keywords)"""
        how = self.ch.pick(["map", "list", "gen", "ev", "keyed", "none", "self", "items", "short", "noniter", "fail", "unh", "mapp"])
        ps = self.pairs()
        if how == "self" and self.d is None:
            how = "map"
        kw = {}
        real = [(self.o(a), self.o(b)) for a, b in ps]
        if how in ("map", "ev", "keyed", "mapp"):
            dd = dict(real)
            ps = [[self.tok(k), self.tok(v)] for k, v in dd.items()]
            if how == "map":
                arg = lambda: dd  # noqa: E731
            elif how == "ev":
                arg = lambda: EventedDict(dd)  # noqa: E731
            elif how == "keyed":
                arg = lambda: Keyed(list(dd.items()))  # noqa: E731
            else:
                import types

                arg = lambda: types.MappingProxyType(dd)  # noqa: E731
        elif how == "self":
            ps = self.content()
            me = self.d
            arg = lambda: me  # noqa: E731
        elif how == "items":
            dd = dict(real)
            ps = [[self.tok(k), self.tok(v)] for k, v in dd.items()]
            arg = lambda: dd.items()  # noqa: E731
        elif how == "none":
            ps = []
            arg = None
        elif how == "list":
            arg = lambda: list(real)  # noqa: E731
        elif how == "gen":
            arg = lambda: (list(p) for p in real)  # noqa: E731
        elif how == "short":
            ps = [*ps, ["!", "ValueError"]]
            arg = lambda: [*real, (self.o("kint"),)]  # noqa: E731
        elif how == "noniter":
            ps = [["!", "TypeError"]]
            arg = lambda: 5  # noqa: E731
        elif how == "unh":
            v = self.ch.pick(self.vals)
            ps = [*ps, ["kunh", v]]
            arg = lambda: [*real, ([], self.o(v))]  # noqa: E731
        else:
            ps = [*ps, ["!", "FailGen"]]

            def arg():
                def g():
                    yield from real
                    raise FailGen

                return g()

        if not any(p[0] == "!" for p in ps) and how != "unh" and self.ch.chance(0.3) and not any(p[1] == "b0" for p in ps):
            v = self.ch.pick(self.vals)
            kw["kstr"] = self.o(v)
            ps = [*ps, ["kstr", v]]
        return ps, how, arg, kw

    # ---------------------------------------------------------------- operations
    def op_getitem(self):
        k = self.key()
        self.do("getitem", lambda: self.d[self.o(k)], "t", key=k)

    def op_setitem(self):
        k, v = self.key(), self.val()
        self.do("setitem", lambda: self.d.__setitem__(self.o(k), self.o(v)), key=k, v=v)

    def op_delitem(self):
        k = self.key()
        self.do("delitem", lambda: self.d.__delitem__(self.o(k)), key=k)

    def op_get(self):
        k = self.key()
        v = self.ch.pick(["knone", "v0"])
        self.do("get", lambda: self.d.get(self.o(k), *([] if v == "knone" else [self.o(v)])), "t", key=k, v=v)

    def op_contains(self):
        k = self.key()
        self.do("contains", lambda: self.o(k) in self.d, key=k)

    def op_pop(self):
        k = self.key(len(self.d) > 0)
        if self.ch.chance(0.5):
            return self.do("pop", lambda: self.d.pop(self.o(k)), "t", key=k)
        v = self.ch.pick(["knone", "v0"])
        self.do("popd", lambda: self.d.pop(self.o(k), self.o(v)), "t", key=k, v=v)

    def op_popitem(self):
        self.do("popitem", lambda: self.d.popitem(), "p")

    def op_setdefault(self):
        k, v = self.key(), self.val()
        if self.ch.chance(0.2):
            return self.do("setdefault", lambda: self.d.setdefault(self.o(k)), "t", key=k, v="knone")
        self.do("setdefault", lambda: self.d.setdefault(self.o(k), self.o(v)), "t", key=k, v=v)

    def op_clear(self):
        self.do("clear", lambda: self.d.clear())

    def op_update(self):
        ps, how, arg, kw = self.uarg()
        self.do("update", lambda: self.d.update(*([arg()] if how != "none" else []), **kw), pairs=ps)

    def op_misc(self):
        w = self.ch.pick(["len", "bool", "iter", "keys", "values", "items", "hasitem", "hasvalue", "nokey"])
        d = self.d
        if w == "hasitem":
            k, v = self.key(False), self.val()
            return self.do(w, lambda: (self.o(k), self.o(v)) in d.items(), key=k, v=v)
        if w == "hasvalue":
            v = self.val()
            return self.do(w, lambda: self.o(v) in d.values(), v=v)
        if w == "nokey":
            return self.do(w, lambda: hash(d))
        f = {"len": lambda: len(d), "bool": lambda: bool(d), "iter": lambda: list(d), "keys": lambda: list(d.keys()),
             "values": lambda: list(d.values()), "items": lambda: list(d.items())}[w]
        self.do(w, f, {"iter": "l", "keys": "l", "values": "l", "items": "pl"}.get(w, ""))

    def op_eq(self):
        ps = self.content()
        if self.ch.chance(0.5):
            ps = ps[::-1]
        if self.ch.chance(0.4):
            ps = [[k, self.ch.pick(self.vals)] if self.ch.chance(0.3) else [k, v] for k, v in ps]
        if self.ch.chance(0.2):
            ps = ps[1:]
        dd = dict((self.o(a), self.o(b)) for a, b in ps)
        how = self.ch.pick(["dict", "ev", "rev", "nodict"])

        def f():
            if how == "rev":
                return dd == self.d
            a = dd if how == "dict" else EventedDict(dd) if how == "ev" else list(dd.items())
            r = self.d == a
            return object() if (self.d != a) is r else r

        self.do("eq", f, pairs=ps, how=how)

    def op_copy(self):
        w = self.ch.choose(2)
        got = {}

        def f():
            c = self.d.copy() if w else copy.copy(self.d)
            got["c"] = c
            if type(c) is not type(self.d) or c is self.d or c.events is self.d.events:
                return [(c, c)]
            return list(c.items())

        self.do("copy", f, "pl")
        if "c" in got and self.ch.chance(0.5):
            # go on with the copy: it refuses what the original refuses
            self.d = got["c"]
            self.listen()

    def op_new(self):
        self.new()


TOP = dict(getitem=1, setitem=5, delitem=3, get=1, contains=0.7, pop=3, popitem=1.5, setdefault=2, clear=0.3, update=4, misc=1.5, eq=1, copy=0.7, new=0.5)


def run(profile, params, ch, rec):
    if "cases" in params:
        p = DictProg(dict(kind="plain"), ch, rec)
        for pairs, op, a in params["cases"]:
            p.new(pairs)
            if op in ("setitem", "setdefault"):
                p.do(op, lambda: getattr(p.d, "__setitem__" if op == "setitem" else op)(p.o(a[0]), p.o(a[1])), "t" if op != "setitem" else "", key=a[0], v=a[1])
            elif op == "delitem":
                p.do(op, lambda: p.d.__delitem__(p.o(a[0])), key=a[0])
            elif op == "pop":
                p.do(op, lambda: p.d.pop(p.o(a[0])), "t", key=a[0])
            elif op == "popd":
                p.do(op, lambda: p.d.pop(p.o(a[0]), p.o(a[1])), "t", key=a[0], v=a[1])
            elif op == "popitem":
                p.do(op, lambda: p.d.popitem(), "p")
            elif op == "clear":
                p.do(op, lambda: p.d.clear())
            elif op == "update":
                real = [(p.o(x), p.o(y)) for x, y in a[0]]
                p.do(op, lambda: p.d.update(real), pairs=a[0])
        return
    p = DictProg(params, ch, rec)
    top = list(params["top"].items())
    for _ in range(params["nops"]):
        getattr(p, "op_" + ch.weighted(top))()


def cases(maxn):
    ks, vs = ["K0", "K2", "K4"], ["v0", "v1", "w0"]
    for n in range(maxn + 1):
        for kk in itertools.permutations(ks, n):
            for vv in itertools.product(vs[:2], repeat=n):
                ps = [[k, v] for k, v in zip(kk, vv)]
                for k in ["K0", "K1", "K2", "K4", "kunh"]:
                    for v in vs:
                        yield ps, "setitem", [k, v]
                    yield ps, "setdefault", [k, "v1"]
                    yield ps, "delitem", [k]
                    if k != "kunh" or n:
                        yield ps, "pop", [k]
                        yield ps, "popd", [k, "v2"]
                yield ps, "popitem", []
                yield ps, "clear", []
                for a in itertools.product(["K0", "K1", "K2"], ["v0", "v2"], repeat=2):
                    yield ps, "update", [[[a[0], a[1]], [a[2], a[3]]]]


NRAND = {"quick": 2000, "thorough": 40000}


def jobs(profile, tier, seed):
    yield {"kind": "random", "name": "C20.dict", "count": NRAND[tier], "params": dict(top=TOP, nops=30)}
    yield {"kind": "random", "name": "C20.boom", "count": NRAND[tier] // 2, "params": dict(top=TOP, nops=25, boom=0.5)}
    cs = list(cases(2 if tier == "quick" else 3))
    yield {"kind": "list", "name": "C20.all", "items": [dict(cases=cs[i : i + 60]) for i in range(0, len(cs), 60)]}
