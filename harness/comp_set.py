"""Driver of evented (ordered) sets."""

from __future__ import annotations

import copy
import itertools
import weakref

from psygnal import EmitLoopError
from psygnal.containers import EventedOrderedSet, EventedSet, Selection


class Tok:
    def __init__(self, cls, i):
        self.cls, self.i = cls, i

    def __eq__(self, o):
        return isinstance(o, Tok) and self.cls == o.cls

    def __hash__(self):
        return hash(self.cls) % 7

    def __str__(self):
        return self.cls

    def __bool__(self):
        return self.cls != "c0"


class FailGen(Exception):
    pass


class Boom(Exception):
    """Raised by a listener."""


class MySet(EventedSet):
    pass


class MyOrdered(EventedOrderedSet):
    pass


CLASSES = {"set": EventedSet, "ord": EventedOrderedSet, "myset": MySet, "myord": MyOrdered, "selord": Selection}
NAMES = [f"c{i}" for i in range(6)] + ["None", "0", "''", "()"]
SPECIAL = {"None": None, "0": 0, "''": "", "()": ()}
OPER = {
    "or": lambda a, b: a | b, "and": lambda a, b: a & b, "sub": lambda a, b: a - b, "xor": lambda a, b: a ^ b,
    "ror": lambda a, b: b | a, "rand": lambda a, b: b & a, "rsub": lambda a, b: b - a, "rxor": lambda a, b: b ^ a,
    "le": lambda a, b: a <= b, "lt": lambda a, b: a < b, "ge": lambda a, b: a >= b, "gt": lambda a, b: a > b,
}


def iop(op, s, o):
    me = s
    if op == "ior":
        s |= o
    elif op == "iand":
        s &= o
    elif op == "isub":
        s -= o
    elif op == "ixor":
        s ^= o
    return None if s is me else object()


class SetProg:
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.kind = params.get("kind") or ch.pick(["set", "set", "ord", "ord", "myset", "myord", "selord"])
        self.ordered = "ord" in self.kind
        rec.h.update(ordered=self.ordered)
        self.n = 0
        self.s = None
        self.nest = None
        self.new([])

    def o(self, n):
        if n == "[]":
            return []
        if n in SPECIAL:
            return SPECIAL[n]
        self.n += 1
        return Tok(n, self.n)  # always another, equal, object

    def tok(self, o):
        if isinstance(o, Tok):
            return o.cls
        for k, v in SPECIAL.items():
            if o is v:
                return k
        return "?" + type(o).__name__

    def content(self, s=None):
        return [self.tok(x) for x in (self.s if s is None else s)]

    def new(self, arg=None):
        how = "list"
        if arg is None:
            how, arg, f = self.arg(fail=False)
        else:
            a = arg
            arg = [[v] for v in a]
            f = lambda: [self.o(v) for v in a]  # noqa: E731
        self.s = CLASSES[self.kind](f()) if arg or how != "list" else CLASSES[self.kind]()
        self.listen()
        self.rec.log("new", arg=arg, after=self.content())

    def listen(self):
        s = self.s
        self.frames = [{"x": [], "g": 0}]
        ref = weakref.ref(s)

        def cb(added, removed):
            if self.s is ref():
                self.frames[-1]["x"].append({"add": [self.tok(v) for v in added], "rem": [self.tok(v) for v in removed], "c": self.content()})

        def gcb(info):
            if self.s is ref() and info.signal.name == "items_changed":
                self.frames[-1]["g"] += 1

        def nested(added, removed):
            # another operation from within the announcement of one (announced afterwards)
            if self.s is ref() and self.nest is not None:
                op, self.nest = self.nest, None
                self.frames[-1]["after"] = self.content()
                self.do(*op[:2], **op[2])

        s.events.items_changed.connect(cb, check_nargs=False)
        s.events.connect(gcb)
        s.events.items_changed.connect(nested, check_nargs=False)

        def boom(*args):
            if self.armed and self.s is ref():
                self.armed = False
                self.frames[0]["boom"] = "items_changed"
                raise Boom

        s.events.items_changed.connect(boom, check_nargs=False)

    def res(self, v, t):
        if v is None and t != "t":
            return ["none", ""]
        if isinstance(v, bool):
            return ["b", v]
        if t == "t":
            return ["t", self.tok(v)]
        if t == "i":
            return ["i", v]
        if t in ("s", "u"):
            if t == "s" and (type(v) is not type(self.s) or v is self.s or v.events is self.s.events):
                return ["?", type(v).__name__]
            return ["s", self.content(v)]
        if t == "it":
            return ["s", self.content(v)]
        return ["?", type(v).__name__]

    running = armed = False

    def do(self, op, f, t="", **args):
        top = not self.running
        fr = {"x": [], "g": 0}
        if top:
            self.frames, self.running = [fr], True
            self.nest = self.nestop() if self.p.get("reent") and self.ch.chance(0.6) else None
            self.armed = bool(self.p.get("boom")) and self.ch.chance(self.p["boom"])
        else:
            self.frames.append(fr)
        r, res = "ok", ["none", ""]
        try:
            res = self.res(f(), t)
        except (KeyError, TypeError, ValueError, FailGen, EmitLoopError) as e:
            r = type(e).__name__
        if top:
            self.armed = False
        fr.setdefault("after", self.content())
        fr.update(op=op, r=r, res=res, **args)
        if top:
            self.running = False
            for fr in self.frames:
                self.rec.log("op", **fr)

    def nestop(self):
        op = self.ch.pick(["add", "discard", "clear", "update", "difference_update", "symmetric_difference_update"])
        if op == "clear":
            return op, lambda: self.s.clear(), {}
        if op in ("add", "discard"):
            v = self.name(False)
            o = self.o(v)
            return op, lambda: getattr(self.s, op)(o), {"v": v}
        vs = [self.name(False) for _ in range(self.ch.choose(4))]
        os = [self.o(v) for v in vs]
        return op, lambda: getattr(self.s, op)(os), {"args": [[[v] for v in vs]]}

    # ---------------------------------------------------------------- arguments
    def name(self, unh=True):
        if unh and self.ch.chance(0.03):
            return "[]"
        n = self.ch.pick(NAMES[: self.p.get("ntok", 10)])
        return "0" if n == "None" and self.kind == "selord" else n

    def arg(self, fail=True, sets=False):
        hows = ["set", "frozenset", "ev", "ord", "self"] if sets else [
            "list", "tuple", "gen", "iter", "set", "frozenset", "ev", "ord", "self", "dict", "dup", "map", *(["fail", "unh", "nonit"] if fail else [])]
        how = self.ch.pick(hows)
        if self.s is None and how == "self":
            how = "set"
        if how == "nonit":
            return how, [["!", "TypeError"]], lambda: 5
        if how == "self":
            me = self.s
            return how, [[v] for v in self.content()], lambda: me
        vs = [self.name(False) for _ in range(self.ch.choose(5))]
        if self.s is not None and len(self.s) and self.ch.chance(0.5):
            vs += self.content()[: 1 + self.ch.choose(3)]
        if how == "dup":
            vs = vs + vs[:2]
        os = [self.o(v) for v in vs]
        if how in ("set", "frozenset", "ev", "ord", "dict"):
            c = {"set": set, "frozenset": frozenset, "ev": EventedSet, "ord": EventedOrderedSet, "dict": dict.fromkeys}[how](os)
            return how, [[self.tok(v)] for v in c], lambda: c
        if how == "fail":
            def g():
                yield from os
                raise FailGen
            return how, [*([v] for v in vs), ["!", "FailGen"]], g
        if how == "unh":
            k = self.ch.choose(len(vs) + 1)
            vs2 = vs[:k] + ["[]"] + vs[k:]
            os2 = os[:k] + [[]] + os[k:]
            return how, [[v] for v in vs2], lambda: os2
        f = {"list": lambda: os, "tuple": lambda: tuple(os), "gen": lambda: (x for x in os), "iter": lambda: iter(os), "dup": lambda: os,
             "map": lambda: map(lambda x: x, os)}[how]
        return how, [[v] for v in vs], f

    def args(self, n, fail=True):
        hs, aa, ff = [], [], []
        for _ in range(n):
            h, a, f = self.arg(fail)
            # (which of several failing arguments is noticed is left open)
            fail = fail and h not in ("nonit", "fail", "unh")
            hs.append(h)
            aa.append(a)
            ff.append(f)
        return aa, ff

    # ---------------------------------------------------------------- operations
    def op_single(self):
        op = self.ch.pick(["add", "add", "discard", "remove", "contains"])
        v = self.name()
        if op != "add" and len(self.s) and self.ch.chance(0.5):
            v = self.ch.pick(self.content())
        o = self.o(v)
        f = (lambda: o in self.s) if op == "contains" else (lambda: getattr(self.s, op)(o))
        self.do(op, f, v=v)

    def op_pop(self):
        self.do("pop", lambda: self.s.pop(), "t")

    def op_clear(self):
        self.do("clear", lambda: self.s.clear())

    def op_update(self):
        op = self.ch.pick(["update", "update", "difference_update", "intersection_update"])
        aa, ff = self.args(self.ch.pick([0, 1, 1, 1, 2, 3]))
        self.do(op, lambda: getattr(self.s, op)(*[f() for f in ff]), args=aa)

    def op_sym(self):
        aa, ff = self.args(1)
        self.do("symmetric_difference_update", lambda: self.s.symmetric_difference_update(ff[0]()), args=aa)

    def op_method(self):
        op = self.ch.pick(["union", "difference", "intersection", "symmetric_difference"])
        aa, ff = self.args(1 if op[0] == "s" else self.ch.pick([0, 1, 1, 2, 3]))
        self.do(op, lambda: getattr(self.s, op)(*[f() for f in ff]), "s", args=aa)

    def op_oper(self):
        op = self.ch.pick(["or", "and", "sub", "xor", "ror", "rand", "rsub", "rxor"])
        h, a, f = self.arg(sets=True)
        if op[0] == "r" and h == "frozenset":
            pass
        self.do(op, lambda: OPER[op](self.s, f()), "u" if op[0] == "r" else "s", args=[a])

    def op_iop(self):
        op = self.ch.pick(["ior", "iand", "isub", "ixor"])
        if self.ch.chance(0.05):
            return self.do("noniter", lambda: iop(op, self.s, 5))
        h, a, f = self.arg(sets=True)
        self.do(op, lambda: iop(op, self.s, f()), args=[a])

    def op_test(self):
        op = self.ch.pick(["issubset", "issuperset", "isdisjoint"])
        h, a, f = self.arg(False)
        self.do(op, lambda: getattr(self.s, op)(f()), args=[a])

    def op_cmp(self):
        op = self.ch.pick(["eq", "le", "lt", "ge", "gt"])
        h, a, f = self.arg(sets=True)
        if self.ch.chance(0.3):
            a = [[v] for v in self.content()]
            c = set(self.s)
            f = lambda: c  # noqa: E731
        how = "set"
        if self.ch.chance(0.1):
            how, f = "noset", lambda: [1, 2]

        def eq():
            b = f()
            r = self.s == b
            return object() if (self.s != b) is r or (b == self.s) is not r else r

        self.do(op, eq if op == "eq" else lambda: OPER[op](self.s, f()), args=[a], how=how)

    def op_misc(self):
        w = self.ch.pick(["len", "bool", "iter", "copy", "hash", "copy2"])
        if w == "hash" and self.kind == "selord":
            w = "len"
        s = self.s
        got = {}

        def cp():
            got["c"] = s.copy() if w == "copy" else copy.copy(s)
            return got["c"]

        if w in ("copy", "copy2"):
            self.do("copy", cp, "s")
            if "c" in got and self.ch.chance(0.5):
                self.s = got["c"]
                self.listen()
            return
        f = {"len": lambda: len(s), "bool": lambda: bool(s), "iter": lambda: list(s), "hash": lambda: hash(s)}[w]
        self.do(w, f, {"iter": "it", "len": "i"}.get(w, ""))

    def op_new(self):
        self.new()


TOP = dict(single=6, pop=1, clear=0.4, update=5, sym=2, method=3, oper=3, iop=3, test=1.5, cmp=1.5, misc=1, new=0.4)


def run(profile, params, ch, rec):
    p = SetProg(params, ch, rec)
    if "cases" in params:
        for items, op, args in params["cases"]:
            p.new(items)
            if op in ("add", "discard", "remove"):
                o = p.o(args)
                p.do(op, lambda: getattr(p.s, op)(o), v=args)
            elif op == "pop":
                p.do(op, lambda: p.s.pop(), "t")
            elif op == "clear":
                p.do(op, lambda: p.s.clear())
            else:
                os = [p.o(v) for v in args]
                if op.startswith("i") and len(op) <= 4:
                    st = EventedOrderedSet(os)
                    p.do(op, lambda: iop(op, p.s, st), args=[[[p.tok(v)] for v in st]])
                else:
                    p.do(op, lambda: getattr(p.s, op)(os), "" if op.endswith("update") else "s", args=[[[v] for v in args]])
        return
    top = list(params["top"].items())
    for _ in range(params["nops"]):
        getattr(p, "op_" + ch.weighted(top))()


def cases(ntok):
    names = NAMES[:ntok]
    for n in range(ntok + 1):
        for items in itertools.permutations(names, n):
            items = list(items)
            for v in [*names, "()", "[]"]:
                for op in ("add", "discard", "remove"):
                    yield items, op, v
            yield items, "pop", None
            yield items, "clear", None
            for k in range(4):
                for a in itertools.product(names, repeat=k):
                    for op in ("update", "difference_update", "intersection_update", "symmetric_difference_update", "ior", "iand", "isub", "ixor"):
                        if k == 3 and op[0] == "i" and len(op) <= 4:
                            continue
                        yield items, op, list(a)
                    if k < 3:
                        for op in ("union", "difference", "intersection", "symmetric_difference"):
                            yield items, op, list(a)


NRAND = {"quick": 2000, "thorough": 40000}


def jobs(profile, tier, seed):
    yield {"kind": "random", "name": "C21.set", "count": NRAND[tier], "params": dict(top=TOP, nops=30)}
    yield {"kind": "random", "name": "C21.nested", "count": NRAND[tier] // 4, "params": dict(top=TOP, nops=25, reent=True, ntok=5)}
    yield {"kind": "random", "name": "C21.boom", "count": NRAND[tier] // 2, "params": dict(top=TOP, nops=25, ntok=6, boom=0.5)}
    cs = list(cases(3))
    cs = [*cs] if tier == "thorough" else cs[:: 2]
    for k in ("set", "ord"):
        yield {"kind": "list", "name": f"C21.all.{k}", "items": [dict(kind=k, cases=cs[i : i + 80]) for i in range(0, len(cs), 80)]}
