"""Driver of evented lists: operations of the public interface, with everything they
announce."""

from __future__ import annotations

import copy
import gc
import itertools
import warnings

from dataclasses import dataclass

import numpy as np

from psygnal import EmitLoopError, Signal, SignalGroup, evented
from psygnal.containers import EventedList, SelectableEventedList

EVENTS = ["inserting", "inserted", "removing", "removed", "moving", "moved", "changed", "reordered"]


class Refused(Exception):
    pass


class Boom(Exception):
    """Raised by a listener."""


class Tok:
    def __init__(self, name, cls):
        self.name, self.cls = name, cls

    def __eq__(self, o):
        return self.cls == getattr(o, "cls", None)

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return self.name


class Child(Tok):
    s1 = Signal(str)
    s2 = Signal(str, str)
    _priv = Signal(str)

    SIGS = ("s1", "s2")


class UnhashChild(Tok):
    """Equal to every other one, not hashable, falsy."""

    s1 = Signal(str)
    s2 = Signal(str, str)
    SIGS = ("s1", "s2")
    __hash__ = None

    def __len__(self):
        return 0


class Grp(SignalGroup):
    s1 = Signal(str)
    s2 = Signal(str, str)


class GChild(Tok):
    SIGS = ("events.s1", "events.s2", "own")
    own = Signal(str)

    def __init__(self, name, cls):
        super().__init__(name, cls)
        self.events = Grp(self)


@evented
@dataclass(eq=False)
class DChild:
    cls: str
    x: str = "0"


class Typed(EventedList):
    """Refuses some items, replaces others."""

    def _pre_insert(self, v):
        if getattr(v, "name", "").startswith("bad"):
            raise Refused
        return getattr(v, "repl", v)


class Sub(EventedList):
    pass


class SlotSub(EventedList):
    __slots__ = ("extra",)


CLASSES = {"list": EventedList, "sel": SelectableEventedList, "typed": Typed, "sub": Sub, "slots": SlotSub}


class ListProg:
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.toks = {}
        self.ids = {}
        p = params
        fam = p.get("fam", "plain")
        fam = fam if isinstance(fam, str) else ch.pick(fam)
        n = p.get("ntok", 6)
        self.kind = p["cls"][0] if len(p["cls"]) == 1 else ch.pick(p["cls"])
        self.child = bool(p.get("child")) and (p["child"] == "always" or ch.chance(0.8))
        self.hashable = p.get("hashable", True) if not ch.exhaustive and ch.chance(0.7) else (p.get("hashable", True) is True and (ch.exhaustive or False))
        kinds = {
            "plain": [Tok], "child": [Child, GChild, Tok], "unhash": [UnhashChild, GChild, UnhashChild],
            "data": [DChild, Child], "nest": [EventedList, Child],
        }[fam]
        subst = {}
        for i in range(n):
            # every second pair of tokens is equal
            cls = f"c{i // 2 if i < 4 else i}" if fam != "unhash" else "U"
            nm = f"t{i}"
            k = kinds[i % len(kinds)]
            if k is GChild and fam == "unhash":
                cls = f"g{i}"
            if k is DChild:
                o = DChild(f"d{i}")
                cls = nm
            elif k is EventedList:
                # (equality of lists is that of their content)
                o = EventedList([f"in{i}"])
                cls = nm
            else:
                o = k(nm, cls)
            self.put(nm, o, cls)
        if self.kind == "typed":
            self.put("bad0", Tok("bad0", "cbad"), "cbad")
            o, r = Tok("t0s", "c0s"), self.toks["t0"][0]
            o.repl = r
            self.put("t0s", o, "c0s")
            subst["t0s"] = "t0"
        self.names = list(self.toks)
        self.emitters = [n for n in self.names if self.emits(n)]
        self.rec.h.update(
            items=[], eq={k: c for k, (_, c) in self.toks.items()}, child=self.child, hashable=self.hashable,
            bad=["bad0"] if self.kind == "typed" else [], subst=subst,
        )
        self.depth = 0
        self.chev = []
        self.nval = 0
        self.new([])

    def emits(self, n):
        return hasattr(self.o(n), "SIGS") or isinstance(self.o(n), (DChild, EventedList))

    def put(self, nm, o, cls):
        self.toks[nm] = (o, cls)
        self.ids[id(o)] = nm

    def o(self, nm):
        return self.toks[nm][0]

    def tok(self, o):
        return self.ids.get(id(o), "?" + type(o).__name__)

    def content(self, lst=None):
        return [self.tok(x) for x in list.__iter__(list(self.lst if lst is None else lst))]

    def mk(self, items):
        return CLASSES[self.kind](items, hashable=self.hashable, child_events=self.child)

    def new(self, names):
        self.lst = self.mk([self.o(n) for n in names])
        self.x, self.g = [], []
        self.listen()
        self.rec.log("new", items=list(names), after=self.content())

    def adopt(self, lst):
        self.lst = lst
        self.x, self.g = [], []
        self.listen()

    def listen(self):
        lst = self.lst
        for n in EVENTS:
            getattr(lst.events, n).connect(self.on(n), check_nargs=False)
        lst.events.connect(self.on_group)
        for n in EVENTS:
            getattr(lst.events, n).connect(self.boomer(n), check_nargs=False)
        ident = id(lst)
        lst.events.child_event.connect(lambda *a: self.on_child(*a) if id(self.lst) == ident else None, check_nargs=False)

    armed = None
    boom = ""

    def boomer(self, n):
        """Listener that raises when asked to (once per operation)."""

        def cb(*args):
            if self.armed and self.armed[0] == n:
                self.armed[1] -= 1
                if self.armed[1] == 0:
                    self.armed = None
                    self.boom = n
                    raise Boom

        return cb

    def on_group(self, info):
        if info.signal.name != "child_event":
            self.g.append(info.signal.name)

    def on_child(self, i, obj, sig, args):
        self.chev.append({"i": i, "v": self.tok(obj), "s": sig.name, "a": [str(a) for a in args]})

    def on(self, n):
        def cb(*args):
            d = {"n": n, "c": self.content()}
            args = [int(a) if isinstance(a, np.integer) else a for a in args]
            if n in ("inserting", "removing"):
                d["i"] = args[0]
            elif n in ("inserted", "removed"):
                d["i"], d["v"] = args[0], self.tok(args[1])
            elif n == "moving":
                d["i"], d["j"] = args
            elif n == "moved":
                d["i"], d["j"], d["v"] = args[0], args[1], self.tok(args[2])
            elif n == "changed":
                key, old, new = args
                if isinstance(key, slice):
                    d["key"] = enc_key(key)
                    d["old"] = self.content(old) if isinstance(old, list) else ["?"]
                    d["new"] = self.content(new) if isinstance(new, list) else ["?"]
                else:
                    d["key"] = ["i", key]
                    d["old"], d["new"] = [self.tok(old)], [self.tok(new)]
            self.x.append(d)
            if self.reent and n != "inserted" and self.ch.chance(0.3):
                v = self.ch.pick(self.emitters)
                s, a, got = self.emit_child(v)
                self.x.append({"n": "child", "v": v, "s": s, "a": a, "x": got, "c": self.content()})

        return cb

    reent = False

    def emit_child(self, v):
        o = self.o(v)
        saved, self.chev = self.chev, []
        self.nval += 1
        a = f"v{self.nval}"
        try:
            if isinstance(o, DChild):
                old = o.x
                o.x = a
                return "x", [a, old], self.chev
            if isinstance(o, EventedList):
                o.events.removed.emit(3, a)
                return "removed", ["3", a], self.chev
            sg = self.ch.pick(o.SIGS)
            args = [a] if not sg.endswith("s2") else [a, "w"]
            if sg.startswith("events."):
                sg = sg[7:]
                o.events[sg].emit(*args)
            else:
                getattr(o, sg).emit(*args)
            return sg, args, self.chev
        finally:
            self.chev = saved

    # ---------------------------------------------------------------- results
    def res(self, v, t=None):
        if v is None:
            return ["none", ""]
        if isinstance(v, bool):
            return ["b", v]
        if type(v) is int:
            return ["i", v]
        if id(v) in self.ids and t != "l":
            return ["t", self.ids[id(v)]]
        if isinstance(v, (list, EventedList)):
            if t == "ev" and type(v) is not type(self.lst):
                return ["wrongtype", type(v).__name__]
            return ["l", self.content(v)]
        return ["?", type(v).__name__]

    def do(self, op, f, t=None, **args):
        self.x, self.g = [], []
        self.reent = self.p.get("reent", False)
        self.boom = ""
        if self.p.get("boom") and self.ch.chance(self.p["boom"]):
            self.armed = [self.ch.pick(EVENTS), 1 + self.ch.choose(2)]
        r, res = "ok", ["none", ""]
        try:
            v = f()
            res = self.res(v, t)
        except (IndexError, ValueError, TypeError, Refused, EmitLoopError) as e:
            r = type(e).__name__
        self.reent, self.armed = False, None
        self.rec.log("op", op=op, r=r, res=res, after=self.content(), x=self.x, g=self.g, boom=self.boom, **args)

    # ---------------------------------------------------------------- arguments
    def idx(self):
        n = len(self.lst)
        return self.ch.choose(2 * n + 4) - n - 2

    def num(self, i):
        """An index that lists accept."""
        return np.int64(i) if self.ch.chance(0.15) else i

    def name(self, ok=True):
        ns = [n for n in self.names if not (ok and n.startswith("bad"))]
        return self.ch.pick(ns)

    def vals(self, ok=False, lo=0, hi=4):
        k = lo + self.ch.choose(hi - lo)
        return [self.name(ok) for _ in range(k)]

    def key(self):
        n = len(self.lst)
        if self.ch.chance(0.5):
            return ["i", self.idx()], None
        return self.slice()

    def slice(self):
        n = len(self.lst)

        def b():
            return None if self.ch.chance(0.3) else self.ch.choose(2 * n + 3) - n - 1

        st = self.ch.pick([None, 1, 1, 1, 2, -1, -2, 3, 0])
        s = slice(b(), b(), st)
        return enc_key(s), s

    def iterable(self, vs, how):
        os = [self.o(v) for v in vs]
        return {
            "list": lambda: os, "tuple": lambda: tuple(os), "gen": lambda: (x for x in os), "iter": lambda: iter(os),
            "ev": lambda: EventedList(os), "dict": lambda: {i: None for i in os},
        }[how]()

    def how(self):
        h = self.ch.pick(["list", "tuple", "gen", "iter", "ev", "self", "nonit"])
        return h

    def iarg(self, ok=True, hi=4):
        """-> (values, how, function of the argument)"""
        h = self.how()
        if h == "self":
            return self.content(), h, lambda: self.lst
        if h == "nonit":
            return [], h, lambda: 5
        vs = self.vals(ok, 0, hi)
        return vs, h, lambda: self.iterable(vs, h)

    # ---------------------------------------------------------------- operations
    def op_getitem(self):
        k, s = self.key()
        j = self.num(k[1])
        self.do("getitem", lambda: self.lst[j if k[0] == "i" else s], "ev" if k[0] == "s" else None, key=k)

    def op_setitem(self):
        i, v = self.idx(), self.name(False)
        j = self.num(i)

        def f():
            self.lst[j] = self.o(v)

        self.do("setitem", f, key=["i", i], v=v)

    def op_setslice(self):
        k, s = self.slice()
        vs, h, a = self.iarg(False)
        if k[5] not in (0, 1) and self.ch.chance(0.7) and h not in ("self", "nonit"):
            n = len(range(*s.indices(len(self.lst))))
            vs = [self.name() for _ in range(n)]

        def f():
            self.lst[s] = a() if h in ("self", "nonit") else self.iterable(vs, h)

        self.do("setslice", f, key=k, vs=vs, how=h)

    def op_delitem(self):
        k, s = self.key()
        j = self.num(k[1])

        def f():
            del self.lst[j if k[0] == "i" else s]

        self.do("delitem", f, key=k)

    def op_badkey(self):
        bad = self.ch.pick(["a", 1.5, None, (0,)])
        w = self.ch.choose(3)

        def f():
            if w == 0:
                return self.lst[bad]
            if w == 1:
                del self.lst[bad]
            else:
                self.lst[bad] = self.o(self.names[0])

        self.do("badkey", f)

    def op_insert(self):
        i, v = self.idx(), self.name(False)
        j = self.num(i)
        self.do("insert", lambda: self.lst.insert(j, self.o(v)), i=i, v=v)

    def op_append(self):
        v = self.name(False)
        self.do("append", lambda: self.lst.append(self.o(v)), v=v)

    def op_extend(self):
        vs, h, a = self.iarg()
        if len(self.lst) > 8:
            return
        self.do("extend", lambda: self.lst.extend(a()), vs=vs, how=h)

    def op_iadd(self):
        vs, h, a = self.iarg()
        if len(self.lst) > 8:
            return

        def f():
            me = self.lst
            me += a()
            if me is not self.lst:
                return object()

        self.do("iadd", f, vs=vs, how=h)

    def op_pop(self):
        if self.ch.chance(0.4):
            return self.do("pop", lambda: self.lst.pop(), i=-1)
        i = self.idx()
        j = self.num(i)
        self.do("pop", lambda: self.lst.pop(j), i=i)

    def op_remove(self):
        v = self.name()
        self.do("remove", lambda: self.lst.remove(self.o(v)), v=v)

    def op_clear(self):
        self.do("clear", lambda: self.lst.clear())

    def op_reverse(self):
        ind = self.ch.chance(0.5)
        self.do("reverse", lambda: self.lst.reverse(emit_individual_events=ind) if ind else self.lst.reverse())

    def op_index(self):
        v = self.name()
        lo = self.idx() if self.ch.chance(0.5) else 0
        hashi = self.ch.chance(0.4)
        hi = self.idx() if hashi else 0
        a = (lo, hi) if hashi else (lo,) if lo else ()
        self.do("index", lambda: self.lst.index(self.o(v), *a), v=v, lo=lo, hi=hi, hashi=hashi)

    def op_count(self):
        v = self.name()
        self.do("count", lambda: self.lst.count(self.o(v)), v=v)

    def op_contains(self):
        v = self.name()
        self.do("contains", lambda: self.o(v) in self.lst, v=v)

    def op_iter(self):
        self.do("iter", lambda: [x for x in self.lst], "l")

    def op_reversed(self):
        self.do("reversed", lambda: [x for x in reversed(self.lst)], "l")

    def op_len(self):
        self.do("len", lambda: len(self.lst))

    def op_bool(self):
        self.do("bool", lambda: bool(self.lst))

    def op_eq(self):
        vs = self.content() if self.ch.chance(0.5) else self.vals(True)
        vs = [self.ch.pick([n for n in self.names if self.toks[n][1] == self.toks[v][1]]) if self.ch.chance(0.5) else v for v in vs]
        h = self.ch.pick(["list", "tuple", "ev", "rev"])

        def f():
            if h == "rev":
                return [self.o(v) for v in vs] == self.lst
            a = self.iterable(vs, h)
            r = self.lst == a
            if (self.lst != a) is r:
                return object()
            return r

        self.do("eq", f, vs=vs, how=h)

    def op_add(self):
        vs, h, a = self.iarg()
        self.do("add", lambda: self.lst + a(), "ev", vs=vs, how=h)

    def op_radd(self):
        vs = self.vals(True)
        self.do("radd", lambda: [self.o(v) for v in vs] + self.lst, "l", vs=vs)

    def op_copy(self):
        w = self.ch.choose(3)

        def f():
            me = self.lst
            r = me.copy() if w == 0 else copy.copy(me) if w == 1 else me[:]
            if r is me or r.events is me.events:
                return object()
            return r

        self.do("copy", f, "ev")

    def op_hash(self):
        def f():
            me = self.lst
            other = CLASSES[self.kind](list(me), hashable=True)
            return hash(me) == hash(me) and len({me, other}) == 2 and {me: 1}[me] == 1

        self.do("hash", f)

    def op_move(self):
        i, d = self.idx(), self.idx()
        r = self.ch.chance(0.8) or d
        self.do("move", lambda: self.lst.move(i, d), i=i, d=d)

    def op_move_multiple(self):
        n = len(self.lst)
        keys, args = [], []
        for _ in range(self.ch.choose(4)):
            if self.ch.chance(0.7) or not n:
                j = self.ch.choose(2 * n) - n if n and self.ch.chance(0.9) else self.idx()
                keys.append(["i", j])
                args.append(j)
            else:
                k, s = self.slice()
                if k[5] == 0:
                    continue
                keys.append(k)
                args.append(s)
        d = self.idx()
        it = self.ch.choose(3)
        self.do("move_multiple", lambda: self.lst.move_multiple(iter(args) if it == 0 else args, d), keys=keys, d=d)

    def op_child(self):
        v = self.ch.pick(self.content() or self.names) if self.ch.chance(0.6) else self.name()
        if not self.emits(v):
            return
        s, a, got = self.emit_child(v)
        self.rec.log("child", v=v, s=s, a=a, x=got)

    def op_new(self):
        self.new(self.vals(True, 0, 5))

    def op_adopt_copy(self):
        """Go on with a deep copy (whose items are copies) of the list."""
        old = self.lst
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            new = copy.deepcopy(old)
        for a, b in zip(list(old), list(new)):
            nm = self.tok(a)
            self.ids[id(b)] = nm
            self.toks[nm] = (b, self.toks[nm][1])
        # items that are not in the list are no longer the ones of the copy, but stay
        self.adopt(new)
        self.rec.log("op", op="iter", r="ok", res=["l", self.content()], after=self.content(), x=[], g=[])


def enc_key(s):
    if isinstance(s, slice):
        z = lambda v: 0 if v is None else v  # noqa: E731
        return ["s", s.start is not None, z(s.start), s.stop is not None, z(s.stop), 1 if s.step is None else s.step]
    return ["i", s]


def run(profile, params, ch, rec):
    p = ListProg(params, ch, rec)
    if "cases" in params:
        for items, op, args in params["cases"]:
            p.new(items)
            fixed(p, op, args)
        return
    if params.get("start", True):
        p.op_new()
    top = list(params["top"].items())
    for _ in range(params["nops"]):
        if len(p.lst) > 12:
            p.op_new()
        getattr(p, "op_" + ch.weighted(top))()
    if p.child:
        for v in p.names:
            if p.emits(v):
                s, a, got = p.emit_child(v)
                rec.log("child", v=v, s=s, a=a, x=got)


def fixed(p, op, a):
    """One operation with given arguments (the exhaustively enumerated ones)."""
    L = p.lst
    if op == "setitem":
        def f():
            L[a[0]] = p.o(a[1])
        p.do(op, f, key=["i", a[0]], v=a[1])
    elif op == "getitem" or op == "delitem":
        k = a[0]
        kk = k if isinstance(k, int) else slice(*k)

        def f():
            if op == "getitem":
                return L[kk]
            del L[kk]
        p.do(op, f, "ev" if isinstance(kk, slice) and op == "getitem" else None, key=enc_key(kk))
    elif op == "setslice":
        s = slice(*a[0])

        def f():
            L[s] = [p.o(v) for v in a[1]]
        p.do(op, f, key=enc_key(s), vs=a[1], how="list")
    elif op == "insert":
        p.do(op, lambda: L.insert(a[0], p.o(a[1])), i=a[0], v=a[1])
    elif op == "pop":
        p.do(op, lambda: L.pop(a[0]), i=a[0])
    elif op == "remove":
        p.do(op, lambda: L.remove(p.o(a[0])), v=a[0])
    elif op == "reverse":
        p.do(op, lambda: L.reverse(emit_individual_events=a[0]))
    elif op == "index":
        lo, hi = a[1], a[2]
        p.do(op, lambda: L.index(p.o(a[0]), lo, hi), v=a[0], lo=lo, hi=hi, hashi=True)
    elif op == "move":
        p.do(op, lambda: L.move(*a), i=a[0], d=a[1])
    elif op == "move_multiple":
        p.do(op, lambda: L.move_multiple(a[0], a[1]), keys=[["i", x] for x in a[0]], d=a[1])
    elif op == "clear":
        p.do(op, lambda: L.clear())


def cases(maxn):
    for n in range(maxn + 1):
        items = [["t0", "t2", "t1", "t4", "t0", "t5"][i] for i in range(n)]
        r = range(-n - 2, n + 3)
        ends = [None, *range(-n - 1, n + 2)]
        steps = [None, -1, 2, -2] + ([3, 1, 0] if maxn > 4 else [])
        for i in r:
            yield items, "getitem", [i]
            yield items, "delitem", [i]
            yield items, "setitem", [i, "t3"]
            yield items, "insert", [i, "t3"]
            yield items, "pop", [i]
            for d in r:
                yield items, "move", [i, d]
                if n and n <= 3:
                    yield items, "index", ["t1", i, d]
        for t in ("t0", "t1", "t3", "t5"):
            yield items, "remove", [t]
        for b in (False, True):
            yield items, "reverse", [b]
        yield items, "clear", []
        for a in ends:
            for b in ends:
                for s in steps:
                    if n > 3 and (a, b).count(None) == 0 and s in (2, -2) and maxn <= 4:
                        continue
                    yield items, "getitem", [[a, b, s]]
                    yield items, "delitem", [[a, b, s]]
                    m = len(range(*slice(a, b, s).indices(n))) if s != 0 else 1
                    yield items, "setslice", [[a, b, s], ["t3"] * m if s not in (None, 1) else ["t3", "t5"]]
                    yield items, "setslice", [[a, b, s], ["t3"]]
        for k in range(0, 4 if maxn > 4 else 3):
            for src in itertools.product(range(-1 if k > 2 or n > 3 else -n - 1, n + (1 if k < 2 else 0)), repeat=k):
                for d in range(-1 if k > 1 else -n - 1, n + 1):
                    yield items, "move_multiple", [list(src), d]


OPS = dict(
    getitem=2, setitem=2, setslice=3, delitem=2, badkey=0.3, insert=2, append=1, extend=1.5, iadd=1, pop=1.5, remove=1.5,
    clear=0.2, reverse=0.7, index=1.5, count=0.5, contains=0.5, iter=0.3, reversed=0.3, len=0.3, bool=0.2, eq=1, add=0.7, radd=0.3,
    copy=0.6, hash=0.3, move=2, move_multiple=2, new=0.5,
)
MUT = dict(
    setitem=2, setslice=3, delitem=2, insert=2, append=1, extend=1.5, iadd=1, pop=1.5, remove=1.5, clear=0.3, reverse=0.7,
    move=2, move_multiple=2, new=0.4,
)
P = {
    "C18": [
        dict(name="list", w=3, cls=["list", "list", "sel", "sub", "slots"], top=OPS, nops=30),
        dict(name="child", w=2, cls=["list", "sub"], fam=["child", "data", "nest", "unhash"], child=True, top=OPS, nops=25),
        dict(name="typed", w=1, cls=["typed"], top=OPS, nops=25),
    ],
    "C19": [
        dict(name="events", w=2, cls=["list", "sel", "typed", "sub", "slots"], top=MUT, nops=30),
        dict(name="child", w=4, cls=["list", "list", "sub", "slots"], fam=["child", "unhash", "data", "nest"], child="always", top={**MUT, "child": 10, "adopt_copy": 0.2}, nops=30, ntok=5),
        dict(name="selchild", w=1, cls=["sel"], fam=["child"], child="always", top={**MUT, "child": 8}, nops=25, ntok=5),
        dict(name="boom", w=2, cls=["list", "list", "typed", "sub", "slots"], fam=["child", "unhash", "data", "nest", "plain"], child="always", boom=0.4, top={**MUT, "child": 8}, nops=25, ntok=5),
        dict(name="reent", w=2, cls=["list"], fam=["child", "unhash"], child="always", reent=True, top={**MUT, "child": 3}, nops=20, ntok=5),
    ],
}
NRAND = {"quick": 2500, "thorough": 30000}


def jobs(profile, tier, seed):
    tot = sum(p["w"] for p in P[profile])
    for p in P[profile]:
        yield {"kind": "random", "name": f"{profile}.{p['name']}", "count": int(NRAND[tier] * p["w"] / tot), "params": p}
    cs = list(cases(4 if tier == "quick" else 6))
    yield {
        "kind": "list", "name": f"{profile}.all",
        "items": [dict(cls=["list"], cases=cs[i : i + 60]) for i in range(0, len(cs), 60)],
    }
