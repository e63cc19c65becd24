"""Driver of selections and selectable lists."""

from __future__ import annotations

import itertools

from psygnal import EmitLoopError
from psygnal.containers import SelectableEventedList, Selection
from comp_list import enc_key

NAMES = [f"t{i}" for i in range(7)]
NO = "-"
BOOMS = ["items", "items", "active", "active", "current", "current", "inserted", "removed", "changed"]


class Boom(Exception):
    """Raised by a listener."""


class Item:
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return self.n


class FItem(Item):
    """A falsy item."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EItem(Item):
    """Items that are compared and hashed."""

    def __eq__(self, o):
        return isinstance(o, EItem) and o.n == self.n

    def __hash__(self):
        return len(self.n)


class SubList(SelectableEventedList):
    pass


class SelProg:
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.kind = params.get("kind") or ch.pick(["list", "list", "sub", "sel"])
        self.parent = self.kind != "sel"
        c = params.get("item") or ch.pick(["obj", "falsy", "eq", "val"])
        if c == "val":
            objs = [0, "", 1.5, (), "a", frozenset(), 7]
        else:
            objs = [{"obj": Item, "falsy": FItem, "eq": EItem}[c](n) for n in NAMES]
        self.eqc = c == "eq"
        self.obj = dict(zip(NAMES, objs))
        self.back = [(o, n) for n, o in self.obj.items()]
        rec.h.update(parent=self.parent, eq={n: n for n in NAMES})
        self.new([])

    def o(self, n):
        if n == NO:
            return None
        if self.eqc and self.ch.chance(0.3):
            return self.obj[n]
        return self.obj[n]

    def tok(self, o):
        if o is None:
            return NO
        for b, n in self.back:
            if b is o or (type(b) is type(o) and b == o):
                return n
        return "?" + type(o).__name__

    def toks(self, it):
        return [self.tok(x) for x in it]

    def new(self, items):
        os = [self.o(n) for n in items]
        if self.parent:
            self.lst = (SubList if self.kind == "sub" else SelectableEventedList)(os)
            self.sel = self.lst.selection
        else:
            self.lst = []
            self.sel = Selection(os)
        self.x = []
        sel = self.sel
        ident = id(sel)

        def cb(added, removed):
            if id(self.sel) == ident:
                self.x.append({"n": "items", "add": self.toks(added), "rem": self.toks(removed), "c": self.toks(sel)})

        def val(n):
            def f(v):
                if id(self.sel) == ident:
                    self.x.append({"n": n, "v": self.tok(v), "a": self.tok(sel.active), "u": self.tok(sel._current)})

            return f

        self.keep = [cb, val("active"), val("current")]
        sel.events.items_changed.connect(cb, check_nargs=False)
        sel.events.active.connect(self.keep[1])
        sel.events._current.connect(self.keep[2])
        if self.p.get("boom"):
            for n in sorted(set(BOOMS)):
                ev = sel.events if n in ("items", "active", "current") else self.lst.events if self.parent else None
                if ev is not None:
                    ev[{"items": "items_changed", "current": "_current"}.get(n, n)].connect(self.boomer(n, ident), check_nargs=False)
        self.rec.log("new", items=list(items), sel=self.toks(sel), act=self.tok(sel.active), cur=self.tok(sel._current))

    armed = None
    boom = ""

    def boomer(self, n, ident):
        """Listener that raises when asked to (once per operation)."""

        def cb(*args):
            if self.armed and self.armed[0] == n and id(self.sel) == ident:
                self.armed[1] -= 1
                if self.armed[1] == 0:
                    self.armed = None
                    self.boom = n
                    raise Boom

        self.keep.append(cb)
        return cb

    def do(self, op, f, t="", **args):
        self.x = []
        self.boom = ""
        if self.p.get("boom") and self.ch.chance(self.p["boom"]):
            self.armed = [self.ch.pick(BOOMS), 1 + self.ch.choose(2)]
        r, res = "ok", ["none", ""]
        try:
            v = f()
            if t == "t":
                res = ["t", self.tok(v)]
            elif t == "l":
                res = ["l", self.toks(v)]
            elif v is not None:
                res = ["?", type(v).__name__]
        except (ValueError, KeyError, IndexError, TypeError, EmitLoopError) as e:
            r = type(e).__name__
        self.armed = None
        self.rec.log(
            "op", op=op, r=r, res=res, items=self.toks(self.lst), sel=self.toks(self.sel), act=self.tok(self.sel.active),
            cur=self.tok(self.sel._current), x=self.x, boom=self.boom, **args,
        )

    # ---------------------------------------------------------------- arguments
    def listed(self):
        return self.toks(self.lst) if self.parent else NAMES[:5]

    def absent(self):
        return [n for n in NAMES if n not in self.toks(self.lst)]

    def name(self):
        l = self.listed()
        if l and self.ch.chance(0.88):
            return self.ch.pick(l)
        return self.ch.pick(NAMES)

    def vs(self):
        n = self.ch.choose(4)
        v = [self.name() for _ in range(n)]
        if self.ch.chance(0.3):
            v = self.toks(self.sel)[: self.ch.choose(4)] + v
        how = self.ch.pick(["list", "tuple", "gen", "set", "sel", "dict"])
        os = [self.o(x) for x in v]
        if how == "set":
            c = set(os)
            return self.toks(c), lambda: c
        if how == "sel":
            return self.toks(self.sel), lambda: self.sel
        if how == "dict":
            c = dict.fromkeys(os)
            return self.toks(c), lambda: c
        return v, {"list": lambda: os, "tuple": lambda: tuple(os), "gen": lambda: (x for x in os)}[how]

    # ---------------------------------------------------------------- the selection
    def op_one(self, op=None, v=None):
        op = op or self.ch.pick(["add", "add", "discard", "remove", "toggle", "select_only", "active", "active", "current"])
        v = v or self.name()
        if op in ("active", "current"):
            if self.ch.chance(0.15):
                v = NO
            if op == "current" and v != NO and v not in self.listed():
                return
            o = self.o(v)
            return self.do(op, lambda: setattr(self.sel, "active" if op == "active" else "_current", o), v=v)
        o = self.o(v)
        self.do(op, lambda: getattr(self.sel, op)(o), v=v)

    def op_many(self):
        op = self.ch.pick(["update", "difference_update", "intersection_update", "symmetric_difference_update", "ior", "isub", "iand", "ixor", "assign"])
        v, f = self.vs()
        if op == "assign" and not self.parent:
            return

        def g():
            if op == "assign":
                self.lst.selection = f()
                return None
            if len(op) <= 4:
                a = f()
                me = self.sel
                if op == "ior":
                    me |= a
                elif op == "isub":
                    me -= a
                elif op == "iand":
                    me &= a
                else:
                    me ^= a
                return None if me is self.sel else object()
            return getattr(self.sel, op)(f())

        if len(op) <= 4:
            a = set(f())
            v, f = self.toks(a), lambda: a
        self.do(op, g, vs=v)

    def op_pop(self):
        self.do("pop", lambda: self.sel.pop(), "t")

    def op_clear(self):
        if self.ch.chance(0.3):
            return self.do("clear", lambda: self.sel.clear(keep_current=True), keep=True)
        if self.parent and self.ch.chance(0.5):
            return self.do("deselect_all", lambda: self.lst.deselect_all())
        self.do("clear", lambda: self.sel.clear(), keep=False)

    def op_all(self):
        if self.parent:
            self.do("select_all", lambda: self.lst.select_all())

    def op_next(self):
        if not self.parent:
            return
        w, x = self.ch.chance(0.4), self.ch.chance(0.4)
        d = self.ch.pick([1, 1, -1, 2, -2, 3])
        if d == -1 and self.ch.chance(0.7):
            return self.do("select_next", lambda: self.lst.select_previous(expand_selection=x, wraparound=w), step=-1, expand=x, wrap=w)
        kw = {} if d == 1 else {"step": d}
        self.do("select_next", lambda: self.lst.select_next(expand_selection=x, wraparound=w, **kw), step=d, expand=x, wrap=w)

    def op_remsel(self):
        if self.parent:
            self.do("remove_selected", lambda: self.lst.remove_selected(), "l")

    # ---------------------------------------------------------------- the list
    def idx(self):
        n = len(self.lst)
        return self.ch.choose(2 * n + 3) - n - 1

    def slice(self):
        n = len(self.lst)

        def b():
            return None if self.ch.chance(0.3) else self.ch.choose(2 * n + 3) - n - 1

        return slice(b(), b(), self.ch.pick([None, 1, 2, -1, -2]))

    def op_insert(self):
        a = self.absent()
        if not self.parent or not a:
            return
        L = self.lst
        op = self.ch.pick(["insert", "append", "extend", "iadd", "setitem", "setslice"])
        if op == "insert":
            i, v = self.idx(), self.ch.pick(a)
            return self.do(op, lambda: L.insert(i, self.o(v)), i=i, v=v)
        if op == "append":
            v = self.ch.pick(a)
            return self.do(op, lambda: L.append(self.o(v)), v=v)
        if op == "setitem":
            i, v = self.idx(), self.ch.pick(a)
            if self.ch.chance(0.1) and len(L):
                i = self.ch.choose(len(L))
                v = self.toks(L)[i]
            return self.do(op, lambda: L.__setitem__(i, self.o(v)), key=["i", i], v=v)
        k = self.ch.choose(min(4, len(a) + 1))
        vs = a[:k]
        if op == "setslice":
            s = self.slice()
            pos = list(range(*s.indices(len(L))))
            if self.ch.chance(0.5) and pos:
                # (some of the items stay)
                vs = [self.toks(L)[p] for p in pos if self.ch.chance(0.6)] + vs
            if s.step not in (None, 1):
                vs = vs[: len(pos)]
            return self.do(op, lambda: L.__setitem__(s, [self.o(v) for v in vs]), key=enc_key(s), vs=vs, how="list")
        if op == "iadd":
            def f():
                me = self.lst
                me += [self.o(v) for v in vs]
            return self.do(op, f, vs=vs, how="list")
        self.do(op, lambda: L.extend(self.o(v) for v in vs), vs=vs, how="gen")

    def op_delete(self):
        if not self.parent:
            return
        L = self.lst
        op = self.ch.pick(["pop", "pop", "l.remove", "l.remove", "delitem", "delitem", "l.clear"])
        if op == "pop":
            i = self.idx()
            # (a name of its own: the selection can be popped, too)
            return self.do("delitem", lambda: (L.pop(i), None)[1], key=["i", i]) if i != 0 and self.ch.chance(0.5) else self.do(
                "delitem", lambda: L.__delitem__(i), key=["i", i])
        if op == "l.remove":
            v = self.name()
            return self.do(op, lambda: L.remove(self.o(v)), v=v)
        if op == "delitem":
            s = self.slice()
            return self.do(op, lambda: L.__delitem__(s), key=enc_key(s))
        if self.ch.chance(0.4):
            self.do(op, lambda: L.clear())

    def op_order(self):
        if not self.parent:
            return
        L = self.lst
        op = self.ch.pick(["move", "move_multiple", "reverse"])
        if op == "reverse":
            return self.do(op, lambda: L.reverse())
        n = len(L)
        if not n:
            return
        d = self.ch.choose(n + 1)
        if op == "move":
            i = self.idx()
            return self.do(op, lambda: (L.move(i, d), None)[1], i=i, d=d)
        ks = [self.ch.choose(n) for _ in range(self.ch.choose(4))]
        self.do(op, lambda: (L.move_multiple(ks, d), None)[1], keys=[["i", k] for k in ks], d=d)

    def op_direct(self):
        """A selection made directly, for a list."""
        if not self.parent:
            return
        vs = [self.name() for _ in range(self.ch.choose(4))]
        os = [self.o(v) for v in vs]
        r, s = "ok", None
        try:
            s = Selection(os, parent=self.lst)
        except ValueError as e:
            r = type(e).__name__
        if s is None:
            return self.rec.log("direct", vs=vs, r=r, sel=[], act=NO, cur=NO)
        self.rec.log("direct", vs=vs, r=r, sel=self.toks(s), act=self.tok(s.active), cur=self.tok(s._current))
        for v in self.absent()[:1]:
            # it goes on refusing what is not in the list
            for f in (lambda: s.add(self.o(v)), lambda: s.toggle(self.o(v)), lambda: s.update([self.o(v)]), lambda: setattr(s, "active", self.o(v))):
                try:
                    f()
                    r = "ok"
                except ValueError:
                    r = "ValueError"
                self.rec.log("direct", vs=[v], r=r, sel=[], act=NO, cur=NO)

    def op_new(self):
        n = self.ch.choose(6)
        ns = list(NAMES)
        self.new([ns.pop(self.ch.choose(len(ns))) for _ in range(n)])


TOP = dict(one=7, many=4, pop=0.5, clear=1, all=0.7, next=5, remsel=1.2, insert=4, delete=3, order=1, new=0.3, direct=0.6)


def run(profile, params, ch, rec):
    p = SelProg(params, ch, rec)
    if "cases" in params:
        for items, sel, cur, op, a in params["cases"]:
            p.new(items)
            p.do("update" if not p.parent else "assign", (lambda: p.sel.update([p.o(v) for v in sel])) if not p.parent
                 else (lambda: setattr(p.lst, "selection", [p.o(v) for v in sel])), vs=sel)
            if cur is not None:
                p.op_one("current", cur)
            case(p, op, a)
        return
    p.op_new()
    top = list(params["top"].items())
    for _ in range(params["nops"]):
        getattr(p, "op_" + ch.weighted(top))()


def case(p, op, a):
    if op in ("add", "discard", "remove", "toggle", "select_only"):
        o = p.o(a)
        p.do(op, lambda: getattr(p.sel, op)(o), v=a)
    elif op == "active":
        p.do(op, lambda: setattr(p.sel, "active", p.o(a)), v=a)
    elif op == "next":
        d, x, w = a
        p.do("select_next", lambda: p.lst.select_next(step=d, expand_selection=x, wraparound=w), step=d, expand=x, wrap=w)
    elif op == "remsel":
        p.do("remove_selected", lambda: p.lst.remove_selected(), "l")
    elif op == "del":
        p.do("delitem", lambda: p.lst.__delitem__(a), key=["i", a])
    elif op == "setitem":
        p.do("setitem", lambda: p.lst.__setitem__(a[0], p.o(a[1])), key=["i", a[0]], v=a[1])
    elif op == "clear":
        p.do("clear", lambda: p.sel.clear(keep_current=a), keep=a)
    elif op == "l.clear":
        p.do("l.clear", lambda: p.lst.clear())
    elif op == "insert":
        p.do("insert", lambda: p.lst.insert(a[0], p.o(a[1])), i=a[0], v=a[1])


def cases(maxn):
    for n in range(maxn + 1):
        items = NAMES[:n]
        for k in range(n + 1):
            for sel in itertools.permutations(items, k):
                for cur in [None, NO, *items]:
                    b = (items, list(sel), cur)
                    for v in [*items, "t6"]:
                        for op in ("add", "discard", "remove", "toggle", "select_only", "active"):
                            yield (*b, op, v)
                    yield (*b, "active", NO)
                    for d in (1, -1, 2):
                        for x in (False, True):
                            for w in (False, True):
                                yield (*b, "next", (d, x, w))
                    yield (*b, "remsel", None)
                    yield (*b, "l.clear", None)
                    yield (*b, "clear", True)
                    yield (*b, "clear", False)
                    for i in range(-n, n):
                        yield (*b, "del", i)
                        yield (*b, "setitem", (i, "t6"))
                        yield (*b, "insert", (i, "t6"))


NRAND = {"quick": 2000, "thorough": 40000}


def jobs(profile, tier, seed):
    yield {"kind": "random", "name": "C22.sel", "count": NRAND[tier], "params": dict(top=TOP, nops=30)}
    yield {"kind": "random", "name": "C22.boom", "count": NRAND[tier] // 2, "params": dict(top=TOP, nops=25, boom=0.5)}
    cs = list(cases(3 if tier == "quick" else 4))
    yield {"kind": "list", "name": "C22.all", "items": [dict(kind="list", item="obj", cases=cs[i : i + 60]) for i in range(0, len(cs), 60)]}
