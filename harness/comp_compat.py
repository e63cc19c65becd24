"""Driver of connections and emissions with checks: all kinds of callables."""

from __future__ import annotations

import functools
import inspect
import itertools
import os
import threading
import types
import typing
from functools import partial
from inspect import Parameter, Signature

os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
from qtpy.QtCore import QObject  # noqa: E402
from qtpy.QtCore import Signal as QtSignal  # noqa: E402

from psygnal import EmissionInfo, EmitLoopError, Signal, SignalGroup, SignalInstance, emit_queued


class A:
    pass


class B(A):
    pass


class Qt(QObject):
    """Signals of Qt take as many arguments as they have."""

    s0 = QtSignal()
    s1 = QtSignal(object)
    s2 = QtSignal(object, object)
    s3 = QtSignal(object, object, object)


CLASSES = {"int": int, "str": str, "bool": bool, "A": A, "B": B, "list": list, "object": object, "info": EmissionInfo, "none": type(None)}
T = typing.TypeVar("T")
# annotation: (source, the classes it stands for)
ANNOS = [
    ("", []), ("int", ["int"]), ("str", ["str"]), ("bool", ["bool"]), ("A", ["A"]), ("B", ["B"]), ("list", ["list"]), ("object", ["object"]),
    ("Any", []), ("Optional[int]", ["int", "none"]), ("Union[str, B]", ["str", "B"]), ("int | str", ["int", "str"]), ("list[int]", ["list"]),
    ("A | None", ["A", "none"]), ("Annotated[int, 1]", ["int"]), ("EmissionInfo", ["info"]), ("None", ["none"]),
]
UNRESOLVED = ("Nowhere", [])  # (in a string: can't be told)
DECL = [
    (int, ["int"]), (str, ["str"]), (bool, ["bool"]), (A, ["A"]), (B, ["B"]), (list, ["list"]), (object, ["object"]), (typing.Any, []),
    (typing.Union[int, str], ["int", "str"]), (typing.Optional[A], ["A", "none"]), (int | A, ["int", "A"]), (list[int], ["list"]),
]
DEFAULT = object()
PRE = object()


class Plain:
    pass


def value(t, n):
    return {"int": 1000 + n, "str": f"v{n}", "bool": n % 2 == 0, "A": A(), "B": B(), "list": [n], "object": object(), "none": None}[t]


def make_source(params, name, hit="_hit", indent="", strings=False, extra_self=""):
    """Source of a function with the parameters."""
    parts, vals = ([extra_self] if extra_self else []), []
    star = slash = False
    po = any(p["k"] == "po" for p in params)
    for i, p in enumerate(params):
        if p["k"] != "po" and po and not slash:
            parts.append("/")
            slash = True
        if p["k"] == "ko" and not star and not any(q["k"] == "vp" for q in params):
            parts.append("*")
            star = True
        s = {"vp": "*", "vk": "**"}.get(p["k"], "") + p["n"]
        if p["src"]:
            s += ": " + (repr(p["src"]) if strings else p["src"])
        if p["d"]:
            s += " = DEFAULT" if not p["src"] else " = DEFAULT"
        parts.append(s)
        if p["k"] in ("po", "pk"):
            vals.append(p["n"])
        elif p["k"] == "vp":
            vals.append("*" + p["n"])
    if po and not slash:
        parts.append("/")
    return f"{indent}def {name}({', '.join(parts)}):\n{indent}    {hit}([{', '.join(vals)}])\n"


GLOBALS = {
    "A": A, "B": B, "Any": typing.Any, "Optional": typing.Optional, "Union": typing.Union, "Annotated": typing.Annotated,
    "EmissionInfo": EmissionInfo, "DEFAULT": DEFAULT,
}


class Target:
    """Attributes and items that tell when they are set."""

    def __init__(self, hit):
        object.__setattr__(self, "hit", hit)
        object.__setattr__(self, "x", 0)

    def __setattr__(self, n, v):
        self.hit(v)

    def __setitem__(self, k, v):
        self.hit(v)


class File:
    def __init__(self, hit):
        self.hit, self.got = hit, []

    def write(self, s):
        if s == "\n":
            got, self.got = self.got, []
            self.hit(got)
        elif s != " ":
            self.got.append(s)


class CompatProg:
    def __init__(self, params, ch, rec):
        self.p, self.ch, self.rec = params, ch, rec
        self.n = self.nid = 0
        self.keep = []
        self.args = None
        self.thread = threading.Thread(target=lambda: None)
        self.loose = self.queued = self.sets = False
        self.nslots = 0
        self.paused = False

    # ---------------------------------------------------------------- signals
    def op_sig(self, decl=None):
        ch = self.ch
        if self.paused:
            return
        if self.queued:
            self.op_drain()
        n = ch.weighted([(0, 1), (1, 3), (2, 4), (3, 3)]) if decl is None else len(decl)
        decl = [ch.pick(DECL) for _ in range(n)] if decl is None else decl
        nargs, types_ = ch.chance(0.8), ch.chance(0.3)
        kw = dict(check_nargs_on_connect=nargs, check_types_on_connect=types_)
        req = n
        how = ch.weighted([("class", 3), ("instance", 1), ("signature", 2), ("relay", 0.7)])
        self.emitter = None
        self.relay = how == "relay"
        if how == "relay":
            class G(SignalGroup):
                a = Signal(int, str)
                b = Signal()

            g = G()
            self.keep.append(g)
            self.sig = ch.pick([g, g.all])
            self.emitter = g.a if ch.chance(0.7) else g["b"]
            decl, req, nargs, types_ = [(EmissionInfo, ["info"])], 1, True, False
        elif how == "signature":
            if ch.chance(0.4) and n:
                req = n - 1 - ch.choose(n)
            ps = []
            names = [f"q{i}" for i in range(n)]
            d2 = []
            for i, (t, c) in enumerate(decl):
                un = ch.weighted([("", 4), ("none", 1), ("str", 1)])
                anno = {"": t, "none": Parameter.empty, "str": "Nowhere"}[un]
                d2.append((t, [] if un else c))
                ps.append(Parameter(names[i], ch.pick([Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD]) if not ps or ps[-1].kind is Parameter.POSITIONAL_ONLY else Parameter.POSITIONAL_OR_KEYWORD, annotation=anno, **({"default": 0} if i >= req else {})))
            decl = d2
            if ch.chance(0.5):
                self.sig = SignalInstance(Signature(ps), **kw)
            else:
                o = type("E", (), {"s": Signal(Signature(ps), **kw)})()
                self.keep.append(o)
                self.sig = o.s
        elif how == "instance":
            self.sig = SignalInstance(tuple(t for t, _ in decl), **kw)
        else:
            o = type("E", (), {"s": Signal(*[t for t, _ in decl], **kw)})()
            self.keep.append(o)
            self.sig = o.s
        self.decl, self.req = [c for _, c in decl], req
        self.nargs, self.types = nargs, types_
        self.loose = self.queued = self.sets = False
        self.nslots = 0
        self.n = 0
        self.rec.log("sig", decl=self.decl, req=req, nargs=nargs, types=types_)

    # ---------------------------------------------------------------- callables
    def params(self):
        """A random parameter list."""
        ch, ps = self.ch, []
        npo, npk = ch.weighted([(0, 3), (1, 1), (2, 0.5)]), ch.weighted([(0, 2), (1, 3), (2, 3), (3, 1)])
        nd = ch.choose(npo + npk + 1) if ch.chance(0.5) else 0
        for i in range(npo + npk):
            ps.append(dict(n="abcdefg"[i], k="po" if i < npo else "pk", d=i >= npo + npk - nd))
        if ch.chance(0.25):
            ps.append(dict(n="args", k="vp", d=False))
        for i in range(ch.weighted([(0, 5), (1, 2), (2, 0.7)])):
            ps.append(dict(n=f"k{i}", k="ko", d=ch.chance(0.6)))
        if ch.chance(0.2):
            ps.append(dict(n="kw", k="vk", d=False))
        return ps

    def annotate(self, ps, strings):
        pool = [x for x in ANNOS if x[1] and x[1][0] in {c for d in self.decl for c in d}] if self.decl else []
        for p in ps:
            p["src"], p["t"] = "", []
            if self.ch.chance(0.5):
                p["src"], p["t"] = self.ch.pick(pool) if pool and self.ch.chance(0.6) else self.ch.pick(ANNOS)
        # (one name that can't be looked up spoils them all)
        if strings and ps and self.ch.chance(0.15):
            self.ch.pick(ps)["src"] = "Nowhere"
            for p in ps:
                p["t"] = []

    def hit(self, i, vals):
        got = [v for v in vals if v is not DEFAULT and v is not PRE]
        self.rec.log("cb", id=i, a=[self.name(j, v) for j, v in enumerate(got)])

    def name(self, j, v):
        if self.relay:
            return f"a{j + 1}" if isinstance(v, EmissionInfo) and v.signal is self.emitter else "?"
        if self.queued or self.paused or self.args is None:
            # (arguments of several emissions are under way)
            return f"a{j + 1}" if any(j < len(a) and a[j] is v for a in self.recent) else "?"
        return f"a{j + 1}" if j < len(self.args) and self.args[j] is v else "?"

    def callable(self, i, ps=None, kind=None, wrap=None, noanno=False):
        """(callable, description)"""
        ch = self.ch
        kind = kind or ch.weighted([
            ("func", 4), ("method", 3), ("class", 1), ("object", 2), ("static", 1), ("classm", 1), ("wraps", 1), ("init", 1), ("setitem", 0.5),
            ("setattr", 0.7), ("print", 0.6), ("qt", 0.6), ("slotobj", 0.5), ("inherited", 0.5),
        ])
        kind = "init" if kind == "class" else kind

        def hit(vals):
            self.hit(i, vals)

        if kind in ("setitem", "setattr", "print", "qt"):
            return self.special(i, kind)
        ps = self.params() if ps is None else ps
        strings = ch.chance(0.4)
        if noanno:
            for p in ps:
                p["src"], p["t"] = "", []
        else:
            self.annotate(ps, strings)
        g = dict(GLOBALS, _hit=hit)
        pre = 0
        if kind in ("func", "wraps"):
            exec(make_source(ps, "f", strings=strings), g)
            f = g["f"]
            if kind == "wraps":
                inner = f

                @functools.wraps(inner)
                def f(*a, **k):
                    return inner(*a, **k)
        else:
            name = {"object": "__call__", "init": "__init__", "slotobj": "__call__"}.get(kind, "m")
            src = make_source(ps, name, indent="    ", strings=strings, extra_self="" if kind == "static" else "cls" if kind == "classm" else "self")
            deco = {"static": "    @staticmethod\n", "classm": "    @classmethod\n"}.get(kind, "")
            slots = "    __slots__ = ('__weakref__',)\n    def __eq__(self, o): return isinstance(o, C)\n    __hash__ = None\n" if kind == "slotobj" else ""
            exec(f"class C:\n{slots}{deco}{src}", g)
            cls = g["C"]
            if kind == "inherited":
                cls = type("D", (cls,), {})
            self.keep.append(cls)
            if kind == "init":
                f = cls
            else:
                o = cls()
                self.keep.append(o)
                f = o if kind in ("object", "slotobj") else getattr(cls if kind == "classm" and ch.chance(0.5) else o, "m")
        kws = []
        for _ in range(ch.weighted([(0, 4), (1, 2), (2, 0.7)]) if wrap is None else wrap[2]):
            npos, names = 0, []
            if ch.chance(0.6) if wrap is None else wrap[0]:
                npos = 1 if wrap else 1 + ch.choose(2)
            if ch.chance(0.5) if wrap is None else wrap[1]:
                pool = [p["n"] for p in ps if p["k"] in ("pk", "ko")] + ["zz"]
                names = sorted({ch.pick(pool) if wrap is None else wrap[1]})
            try:
                f = partial(f, *[PRE] * npos, **{n: PRE for n in names})
                inspect.signature(f)
            except (ValueError, TypeError):
                # (a partial that can never be called: not what this is about)
                return None
            pre += npos
            kws = sorted({*kws, *names})
        self.keep.append(f)
        # (parameters that are bound by name have no annotation to be judged by)
        return f, {"params": [{"n": p["n"], "k": p["k"], "d": p["d"], "t": p["t"]} for p in ps], "pre": pre, "kws": kws}

    def special(self, i, kind):
        P = lambda n, k, d=False: {"n": n, "k": k, "d": d, "t": []}  # noqa: E731

        def one(v):
            self.hit(i, [v])

        if kind == "qt":
            q, n = Qt(), self.ch.choose(4)
            s = getattr(q, f"s{n}")
            s.connect(lambda *v: self.hit(i, list(v)))
            self.keep.append((q, s))
            return s.emit, {"params": [P("xyz"[j], "po") for j in range(n)], "pre": 0, "kws": []}
        t = Target(one)
        self.keep.append(t)
        if kind == "setattr":
            return partial(setattr, t, "x"), {"params": [P("obj", "po"), P("name", "po"), P("value", "po")], "pre": 2, "kws": []}
        if kind == "setitem":
            if self.ch.chance(0.5):
                return partial(t.__setitem__, "k"), {"params": [P("k", "pk"), P("v", "pk")], "pre": 1, "kws": []}

            class Two:
                def __setitem__(s, k, v):
                    self.hit(i, [k, v])

            t = Two()
            self.keep.append(t)
            return t.__setitem__, {"params": [P("k", "pk"), P("v", "pk")], "pre": 0, "kws": []}

        def line(got):
            # (what is printed are texts)
            vals = [self.text(j, s) for j, s in enumerate(got)]
            self.rec.log("cb", id=i, a=vals)

        f = File(line)
        self.keep.append(f)
        ps = [P("values", "vp"), P("sep", "ko", True), P("end", "ko", True), P("file", "ko", True), P("flush", "ko", True)]
        return partial(print, file=f), {"params": ps, "pre": 0, "kws": ["file"]}

    def text(self, j, s):
        if self.relay:
            return f"a{j + 1}" if s.startswith("EmissionInfo") else "?"
        return f"a{j + 1}" if any(j < len(a) and str(a[j]) == s for a in self.recent) else "?"

    # ---------------------------------------------------------------- operations
    recent = ()

    def can(self, cal, n):
        """(only used to avoid programs about which nothing is said)"""
        ps = [Parameter(p["n"], {"po": Parameter.POSITIONAL_ONLY, "pk": Parameter.POSITIONAL_OR_KEYWORD, "vp": Parameter.VAR_POSITIONAL, "ko": Parameter.KEYWORD_ONLY, "vk": Parameter.VAR_KEYWORD}[p["k"]], **({"default": 0} if p["d"] else {})) for p in cal["params"]]
        try:
            Signature(ps).bind(*[0] * (cal["pre"] + n), **{k: 0 for k in cal["kws"]})
        except TypeError:
            return False
        return True

    def op_con(self, made=None, plain=False):
        ch = self.ch
        if self.nslots >= self.p.get("maxslots", 8) or self.paused:
            return
        self.nid += 1
        i = f"c{self.nid}"
        if not plain and ch.chance(0.12):
            return self.con_set(i)
        fc = self.callable(i) if made is None else made(i)
        if fc is None:
            return
        f, cal = fc
        kw = {}
        nargs = types_ = ""
        mx = -1
        D = len(self.decl)
        special = any(p["n"] in ("value", "values", "v") for p in cal["params"])
        if not plain:
            if ch.chance(0.2) and not special and not self.relay:
                mx = ch.choose(D + 2)
                if not self.can(cal, min(mx, D)):
                    mx = -1
            nargs = ch.weighted([("", 6), ("y", 1), ("n", 1)])
            types_ = ch.weighted([("", 4), ("y", 4), ("n", 1)])
            if special and nargs == "n":
                nargs = ""  # (a partial of setattr takes whatever it is given)
        if special:
            nargs = "y"
        if (types_ == "y" or (types_ == "" and self.types)) and nargs != "y" and not self.nargs and special:
            nargs = "y"
        if mx >= 0:
            kw["max_args"] = mx
        if nargs:
            kw["check_nargs"] = nargs == "y"
        if types_:
            kw["check_types"] = types_ == "y"
        checked = nargs == "y" or (nargs == "" and self.nargs)
        queued = ch.chance(0.1) and checked and not self.relay and not plain
        if queued:
            kw["thread"] = self.thread
        elif ch.chance(0.1):
            kw["thread"] = ch.pick(["main", "current", threading.current_thread()])
        n0 = self.count()
        r = "ok"
        try:
            if ch.chance(0.2):
                back = self.sig.connect(**kw)(f)
            else:
                back = self.sig.connect(f, **kw)
            if back is not f:
                r = "does not return the callback"
        except Exception as e:
            r = type(e).__name__
        if r == "ok":
            self.nslots += 1
            self.queued |= queued
            if mx < 0 and not checked:
                self.loose |= True
            self.sets |= special
        elif self.count() != n0:
            r = "refused, but connected"
        self.rec.log("con", id=i, cal=cal, max=mx, nargs=nargs, types=types_, queued=queued, set=False, r=r, len=self.count())

    def count(self):
        s = self.sig
        return len(s.all) if isinstance(s, SignalGroup) else len(s)

    def con_set(self, i):
        if self.relay:
            return

        def hit(v):
            n = len(v) if isinstance(v, tuple) else 1
            self.rec.log("cb", id=i, a=[self.name(j, x) for j, x in enumerate(v if isinstance(v, tuple) else (v,))])

        t = Target(hit)
        self.keep.append(t)
        mx = self.ch.choose(4) - 1
        m = None if mx < 0 else mx
        if self.ch.chance(0.5):
            self.sig.connect_setattr(t, "x", maxargs=m)
        else:
            self.sig.connect_setitem(t, "k", maxargs=m)
        self.nslots += 1
        cal = {"params": [], "pre": 0, "kws": []}
        self.rec.log("con", id=i, cal=cal, max=mx, nargs="", types="", queued=False, set=True, r="ok", len=self.count())

    def op_emit(self, exact=False):
        ch = self.ch
        D = len(self.decl)
        if self.relay:
            n = 1
            args = [EmissionInfo] if False else (1, "x")[: len(self.emitter.signature.parameters)]
            self.recent = [args]
            self.rec.log("emit", args=[["info"]], cn=False, ct=False)
            return self.call(lambda: self.emitter.emit(*args))
        n = D
        careful = self.queued or self.paused or self.sets  # (nothing is said about what fails there)
        cn, ct = ch.chance(0.35), ch.chance(0.35)
        if not exact and ch.chance(0.3) and (not careful or cn):
            n = max(0, min(D + 2, ch.choose(D + 3)))
        if careful and not self.req <= n <= D:
            cn = True
        if careful and self.req <= n < D:
            n = D
        if ct and not self.req <= n <= D:
            cn = True
        args, ts = [], []
        for i in range(n):
            d = self.decl[i] if i < D else []
            pool = ["int", "str", "bool", "A", "B", "list", "object", "none"]
            t = ch.pick(pool)
            if ch.chance(0.75 if not exact else 1) and d:
                t = ch.pick(d)
                if t == "int" and ch.chance(0.2):
                    t = "bool"
                if t == "A" and ch.chance(0.3):
                    t = "B"
                if t == "object":
                    t = ch.pick(pool)
            self.n += 1
            args.append(value(t, self.n))
            ts.append([t])
        self.args = args
        self.recent = [args, *self.recent][:40]
        kw = {}
        if cn:
            kw["check_nargs"] = True
        if ct:
            kw["check_types"] = True
        fast = not kw and ch.chance(0.3)
        self.rec.log("emit", args=ts, cn=cn, ct=ct)
        f = self.sig.emit_fast if fast else ch.pick([self.sig, self.sig.emit])
        self.call(lambda: f(*args, **kw))

    def call(self, f):
        r = "ok"
        try:
            f()
        except Exception as e:
            r = type(e).__name__
        self.rec.log("done", r=r)

    def op_pause(self):
        if self.relay or self.loose:
            return
        if not self.paused:
            self.paused = True
            self.sig.pause()
            self.rec.log("pause")
        else:
            self.rec.log("resume")
            self.call(self.sig.resume)
            self.paused = False

    def op_drain(self):
        self.rec.log("drain")
        self.call(lambda: emit_queued(self.thread))

    def go(self):
        if "cases" in self.p:
            return self.cases()
        self.op_sig()
        for _ in range(self.p["nops"]):
            op = self.ch.weighted([("sig", 0.7), ("con", 6), ("emit", 5), ("pause", 0.5), ("drain", 0.7 if self.queued else 0)])
            getattr(self, "op_" + op)()
        if self.paused:
            self.op_pause()
        self.op_drain()

    # ---------------------------------------------------------------- enumeration
    def cases(self):
        """All signatures of a few parameters, against signals of 0 to 3 arguments."""
        for D, items in self.p["cases"]:
            self.op_sig([DECL[0]] * D) if D >= 0 else None
            while self.relay or self.nargs is False or self.req != D:
                self.op_sig([DECL[0]] * D)
            for ps, kind, wrap in items:
                self.nslots = 0
                self.op_con(lambda i: self.callable(i, [dict(p) for p in ps], kind, wrap, noanno=True), plain=True)
            self.op_emit(exact=True)


def signatures(n):
    """All parameter lists of at most n parameters."""
    for k in range(n + 1):
        for kinds in itertools.combinations_with_replacement(["po", "pk", "vp", "ko", "vk"], k):
            if kinds.count("vp") > 1 or kinds.count("vk") > 1:
                continue
            npos = sum(x in ("po", "pk") for x in kinds)
            ko = [i for i, x in enumerate(kinds) if x == "ko"]
            for nd in range(npos + 1):
                for kd in itertools.product([False, True], repeat=len(ko)):
                    ps = []
                    for i, x in enumerate(kinds):
                        d = i >= npos - nd if x in ("po", "pk") else x == "ko" and kd[ko.index(i)]
                        ps.append(dict(n=f"p{i}", k=x, d=d))
                    yield ps


def all_cases(n):
    for ps in signatures(n):
        names = [p["n"] for p in ps if p["k"] in ("pk", "ko")]
        for kind in ("func", "method"):
            yield ps, kind, (False, "", 0)
        yield ps, "object", (False, "", 0)
        yield ps, "func", (True, "", 1)
        for x in [*names, "zz"]:
            yield ps, "func", (False, x, 1)
            yield ps, "method", (True, x, 1)


NRAND = {"quick": 3000, "thorough": 60000}


def run(profile, params, ch, rec):
    CompatProg(params, ch, rec).go()


def jobs(profile, tier, seed):
    n = NRAND[tier]
    yield {"kind": "random", "name": "C08.rand", "count": n, "params": {"nops": 30}}
    yield {"kind": "random", "name": "C08.types", "count": n // 2, "params": {"nops": 14, "maxslots": 12}}
    cs = list(all_cases(3 if tier == "quick" else 4))
    items = []
    step = 25
    for D in range(4):
        for j in range(0, len(cs), step):
            items.append({"cases": [(D, cs[j : j + step])]})
    yield {"kind": "list", "name": "C08.enum", "items": items}
