"""Driver of signal groups: the signal programs, on the members of groups and on the
signals that relay for them."""

from __future__ import annotations

import warnings
from inspect import Parameter, Signature

import comp_signal as cs
from comp_signal import NOLIM, Prog, Through, tb_clear
from drive import Hang, StopProgram

from psygnal import EmissionInfo, Signal, SignalGroup

ODD = ["all", "connect", "block", "signals", "psygnal_x", "paused", "instance"]


class Owner:
    pass


class GroupView:
    """A group, with the things that only its relaying signal offers."""

    def __init__(self, grp, sig):
        self.grp, self.sig = grp, sig

    def __getattr__(self, name):
        return getattr(self.sig if "setattr" in name or "setitem" in name else self.grp, name)

    def __contains__(self, slot):
        return slot in self.sig


class GProg(Prog):
    def setup(self):
        self.modes = {}
        self.groups = {}
        self.gsig = {}
        self.members = {}
        self.gctx = 0
        self.expl = {}
        super().setup()
        p = self.p
        groups = []
        for gi in range(p.get("ngroups", 1)):
            g = f"G{gi}"
            names = p["members"][gi % len(p["members"])]
            if p.get("odd") and self.ch.chance(0.5):
                names = [*names, ODD[self.ch.choose(len(ODD))]]
            ar = {nm: self.ch.choose(4) if not self.ch.exhaustive else 1 for nm in names}
            modes = p.get("gmodes", ["immediate"])
            mo = {nm: modes[self.ch.choose(len(modes))] if len(modes) > 1 else modes[0] for nm in names}
            ns = {nm: Signal(*([str] * ar[nm]), reemission=mo[nm]) for nm in names}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                how = self.ch.choose(3) if p.get("inherit") else 0
                if how == 0:
                    cls = type("Grp", (SignalGroup,), ns)
                elif how == 1:
                    k = self.ch.choose(len(names) + 1)
                    base = type("Base", (SignalGroup,), {nm: ns[nm] for nm in names[:k]})
                    cls = type("Grp", (base,), {nm: ns[nm] for nm in names[k:]})
                else:
                    base = type("Base", (SignalGroup,), ns)
                    mid = type("Mid", (base,), {})
                    cls = type("Grp", (mid,), {names[0]: Signal(*([str] * ar[names[0]]), reemission=mo[names[0]])})
            oid = "none"
            own = None
            if p.get("inst", True) and self.ch.chance(0.6):
                oid = f"W{gi}"
                own = self.owners[oid] = Owner()
            grp = cls(own)
            self.owners[g] = grp
            self.groups[g] = grp
            self.gsig[g] = grp.all
            mem = list(grp)
            ids = []
            for nm in mem:
                sid = f"{g}.{nm}"
                ids.append(sid)
                self.sigs[sid] = grp[nm]
                self.blk[sid] = self.pau[sid] = False
                self.arity[sid] = ar[nm]
                self.modes[sid] = mo[nm]
                self.rec.h["sigs"].append({"id": sid, "mode": mo[nm], "obj": g})
            self.rec.h["sigs"].append({"id": g, "mode": "immediate", "obj": oid})
            groups.append({"id": g, "members": ids})
            self.members[g] = ids
            self.pau[g] = self.blk[g] = False
            self.expl[g] = False
        self.rec.h["groups"] = groups

    arity = None

    def vals_for(self, s):
        self.nval += 1
        return [f"v{self.nval}{cs.DECL[i]}" for i in range(self.arity.get(s, 1))]

    def called(self, cid, args):
        out = []
        for a in args:
            if isinstance(a, EmissionInfo):
                nm = next((s for s, x in self.sigs.items() if x is a.signal), "?" + str(a.signal))
                ok = isinstance(a.args, tuple)
                a = f"{nm}({','.join(a.args)})" if ok else "?" + repr(a)
            out.append(a)
        super().called(cid, out)

    def exc_ok(self):
        return True

    def op_emit(self, nested, m=None, s=None):
        s = s or self.sig()
        self._cur = s
        super().op_emit(nested, m, s)

    def vals(self):
        return self.vals_for(self._cur)

    def op_sender(self, nested):
        em, ob = Signal.current_emitter(), Signal.sender()
        e = next((s for s, g in self.sigs.items() if g is em), None)
        e = e or next((g for g, x in self.gsig.items() if x is em), "none" if em is None else "other")
        o = next((w for w, g in self.owners.items() if g is ob), "none" if ob is None else "other")
        self.log("sender", e=e, o=o)

    def grp(self):
        ids = list(self.groups)
        return ids[self.ch.choose(len(ids))] if len(ids) > 1 else ids[0]

    def via(self, g):
        """The group, or the signal that relays for it: both offer the same."""
        return self.gsig[g] if self.ch.chance(0.5) else GroupView(self.groups[g], self.gsig[g])

    def op_gconnect(self, nested):
        g = self.grp()
        # (only the relaying signal offers connections to setters)
        old, self.sigs = self.sigs, {g: self.via(g)}
        try:
            self.op_connect(nested)
        finally:
            self.sigs = old

    def op_gdirect(self, nested):
        cid = self.cbid(lambda c: self.kinds[c] not in ("setter", "bad") and not c.startswith("->"))
        if cid is None:
            return
        g = self.grp()
        cb = self.cbs[cid]
        uqs = self.p.get("uniq", ["no"])
        uq = uqs[self.ch.choose(len(uqs))] if len(uqs) > 1 else "no"
        if uq == "raise":
            uq = "yes"
        mxs = [m for m in self.p.get("maxargs", [NOLIM]) if m == NOLIM or m <= cb["cap"]]
        mx = mxs[self.ch.choose(len(mxs))] if len(mxs) > 1 else mxs[0]
        r = "ok"
        f = self.callable_of(cid)
        kw = dict(unique=uq == "yes", max_args=None if mx == NOLIM else mx)
        try:
            if self.ch.chance(0.3):
                ret = self.via(g).connect_direct(**kw)(f)
            else:
                ret = self.via(g).connect_direct(f, **kw)
            if ret is not f:
                r = "wrong-return"
        except Exception as e:
            r = type(e).__name__
            tb_clear(e)
        self.log("gconnect_direct", s=g, c=cid, p=0, mx=mx, cn=True, uq=uq, pol="warn", w=0, r=r)

    def op_gdisconnect(self, nested):
        cid = self.cbid(lambda c: self.kinds[c] != "bad")
        if cid is None:
            return
        g = self.grp()
        mo = not self.ch.chance(0.4)
        r = "ok"
        try:
            self.via(g).disconnect(self.callable_of(cid), missing_ok=mo)
        except Exception as e:
            r = type(e).__name__
            tb_clear(e)
        self.log("gdisconnect", s=g, c=cid, mo=mo, r=r)

    def op_gdisconnect_all(self, nested):
        g = self.grp()
        self.via(g).disconnect()
        self.log("gdisconnect_all", s=g)

    def op_gpause(self, nested):
        g = self.grp()
        self.via(g).pause()
        self.pau[g] = True
        self.log("pause", s=g)

    def op_gresume(self, nested):
        g = self.grp()
        if self.blk[g]:
            return
        red, init, args = self.greducer()
        self.log("resume", s=g, red=red, init=init)
        self.pau[g] = False
        self.finish_resume(lambda: self.via(g).resume(*args), nested)

    def greducer(self):
        rs = self.p.get("greducers", ["none"])
        old, self.p = self.p, {**self.p, "reducers": rs}
        try:
            return self.reducer()
        finally:
            self.p = old

    def op_gwith_paused(self, nested):
        g = self.grp()
        if self.blk[g]:
            return
        red, init, args = self.greducer()
        was = self.pau[g]

        def run():
            with self.via(g).paused(*args):
                self.log("enter_paused", s=g)
                self.pau[g] = True
                self.ctx_body(False)
                if not was:
                    self.pau[g] = False
                self.log("exit_paused", s=g, red=red, init=init)

        self.nopg = True
        self.finish_resume(run, nested)

    def excl(self, g):
        ids = self.members[g]
        if not self.p.get("excl", True):
            return [], ()
        ex = [s for s in ids if self.ch.chance(0.35)]
        out = [self.sigs[s] if self.ch.chance(0.5) else s.split(".", 1)[1] for s in ex]
        t = [tuple, list, frozenset][self.ch.choose(3)]
        return ex, t(out)

    def op_gblock(self, nested):
        g = self.grp()
        if self.expl[g] or self.gctx or nested:
            return
        ex, arg = self.excl(g)
        if ex or self.ch.chance(0.5):
            self.via(g).block(exclude=arg)
        else:
            self.via(g).block()
        self.expl[g] = True
        self.blk[g] = True
        self.log("gblock", g=g, ex=ex)

    def op_gunblock(self, nested, g=None):
        g = g or self.grp()
        if not self.expl[g] or self.gctx or nested:
            return
        self.via(g).unblock()
        self.expl[g] = False
        self.blk[g] = False
        self.log("gunblock", g=g)

    def op_gwith_blocked(self, nested):
        g = self.grp()
        if nested:
            return
        ex, arg = self.excl(g)
        through = self.ch.chance(0.3)
        was = self.blk[g]
        mblk = {s: self.blk[s] for s in self.members[g]}
        self.gctx += 1
        try:
            v = self.via(g)
            with v.blocked(exclude=arg) if ex or self.ch.chance(0.5) else v.blocked():
                self.log("enter_gblocked", g=g, ex=ex)
                self.blk[g] = True
                try:
                    self.ctx_body(through)
                finally:
                    self.log("exit_gblocked", g=g, ex=ex)
        except Through:
            pass
        finally:
            self.gctx -= 1
            self.blk[g] = was
            for s in mblk:
                if s not in ex:
                    self.blk[s] = mblk[s]

    def op_glen(self, nested):
        g = self.grp()
        self.log("len", s=g, n=len(self.gsig[g]))

    def op_gin(self, nested):
        cid = self.cbid(lambda c: self.kinds[c] != "bad")
        g = self.grp()
        self.log("in", s=g, c=cid, r=self.callable_of(cid) in self.gsig[g])

    def op_gshape(self, nested):
        g = self.grp()
        grp = self.groups[g]
        names = list(grp)
        bad = []
        for nm in names:
            s = grp[nm]
            if s is not self.sigs.get(f"{g}.{nm}"):
                bad.append("item " + nm)
            if nm not in grp:
                bad.append("membership " + nm)
            if nm not in ODD and getattr(grp, nm, None) is not s:
                bad.append("attribute " + nm)
            if grp.signals.get(nm) is not s:
                bad.append("signals " + nm)
            if s.name != nm:
                bad.append("name " + nm)
        for nm in ("nope", "__len__", "connect_direct"):
            if nm in grp:
                bad.append("membership of " + nm)
            try:
                grp[nm]
                bad.append("item of " + nm)
            except KeyError:
                pass
        if grp.all is not self.gsig[g]:
            bad.append("all")
        self.log("gshape", g=g, names=[f"{g}.{x}" for x in names], n=len(grp), bad=bad)

    TYPES = [(), (int,), (str,), (int, str), (str, int), (int, int), ("int",), (float,)]

    def op_strict(self, nested):
        n = self.ch.choose(4) if not self.ch.exhaustive else 2
        first = self.TYPES[self.ch.choose(len(self.TYPES))]
        sigs = []
        for _ in range(n):
            sigs.append(first if self.ch.chance(0.6) else self.TYPES[self.ch.choose(len(self.TYPES))])
        names = ["a", "b", "c", "d"][:n]
        # half of the members may be inherited
        k = self.ch.choose(n + 1) if self.ch.chance(0.5) else 0

        def mk(ts):
            if self.ch.chance(0.3):
                return Signal(
                    Signature([Parameter(f"q{i}", Parameter.POSITIONAL_ONLY, annotation=t) for i, t in enumerate(ts)])
                )
            return Signal(*ts)

        ns = {nm: mk(ts) for nm, ts in zip(names, sigs)}
        base = SignalGroup
        if k:
            base = type("B", (SignalGroup,), {nm: ns[nm] for nm in names[:k]})
        rest = {nm: ns[nm] for nm in names[k:]}
        r = "ok"
        try:
            type("S", (base,), dict(rest), strict=True)
        except TypeError:
            r = "TypeError"
        lax = type("L", (base,), dict(rest))
        uni = lax.psygnals_uniform()
        self.log("strict", sigs=[[getattr(t, "__name__", "'" + str(t) + "'") for t in ts] for ts in sigs], r=r, uni=uni)


def run(profile, params, choice, rec):
    p = GProg(params, choice, rec)
    p.arity = {}
    p.setup()
    for _ in range(params.get("preconn", 0)):
        p.op_gconnect(False) if choice.chance(0.4) else p.op_connect(False)
    p.op_gshape(False)
    for _ in range(params.get("nops", 10)):
        if p.budget <= 0:
            break
        p.one_op(params["top"], False)
    p.budget = 0
    for g in p.groups:
        p.op_gunblock(False, g)
    for s in p.sigs:
        if p.blk[s]:
            p.unblock(s)
        if p.pau[s]:
            p.pau[s] = False
            p.log("resume", s=s, red="none", init=[])
            p.finish_resume(p.sigs[s].resume, False)
    for g in p.groups:
        if p.pau[g]:
            p.pau[g] = False
            p.log("resume", s=g, red="none", init=[])
            p.finish_resume(p.gsig[g].resume, False)
    for s in p.sigs:
        p.op_emit(False, "emit", s)
    p.op_gshape(False)
    p.op_sender(False)
    p.poll()


P = {}
BASE = dict(
    nsig=0, funcs=["f0", "f1", "fv", "fp"], objs=[["m1", "mp", "at"], ["EQ", "mv", "[k]", "()"]], emit=["emit", "emit", "call"],
    members=[["a", "b"], ["a"], ["a", "b", "c"]], prios=[0, 0, 1, -1], inherit=True, odd=True,
)
P["C12"] = [
    dict(
        BASE, name="relay", w=4, ngroups=1, preconn=7, nops=14, budget=40, maxargs=[NOLIM, NOLIM, 0, 1], uniq=["no", "no", "yes"],
        gmodes=["immediate", "immediate", "queued", "latest-only"],
        top=dict(emit=8, connect=2, gconnect=3, gdirect=1.5, gdisconnect=2.5, gdisconnect_all=0.2, disconnect=1, gpause=0.6, gresume=1,
                 gwith_paused=1, glen=0.7, gin=1, strict=0.5, gshape=0.2, pause=0.3, resume=0.5, kill=0.3),
        body=dict(emit=3, gdisconnect=1, gconnect=0.6, sender=1, kill=0.3, gpause=0.2, gresume=0.2), pbody=0.25, maxbody=2,
        greducers=["none", "none", "last", "cat1"][:3], exc={"": 10, "u": 1}, maxdepth=3,
    ),
    dict(
        BASE, name="two", w=2, ngroups=2, preconn=8, nops=14, budget=40, objs=[["m1"]], funcs=["f1", "fv"],
        top=dict(emit=8, connect=1, gconnect=3, gdirect=1, gdisconnect=3, gdisconnect_all=0.2, gpause=0.6, gresume=1, gwith_paused=1, glen=0.7, gin=1),
        body=dict(emit=4, gdisconnect=1, gconnect=0.6, sender=1), pbody=0.3, maxbody=2, exc={"": 10, "u": 1, "b": 0.3}, maxdepth=4,
    ),
    dict(BASE, name="shape", w=1, ngroups=1, preconn=1, nops=5, budget=12, top=dict(strict=5, gshape=1), body=dict(emit=1), pbody=0.1),
]
P["C13"] = [
    dict(
        BASE, name="block", w=4, ngroups=1, preconn=0, connall=True, nops=16, budget=60, objs=[], funcs=["f1"], odd=False,
        members=[["a", "b", "c"]], prios=[0],
        top=dict(emit=6, block=1.5, unblock=1.5, gblock=1.5, gunblock=2, gwith_blocked=3, with_blocked=1),
        ctx=dict(emit=4, gwith_blocked=2, with_blocked=1, block=1, unblock=1), body=dict(emit=1), pbody=0.1,
    ),
    dict(
        BASE, name="glevel", w=2, ngroups=1, preconn=0, gall=True, connall=True, nops=14, budget=50, objs=[], funcs=["f1", "fv"], odd=False,
        members=[["a", "b", "c"]], prios=[0], excl=False,
        top=dict(emit=6, block=1.5, unblock_free=1.5, gblock=1.5, gunblock=2, gwith_blocked=3), ctx=dict(emit=4, gwith_blocked=2, block=1), body=dict(emit=1), pbody=0.1,
    ),
]


def _unblock_free(self, nested):
    # (a member that is unblocked while its group is blocked: not specified for the group)
    if self.gctx or any(self.expl.values()):
        return
    self.op_unblock(nested)


GProg.op_unblock_free = _unblock_free
_run = run


def run(profile, params, choice, rec):  # noqa: F811
    if not params.get("connall"):
        return _run(profile, params, choice, rec)
    # every member has a callback from the start, and so may the group
    orig = GProg.op_gshape

    class G2(GProg):
        def op_gshape(self, nested):
            if not self.done0:
                self.done0 = True
                for s in self.sigs:
                    self.sigs[s].connect(self.callable_of("f1"))
                    self.log("connect", s=s, c="f1", p=0, mx=NOLIM, cn=True, uq="no", pol="warn", w=0, r="ok")
                if params.get("gall"):
                    for g in self.groups:
                        self.gsig[g].connect(self.callable_of("fv"))
                        self.log("connect", s=g, c="fv", p=0, mx=NOLIM, cn=True, uq="no", pol="warn", w=0, r="ok")
            orig(self, nested)

        done0 = False

    global _G
    _G = G2
    return _run_with(G2, profile, params, choice, rec)


def _run_with(cls, profile, params, choice, rec):
    import comp_group as me

    saved = me.GProg
    me.GProg = cls
    try:
        return _run(profile, params, choice, rec)
    finally:
        me.GProg = saved


E = {}
E["C13"] = [
    dict(BASE, name="e", ngroups=1, connall=True, nops=3, budget=4, objs=[], funcs=["f1"], odd=False, inherit=False, inst=False, members=[["a", "b"]], prios=[0],
         excl=False, emit=["emit"], top=dict(block=1, gblock=1, gunblock=1, gwith_blocked=1, unblock=1), ctx=dict(gwith_blocked=1, block=1), body=dict(emit=1)),
]
NRAND = {"quick": 1200, "thorough": 40000}
NENUM = {"quick": 600, "thorough": 20000}


def jobs(profile, tier, seed):
    tot = sum(p["w"] for p in P[profile])
    for p in P[profile]:
        yield {"kind": "random", "name": f"{profile}.{p['name']}", "count": int(NRAND[tier] * p["w"] / tot), "params": p}
    for p in E.get(profile, []):
        yield {"kind": "enum", "name": f"{profile}.{p['name']}", "limit": NENUM[tier], "params": p}
