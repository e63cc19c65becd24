------------------------------ MODULE SignalMC ------------------------------
(***************************************************************************)
(* SignalCore with an environment of bounded size: every program of at     *)
(* most MaxOps operations over the constants, with every way in which the  *)
(* callbacks may themselves use the signals.  The history variables record *)
(* what was delivered, and the invariants state the properties without     *)
(* reference to how SignalCore computes the deliveries.                    *)
(***************************************************************************)
EXTENDS SignalCore

CONSTANTS Modes,      (* re-emission modes of the signals, e.g. <<"immediate">> *)
          NCb,        (* number of callbacks (functions) *)
          NObj,       (* number of callbacks that are methods of their own object *)
          Relay,      (* a slot that is the emit method of signal 2 exists *)
          Ops,        (* operations that programs use *)
          Prios, MaxOps, MaxCbs, Connected (* connected at the start *)

SigIds == {"s1", "s2"}
SigAt(i) == IF i = 1 THEN "s1" ELSE "s2"
CbName == <<"f1", "f2", "f3">>
ObName == <<"o1", "o2", "o3">>
Cb(id, obj, tgt) ==
  [id |-> id, key |-> id, cap |-> NoLimit, obj |-> obj, pre |-> <<>>, tgt |-> tgt, unref |-> FALSE]
Hdr ==
  [sigs |-> [i \in 1..Len(Modes) |-> [id |-> SigAt(i), mode |-> Modes[i], obj |-> "none"]],
   cbs |-> [i \in 1..NCb |-> Cb(CbName[i], "none", "")]
           \o [i \in 1..NObj |-> Cb(ObName[i], ObName[i], "")]
           \o (IF Relay THEN <<Cb("relay", "none", "s2")>> ELSE <<>>),
   groups |-> <<>>]
Sigs == {SigAt(i) : i \in 1..Len(Modes)}

VARIABLES st,    (* the machine *)
          n,     (* operations used *)
          em,    (* emissions made by the program: id -> record *)
          log,   (* deliveries <<id, uid, s, cb>> in order *)
          open,  (* ids of the emit calls that have not returned, outermost first *)
          born,  (* uid -> number of emissions made before it was connected *)
          gone,  (* uids removed *)
          prio,  (* uid -> priority *)
          excd,  (* an exception has been raised by a callback *)
          last   (* the last event *)
vars == <<st, n, em, log, open, born, gone, prio, excd, last>>

Uids(s) == {st.sig[s].slots[i].u : i \in DOMAIN st.sig[s].slots}
LiveUids(t, s) == {t.sig[s].slots[i].u : i \in {j \in DOMAIN t.sig[s].slots : ~t.sig[s].slots[j].dead}}

RECURSIVE Apply(_, _)
Apply(s0, es) == IF es = <<>> THEN s0 ELSE Apply(Step(s0, Head(es)).st, Tail(es))

ConnEv(s, c, p) == [k |-> "connect", s |-> s, c |-> c, p |-> p, mx |-> NoLimit, cn |-> TRUE,
                    uq |-> "no", pol |-> "warn", w |-> 0, r |-> "ok"]

Init ==
  /\ st = Apply(InitSt(Hdr), [i \in 1..Len(Connected) |->
                    ConnEv(Connected[i][1], Connected[i][2], Connected[i][3])])
  /\ n = 0 /\ em = <<>> /\ log = <<>> /\ open = <<>>
  /\ born = [i \in 1..Len(Connected) |-> 0]
  /\ prio = [i \in 1..Len(Connected) |-> Connected[i][3]]
  /\ gone = {} /\ excd = FALSE
  /\ last = [k |-> "init"]

(* take an event that the machine must accept *)
Take(e) == /\ Step(st, e).ok
           /\ st' = Step(st, e).st
           /\ last' = e

EnvOk == InEnv(st) /\ n < MaxOps
CanUse(op) == op \in Ops /\ EnvOk

(* ---------------------------------------------------------------- program *)
EmitOp(s, m) ==
  /\ CanUse(m)
  /\ LET id == Len(em) + 1 IN
     /\ Take([k |-> "emit", s |-> s, m |-> m, a |-> <<id>>])
     /\ em' = Append(em, [s |-> s, m |-> m, mode |-> st.sig[s].mode,
                          how |-> IF st.sig[s].blk THEN "blocked"
                                  ELSE IF st.sig[s].pau THEN "paused"
                                  ELSE IF m # "fast" /\ st.sig[s].qa THEN "queued" ELSE "now",
                          at |-> LiveUids(st, s), depth |-> Len(st.stack), done |-> ""])
     /\ open' = Append(open, id)
  /\ n' = n + 1
  /\ UNCHANGED <<log, born, gone, prio, excd>>

ConnectOp(s, c, p) ==
  /\ CanUse("connect")
  /\ c = "relay" => s = "s1"
  /\ Take(ConnEv(s, c, p))
  /\ born' = Append(born, Len(em))
  /\ prio' = Append(prio, p)
  /\ n' = n + 1
  /\ UNCHANGED <<em, log, open, gone, excd>>

DisconnectOp(s, c) ==
  /\ CanUse("disconnect")
  /\ SlotIndex(st.sig[s].slots, c) > 0
  /\ Take([k |-> "disconnect", s |-> s, c |-> c, mo |-> TRUE, r |-> "ok"])
  /\ gone' = gone \cup (Uids(s) \ {st'.sig[s].slots[i].u : i \in DOMAIN st'.sig[s].slots})
  /\ n' = n + 1
  /\ UNCHANGED <<em, log, open, born, prio, excd>>

DisconnectAllOp(s) ==
  /\ CanUse("disconnect_all")
  /\ st.sig[s].slots # <<>>
  /\ Take([k |-> "disconnect_all", s |-> s])
  /\ gone' = gone \cup Uids(s)
  /\ n' = n + 1
  /\ UNCHANGED <<em, log, open, born, prio, excd>>

Running == {st.stack[i].c : i \in {j \in DOMAIN st.stack : st.stack[j].t = "cb"}}
KillOp(o) ==
  /\ CanUse("kill")
  /\ o \notin Running
  /\ \E s \in Sigs : SlotIndex(st.sig[s].slots, o) > 0
  /\ Take([k |-> "kill", o |-> o, dead |-> TRUE])
  /\ gone' = gone \cup UNION {Uids(s) \ LiveUids(st', s) : s \in Sigs}
  /\ n' = n + 1
  /\ UNCHANGED <<em, log, open, born, prio, excd>>

SimpleOp(k, s) ==
  /\ CanUse(k)
  /\ k = "pause" => ~st.sig[s].pau
  /\ k = "block" => ~st.sig[s].blk
  /\ k = "unblock" => st.sig[s].blk
  /\ Take([k |-> k, s |-> s])
  /\ n' = n + 1
  /\ UNCHANGED <<em, log, open, born, gone, prio, excd>>

ResumeOp(s) ==
  /\ CanUse("resume")
  /\ st.sig[s].pau /\ ~st.sig[s].blk
  /\ Take([k |-> "resume", s |-> s, red |-> "none", init |-> <<>>])
  /\ n' = n + 1
  /\ UNCHANGED <<em, log, open, born, gone, prio, excd>>

RaiseOp(x) ==
  /\ "raise" \in Ops /\ InEnv(st) /\ st.stack # <<>> /\ n < MaxOps
  /\ Take([k |-> "raise", c |-> Top(st).c, x |-> <<x, "x">>])
  /\ excd' = TRUE
  /\ n' = n + 1
  /\ UNCHANGED <<em, log, open, born, gone, prio>>

RetOp ==
  /\ InEnv(st) /\ st.stack # <<>>
  /\ Take([k |-> "ret", c |-> Top(st).c])
  /\ UNCHANGED <<n, em, log, open, born, gone, prio, excd>>

(* ---------------------------------------------------------------- library *)
CbStep ==
  /\ st.stack # <<>> /\ Top(st).t = "em" /\ Top(st).x = NoX /\ Len(log) < MaxCbs
  /\ LET f == Top(st)
         el == Eligible(st, f)
     IN /\ el # <<>>
        /\ Take([k |-> "cb", c |-> el[1].c, a |-> f.args])
        /\ log' = Append(log, [id |-> f.args[1], u |-> el[1].u, s |-> f.s, c |-> el[1].c])
  /\ UNCHANGED <<n, em, open, born, gone, prio, excd>>

EmitEnd(k) ==
  /\ st.stack # <<>> /\ Top(st).t = "em" /\ ~Top(st).imp
  /\ LET f == Top(st)
         e == IF k = "emitx" THEN [k |-> "emitx", x |-> f.x] ELSE [k |-> "emitret"]
     IN /\ (k = "emitx") = (f.x # NoX)
        /\ Eligible(st, f) = <<>>
        /\ Take(e)
        /\ em' = [em EXCEPT ![Last(open)].done = IF k = "emitx" THEN f.x[1] ELSE "ok"]
  /\ open' = Front(open)
  /\ UNCHANGED <<n, log, born, gone, prio, excd>>

ResumeEnd ==
  /\ st.stack # <<>> /\ Top(st).t = "rs"
  /\ Take(IF Top(st).x = NoX THEN [k |-> "resumeret"] ELSE [k |-> "resumex", x |-> Top(st).x])
  /\ UNCHANGED <<n, em, log, open, born, gone, prio, excd>>

Cbs == {Hdr.cbs[i].id : i \in DOMAIN Hdr.cbs}
DoEmitOp == \E s \in Sigs, m \in {"emit", "fast"} : EmitOp(s, m)
DoConnectOp == \E s \in Sigs, c \in Cbs, p \in Prios : ConnectOp(s, c, p)
DoDisconnectOp == \E s \in Sigs, c \in Cbs : DisconnectOp(s, c)
DoDisconnectAllOp == \E s \in Sigs : DisconnectAllOp(s)
DoKillOp == \E i \in 1..NObj : KillOp(ObName[i])
DoSwitchOp == \E s \in Sigs, k \in {"pause", "block", "unblock"} : SimpleOp(k, s)
DoResumeOp == \E s \in Sigs : ResumeOp(s)
DoRaiseOp == \E x \in {"u", "b"} : RaiseOp(x)
DoEmitEnd == \E k \in {"emitret", "emitx"} : EmitEnd(k)

Next == \/ DoEmitOp \/ DoConnectOp \/ DoDisconnectOp \/ DoDisconnectAllOp \/ DoKillOp
        \/ DoSwitchOp \/ DoResumeOp \/ DoRaiseOp \/ RetOp \/ CbStep \/ DoEmitEnd \/ ResumeEnd
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
L(i) == log[i]
Of(id) == {i \in DOMAIN log : log[i].id = id}
Got(id) == {log[i].u : i \in Of(id)}

(* nothing is delivered twice *)
NoDuplicate == \A i, j \in DOMAIN log : i # j => <<L(i).id, L(i).u>> # <<L(j).id, L(j).u>>

(* within an emission: by priority, then in the order of the connections *)
InOrder ==
  \A i, j \in DOMAIN log :
    (i < j /\ L(i).id = L(j).id /\ L(i).s = L(j).s) =>
      \/ prio[L(i).u + 1] > prio[L(j).u + 1]
      \/ (prio[L(i).u + 1] = prio[L(j).u + 1] /\ L(i).u < L(j).u)

(* whoever gets an emission was connected when it was delivered; in the modes
   that deliver at once also when it was made *)
OnlyConnected ==
  /\ last.k = "cb" => Last(log).u \notin gone
  /\ \A i \in DOMAIN log : LET e == em[L(i).id] IN
       (e.how = "now" /\ L(i).s = e.s) => L(i).u \in e.at

NeverBlocked == \A id \in DOMAIN em : em[id].how = "blocked" => Of(id) = {}

(* an emit call that returns normally has called everyone who was connected
   when it was made and still is; in latest-only mode the newest one has *)
(* callback of a slot that is still connected *)
UC(u) ==
  LET all == UNION {{st.sig[s].slots[i] : i \in DOMAIN st.sig[s].slots} : s \in Sigs}
  IN (CHOOSE sl \in all : sl.u = u).c
Newer(id) == {j \in DOMAIN em : j > id /\ em[j].s = em[id].s /\ em[j].m # "fast" /\ em[j].how = "now"}
Complete ==
  last.k = "emitret" =>
    \A id \in DOMAIN em :
      (em[id].done = "ok" /\ em[id].how = "now" /\ id \notin {open[i] : i \in DOMAIN open}) =>
        \/ (em[id].mode = "latest-only" /\ em[id].m # "fast" /\ Newer(id) # {})
        \/ em[id].mode = "queued" /\ excd
        \/ \A u \in em[id].at \ gone :
             u \in Got(id) \/ st.cb[UC(u)].tgt # ""

(* queued emissions: complete when the outermost call returns normally *)
QueuedComplete ==
  (st.stack = <<>> /\ ~excd) =>
    \A id \in DOMAIN em : em[id].how = "queued" =>
      \A u \in em[id].at \ gone : u \in Got(id) \/ st.cb[UC(u)].tgt # ""

(* the order of the modes *)
ModeOrder ==
  \A i, j \in DOMAIN log :
    (i < j /\ L(i).s = L(j).s /\ L(i).id > L(j).id /\ L(i).s = em[L(i).id].s /\ L(j).s = em[L(j).id].s
       /\ em[L(i).id].m # "fast" /\ em[L(j).id].m # "fast") =>
      CASE st.sig[L(i).s].mode = "queued" -> excd \/ em[L(j).id].how = "paused" \/ em[L(i).id].how = "paused"
        [] st.sig[L(i).s].mode = "latest-only" -> em[L(j).id].how = "paused" \/ em[L(i).id].how = "paused"
        [] OTHER -> (* the nested emission is over once an older one continues *)
             ~ \E k \in DOMAIN log : k > j /\ L(k).id = L(i).id /\ em[L(i).id].how = "now"

(* nobody sees an older value after a newer one *)
PausedInOrder ==
  \A i, j \in DOMAIN log :
    (i < j /\ L(i).u = L(j).u /\ em[L(i).id].how = "paused" /\ em[L(j).id].how = "paused"
       /\ em[L(i).id].depth = 0 /\ em[L(j).id].depth = 0)
      => L(i).id < L(j).id

(* once everything returned, nothing is left behind *)
NoResidue ==
  st.stack = <<>> => \A s \in Sigs : ~st.sig[s].qa /\ st.sig[s].eq = <<>> /\ open = <<>>

(* paused emissions are replayed completely: when nothing is paused, running
   or raised, everything collected was delivered (if anyone was connected) *)
ReplayedAll ==
  (st.stack = <<>> /\ ~excd /\ \A s \in Sigs : ~st.sig[s].pau) =>
    \A id \in DOMAIN em : em[id].how = "paused" /\ em[id].mode = "immediate" =>
      \A u \in em[id].at \ gone : u \in Got(id)

(* the emitter gets an emit-loop error, or an exception that is none *)
Surfaces == last.k = "emitx" => last.x[1] \in {"e", "b", "r"}

Sorted ==
  \A s \in Sigs : \A i, j \in DOMAIN st.sig[s].slots : i < j =>
    LET a == st.sig[s].slots[i]
        b == st.sig[s].slots[j]
    IN a.p > b.p \/ (a.p = b.p /\ a.u < b.u)

(* the innermost emission that calls someone is the current emitter *)
EmitterRight ==
  (st.stack # <<>> /\ Top(st).t = "cb" /\ ~Top(st).imp) =>
    LET f == st.stack[Len(st.stack) - 1] IN
    f.t = "em" /\ Emitter(st, Len(st.stack)) = (IF f.fast THEN "any" ELSE f.s)
SenderClear == st.stack = <<>> => Emitter(st, 0) = "none"

View == <<st, n, em, log, open, born, gone, prio, excd, last.k>>
=============================================================================
