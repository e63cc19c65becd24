------------------------------ MODULE GroupMC ------------------------------
(***************************************************************************)
(* A signal group in a bounded environment (SignalCore's groups): members  *)
(* that emit, callbacks of the group and of members, blocking of the group *)
(* (explicit and by contexts, with exclusions), of members, and pausing.   *)
(***************************************************************************)
EXTENDS SignalCore

CONSTANTS Ops, MaxOps, MaxDepth, Conn0, NCb

Mem == <<"m1", "m2">>
CbN == <<"f1", "f2">>
Hdr == [sigs |-> <<[id |-> "m1", mode |-> "immediate", obj |-> "G"],
                   [id |-> "m2", mode |-> "immediate", obj |-> "G"],
                   [id |-> "G", mode |-> "immediate", obj |-> "none"]>>,
        cbs |-> [i \in 1..NCb |-> [id |-> CbN[i], key |-> CbN[i], cap |-> NoLimit, obj |-> "none",
                                   pre |-> <<>>, tgt |-> "", unref |-> FALSE]],
        groups |-> <<[id |-> "G", members |-> Mem]>>]
Sigs == {"m1", "m2", "G"}
M == {"m1", "m2"}

VARIABLES st, n,
          em,    (* emissions made by the program *)
          log,   (* deliveries *)
          open,  (* emit calls that have not returned *)
          nest,  (* contexts that are open: [k, s, ex, was: blocked states on entry] *)
          expl,  (* the explicit block: [on, ex, was] *)
          own,   (* members that were blocked / unblocked on their own since the group was blocked *)
          excd, last
vars == <<st, n, em, log, open, nest, expl, own, excd, last>>

RECURSIVE Apply(_, _)
Apply(s0, es) == IF es = <<>> THEN s0 ELSE Apply(Step(s0, Head(es)).st, Tail(es))
ConnEv(s, c, p) == [k |-> "connect", s |-> s, c |-> c, p |-> p, mx |-> NoLimit, cn |-> TRUE,
                    uq |-> "no", pol |-> "warn", w |-> 0, r |-> "ok"]
Blk(x) == [s \in Sigs |-> x.sig[s].blk]
Init ==
  /\ st = Apply(InitSt(Hdr), [i \in DOMAIN Conn0 |-> ConnEv(Conn0[i][1], Conn0[i][2], 0)])
  /\ n = 0 /\ em = <<>> /\ log = <<>> /\ open = <<>> /\ nest = <<>> /\ own = {}
  /\ expl = [on |-> FALSE, ex |-> {}, was |-> [s \in Sigs |-> FALSE]]
  /\ excd = FALSE /\ last = [k |-> "init"]

Take(e) == Step(st, e).ok /\ st' = Step(st, e).st /\ last' = e
Use(op) == op \in Ops /\ n < MaxOps /\ InEnv(st) /\ Len(st.stack) <= MaxDepth /\ n' = n + 1

(* the group is silenced for m: an explicit block or a context without m among the exclusions *)
Silenced(m) ==
  \/ expl.on /\ m \notin expl.ex
  \/ \E i \in DOMAIN nest : nest[i].k = "g" /\ m \notin nest[i].ex
GCbs == {st.sig["G"].slots[i].u : i \in DOMAIN st.sig["G"].slots}
EmitOp(m) ==
  /\ Use("emit")
  /\ LET id == Len(em) + 1 IN
     /\ Take([k |-> "emit", s |-> m, m |-> "emit", a |-> <<ToString(id)>>])
     /\ em' = Append(em, [s |-> m,
                 how |-> IF st.sig[m].blk THEN "blocked" ELSE IF st.sig["G"].blk THEN "gblocked"
                         ELSE IF st.sig["G"].pau THEN "gpaused" ELSE "now",
                 silent |-> Silenced(m) /\ m \notin own,
                 gat |-> GCbs, mat |-> {st.sig[m].slots[i].u : i \in {j \in DOMAIN st.sig[m].slots : st.cb[st.sig[m].slots[j].c].tgt = ""}},
                 nested |-> st.stack # <<>>, done |-> ""])
     /\ open' = Append(open, id)
  /\ UNCHANGED <<log, nest, expl, own, excd>>

ConnectOp(s, c) ==
  /\ Use("connect") /\ SlotIndex(st.sig[s].slots, c) = 0
  /\ Take(ConnEv(s, c, 0))
  /\ UNCHANGED <<em, log, open, nest, expl, own, excd>>
DisconnectOp(s, c) ==
  /\ Use("disconnect") /\ SlotIndex(st.sig[s].slots, c) > 0
  /\ Take([k |-> "disconnect", s |-> s, c |-> c, mo |-> TRUE, r |-> "ok"])
  /\ UNCHANGED <<em, log, open, nest, expl, own, excd>>
ExSets == {<<>>, <<"m1">>}
GBlock(ex) ==
  /\ Use("gblock") /\ nest = <<>>
  /\ Take([k |-> "gblock", g |-> "G", ex |-> ex])
  /\ expl' = [on |-> TRUE, ex |-> IF expl.on THEN expl.ex \cap SetOf(ex) ELSE SetOf(ex),
               was |-> [s \in Sigs |-> IF expl.on /\ s \notin expl.ex THEN expl.was[s] ELSE st.sig[s].blk]]
  /\ own' = own \cap SetOf(ex)
  /\ UNCHANGED <<em, log, open, nest, excd>>
GUnblock ==
  /\ Use("gunblock") /\ expl.on /\ nest = <<>>
  /\ Take([k |-> "gunblock", g |-> "G"])
  /\ expl' = [expl EXCEPT !.on = FALSE]
  /\ UNCHANGED <<em, log, open, nest, own, excd>>
GEnter(ex) ==
  /\ Use("gctx") /\ Len(nest) < 2
  /\ Take([k |-> "enter_gblocked", g |-> "G", ex |-> ex])
  /\ nest' = Append(nest, [k |-> "g", s |-> "G", ex |-> SetOf(ex), was |-> Blk(st), own |-> own])
  /\ own' = own \cap SetOf(ex)
  /\ UNCHANGED <<em, log, open, expl, excd>>
GExit ==
  /\ "gctx" \in Ops /\ InEnv(st) /\ nest # <<>> /\ Last(nest).k = "g"
  /\ Take([k |-> "exit_gblocked", g |-> "G"])
  /\ nest' = Front(nest)
  /\ own' = (own \cap Last(nest).ex) \cup (Last(nest).own \ Last(nest).ex)
  /\ UNCHANGED <<n, em, log, open, expl, excd>>
MEnter(m) ==
  /\ Use("mctx") /\ Len(nest) < 2
  /\ Take([k |-> "enter_blocked", s |-> m])
  /\ nest' = Append(nest, [k |-> "b", s |-> m, ex |-> {}, was |-> Blk(st), own |-> own])
  /\ UNCHANGED <<em, log, open, expl, own, excd>>
MExit ==
  /\ "mctx" \in Ops /\ InEnv(st) /\ nest # <<>> /\ Last(nest).k = "b"
  /\ Take([k |-> "exit_blocked", s |-> Last(nest).s])
  /\ nest' = Front(nest)
  /\ own' = IF Last(nest).s \in Last(nest).own THEN own ELSE own \ {Last(nest).s}
  /\ UNCHANGED <<n, em, log, open, expl, excd>>
MSwitch(m) ==
  /\ Use("mblock")
  /\ Take([k |-> IF st.sig[m].blk THEN "unblock" ELSE "block", s |-> m])
  /\ own' = own \cup {m}
  /\ UNCHANGED <<em, log, open, nest, expl, excd>>
GPause ==
  /\ Use("pause") /\ ~st.sig["G"].pau
  /\ Take([k |-> "pause", s |-> "G"])
  /\ UNCHANGED <<em, log, open, nest, expl, own, excd>>
GResume ==
  /\ Use("pause") /\ st.sig["G"].pau /\ ~st.sig["G"].blk
  /\ Take([k |-> "resume", s |-> "G", red |-> "none", init |-> <<>>])
  /\ UNCHANGED <<em, log, open, nest, expl, own, excd>>
RaiseOp ==
  /\ Use("raise") /\ st.stack # <<>>
  /\ Take([k |-> "raise", c |-> Top(st).c, x |-> <<"u", "x">>])
  /\ excd' = TRUE
  /\ UNCHANGED <<em, log, open, nest, expl, own>>
RetOp ==
  /\ InEnv(st) /\ st.stack # <<>> /\ Take([k |-> "ret", c |-> Top(st).c])
  /\ UNCHANGED <<n, em, log, open, nest, expl, own, excd>>
IdOf(f) == CHOOSE id \in DOMAIN em : f.args[1] \in {ToString(id), Info(em[id].s, <<ToString(id)>>)[1]}
CbStep ==
  /\ st.stack # <<>> /\ Top(st).t = "em" /\ Top(st).x = NoX
  /\ LET f == Top(st)
         el == Eligible(st, f)
     IN /\ el # <<>>
        /\ Take([k |-> "cb", c |-> el[1].c, a |-> f.args])
        /\ log' = Append(log, [id |-> IdOf(f), u |-> el[1].u, s |-> f.s, a |-> f.args])
  /\ UNCHANGED <<n, em, open, nest, expl, own, excd>>
EmitEnd ==
  /\ st.stack # <<>> /\ Top(st).t = "em" /\ ~Top(st).imp
  /\ LET f == Top(st) IN
     /\ Eligible(st, f) = <<>>
     /\ Take(IF f.x # NoX THEN [k |-> "emitx", x |-> f.x] ELSE [k |-> "emitret"])
     /\ em' = [em EXCEPT ![Last(open)].done = IF f.x # NoX THEN "err" ELSE "ok"]
  /\ open' = Front(open)
  /\ UNCHANGED <<n, log, nest, expl, own, excd>>
ResumeEnd ==
  /\ st.stack # <<>> /\ Top(st).t = "rs"
  /\ Take(IF Top(st).x = NoX THEN [k |-> "resumeret"] ELSE [k |-> "resumex", x |-> Top(st).x])
  /\ UNCHANGED <<n, em, log, open, nest, expl, own, excd>>

DoEmitOp == \E m \in M : EmitOp(m)
DoConnectOp == \E s \in Sigs, i \in 1..NCb : ConnectOp(s, CbN[i])
DoDisconnectOp == \E s \in Sigs, i \in 1..NCb : DisconnectOp(s, CbN[i])
DoGBlockOp == \E ex \in ExSets : GBlock(ex)
DoGEnter == \E ex \in ExSets : GEnter(ex)
DoMEnter == \E m \in M : MEnter(m)
DoMSwitch == \E m \in M : MSwitch(m)
Next == DoEmitOp \/ DoConnectOp \/ DoDisconnectOp \/ DoGBlockOp \/ GUnblock \/ DoGEnter \/ GExit \/ DoMEnter
        \/ MExit \/ DoMSwitch \/ GPause \/ GResume \/ RaiseOp \/ RetOp \/ CbStep \/ EmitEnd \/ ResumeEnd
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Of(id, s) == {i \in DOMAIN log : log[i].id = id /\ log[i].s = s}
GConn == {st.sig["G"].slots[i].u : i \in DOMAIN st.sig["G"].slots}
MConn(m) == {st.sig[m].slots[i].u : i \in DOMAIN st.sig[m].slots}

(* C12: every callback of the group gets every emission of every member once, as that member's emission *)
RelayedOnce ==
  \A id \in DOMAIN em : \A u \in em[id].gat :
    LET c == Cardinality({i \in Of(id, "G") : log[i].u = u}) IN
    /\ c <= 1
    /\ (em[id].done = "ok" /\ em[id].how = "now" /\ u \in GConn) => c = 1
RelayedRight ==
  \A i \in DOMAIN log : log[i].s = "G" =>
    log[i].a = <<em[log[i].id].s \o "(" \o ToString(log[i].id) \o ")">>
(* ... and the callbacks of the member get it as if there were no group *)
MemberOnce ==
  \A id \in DOMAIN em : \A u \in em[id].mat :
    LET c == Cardinality({i \in Of(id, em[id].s) : log[i].u = u}) IN
    /\ c <= 1
    /\ (em[id].done = "ok" /\ em[id].how # "blocked" /\ u \in MConn(em[id].s)) => c = 1
OtherMembersSilent == \A i \in DOMAIN log : log[i].s \in {"G", em[log[i].id].s}
(* in the order of the emissions: top-level ones *)
GroupOrder ==
  \A i, j \in DOMAIN log :
    (i < j /\ log[i].s = "G" /\ log[j].s = "G" /\ log[i].u = log[j].u
       /\ ~em[log[i].id].nested /\ ~em[log[j].id].nested) => log[i].id <= log[j].id
(* resumed: what was collected has been relayed *)
PauseComplete ==
  (st.stack = <<>> /\ ~st.sig["G"].pau /\ ~excd) =>
    \A id \in DOMAIN em : em[id].how = "gpaused" /\ em[id].done = "ok" =>
      \A u \in em[id].gat \cap GConn : \E i \in Of(id, "G") : log[i].u = u
(* the relay is attached exactly while someone listens to the group *)
Attached == \A m \in M : (SlotIndex(st.sig[m].slots, "~G") > 0) = (GConn # {})

(* C13: a silenced member reaches nobody *)
Silence == \A id \in DOMAIN em : em[id].silent => ~\E i \in DOMAIN log : log[i].id = id
(* leaving a context gives back what was found, explicit unblock what was before the block *)
Restored ==
  [][(/\ (Len(nest') < Len(nest)) =>
            \A s \in Sigs : (IF Last(nest).k = "g" THEN s = "G" \/ s \notin Last(nest).ex ELSE s = Last(nest).s) =>
               st'.sig[s].blk = Last(nest).was[s]
      /\ (expl.on /\ ~expl'.on) =>
            /\ ~st'.sig["G"].blk
            /\ \A m \in M \ expl.ex : st'.sig[m].blk = expl.was[m])]_vars
(* what is excluded is not touched *)
Untouched ==
  [][(last'.k \in {"gblock", "enter_gblocked", "gunblock", "exit_gblocked"}) =>
       \A m \in M : (m \in (IF last'.k \in {"gblock", "enter_gblocked"} THEN SetOf(last'.ex)
                            ELSE IF last'.k = "gunblock" THEN expl.ex ELSE Last(nest).ex))
                    => st'.sig[m].blk = st.sig[m].blk]_vars

Conn_a == <<<<"G", "f1">>>>
Conn_b == <<<<"G", "f1">>, <<"m1", "f2">>>>
=============================================================================
