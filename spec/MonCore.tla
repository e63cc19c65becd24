------------------------------- MODULE MonCore -------------------------------
(* Monitoring of objects and of the whole process (C25).                       *)
(*                                                                             *)
(* Signals have slots: callbacks, monitors, and (members of a group somebody    *)
(* listens to) the group's relay.  A monitor of an object is connected, while   *)
(* it is active, to every signal that is found on the object; the innermost     *)
(* monitor of the process is told of every emission before its callbacks run.   *)
(* An emission is a frame of what is due: "start" becomes the report to the      *)
(* process' monitor and what the slots are due when it is its turn.             *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC

Ok(st) == [ok |-> TRUE, st |-> st]
No(why) == [ok |-> FALSE, why |-> why]
(* sig: slots, blocked, paused, held, relay (of the group it belongs to), members (of a relay);
   obj: the signals found on it, and those found if private ones are asked for too *)
InitSt(h) == [sig |-> <<>>, obj |-> <<>>, mon |-> <<>>, glob |-> <<>>, fr |-> <<>>]
SigOf(x) == [slots |-> <<>>, blocked |-> FALSE, paused |-> FALSE, held |-> <<>>, relay |-> x.relay, members |-> x.members]
Slot(k, id) == [k |-> k, id |-> id]

NewObj(st, e) ==
  [st EXCEPT !.sig = [s \in {e.sigs[i].id : i \in DOMAIN e.sigs} |-> SigOf(e.sigs[CHOOSE i \in DOMAIN e.sigs : e.sigs[i].id = s])] @@ @,
             !.obj = (e.o :> [pub |-> {e.sigs[i].id : i \in {j \in DOMAIN e.sigs : e.sigs[j].vis = "pub"}},
                              all |-> {e.sigs[i].id : i \in {j \in DOMAIN e.sigs : e.sigs[j].vis # "no"}}]) @@ @]
Found(st, o, priv) == IF priv THEN st.obj[o].all ELSE st.obj[o].pub

(* connecting and disconnecting; a group's members are connected to it while somebody listens to it *)
Add1(sg, s, x) == [sg EXCEPT ![s].slots = Append(@, x)]
RECURSIVE AddTo(_, _, _), DropFrom(_, _, _)
AddTo(sg, ss, x) == IF ss = <<>> THEN sg ELSE AddTo(Add1(sg, Head(ss), x), Tail(ss), x)
Attach(sg, s, x) ==
  LET a == Add1(sg, s, x) IN
  IF sg[s].members # <<>> /\ sg[s].slots = <<>> THEN AddTo(a, sg[s].members, Slot("relay", s)) ELSE a
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
DropFrom(sg, ss, x) == IF ss = <<>> THEN sg ELSE DropFrom([sg EXCEPT ![Head(ss)].slots = Without(@, x)], Tail(ss), x)
Detach(sg, s, x) ==
  LET a == [sg EXCEPT ![s].slots = Without(@, x)] IN
  IF a[s].slots = <<>> THEN DropFrom(a, sg[s].members, Slot("relay", s)) ELSE a
RECURSIVE AttachAll(_, _, _), DetachAll(_, _, _)
AttachAll(sg, S, x) == IF S = {} THEN sg ELSE LET s == CHOOSE t \in S : TRUE IN AttachAll(Attach(sg, s, x), S \ {s}, x)
DetachAll(sg, S, x) == IF S = {} THEN sg ELSE LET s == CHOOSE t \in S : TRUE IN DetachAll(Detach(sg, s, x), S \ {s}, x)

----------------------------------------------------------------------------
Start(s, a, rel) == [k |-> "start", id |-> "", sig |-> s, a |-> a, rel |-> rel]
Call(id) == [k |-> "cb", id |-> id, sig |-> "", a |-> <<>>, rel |-> FALSE]
Rep(m, s, a, rel) == [k |-> "rep", id |-> m, sig |-> s, a |-> a, rel |-> rel]

(* what the slots of s are due; what its group is told is <<s, arguments>> *)
RECURSIVE Due(_, _, _, _, _)
Due(st, s, i, a, rel) ==
  IF i > Len(st.sig[s].slots) THEN <<>>
  ELSE LET x == st.sig[s].slots[i] IN
       (CASE x.k = "cb" -> <<Call(x.id)>>
          [] x.k = "mon" -> <<Rep(x.id, s, a, rel)>>
          [] x.k = "relay" -> IF st.sig[x.id].paused THEN <<>> ELSE Due(st, x.id, 1, <<s>> \o a, TRUE))
       \o Due(st, s, i + 1, a, rel)
(* a paused group keeps what its members emitted *)
Keep(st, s, a) ==
  LET R == {i \in DOMAIN st.sig[s].slots : st.sig[s].slots[i].k = "relay" /\ st.sig[st.sig[s].slots[i].id].paused} IN
  IF R = {} THEN st ELSE LET r == st.sig[s].slots[CHOOSE i \in R : TRUE].id IN [st EXCEPT !.sig[r].held = Append(@, <<<<s>> \o a, TRUE>>)]

RECURSIVE Norm(_)
Norm(st) ==
  IF st.fr # <<>> /\ Head(st.fr).due # <<>> /\ Head(Head(st.fr).due).k = "start"
  THEN LET x == Head(Head(st.fr).due)
           g == IF st.glob = <<>> \/ x.rel THEN <<>> ELSE <<Rep(Last(st.glob), x.sig, x.a, FALSE)>>
           rest == [Head(st.fr) EXCEPT !.due = Tail(@)] IN
       IF st.sig[x.sig].blocked THEN Norm([st EXCEPT !.fr[1] = rest])
       ELSE IF st.sig[x.sig].paused THEN Norm([st EXCEPT !.fr[1] = rest, !.sig[x.sig].held = Append(@, <<x.a, x.rel>>)])
       ELSE Norm(Keep([st EXCEPT !.fr[1].due = g \o Due(st, x.sig, 1, x.a, x.rel) \o Tail(@)], x.sig, x.a))
  ELSE st
Push(st, t, due) == Norm([st EXCEPT !.fr = <<[t |-> t, due |-> due]>> \o @])
TopDue(st) == st.fr # <<>> /\ Head(st.fr).due # <<>>
Pop(st) == [st EXCEPT !.fr[1].due = Tail(@)]

Step(st, e) ==
  CASE e.k = "obj" -> Ok(NewObj(st, e))
    [] e.k = "con" -> Ok([st EXCEPT !.sig = Attach(@, e.sig, Slot("cb", e.id))])
    [] e.k = "dis" -> Ok([st EXCEPT !.sig = Detach(@, e.sig, Slot("cb", e.id))])
    (* (a monitor that can't be installed changes nothing) *)
    [] e.k = "mon" ->
        IF e.r # (IF e.bad = "" THEN "ok" ELSE e.bad) THEN No("outcome of the monitor")
        ELSE IF e.r # "ok" THEN Ok(st)
        ELSE IF e.o = "" THEN Ok([st EXCEPT !.mon = (e.m :> {}) @@ @, !.glob = Append(@, e.m)])
        ELSE LET S == Found(st, e.o, e.priv) IN
             Ok([st EXCEPT !.mon = (e.m :> S) @@ @, !.sig = AttachAll(@, S, Slot("mon", e.m))])
    [] e.k = "unmon" ->
        IF st.glob # <<>> /\ Last(st.glob) = e.m THEN Ok([st EXCEPT !.glob = Front(@)])
        ELSE Ok([st EXCEPT !.sig = DetachAll(@, st.mon[e.m], Slot("mon", e.m))])
    [] e.k = "hold" ->
        Ok(CASE e.what = "block" -> [st EXCEPT !.sig[e.sig].blocked = TRUE]
             [] e.what = "unblock" -> [st EXCEPT !.sig[e.sig].blocked = FALSE]
             [] e.what = "pause" -> [st EXCEPT !.sig[e.sig].paused = TRUE])
    [] e.k = "resume" ->
        LET q == st.sig[e.sig].held IN
        Ok(Push([st EXCEPT !.sig[e.sig].paused = FALSE, !.sig[e.sig].held = <<>>], "emit", [i \in DOMAIN q |-> Start(e.sig, q[i][1], q[i][2])]))
    [] e.k = "emit" -> Ok(Push(st, "emit", [i \in DOMAIN e.what |-> Start(e.what[i].sig, e.what[i].a, FALSE)]))
    [] e.k = "rep" ->
        IF ~TopDue(st) THEN No("a report too many")
        ELSE LET x == Head(Head(st.fr).due) IN
             IF x.k # "rep" THEN No("a callback was due, not a report")
             ELSE IF x.id # e.m THEN No("another monitor was to be told")
             ELSE IF x.sig # e.sig THEN No("signal of the report")
             ELSE IF x.a # e.a \/ x.rel # e.rel THEN No("arguments of the report")
             ELSE Ok(Norm(Pop(st)))
    [] e.k = "cb" ->
        IF ~TopDue(st) THEN No("a callback too many")
        ELSE LET x == Head(Head(st.fr).due) IN
             IF x.k # "cb" THEN No("a report was due, not a callback")
             ELSE IF x.id # e.id THEN No("another callback was due")
             ELSE Ok(Push(Pop(st), "cb", <<>>))
    [] e.k = "cbend" -> IF st.fr = <<>> \/ Head(st.fr).t # "cb" THEN No("end of a callback") ELSE Ok(Norm([st EXCEPT !.fr = Tail(@)]))
    [] e.k = "done" ->
        IF st.fr = <<>> \/ Head(st.fr).t # "emit" THEN No("nothing was emitted")
        ELSE IF TopDue(st) THEN No((IF Head(Head(st.fr).due).k = "rep" THEN "a report is missing" ELSE "a callback is missing"))
        ELSE IF e.r # "ok" THEN No("the emission failed")
        ELSE Ok([st EXCEPT !.fr = Tail(@)])
    [] e.k = "iter" ->
        IF Len(e.got) # Cardinality(Range(e.got)) THEN No("a signal was enumerated twice")
        ELSE IF Range(e.got) # Found(st, e.o, e.priv) THEN No("signals that are enumerated") ELSE Ok(st)
    [] e.k = "count" -> IF e.n = Len(st.sig[e.sig].slots) THEN Ok(st) ELSE No("number of connections")
    [] e.k = "end" -> IF st.fr = <<>> THEN Ok(st) ELSE No("did not return")
    [] OTHER -> No("unexpected: " \o ToString(e))
=============================================================================
