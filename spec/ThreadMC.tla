------------------------------ MODULE ThreadMC ------------------------------
(***************************************************************************)
(* ThreadCore with a bounded environment: every program of every thread,   *)
(* every interleaving of the internal steps. One world at a time: what the *)
(* trace specification follows as a set of worlds is nondeterminism here.  *)
(***************************************************************************)
EXTENDS ThreadCore

CONSTANTS Thr,      (* the threads *)
          Progs,    (* thread -> set of operations it may begin (records of a, kind) *)
          Sig0,     (* connections at the start: <<callback, target thread>> *)
          Nested,   (* operations that callbacks may begin *)
          MaxOps, MaxNest, Raising

Hdr0 == [signals |-> <<"s">>, threads |-> SetToSeq(Thr)]

VARIABLES w, n,
          em,     (* emissions: [t, at: uids connected when it took effect, done] *)
          log,    (* callback calls <<thread, uid or 0, callback, emission, "direct" | "drained">> *)
          conns,  (* callback -> how often it is connected, by the operations that took effect *)
          gone,   (* uids removed *)
          put     (* enqueued calls <<target, callback, emission>> in order *)
vars == <<w, n, em, log, conns, gone, put>>

W0 == LET b == World0(Hdr0) IN
  [b EXCEPT !.sl["s"] = [i \in DOMAIN Sig0 |-> <<i, Sig0[i][1], Sig0[i][2]>>], !.nid = Len(Sig0) + 1]

AllCbs == {"f", "g", "h"}
CountCb(q, c) == Cardinality({i \in DOMAIN q : q[i][2] = c})
Init == /\ w = W0 /\ n = 0 /\ em = <<>> /\ log = <<>> /\ gone = {} /\ put = <<>>
        /\ conns = [c \in AllCbs |-> CountCb(W0.sl["s"], c)]

Depth(t) == Cardinality({i \in DOMAIN w.th[t] : w.th[t][i].f = "cb"})
Begin(t, o) ==
  /\ n < MaxOps
  /\ IF HasTop(w, t) THEN Top(w, t).f = "cb" /\ o \in Nested /\ Depth(t) <= MaxNest ELSE o \in Progs[t]
  /\ LET id == IF o[1] = "emit" THEN Len(em) + 1 ELSE 0
         tgt == IF o[1] = "drain" THEN t ELSE o[3]
         e == [op |-> o[1], s |-> "s", cb |-> o[2], tgt |-> tgt, a |-> id]
     IN /\ w' = Removed([w EXCEPT !.th[t] = Append(@, OpFrame(e))], t)
        /\ em' = IF id = 0 THEN em ELSE Append(em, [t |-> t, at |-> {}, done |-> "no"])
  /\ n' = n + 1
  /\ UNCHANGED <<log, conns, gone, put>>

Uids(x) == {x.sl["s"][i][1] : i \in DOMAIN x.sl["s"]}
QLen(x) == FoldFunction(LAMBDA u, v : Len(u) + v, 0, x.q)
Silent(t) ==
  \E x \in Internal(w, t) :
    /\ w' = x
    /\ LET f == Top(w, t) IN
       /\ conns' = [c \in AllCbs |->
             IF f.ph # "begun" \/ f.op \in {"emit", "drain", "len", "contains"} THEN conns[c]
             ELSE IF f.op = "disconnect_all" THEN 0
             ELSE IF f.cb # c THEN conns[c]
             ELSE IF f.op = "connect" THEN conns[c] + 1
             ELSE IF f.op \in {"connect_unique", "connect_strict"} THEN IF conns[c] = 0 THEN 1 ELSE conns[c]
             ELSE IF conns[c] = 0 THEN 0 ELSE conns[c] - 1]
       /\ gone' = gone \cup (Uids(w) \ Uids(x))
       /\ em' = IF f.op = "emit" /\ f.ph = "begun" THEN [em EXCEPT ![f.a].at = Uids(x)] ELSE em
       /\ put' = IF QLen(x) > QLen(w)
                 THEN LET u == CHOOSE v \in Thr : Len(x.q[v]) > Len(w.q[v]) IN
                      Append(put, <<u, x.q[u][Len(x.q[u])][1], f.a>>)
                 ELSE put
  /\ UNCHANGED <<n, log>>

Call(t) ==
  /\ HasTop(w, t) /\ Top(w, t).f = "op" /\ Top(w, t).op \in {"emit", "drain"}
  /\ \E c \in AllCbs :
       LET f == Top(w, t)
           e == [t |-> t, cb |-> c, a |-> f.a] IN
       /\ Cb(w, e) # {}
       /\ w' \in Cb(w, e)
       /\ log' = Append(log, <<t, IF f.op = "drain" THEN 0 ELSE Head(f.todo), c, f.a, IF f.op = "drain" THEN "drained" ELSE "direct">>)
  /\ UNCHANGED <<n, em, conns, gone, put>>

End(t, r) ==
  /\ HasTop(w, t) /\ Top(w, t).f = "cb"
  /\ (r = "boom") => Raising
  /\ w' \in CbEnd(w, [t |-> t, r |-> r])
  /\ em' = IF r = "boom" /\ w.th[t][Len(w.th[t]) - 1].op = "emit"
           THEN [em EXCEPT ![w.th[t][Len(w.th[t]) - 1].a].done = "err"] ELSE em
  /\ UNCHANGED <<n, log, conns, gone, put>>

Return(t) ==
  /\ HasTop(w, t) /\ Top(w, t).f = "op" /\ Top(w, t).ph = "done"
  /\ w' \in Ret(w, [t |-> t, r |-> Top(w, t).r])
  /\ LET f == Top(w, t) IN
     em' = IF f.op = "emit" THEN [em EXCEPT ![f.a].done = IF f.r = "ok" THEN "ok" ELSE @] ELSE em
  /\ UNCHANGED <<n, log, conns, gone, put>>

AllOps == UNION {Progs[t] : t \in Thr} \cup Nested
DoBegin == \E t \in Thr, o \in AllOps : Begin(t, o)
DoSilent == \E t \in Thr : Silent(t)
DoCall == \E t \in Thr : Call(t)
DoEnd == \E t \in Thr, r \in {"ok", "boom"} : End(t, r)
DoReturn == \E t \in Thr : Return(t)
Next == DoBegin \/ DoSilent \/ DoCall \/ DoEnd \/ DoReturn
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Idle(t) == w.th[t] = <<>>
(* two threads are never both in an emission of the signal *)
Exclusive == \A t, u \in Thr : (t # u /\ Holds(w, t, "s")) => ~Holds(w, u, "s")

(* direct calls of one outermost emission form a block: between its first and its last, no other thread's *)
Direct(i) == log[i][5] = "direct"
NotInterleaved ==
  \A i, j, k \in DOMAIN log :
    (i < j /\ j < k /\ Direct(i) /\ Direct(j) /\ Direct(k) /\ log[i][4] = log[k][4]) => log[j][1] = log[i][1]

(* each emission: no connection twice *)
NoDuplicate ==
  \A i, j \in DOMAIN log : (i # j /\ Direct(i) /\ Direct(j)) => <<log[i][2], log[i][4]>> # <<log[j][2], log[j][4]>>

(* a regular emission that returned without error called or enqueued each connection that was there throughout *)
CbOf(u) == LET m == {i \in DOMAIN w.sl["s"] : w.sl["s"][i][1] = u} IN w.sl["s"][CHOOSE i \in m : TRUE]
Complete ==
  \A id \in DOMAIN em : em[id].done = "ok" =>
    \A u \in em[id].at \ gone :
      LET c == CbOf(u) IN
      IF c[3] = "" \/ c[3] = em[id].t
      THEN Cardinality({i \in DOMAIN log : Direct(i) /\ log[i][2] = u /\ log[i][4] = id}) = 1
      ELSE \E i \in DOMAIN put : put[i] = <<c[3], c[2], id>>

(* connects and disconnects take effect exactly once *)
ExactlyOnce == \A c \in AllCbs : conns[c] = CountCb(w.sl["s"], c)

(* calls are executed by the thread they are for, exactly once, in the order they were put *)

PutFor(t) == SelectSeq(put, LAMBDA p : p[1] = t)
RanBy(t) == SelectSeq(log, LAMBDA l : l[1] = t /\ l[5] = "drained")
Got(t) == {i \in DOMAIN w.th[t] : w.th[t][i].f = "op" /\ w.th[t][i].ph = "got"}
QueueOrder ==
  \A t \in Thr :
    /\ Len(RanBy(t)) + Cardinality(Got(t)) + Len(w.q[t]) = Len(PutFor(t))
    /\ Got(t) = {} => \A i \in DOMAIN RanBy(t) : <<RanBy(t)[i][3], RanBy(t)[i][4]>> = <<PutFor(t)[i][2], PutFor(t)[i][3]>>

(* no thread is stuck: somebody can always go on, whatever callbacks do with their own signal *)
NoDeadlock ==
  (\A t \in Thr : Idle(t)) \/ ENABLED (DoSilent \/ DoCall \/ DoEnd \/ DoReturn)

(* a failing callback leaves nothing behind *)
Usable == (\A t \in Thr : Idle(t)) => \A t \in Thr : ~Holds(w, t, "s")

-----------------------------------------------------------------------------
E == <<"emit", "", "">>
Cn(c, t) == <<"connect", c, t>>
Cu(c) == <<"connect_unique", c, "">>
Dc(c) == <<"disconnect", c, "">>
Dr == <<"drain", "", "">>
Thr2 == {"t1", "t2"}
Thr3 == {"t1", "t2", "t3"}
Progs_x == [t \in Thr2 |-> {E, Cn("h", ""), Dc("f"), Dc("h")}]
Sig_x == <<<<"f", "">>, <<"g", "">>>>
Nested_x == {E, Cn("h", ""), Dc("f")}
Progs_u == [t \in Thr3 |-> {E, Cu("h"), <<"disconnect_strict", "f", "">>, <<"connect_strict", "h", "">>, <<"disconnect_all", "", "">>}]
Sig_u == <<<<"f", "">>>>
Nested_u == {}
Progs_q == [t \in Thr2 |-> IF t = "t1" THEN {E, Dr, Dc("g"), Cn("h", "t1")} ELSE {E, Dc("f")}]
Sig_q == <<<<"f", "t1">>, <<"g", "">>>>
Nested_q == {E}
Progs_d == [t \in Thr2 |-> {E, Dr}]
Sig_d == <<<<"f", "t1">>, <<"g", "t2">>>>
Nested_d == {E, Dr}
=============================================================================
