----------------------------- MODULE ThreadCore -----------------------------
(***************************************************************************)
(* Several threads that emit, connect, disconnect and drain queues.        *)
(*                                                                         *)
(* A world is one possible situation: the connections of every signal, the *)
(* queue of every thread, and what every thread is in the middle of.       *)
(* Internal steps (an operation takes effect, an emission starts or ends,  *)
(* a queued call is put or taken) are not observed; what is observed (an   *)
(* operation begins or returns, a callback begins or ends) must be         *)
(* possible in at least one world. Regular emissions hold the lock of      *)
(* their signal from before their first to after their last callback, and  *)
(* changes of the connections happen while no other thread holds it.       *)
(***************************************************************************)
EXTENDS PySeq

Rej(why) == [ok |-> FALSE, why |-> why]
Ok(st) == [ok |-> TRUE, st |-> st]

(* a frame: an operation (ph: begun, run, got, done) or a callback *)
OpFrame(e) == [f |-> "op", op |-> e.op, s |-> e.s, cb |-> e.cb, tgt |-> e.tgt, a |-> e.a, ph |-> "begun", r |-> "", todo |-> <<>>]
CbFrame(cb) == [f |-> "cb", op |-> "", s |-> "", cb |-> cb, tgt |-> "", a |-> 0, ph |-> "", r |-> "", todo |-> <<>>]

World0(hdr) ==
  [sl |-> [s \in Range(hdr.signals) |-> <<>>],    (* <<id, callback, target thread>> *)
   th |-> [t \in Range(hdr.threads) |-> <<>>],
   q |-> [t \in Range(hdr.threads) |-> <<>>],     (* <<callback, argument>> *)
   tm |-> [t \in Range(hdr.threads) |-> FALSE],   (* a Qt timer drains the queue *)
   (* callbacks that died, and may still be in the list: per signal and thread that is removing them *)
   ghost |-> [s \in Range(hdr.signals) |-> [t \in Range(hdr.threads) |-> 0]],
   nid |-> 1]
InitSt(hdr) == [W |-> {World0(hdr)}, dead |-> <<>>]

Threads(w) == DOMAIN w.th
Top(w, t) == w.th[t][Len(w.th[t])]
HasTop(w, t) == w.th[t] # <<>>
SetTop(w, t, f) == [w EXCEPT !.th[t][Len(w.th[t])] = f]
Holds(w, t, s) == \E i \in DOMAIN w.th[t] : LET f == w.th[t][i] IN f.f = "op" /\ f.op = "emit" /\ f.ph = "run" /\ f.s = s
FreeFor(w, s, t) == \A u \in Threads(w) \ {t} : ~Holds(w, u, s)

Where(q, cb) == LET m == {i \in DOMAIN q : q[i][2] = cb} IN
  IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j
DoneTop(w, t, r) == SetTop(w, t, [Top(w, t) EXCEPT !.ph = "done", !.r = r])
Num(n) == ToString(n)

(* the effect of an operation that has begun *)
Effect(w, t) ==
  LET f == Top(w, t)
      q == w.sl[f.s]
      add == [w EXCEPT !.sl[f.s] = Append(@, <<w.nid, f.cb, f.tgt>>), !.nid = @ + 1]
      i == Where(q, f.cb)
      del == [w EXCEPT !.sl[f.s] = RemoveAt(@, i)]
  IN CASE f.op = "connect" -> DoneTop(add, t, "ok")
       [] f.op = "connect_unique" -> IF i # 0 THEN DoneTop(w, t, "ok") ELSE DoneTop(add, t, "ok")
       [] f.op = "connect_strict" -> IF i # 0 THEN DoneTop(w, t, "ValueError") ELSE DoneTop(add, t, "ok")
       [] f.op = "disconnect" -> IF i = 0 THEN DoneTop(w, t, "ok") ELSE DoneTop(del, t, "ok")
       [] f.op = "disconnect_strict" -> IF i = 0 THEN DoneTop(w, t, "ValueError") ELSE DoneTop(del, t, "ok")
       [] f.op = "disconnect_all" -> DoneTop([w EXCEPT !.sl[f.s] = <<>>], t, "ok")
       [] f.op = "contains" -> DoneTop(w, t, IF i # 0 THEN "True" ELSE "False")
       [] f.op = "emit" -> SetTop(w, t, [f EXCEPT !.ph = "run", !.todo = [j \in DOMAIN q |-> q[j][1]]])
Reads == {"len", "contains"}

Ghosts(w, s) == FoldFunction(LAMBDA x, y : x + y, 0, w.ghost[s])
(* whoever does something else has removed what it had to *)
Removed(w, t) == [w EXCEPT !.ghost = [s \in DOMAIN @ |-> [@[s] EXCEPT ![t] = 0]]]

(* internal steps of a thread *)
Internal(w, t) ==
  IF ~HasTop(w, t) THEN {}
  ELSE LET f == Top(w, t) IN
  IF f.f # "op" THEN {}
  ELSE IF f.op = "drain"
  THEN IF f.ph = "begun" THEN {SetTop(w, t, [f EXCEPT !.ph = "run"])}
       ELSE IF f.ph = "run"
       THEN IF w.q[f.tgt] = <<>> THEN {DoneTop(w, t, "ok")}
            ELSE {SetTop([w EXCEPT !.q[f.tgt] = Tail(@)], t, [f EXCEPT !.ph = "got", !.cb = Head(w.q[f.tgt])[1], !.a = Head(w.q[f.tgt])[2]])}
       ELSE {}
  ELSE IF f.op = "spin"
  THEN (* the event loop runs: while the timer is active everything that waits is executed. What
          remains of a round when the timer is stopped by a callback may be executed or not *)
       IF f.ph = "begun" THEN {SetTop(w, t, [f EXCEPT !.ph = "run", !.r = "tick"])}
       ELSE IF f.ph = "run" /\ f.r # "owed"
       THEN (IF w.tm[t] /\ w.q[t] # <<>> THEN {} ELSE {DoneTop(w, t, "ok")})
            \cup (IF w.q[t] # <<>> /\ (w.tm[t] \/ f.r = "round")
                  THEN {SetTop([w EXCEPT !.q[t] = Tail(@)], t, [f EXCEPT !.ph = "got", !.r = "round", !.cb = Head(w.q[t])[1], !.a = Head(w.q[t])[2]])}
                  ELSE {})
       ELSE {}
  ELSE IF f.ph = "begun" /\ f.op \in {"start", "stop"} THEN {DoneTop([w EXCEPT !.tm[f.tgt] = (f.op = "start")], t, "ok")}
  ELSE IF f.ph = "begun" /\ f.op = "len" THEN {DoneTop(w, t, Num(Len(w.sl[f.s]) + g)) : g \in 0..Ghosts(w, f.s)}
  ELSE IF f.ph = "begun" THEN IF f.op \in Reads \/ FreeFor(w, f.s, t) THEN {Effect(w, t)} ELSE {}
  ELSE IF f.ph = "run"
  THEN IF f.todo = <<>> THEN {DoneTop(w, t, "ok")}
       ELSE LET m == {i \in DOMAIN w.sl[f.s] : w.sl[f.s][i][1] = Head(f.todo)}
                rest == SetTop(w, t, [f EXCEPT !.todo = Tail(@)]) IN
            IF m = {} THEN {rest}
            ELSE LET c == w.sl[f.s][CHOOSE i \in m : TRUE] IN
                 IF c[3] = "" \/ c[3] = t THEN {}
                 ELSE {[rest EXCEPT !.q[c[3]] = Append(@, <<c[2], f.a>>)]}
  ELSE {}

RECURSIVE Closure(_, _)
Closure(new, all) ==
  IF new = {} THEN all
  ELSE LET next == UNION {UNION {Internal(w, t) : t \in Threads(w)} : w \in new} \ all
       IN Closure(next, all \cup next)
Close(ws) == Closure(ws, ws)

-----------------------------------------------------------------------------
(* observed steps *)
Ret(w, e) ==
  IF ~HasTop(w, e.t) THEN {}
  ELSE LET f == Top(w, e.t) IN
       IF f.f = "op" /\ f.ph = "done" /\ f.r = e.r THEN {[w EXCEPT !.th[e.t] = Front(@)]} ELSE {}
CanCall(w, e) ==
  HasTop(w, e.t) /\
  LET f == Top(w, e.t) IN
  f.f = "op" /\
  \/ f.op \in {"drain", "spin"} /\ f.ph = "got" /\ f.cb = e.cb /\ f.a = e.a
  \/ f.op = "emit" /\ f.ph = "run" /\ f.a = e.a /\ f.todo # <<>>
     /\ \E i \in DOMAIN w.sl[f.s] : w.sl[f.s][i][1] = Head(f.todo) /\ w.sl[f.s][i][2] = e.cb /\ w.sl[f.s][i][3] \in {"", e.t}
Cb(w, e) ==
  IF ~CanCall(w, e) THEN {}
  ELSE LET f == Top(w, e.t)
           w1 == SetTop(w, e.t, IF f.op \in {"drain", "spin"} THEN [f EXCEPT !.ph = "run"] ELSE [f EXCEPT !.todo = Tail(@)])
       IN {[w1 EXCEPT !.th[e.t] = Append(@, CbFrame(e.cb))]}
CbEnd(w, e) ==
  LET w1 == [w EXCEPT !.th[e.t] = Front(@)] IN
  {IF e.r # "boom" THEN w1
   (* the failure of an automatically executed call is reported, and nothing else is lost *)
   ELSE IF Top(w1, e.t).op = "spin" THEN SetTop(w1, e.t, [Top(w1, e.t) EXCEPT !.r = "owed"])
   ELSE DoneTop(w1, e.t, "err")}
Hook(w, e) ==
  IF ~HasTop(w, e.t) THEN {}
  ELSE LET f == Top(w, e.t) IN
       IF f.f = "op" /\ f.op = "spin" /\ f.r = "owed" /\ e.r = "err" THEN {SetTop(w, e.t, [f EXCEPT !.r = "tick"])} ELSE {}

(* which signal's emission calls the callback of thread t (any world: the frames are the same) *)
Emitter(w, t) == LET f == Top(w, t) IN IF f.op = "emit" THEN f.s ELSE ""
Outer(w, t) ==
  LET m == {i \in DOMAIN w.th[t] : w.th[t][i].f = "op" /\ w.th[t][i].op = "emit" /\ w.th[t][i].ph = "run"} IN
  IF m = {} THEN "" ELSE w.th[t][CHOOSE i \in m : \A j \in m : i >= j].s
Foreign(W, e) ==
  \A w \in W : \E u \in Threads(w) \ {e.t} : HasTop(w, u) /\ Top(w, u).f = "cb" /\ \E i \in DOMAIN w.th[e.t] :
     w.th[e.t][i].f = "op" /\ w.th[e.t][i].op = "emit" /\ Holds(w, u, w.th[e.t][i].s)

(* the object of a callback is gone: so are its connections and the calls that wait in queues *)
Gone(w, cb, by) ==
  [w EXCEPT !.sl = [s \in DOMAIN @ |-> SelectSeq(@[s], LAMBDA c : c[2] # cb)],
            !.ghost = [s \in DOMAIN @ |-> [@[s] EXCEPT ![by] = @ + Len(SelectSeq(w.sl[s], LAMBDA c : c[2] = cb))]],
            !.q = [t \in DOMAIN @ |-> SelectSeq(@[t], LAMBDA c : c[1] # cb)],
            !.th = [t \in DOMAIN @ |-> [i \in DOMAIN @[t] |->
                      IF @[t][i].ph = "got" /\ @[t][i].cb = cb THEN [@[t][i] EXCEPT !.ph = "run"] ELSE @[t][i]]]]
To(st, ws, why) == IF ws = {} THEN Rej(why) ELSE Ok([st EXCEPT !.W = ws])

Step1(st, e) ==
  CASE e.k = "op" -> Ok([st EXCEPT !.W = {[w EXCEPT !.th[e.t] = Append(@, OpFrame(e))] : w \in @}])
    [] e.k = "ret" ->
         To(st, UNION {Ret(w, e) : w \in Close(st.W)},
            IF \A w \in st.W : HasTop(w, e.t) /\ Top(w, e.t).op \in {"emit", "drain", "spin"}
            THEN "an operation ended (" \o e.r \o ") although callbacks are left, or a failure did not surface (" \o e.op \o ")"
            ELSE "no order of the concurrent operations gives this result (" \o e.op \o ")")
    [] e.k = "cb" ->
         LET ws == UNION {Cb(w, e) : w \in Close(st.W)} IN
         IF ws = {} THEN Rej(IF Foreign(st.W, e) THEN "callbacks of two emissions of a signal ran at the same time"
                             ELSE "a callback ran that should not (in this thread, now, or with these arguments)")
         ELSE IF e.src # "?" /\ \E w \in ws : Outer(w, e.t) # e.src THEN Rej("the sender is that of another emission")
         ELSE Ok([st EXCEPT !.W = ws])
    [] e.k = "sender" ->
         IF \E w \in st.W : Outer(w, e.t) # e.src THEN Rej("the sender is that of another emission") ELSE Ok(st)
    [] e.k = "cbend" -> Ok([st EXCEPT !.W = UNION {CbEnd(w, e) : w \in @}])
    [] e.k = "hook" -> To(st, UNION {Hook(w, e) : w \in st.W}, "an error was reported that no queued call raised, or the wrong one")
    [] e.k = "gone" -> Ok([st EXCEPT !.W = {Gone(w, e.cb, e.t) : w \in Close(@)}])
    [] e.k = "queues" ->
         To(st, {w \in Close(st.W) : \A t \in Threads(w) : Len(w.q[t]) = e.n[t]}, "the queues hold other calls than those waiting")
    [] e.k = "end" -> Ok(st)
    [] e.k = "unexpected" -> Rej("unexpected: " \o e.msg)
    [] OTHER -> Rej("unknown event " \o e.k)
Step(st, e) ==
  IF e.k \in {"end", "unexpected", "gone", "queues"} THEN Step1(st, e)
  ELSE Step1([st EXCEPT !.W = {Removed(w, e.t) : w \in @}], e)
=============================================================================
