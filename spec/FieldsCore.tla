----------------------------- MODULE FieldsCore -----------------------------
(* Objects with evented fields: evented dataclasses (C15) and evented models *)
(* (C16, C17).  What is assigned, stored, refused, compared and announced,   *)
(* with callbacks that assign again.                                         *)
(*                                                                           *)
(* The state is the content of all objects, who listens to what, and a stack *)
(* of what is under way (the innermost first).                               *)
(*   A assign o.n := v      C compare o.n with its former value              *)
(*   M announce a set of changes, in any order     E deliver one emission    *)
(*   L leave a delayed comparison                  U update several fields   *)
(*   R resume the group     H replay what it held back   X raise again       *)
(*   T an operation that is to return              K a callback that runs    *)
(* Values are sequences: <<token>>, <<"@", object>>, or a tuple of tokens.   *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC

CONSTANT Hdr(_)  \* what is known about the classes: of trace number h
InitSt(h) == [h |-> h, obj |-> <<>>, stack |-> <<>>]

Ok(st) == [ok |-> TRUE, st |-> st]
No(why) == [ok |-> FALSE, why |-> why]

Cls(st, o) == Hdr(st.h).classes[st.obj[o].cls]
Attr(st, o, n) == Cls(st, o).attrs[n]
Val(st, o, n) == st.obj[o].val[n]
IsObj(v) == Len(v) = 2 /\ v[1] = "@"

(* The value of an attribute, also of a property. *)
Get(st, o, n) ==
  LET a == Attr(st, o, n) IN
  CASE a.kind = "field" -> Val(st, o, n)
    [] a.get = "tuple" -> <<"(">> \o [i \in 1..Len(a.of) |-> Val(st, o, a.of[i])[1]]
    [] a.get = "map" -> <<a.tab[Val(st, o, a.of[1])[1]]>>
    [] OTHER -> Val(st, o, a.of[1])
Names(st, o) == DOMAIN Cls(st, o).attrs
Content(st, o) == [n \in Names(st, o) |-> Get(st, o, n)]

RECURSIVE EqV(_, _, _, _)
EqV(st, cmp, x, y) ==
  IF IsObj(x) /\ IsObj(y)
  THEN \A n \in Names(st, x[2]) :
         Attr(st, x[2], n).kind = "field" /\ n # "_priv" => EqV(st, Attr(st, x[2], n).cmp, Val(st, x[2], n), Val(st, y[2], n))
  ELSE IF IsObj(x) \/ IsObj(y) THEN FALSE
  ELSE IF cmp = "is" THEN x = y
  ELSE /\ Len(x) = Len(y)
       /\ \A i \in 1..Len(x) : y[i] \in Range(Hdr(st.h).eq[IF Len(x) > 1 THEN "list" ELSE cmp][x[i]])

(* ---- the state *)
Push(st, fs) == [st EXCEPT !.stack = fs \o @]
Pop(st) == [st EXCEPT !.stack = Tail(@)]
Put(st, o, n, v) == [st EXCEPT !.obj[o].val[n] = v]
Slots(st, o, s) == st.obj[o].slots[s]
Listening(st, o, s) == Len(Slots(st, o, s)) > 0
GName(s, c) == LET k == CHOOSE k \in DOMAIN c.groups : s \in Range(c.groups[k]) IN k
Group(st, o, s) == GName(s, Cls(st, o))
Held(st, o, g) == st.obj[o].held[g]

(* Signals that an assignment of o.n concerns. *)
Sigs(st, o, n) == Attr(st, o, n).sigs
Deps(st, o, n) == IF n \in DOMAIN Cls(st, o).deps THEN Range(Cls(st, o).deps[n]) ELSE {}

(* An emission nobody is seen to receive: no slots, or only those of a paused group. *)
Silent(st, o, s) == \A i \in 1..Len(Slots(st, o, s)) : Slots(st, o, s)[i] = "G" /\ st.obj[o].paused[Group(st, o, s)] > 0
Hold(st, o, m) == [st EXCEPT !.obj[o].held[Group(st, o, m.sig)] = Append(@, [m |-> m, sure |-> TRUE])]
(* (held back, or never announced: an exception came before or after its turn) *)
RECURSIVE HoldMaybe(_, _, _)
HoldMaybe(st, o, ms) ==
  IF ms = {} THEN st
  ELSE LET m == CHOOSE m \in ms : TRUE IN
       HoldMaybe(IF Slots(st, o, m.sig) = <<>> THEN st
                 ELSE [st EXCEPT !.obj[o].held[Group(st, o, m.sig)] = Append(@, [m |-> m, sure |-> FALSE])], o, ms \ {m})
(* (a later emission of a latest-only signal ends the earlier ones) *)
Begin(st, o, m) ==
  LET s == IF Cls(st, o).latest
           THEN [st EXCEPT !.stack = [i \in DOMAIN @ |-> IF @[i].f = "E" /\ @[i].o = o /\ @[i].m.sig = m.sig /\ ~@[i].g
                                                         THEN [@[i] EXCEPT !.todo = <<>>] ELSE @[i]]]
           ELSE st
  IN Push(s, <<[f |-> "E", o |-> o, m |-> m, todo |-> Slots(st, o, m.sig), g |-> FALSE]>>)

Msg(st, o, s, new, old) == [sig |-> s, args |-> IF Cls(st, o).old THEN <<new, old>> ELSE <<new>>]
Emits(o, ms, def) == [f |-> "M", o |-> o, pend |-> ms, def |-> def]

RECURSIVE Norm(_), Raise(_, _)
(* An exception: what is under way ends, up to the operation; what must happen then happens. *)
Raise(st, kind) ==
  LET h == Head(st.stack) IN
  CASE h.f = "T" -> [st EXCEPT !.stack[1].r = kind]
    [] h.f = "M" -> LET s1 == HoldMaybe(Pop(st), h.o, {m \in h.pend : Silent(st, h.o, m.sig)}) IN
                    IF h.def THEN Norm(Push(s1, <<[f |-> "L", o |-> h.o], [f |-> "X", kind |-> kind]>>)) ELSE Raise(s1, kind)
    [] h.f \in {"L", "R"} -> Norm(Push(Pop(st), <<h, [f |-> "X", kind |-> kind]>>))
    [] OTHER -> Raise(Pop(st), kind)

(* Values announced when delayed comparisons are made. *)
Check(st, o) ==
  LET ob == st.obj[o]
      Changed(n) == ~EqV(st, Attr(st, o, n).cmp, Get(st, o, n), ob.queue[n])
      prim == {n \in ob.prim : Changed(n)}
      all == IF prim = {} THEN {} ELSE prim \cup {n \in (DOMAIN ob.queue) \ ob.prim : Changed(n)}
      ms == {Msg(st, o, Sigs(st, o, n)[1], Get(st, o, n), ob.queue[n]) : n \in all}
      clear == [st EXCEPT !.obj[o].queue = <<>>, !.obj[o].prim = {}]
  IN IF ms = {} THEN clear ELSE Push([clear EXCEPT !.obj[o].delay = 1], <<Emits(o, ms, TRUE)>>)

(* What `setattr` does once the comparison has been prepared. *)
Store(st, o, n, v) ==
  LET a == Attr(st, o, n) IN
  IF a.kind = "field"
  THEN IF IsObj(v) THEN [r |-> "ok", st |-> Put(st, o, n, v)]
       ELSE IF Len(v) # 1 \/ v[1] \notin DOMAIN a.conv THEN [r |-> "err", st |-> st]
       ELSE [r |-> "ok", st |-> Put(st, o, n, <<a.conv[v[1]]>>)]
  ELSE IF a.set = "no" \/ (a.set = "tuple" /\ Len(v) # Len(a.of) + 1) THEN [r |-> "err", st |-> st]
  ELSE [r |-> "ok",
        st |-> Push(st, IF a.set = "tuple"
                        THEN [i \in 1..Len(a.of) |-> [f |-> "A", o |-> o, n |-> a.of[i], v |-> <<v[i + 1]>>]]
                        ELSE <<[f |-> "A", o |-> o, n |-> a.of[1], v |-> v]>>)]

Assign(st, o, n, v) ==
  LET a == Attr(st, o, n)
      sigs == {s \in Range(a.sigs) : Listening(st, o, s)}
      deps == {d \in Deps(st, o, n) : Listening(st, o, Sigs(st, o, d)[1])}
      old == Get(st, o, n)
  IN IF a.sigs = <<>> \/ (~Cls(st, o).deferred /\ sigs = {})
     THEN LET x == Store(st, o, n, v) IN IF x.r = "ok" THEN Norm(x.st) ELSE Raise(st, "err")
     ELSE IF Cls(st, o).deferred
     THEN LET s1 == IF sigs = {} /\ deps = {} THEN st
                    ELSE [st EXCEPT !.obj[o].prim = @ \cup {n},
                                    !.obj[o].queue = [d \in (DOMAIN @) \cup {n} \cup deps |->
                                                        IF d \in DOMAIN @ THEN @[d] ELSE Get(st, o, d)]]
              s2 == Push([s1 EXCEPT !.obj[o].delay = @ + 1], <<[f |-> "L", o |-> o]>>)
              x == Store(s2, o, n, v)
          IN IF x.r = "ok" THEN Norm(x.st) ELSE Raise(s2, "err")
     ELSE LET x == Store(Push(st, <<[f |-> "C", o |-> o, n |-> n, old |-> old, sigs |-> sigs]>>), o, n, v)
          IN IF x.r = "ok" THEN Norm(x.st) ELSE Raise(st, "err")

(* Runs what is under way up to the next thing that is seen from outside. *)
Norm(st) ==
  IF st.stack = <<>> THEN st
  ELSE
  LET h == Head(st.stack) p == Pop(st) IN
  CASE h.f = "A" -> Assign(p, h.o, h.n, h.v)
    [] h.f = "C" ->
        LET new == Get(st, h.o, h.n) IN
        IF EqV(st, Attr(st, h.o, h.n).cmp, new, h.old) THEN Norm(p)
        ELSE Norm(Push(p, <<Emits(h.o, {Msg(st, h.o, s, new, h.old) : s \in h.sigs}, FALSE)>>))
    [] h.f = "M" ->
        LET silent == {m \in h.pend : Silent(st, h.o, m.sig)} IN
        IF silent # {} /\ silent = h.pend
        THEN LET m == CHOOSE m \in silent : TRUE
                 s1 == [st EXCEPT !.stack[1].pend = @ \ {m}]
             IN Norm(IF Slots(st, h.o, m.sig) = <<>> THEN s1 ELSE Hold(s1, h.o, m))
        ELSE IF h.pend = {} THEN Norm(IF h.def THEN Push(p, <<[f |-> "L", o |-> h.o]>>) ELSE p)
        ELSE st
    [] h.f = "E" ->
        IF h.todo = <<>> THEN Norm(p)
        ELSE IF Head(h.todo) = "G"
        THEN LET s1 == [st EXCEPT !.stack[1].todo = Tail(@)] g == Group(st, h.o, h.m.sig) IN
             IF st.obj[h.o].paused[g] > 0 THEN Norm(Hold(s1, h.o, h.m))
             ELSE Norm(Push(s1, <<[f |-> "E", o |-> h.o, m |-> h.m, todo |-> st.obj[h.o].glob[g], g |-> TRUE]>>))
        ELSE st
    [] h.f = "L" ->
        LET d == st.obj[h.o].delay - 1 s1 == [p EXCEPT !.obj[h.o].delay = d] IN
        IF d > 0 \/ st.obj[h.o].queue = <<>> THEN Norm(s1) ELSE Norm(Check(s1, h.o))
    [] h.f = "U" ->
        IF h.items = <<>> THEN Norm(p)
        ELSE LET it == Head(h.items) s1 == [st EXCEPT !.stack[1].items = Tail(@)] cur == Get(st, h.o, it.n) IN
             Norm(IF it.sub /\ h.rec /\ IsObj(cur)
                  THEN Push([s1 EXCEPT !.obj[cur[2]].paused["events"] = @ + IF h.pause THEN 1 ELSE 0],
                            <<[h EXCEPT !.o = cur[2], !.items = it.v]>>
                            \o IF h.pause THEN <<[f |-> "R", o |-> cur[2]]>> ELSE <<>>)
                  ELSE Push(s1, <<[f |-> "A", o |-> h.o, n |-> it.n, v |-> it.v]>>))
    [] h.f = "R" ->
        LET n == st.obj[h.o].paused["events"] - 1 s1 == [p EXCEPT !.obj[h.o].paused["events"] = n] q == Held(st, h.o, "events") IN
        IF n > 0 \/ q = <<>> THEN Norm(s1)
        ELSE Norm(Push([s1 EXCEPT !.obj[h.o].held["events"] = <<>>], <<[f |-> "H", o |-> h.o, q |-> q]>>))
    [] h.f = "H" -> IF h.q = <<>> \/ st.obj[h.o].glob["events"] = <<>> THEN Norm(p) ELSE st
    [] h.f = "X" -> Raise(p, h.kind)
    [] OTHER -> st

(* Whether what was maybe held back is no more to be announced. *)
RECURSIVE Skip(_)
Skip(st) ==
  IF st.stack # <<>> /\ Head(st.stack).f = "H" /\ \A x \in Range(Head(st.stack).q) : ~x.sure
  THEN Skip(Norm(Pop(st))) ELSE st

Idle(st) == st.stack = <<>> \/ Head(st.stack).f = "K"
OpFrame == [f |-> "T", r |-> "ok"]

(* The callback `id` gets m; it is its turn. *)
Deliver(st, e) ==
  LET h == Head(st.stack)
      cand == IF h.f = "M" THEN {m \in h.pend : m.sig = e.sig} ELSE {}
      i == IF h.f = "H" THEN SelectInSeq(h.q, LAMBDA x : x.m.sig = e.sig /\ (x.sure \/ x.m.args = e.args)) ELSE 0
      s1 == IF h.f = "M" /\ cand # {}
            THEN LET m == CHOOSE m \in cand : TRUE IN Norm(Begin([st EXCEPT !.stack[1].pend = @ \ {m}], h.o, m))
            ELSE IF h.f = "H" /\ i > 0
            THEN Norm(Push([st EXCEPT !.stack[1].q = RemoveAt(@, i)],
                           <<[f |-> "E", o |-> h.o, m |-> h.q[i].m, todo |-> st.obj[h.o].glob["events"], g |-> TRUE]>>))
            ELSE Skip(st)
      x == Head(s1.stack)
  IN CASE x.f # "E" -> No("nothing is announced here")
       [] x.o # e.o \/ x.m.sig # e.sig -> No("another signal is announced")
       [] Head(x.todo) # e.id -> No("another callback has its turn")
       [] (IF e.one THEN SubSeq(x.m.args, 1, 1) ELSE x.m.args) # e.args -> No("arguments")
       [] Content(s1, e.o) # e.cur -> No("content during the announcement")
       [] OTHER -> Ok(Push([s1 EXCEPT !.stack[1].todo = Tail(@)], <<[f |-> "K", o |-> e.o]>>))

Contents(st) == [o \in DOMAIN st.obj |-> Content(st, o)]
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)

New(st, e) ==
  LET c == Hdr(st.h).classes[e.cls]
      sigs == UNION {Range(c.groups[g]) : g \in DOMAIN c.groups}
      ob == [cls |-> e.cls, val |-> e.v, slots |-> [s \in sigs |-> <<>>], glob |-> [g \in DOMAIN c.groups |-> <<>>],
             paused |-> [g \in DOMAIN c.groups |-> 0], held |-> [g \in DOMAIN c.groups |-> <<>>], delay |-> 0, queue |-> <<>>, prim |-> {}]
  IN [st EXCEPT !.obj = (e.o :> ob) @@ @]

Listen(st, e) ==
  LET o == e.o IN
  IF e.sig # ""
  THEN [st EXCEPT !.obj[o].slots[e.sig] = IF e.on THEN Append(@, e.id) ELSE Without(@, e.id)]
  ELSE LET g == e.group glob == IF e.on THEN Append(st.obj[o].glob[g], e.id) ELSE Without(st.obj[o].glob[g], e.id)
           all == Range(Cls(st, o).groups[g])
           Upd(s, q) == IF s \notin all \/ (glob # <<>> /\ "G" \in Range(q)) THEN q
                        ELSE IF glob = <<>> THEN Without(q, "G") ELSE Append(q, "G")
       IN [st EXCEPT !.obj[o].glob[g] = glob, !.obj[o].slots = [s \in DOMAIN @ |-> Upd(s, @[s])]]

Step(st, e) ==
  CASE e.k = "new" -> IF Idle(st) THEN Ok(New(st, e)) ELSE No("unexpected operation")
    [] e.k = "listen" -> IF Idle(st) THEN Ok(Listen(st, e)) ELSE No("unexpected operation")
    [] e.k = "set" ->
        IF ~Idle(st) THEN No("something should have been announced")
        ELSE Ok(Norm(Push(st, <<[f |-> "A", o |-> e.o, n |-> e.n, v |-> e.v], OpFrame>>)))
    [] e.k = "update" ->
        IF ~Idle(st) THEN No("something should have been announced")
        ELSE Ok(Norm(Push([st EXCEPT !.obj[e.o].paused["events"] = @ + 1],
                          <<[f |-> "U", o |-> e.o, items |-> e.items, rec |-> e.rec, pause |-> TRUE], [f |-> "R", o |-> e.o], OpFrame>>)))
    [] e.k = "reset" ->
        IF ~Idle(st) THEN No("something should have been announced")
        ELSE Ok(Norm(Push(st, <<[f |-> "U", o |-> e.o, items |-> Cls(st, e.o).reset, rec |-> TRUE, pause |-> FALSE], OpFrame>>)))
    [] e.k = "cb" -> IF Idle(st) THEN No("announced out of the blue") ELSE Deliver(st, e)
    [] e.k = "cbend" ->
        IF st.stack = <<>> \/ Head(st.stack).f # "K" THEN No("no callback runs")
        ELSE Ok(IF e.r = "ok" THEN Norm(Pop(st)) ELSE Raise(Pop(st), "loop"))
    [] e.k = "ret" ->
        LET s == Skip(st) IN
        IF s.stack = <<>> \/ Head(s.stack).f # "T" THEN No("returned before everything was announced")
        ELSE IF Head(s.stack).r # e.r THEN No("result of the operation")
        ELSE IF Contents(s) # e.all THEN No("content after the operation")
        ELSE Ok(Pop(s))
    [] e.k = "look" ->
        IF Contents(st) # e.all THEN No("content") ELSE Ok(st)
    [] e.k = "end" -> IF st.stack = <<>> THEN Ok(st) ELSE No("unfinished operations")
    [] OTHER -> No("unexpected: " \o ToString(e))
=============================================================================
