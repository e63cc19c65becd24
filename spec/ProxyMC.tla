------------------------------- MODULE ProxyMC -------------------------------
(* All assignments and deletions through two proxies of small objects.       *)
(* An observer that only knows the announcements of a proxy always knows     *)
(* what reading the object gives; failing operations change and announce     *)
(* nothing; the objects do not influence each other.  DoOp accepts exactly   *)
(* the announcements of Sem.                                                 *)
EXTENDS ProxyCore

CONSTANTS AttrKinds,  (* attribute -> [kind, default] *)
          Kinds,      (* <<kind of items of the first, of the second object>> *)
          Vals, ConvOf, Bad, KeyToks, MaxLen
VARIABLES st, mir, last
vars == <<st, mir, last>>

P == {"p1", "p2"}
Hdr == [attrs |-> AttrKinds, conv |-> ConvOf, bad |-> Bad]
Obj0(kind) == NewObj(InitSt(Hdr), kind, [n \in DOMAIN AttrKinds |-> ""], IF kind = "list" THEN <<"v0", "v1">> ELSE <<>>)
Readable(o) == IF o.kind = "wodict" THEN <<>> ELSE o.q
Mirror(s, o) == [a |-> Seen(s, o), q |-> Readable(o)]

Init == /\ st = [InitSt(Hdr) EXCEPT !.obj = [p \in P |-> Obj0(IF p = "p1" THEN Kinds[1] ELSE Kinds[2])]]
        /\ mir = [p \in P |-> Mirror(st, st.obj[p])]
        /\ last = [op |-> "none"]

Keys(o) == IF o.kind = "list" THEN {[key |-> ToString(i), i |-> i] : i \in -(Len(o.q) + 1) .. Len(o.q)}
           ELSE {[key |-> k, i |-> 0] : k \in KeyToks}
Ops(o) ==
  {[op |-> "setattr", key |-> n, i |-> 0, v |-> v] : n \in DOMAIN AttrKinds, v \in Vals}
  \cup {[op |-> "delattr", key |-> n, i |-> 0, v |-> ""] : n \in DOMAIN AttrKinds}
  \cup {[op |-> "setitem", key |-> k.key, i |-> k.i, v |-> v] : k \in Keys(o), v \in Vals}
  \cup {[op |-> "delitem", key |-> k.key, i |-> k.i, v |-> ""] : k \in Keys(o)}

(* the observer *)
Learn(m, kind, a, i) ==
  IF a.n = "attribute_set" THEN [m EXCEPT !.a[a.key] = a.v]
  ELSE IF a.n = "attribute_deleted" THEN [m EXCEPT !.a[a.key] = AttrKinds[a.key].default]
  ELSE IF kind = "wodict" THEN m
  ELSE IF a.n = "item_set"
       THEN IF kind = "list" THEN [m EXCEPT !.q = Put(@, Pos(m.q, i), a.v)]
            ELSE LET w == Where(m.q, a.key) IN
                 [m EXCEPT !.q = IF w = 0 THEN Append(@, <<a.key, a.v>>) ELSE [@ EXCEPT ![w] = <<a.key, a.v>>]]
  ELSE IF kind = "list" THEN [m EXCEPT !.q = Del(@, Pos(m.q, i))]
       ELSE [m EXCEPT !.q = RemoveAt(@, Where(m.q, a.key))]
RECURSIVE LearnAll(_, _, _, _)
LearnAll(m, kind, x, i) == IF x = <<>> THEN m ELSE LearnAll(Learn(m, kind, Head(x), i), kind, Tail(x), i)

Event(p, e, m) ==
  [k |-> "op", p |-> p, op |-> e.op, key |-> e.key, i |-> e.i, v |-> e.v, r |-> m.r, attrs |-> Seen(st, m.o), items |-> m.o.q,
   x |-> [j \in DOMAIN m.x |-> m.x[j] @@ [p |-> p]]]

Next == \E p \in P : \E e \in Ops(st.obj[p]) :
  LET m == Sem(st, st.obj[p], e)
      ev == Event(p, e, m)
      r == Step(st, ev) IN
  /\ Len(m.o.q) <= MaxLen
  /\ r.ok
  /\ st' = r.st
  /\ mir' = [mir EXCEPT ![p] = LearnAll(@, st.obj[p].kind, m.x, e.i)]
  /\ last' = ev
Spec == Init /\ [][Next]_vars
View == <<st, mir>>

(* what an observer knows is what reading gives *)
InvMirror == \A p \in P : mir[p] = Mirror(st, st.obj[p])
(* every operation is possible and accepted *)
InvTotal == \A p \in P : \A e \in Ops(st.obj[p]) : Step(st, Event(p, e, Sem(st, st.obj[p], e))).ok

E == last'
B == st.obj[E.p]
A == st'.obj[E.p]
Laws ==
  /\ \A p \in P \ {E.p} : st'.obj[p] = st.obj[p]
  /\ E.r # "ok" => st' = st /\ E.x = <<>>
  /\ Len(E.x) <= 1
  /\ (E.op = "setattr" /\ E.r = "ok") =>
       /\ \A n \in DOMAIN AttrKinds \ {E.key} : A.a[n] = B.a[n]
       /\ A.q = B.q
       /\ (E.x = <<>>) = (Visible(st, A, E.key) = Visible(st, B, E.key))
       /\ AttrKinds[E.key].kind \in {"plain", "default"} => Visible(st, A, E.key) = E.v
  /\ (E.op = "setitem" /\ E.r = "ok") =>
       /\ A.a = B.a
       /\ A.kind # "wodict" => (E.x = <<>>) = (A.q = B.q)
  /\ (E.op \in {"delattr", "delitem"} /\ E.r = "ok") => Len(E.x) = 1 /\ A # B
PLaws == [][Laws]_vars

(* flawed announcements are refused *)
Other(v) == CHOOSE w \in Vals : w # v
Flaws ==
  /\ E.x # <<>> =>
       /\ ~Step(st, [E EXCEPT !.x = <<>>]).ok
       /\ ~Step(st, [E EXCEPT !.x = @ \o @]).ok
       /\ ~Step(st, [E EXCEPT !.x[1].p = IF E.p = "p1" THEN "p2" ELSE "p1"]).ok
       /\ E.x[1].v # "" => ~Step(st, [E EXCEPT !.x[1].v = Other(E.x[1].v)]).ok
       /\ ~Step(st, [E EXCEPT !.x[1].now = "?"]).ok
  /\ E.x = <<>> => ~Step(st, [E EXCEPT !.x = <<[n |-> "attribute_set", key |-> "x", v |-> "v0", now |-> "v0", p |-> E.p]>>]).ok
  /\ ~Step(st, [E EXCEPT !.r = IF E.r = "ok" THEN "ValueError" ELSE "ok"]).ok
PFlaws == [][Flaws]_vars
=============================================================================
