------------------------------- MODULE OwnMC ---------------------------------
(* All histories of a few objects of classes with inheritance, aliases, groups *)
(* and a class that can't be weakly referenced: candidate observations (right  *)
(* and wrong ones) are offered, the specification accepts some of them.        *)
(* What it accepts is judged against the ghosts: what was observed so far.     *)
EXTENDS OwnCore

CONSTANTS NObj, NTok, NCb, NSteps
VARIABLES st, seen, conns, heard, last, n
vars == <<st, seen, conns, heard, last, n>>

At(d, m, nm) == [d |-> d, m |-> m, name |-> nm]
AAttrs == ("s" :> At("A.s", "", "s")) @@ ("t" :> At("A.s", "", "s")) @@ ("g" :> At("A.g", "", "")) @@ ("g.a" :> At("A.g", "a", "a"))
BAttrs == [AAttrs EXCEPT !["s"] = At("B.s", "", "s")]
Classes == ("A" :> [attrs |-> AAttrs, supers |-> <<>>, weak |-> TRUE, groups |-> ("g" :> <<"a">>)])
        @@ ("B" :> [attrs |-> BAttrs, supers |-> AAttrs, weak |-> TRUE, groups |-> ("g" :> <<"a">>)])
        @@ ("S" :> [attrs |-> [x \in {"s"} |-> At("S.s", "", "s")], supers |-> <<>>, weak |-> FALSE, groups |-> <<>>])

O(i) == "o" \o ToString(i)
T(i) == "t" \o ToString(i)
K(i) == "k" \o ToString(i)
Objs == {O(i) : i \in 1..NObj}
Toks == {T(i) : i \in 1..NTok}
Cbs == {K(i) : i \in 1..NCb}
Used == {x[4] : x \in seen}
FreshTok == IF Cardinality(Used) < NTok THEN {T(Cardinality(Used) + 1)} ELSE {}
FreshObj == IF Cardinality(DOMAIN st.obj) < NObj THEN {O(Cardinality(DOMAIN st.obj) + 1)} ELSE {}
FreshCb == IF Cardinality(conns) < NCb THEN {K(Cardinality(conns) + 1)} ELSE {}
Live == {o \in DOMAIN st.obj : Alive(st, o) /\ st.obj[o].held}

Names == {"s", "t", "g", "g.a"}
Events ==
  {[k |-> "new", o |-> o, cls |-> c] : o \in FreshObj, c \in {"A", "B", "S"}}
  \cup {[k |-> "acc", o |-> o, n |-> x, sup |-> s, tok |-> t, name |-> nm, owner |-> w] :
          o \in Live, x \in Names, s \in BOOLEAN, t \in Used \cup FreshTok, nm \in {"s", "a", ""}, w \in Live}
  \cup {[k |-> "connect", tok |-> t, id |-> i] : t \in Used, i \in FreshCb}
  \cup {[k |-> "emit", tok |-> t] : t \in Used}
  \cup {[k |-> "cb", id |-> i, m |-> m] : i \in Cbs, m \in {"", "a"}}
  \cup {[k |-> "done"], [k |-> "free"]}
  \cup {[k |-> "drop", o |-> o] : o \in Live}
  \cup {[k |-> "dead", o |-> o] : o \in {x \in DOMAIN st.obj : Alive(st, x) /\ st.obj[x].weak}}
  \cup {[k |-> "owner", tok |-> t, owner |-> w] : t \in Used, w \in DOMAIN st.obj \cup {""}}

Init == /\ st = [InitSt(<<>>) EXCEPT !.cls = Classes]
        /\ seen = {} /\ conns = {} /\ heard = {} /\ last = [k |-> "none"] /\ n = 0

Mean(e) == LET c == Classes[st.obj[e.o].cls] IN IF e.sup THEN c.supers[e.n] ELSE c.attrs[e.n]
Next ==
  /\ n < NSteps
  /\ \E e \in Events :
     LET r == Step(st, e) IN
     /\ (e.k = "acc") => (e.n \in DOMAIN (LET c == Classes[st.obj[e.o].cls] IN IF e.sup THEN c.supers ELSE c.attrs))
     /\ (e.k = "done") => st.emitting
     /\ (e.k \in {"new", "connect", "drop", "dead", "owner", "free"}) => ~st.emitting
     /\ r.ok
     /\ st' = r.st
     /\ seen' = IF e.k = "acc" THEN seen \cup {<<e.o, Mean(e).d, Mean(e).m, e.tok, e.owner>>} ELSE seen
     /\ conns' = IF e.k = "connect" THEN conns \cup {<<e.id, e.tok>>} ELSE conns
     /\ heard' = IF e.k = "emit" THEN {} ELSE IF e.k = "cb" THEN heard \cup {e.id} ELSE heard
     /\ last' = IF e.k = "cb" THEN last ELSE e
     /\ n' = IF e.k \in {"cb", "done"} THEN n ELSE n + 1
Spec == Init /\ [][Next]_vars

(* always the same, never another's *)
Same == \A x, y \in seen : (x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3]) <=> (x[4] = y[4])
Knows == \A x \in seen : x[5] = x[1]
(* of an emission hear: who is connected to that very signal, or to its group *)
TokOf(o, d, m) == {x[4] : x \in {y \in seen : y[1] = o /\ y[2] = d /\ y[3] = m}}
Entry(t) == CHOOSE x \in seen : x[4] = t
Should(t) == LET x == Entry(t) IN
  {c[1] : c \in {c \in conns : c[2] = t \/ (x[3] # "" /\ c[2] \in TokOf(x[1], x[2], ""))}}
Reach == (last.k = "emit") => /\ heard \subseteq Should(last.tok)
Complete == [][(last.k = "emit" /\ last'.k = "done") => heard = Should(last.tok)]_vars
(* freed normally; nothing of the living or dead is forgotten *)
Freed == (last.k = "free") => \A o \in DOMAIN st.obj : (st.obj[o].weak /\ ~st.obj[o].held) => ~Alive(st, o)
InUse == \A o \in DOMAIN st.obj : st.obj[o].held => Alive(st, o)
(* an owner that is told is the one that was seen, or has died *)
Told == (last.k = "owner") => IF last.owner = "" THEN ~Alive(st, Entry(last.tok)[1]) ELSE last.owner = Entry(last.tok)[1]
(* every attribute of every object can be accessed *)
Access1(o, x, s) == \E t \in Used \cup FreshTok, nm \in {"s", "a", ""} :
  Step(st, [k |-> "acc", o |-> o, n |-> x, sup |-> s, tok |-> t, name |-> nm, owner |-> o]).ok
NoDead == ~st.emitting => \A o \in Live : LET c == Classes[st.obj[o].cls] IN
   (Cardinality(Used) < NTok) => (\A x \in DOMAIN c.attrs : Access1(o, x, FALSE)) /\ (\A x \in DOMAIN c.supers : Access1(o, x, TRUE))
View == <<st, seen, conns, heard, last, n>>
=============================================================================
