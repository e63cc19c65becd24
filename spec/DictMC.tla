------------------------------- MODULE DictMC -------------------------------
(* All operations on all small dicts: laws of the dict semantics of DictCore, *)
(* natural announcements are accepted by Replay, flawed ones are not.         *)
EXTENDS DictCore

CONSTANTS KeyToks, ValToks, EqOf, MaxLen
VARIABLES q, last
vars == <<q, last>>

St(s) == [q |-> s, eq |-> EqOf, bad |-> <<"vbad">>, unhash |-> <<"kunh">>]
Pairs == {<<k, v>> : k \in KeyToks, v \in ValToks}
Ops ==
  {[op |-> o, key |-> k, v |-> v] : o \in {"setitem", "setdefault", "popd", "get"}, k \in KeyToks \cup {"kunh"}, v \in ValToks \cup {"vbad"}}
  \cup {[op |-> o, key |-> k] : o \in {"getitem", "delitem", "pop", "contains"}, k \in KeyToks \cup {"kunh"}}
  \cup {[op |-> o] : o \in {"popitem", "clear", "items"}}
  \cup {[op |-> "update", pairs |-> ps] : ps \in {<<>>} \cup {<<a>> : a \in Pairs} \cup {<<a, b>> : a, b \in Pairs} \cup {<<a, <<"!", "E">>, b>> : a, b \in Pairs}}

(* the natural announcements: a change at a time *)
A(n, k, v, old, c) == [n |-> n, key |-> k, v |-> v, old |-> old, c |-> c]
PutX(s, k, v) ==
  IF ~Has(St(s), s, k) THEN <<A("adding", k, "", "", s), A("added", k, v, "", PutKey(St(s), s, k, v))>>
  ELSE IF Val(St(s), s, k) = v THEN <<>>
  ELSE <<A("changing", k, "", "", s), A("changed", k, v, Val(St(s), s, k), PutKey(St(s), s, k, v))>>
DelX(s, k) == <<A("removing", k, "", "", s), A("removed", k, Val(St(s), s, k), "", DelKey(St(s), s, k))>>
RECURSIVE PutAllX(_, _)
PutAllX(s, ps) ==
  IF ps = <<>> \/ Head(ps)[1] = "!" THEN <<>>
  ELSE PutX(s, Head(ps)[1], Head(ps)[2]) \o PutAllX(PutKey(St(s), s, Head(ps)[1], Head(ps)[2]), Tail(ps))
RECURSIVE ClearX(_)
ClearX(s) == IF s = <<>> THEN <<>> ELSE DelX(s, Last(s)[1]) \o ClearX(Front(s))
Announce(s, e, r) ==
  IF e.op = "update" THEN PutAllX(s, e.pairs)
  ELSE IF r # "ok" THEN <<>>
  ELSE IF e.op \in {"setitem"} THEN PutX(s, e.key, e.v)
  ELSE IF e.op = "setdefault" THEN IF Has(St(s), s, e.key) THEN <<>> ELSE PutX(s, e.key, e.v)
  ELSE IF e.op \in {"delitem", "pop", "popd"} THEN IF Has(St(s), s, e.key) THEN DelX(s, e.key) ELSE <<>>
  ELSE IF e.op = "popitem" THEN DelX(s, Last(s)[1])
  ELSE IF e.op = "clear" THEN ClearX(s) ELSE <<>>

Init == q = <<>> /\ last = [op |-> "none"]
Next == \E e \in Ops :
  LET s == Sem(St(q), e) IN
  /\ Len(s.after) <= MaxLen
  /\ q' = s.after
  /\ last' = [e |-> e, b |-> q, r |-> s.r, res |-> s.res]
Spec == Init /\ [][Next]_vars
View == q

B == last'.b
E == last'.e
KeysDistinct(s) == \A i, j \in DOMAIN s : i # j => EqOf[s[i][1]] # EqOf[s[j][1]]
Inv == KeysDistinct(q) /\ \A i \in DOMAIN q : q[i][2] \in ValToks
(* positions of the keys that stay do not change order; new ones come last *)
OrderKept(s, p) ==
  LET C(x) == [i \in DOMAIN x |-> EqOf[x[i][1]]]
      old == SelectSeq(C(s), LAMBDA k : k \in Range(C(p)))
      stay == SelectSeq(C(p), LAMBDA k : k \in Range(C(s)))
  IN old = stay /\ SubSeq(C(p), 1, Len(stay)) = stay
Laws ==
  /\ OrderKept(B, q')
  /\ (E.op # "update" /\ last'.r # "ok") => q' = B
  /\ (E.op = "setitem" /\ last'.r = "ok") => Val(St(q'), q', E.key) = E.v
  /\ (E.op \in {"pop", "delitem", "popd"} /\ last'.r = "ok") => ~Has(St(q'), q', E.key)
  /\ (E.op = "popitem" /\ last'.r = "ok") => Append(q', last'.res[2]) = B
  /\ (E.op = "setdefault" /\ last'.r = "ok") => last'.res[2] = Val(St(q'), q', E.key)
  /\ (E.op \in {"get", "getitem", "contains", "items"}) => q' = B
  /\ (last'.r = "KeyError") => (E.op = "popitem" /\ B = <<>>) \/ ~Has(St(B), B, E.key)
X == Announce(B, E, last'.r)
Good == Replay(St(B), B, X, <<>>, q') = ""
Flaws ==
  \A i \in DOMAIN X :
    /\ X[i].n # "changing" => Replay(St(B), B, RemoveAt(X, i), <<>>, q') # ""
    /\ X[i].n \in {"added", "changed", "removed"} =>
         /\ \A v \in ValToks \ {X[i].v} : Replay(St(B), B, [X EXCEPT ![i].v = v], <<>>, q') # ""
         /\ Replay(St(B), B, [X EXCEPT ![i].c = IF i = 1 THEN <<>> ELSE X[i - 1].c], <<>>, q') # "" \/ X[i].c = <<>>
         /\ Replay(St(B), B, SubSeq(X, 1, i) \o SubSeq(X, i, Len(X)), <<>>, q') # ""
PLaws == [][Laws]_vars
PAnnounce == [][Good /\ Flaws]_vars
=============================================================================
