------------------------------- MODULE SetMC -------------------------------
(* All operations on all small sets: the algebra of sets, and of what is     *)
(* announced.                                                                *)
EXTENDS SetCore
CONSTANTS Items, ArgLen
VARIABLES q, last
vars == <<q, last>>
Seqs == UNION {[1..n -> Items] : n \in 0..ArgLen}
Arg(s) == [i \in DOMAIN s |-> <<s[i]>>]
Args == {Arg(s) : s \in Seqs} \cup {Append(Arg(s), <<"!", "E">>) : s \in Seqs} \cup {Append(Arg(s), <<"[]">>) : s \in Seqs}
Good == {Arg(s) : s \in Seqs}
Ops ==
  {[op |-> o, v |-> v, r |-> "ok", res |-> Nothing] : o \in {"add", "discard", "remove", "contains"}, v \in Items \cup {"[]"}}
  \cup {[op |-> "pop", r |-> "ok", res |-> R("t", v)] : v \in Items}
  \cup {[op |-> "clear", r |-> "ok", res |-> Nothing]}
  \cup {[op |-> o, args |-> <<a>>, r |-> r, res |-> Nothing] :
         o \in {"update", "difference_update", "intersection_update", "symmetric_difference_update", "union", "difference", "intersection",
                "symmetric_difference"}, a \in Args, r \in {"ok", "bad"}}
  \cup {[op |-> o, args |-> <<a>>, r |-> "ok", res |-> Nothing, how |-> "set"] :
         o \in {"or", "and", "sub", "xor", "ror", "rand", "rsub", "rxor", "ior", "iand", "isub", "ixor", "issubset", "issuperset", "isdisjoint",
                "eq", "le", "lt", "ge", "gt"}, a \in Good}
  \cup {[op |-> o, args |-> <<a, b>>, r |-> "ok", res |-> Nothing] :
         o \in {"update", "difference_update", "intersection_update", "union", "difference", "intersection"},
         a \in {Arg(s) : s \in {t \in Seqs : Len(t) <= 1}}, b \in Args}
St(s) == [q |-> s, ordered |-> TRUE]
Init == q = <<>> /\ last = [op |-> "none"]
Next == \E e \in Ops :
  LET s == Sem(St(q), e) IN
  /\ (e.op = "pop" /\ q # <<>>) => In(q, e.res[2])
  /\ q' \in {s.after, s.or}
  /\ last' = [e |-> e, b |-> q, r |-> s.r, res |-> s.res]
Spec == Init /\ [][Next]_vars
View == q

B == last'.b
E == last'.e
S == Range(B)
T == Range(q')
Inv == Len(q) = Cardinality(Range(q))
Y1 == Range(Yields(E.args[1]))
Y == Range(Flat(E.args))
Algebra ==
  last'.r = "ok" =>
  CASE E.op \in {"update", "ior"} -> T = S \cup Y
    [] E.op \in {"difference_update", "isub"} -> T = S \ Y
    [] E.op = "iand" -> T = S \cap Y
    [] E.op = "intersection_update" -> T = S \cap Y1 \cap Range(Yields(Last(E.args)))
    [] E.op \in {"symmetric_difference_update", "ixor"} -> T = (S \ Y) \cup (Y \ S)
    [] E.op \in {"union", "or", "ror"} -> T = S /\ Range(last'.res[2]) = S \cup Y
    [] E.op \in {"difference", "sub"} -> T = S /\ Range(last'.res[2]) = S \ Y
    [] E.op = "rsub" -> T = S /\ Range(last'.res[2]) = Y \ S
    [] E.op \in {"and", "rand"} -> T = S /\ Range(last'.res[2]) = S \cap Y
    [] E.op \in {"xor", "rxor", "symmetric_difference"} -> T = S /\ Range(last'.res[2]) = (S \cup Y) \ (S \cap Y)
    [] E.op = "issubset" -> last'.res[2] = (S \subseteq Y)
    [] E.op = "gt" -> last'.res[2] = (Y \subseteq S /\ Y # S)
    [] E.op = "pop" -> Cardinality(T) = Cardinality(S) - 1 /\ last'.res[2] \in S \ T
    [] E.op = "add" -> T = S \cup {E.v}
    [] E.op = "discard" -> T = S \ {E.v}
    [] OTHER -> T = S \/ T = {} \/ E.op = "remove"
(* items that stay keep their order, and come before new ones *)
Order ==
  LET stay == SelectSeq(B, LAMBDA v : v \in T) IN SubSeq(q', 1, Len(stay)) = stay
(* what fails: no more than the intended change *)
Failing ==
  last'.r # "ok" => \/ q' = B
                    \/ E.op = "update" /\ S \subseteq T /\ T \subseteq S \cup Y
                    \/ E.op = "difference_update" /\ T \subseteq S /\ S \ Y \subseteq T
NoUnhash == "[]" \notin T
Diff == [add |-> Without(q', S), rem |-> Without(B, T), c |-> q']
Ann ==
  IF S = T THEN Announced(St(B), B, q', <<>>) = "" /\ Announced(St(B), B, q', <<Diff>>) # ""
  ELSE /\ Announced(St(B), B, q', <<Diff>>) = ""
       /\ Announced(St(B), B, q', <<>>) # ""
       /\ Announced(St(B), B, q', <<Diff, Diff>>) # ""
       /\ Announced(St(B), B, q', <<[Diff EXCEPT !.c = B]>>) # ""
       /\ \A v \in Items : v \notin Range(Diff.add) => Announced(St(B), B, q', <<[Diff EXCEPT !.add = Append(@, v)]>>) # ""
       /\ \A v \in Items : v \notin Range(Diff.rem) => Announced(St(B), B, q', <<[Diff EXCEPT !.rem = Append(@, v)]>>) # ""
PAlgebra == [][Algebra /\ Order /\ Failing /\ NoUnhash]_vars
PAnnounce == [][Ann]_vars
=============================================================================
